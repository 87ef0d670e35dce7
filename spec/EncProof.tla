------------------------------ MODULE EncProof --------------------------------
(* The layout of label words on unbounded integers: Apalache proves for every     *)
(* record that decoding inverts encoding and that marking changes only the mark. *)
EXTENDS Integers
VARIABLES
  \* @type: Int;
  kind,
  \* @type: Int;
  a,
  \* @type: Int;
  b,
  \* @type: Int;
  cf
P8 == 256
P31 == 2147483648
P54 == 18014398509481984
P62 == 4611686018427387904
P63 == 9223372036854775808
Init ==
  /\ kind \in 1 .. 3
  /\ cf \in 0 .. 1
  /\ a \in Int /\ b \in Int /\ a >= 0 /\ b >= 0
  /\ (kind = 1 => a < P8 /\ b < P54)
  /\ (kind # 1 => a < P31 /\ b < P31)
  /\ (kind = 2 => a > b)
  /\ (kind = 3 => a < b)
Next == UNCHANGED <<kind, a, b, cf>>
Encode(c) == IF kind = 1 THEN P63 + c * P62 + b * P8 + a ELSE c * P62 + a * P31 + b
DKind(w) == IF w \div P63 = 1 THEN 1 ELSE IF (w % P62) \div P31 > w % P31 THEN 2 ELSE 3
DA(w) == IF w \div P63 = 1 THEN w % P8 ELSE (w % P62) \div P31
DB(w) == IF w \div P63 = 1 THEN (w % P62) \div P8 ELSE w % P31
DCf(w) == (w \div P62) % 2
RoundTrip == LET w == Encode(cf) IN
  /\ w >= 0 /\ w < 2 * P63
  /\ DKind(w) = kind /\ DA(w) = a /\ DB(w) = b /\ DCf(w) = cf
MarkOnly == LET w == Encode(0)
                m == w + P62 IN
  m = Encode(1) /\ DKind(m) = kind /\ DA(m) = a /\ DB(m) = b /\ DCf(m) = 1
Inv == RoundTrip /\ MarkOnly
===============================================================================
