#!/usr/bin/env python3
"""check.py ID [quick|thorough]   decide one property
check.py setup                 build everything once
check.py all [quick|thorough]  every property"""
import importlib
import os
import sys
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from lib import build, check  # noqa: E402

WHERE = {
    "C01": "labels", "C02": "labels", "C03": "labels",
    "C05": "io", "C06": "io", "C07": "io", "C08": "io", "C09": "io", "C11": "io",
    "C04": "store", "C10": "mem", "C14": "store", "C16": "store", "C12": "fn", "C13": "fn", "C17": "fn", "C25": "mem",
    "C15": "conc", "C18": "reader", "C19": "reader", "C20": "reader", "C21": "taints", "C22": "grammar", "C23": "grammar", "C24": "caches", "C26": "strs", "C27": "execs", "C28": "execs", "C29": "graphs",
}


def main(argv):
    if argv[1] == "setup":
        for drv in ("ptdrv.cpp", "secdrv.cpp"):
            print(build.build(drv))
        for sched in (True, False):
            print(build.threaded(sched))
        return 0
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    ids = sorted(WHERE) if argv[1] == "all" else [argv[1]]
    rc = 0
    for pid in ids:
        ctx = check.Ctx(pid, tier)
        try:
            importlib.import_module("checks." + WHERE[pid]).run(ctx)
        except build.BuildError as ex:
            print("the tree does not build: %s" % str(ex)[-3000:])
            return 2
        except Exception:
            # the machinery failed: no answer
            traceback.print_exc()
            return 2
        rc = max(rc, ctx.finish())
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv))
