From 41296df49b443f76951215670f35a987068c81b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:43 +0000
Subject: [PATCH 01/59] fix: do not attribute invalid file descriptors to argv
 sources

---
 polytracker/include/taintdag/taint_source.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/polytracker/include/taintdag/taint_source.h b/polytracker/include/taintdag/taint_source.h
index c55eec0..1a62fde 100644
--- a/polytracker/include/taintdag/taint_source.h
+++ b/polytracker/include/taintdag/taint_source.h
@@ -84,6 +84,10 @@ struct Sources : public FixedSizeAlloc<SourceEntry> {
   }
 
   std::optional<index_t> mapping_idx(int fd) const {
+    // Sources without a file descriptor (e.g. argv) are stored as InvalidFD and
+    // must not be mistaken for the source of an invalid descriptor.
+    if (fd < 0)
+      return {};
     if (auto ptr = find_reverse_if(
             [fd](SourceEntry const &se) { return se.fd == fd; })) {
       return index(*ptr);
-- 
2.43.0


From 23902e9c7d11af8669fc30e90350b8656249f545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:43 +0000
Subject: [PATCH 02/59] fix: log putc/fputc sinks for characters outside of
 0..255

---
 polytracker/src/taint_sources/write_taints.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/src/taint_sources/write_taints.cpp b/polytracker/src/taint_sources/write_taints.cpp
index 575cdb9..3d8a2a3 100644
--- a/polytracker/src/taint_sources/write_taints.cpp
+++ b/polytracker/src/taint_sources/write_taints.cpp
@@ -81,7 +81,7 @@ EXT_C_FUNC int __dfsw_putc(int ch, FILE *stream, dfsan_label ch_label,
                            dfsan_label stream_label, dfsan_label *ret_label) {
   auto offset = util::Offset::from_file(stream);
   auto ret = fputc(ch, stream);
-  if (ret == ch) {
+  if (ret != EOF) {
     get_polytracker_tdag().taint_sink(fileno(stream), offset, ch_label,
                                       sizeof(char));
   }
-- 
2.43.0


From 8e72497bb045af990b4a287ea45f05fc42eb610b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:43 +0000
Subject: [PATCH 03/59] fix: pass the caller's mode to open, open64 and openat

---
 .../src/taint_sources/taint_sources.cpp       | 34 +++++++++++++------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index fba8458..d6854ce 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -47,13 +47,18 @@ extern void polytracker_end();
 // Following the libc custom functions from custom.cc
 namespace {
 
-static int impl_open(const char *path, int oflags, dfsan_label path_label,
-                     dfsan_label flag_label, dfsan_label *va_labels,
-                     dfsan_label *ret_label, ...) {
-  va_list args;
-  va_start(args, ret_label);
-  int fd = open(path, oflags, args);
-  va_end(args);
+// Returns the mode argument of an open-style call. It is only present (and only
+// used) if the flags may cause a file to be created.
+static mode_t open_mode(int oflags, va_list args) {
+  if ((oflags & O_CREAT) || (oflags & O_TMPFILE) == O_TMPFILE) {
+    return static_cast<mode_t>(va_arg(args, int));
+  }
+  return 0;
+}
+
+static int impl_open(const char *path, int oflags, mode_t mode,
+                     dfsan_label *ret_label) {
+  int fd = open(path, oflags, mode);
 
   if (fd >= 0) {
     get_polytracker_tdag().open_file(fd, path);
@@ -159,14 +164,22 @@ static size_t impl_fread(F &&fread_function, FILE *fd, void *buff, size_t size,
 EXT_C_FUNC int __dfsw_open(const char *path, int oflags, dfsan_label path_label,
                            dfsan_label flag_label, dfsan_label *va_labels,
                            dfsan_label *ret_label, ...) {
-  return impl_open(path, oflags, path_label, flag_label, va_labels, ret_label);
+  va_list args;
+  va_start(args, ret_label);
+  auto mode = open_mode(oflags, args);
+  va_end(args);
+  return impl_open(path, oflags, mode, ret_label);
 }
 
 EXT_C_FUNC int __dfsw_open64(const char *path, int oflags,
                              dfsan_label path_label, dfsan_label flag_label,
                              dfsan_label *va_labels, dfsan_label *ret_label,
                              ...) {
-  return impl_open(path, oflags, path_label, flag_label, va_labels, ret_label);
+  va_list args;
+  va_start(args, ret_label);
+  auto mode = open_mode(oflags, args);
+  va_end(args);
+  return impl_open(path, oflags, mode, ret_label);
 }
 
 EXT_C_FUNC int __dfsw_openat(int dirfd, const char *path, int oflags,
@@ -175,8 +188,9 @@ EXT_C_FUNC int __dfsw_openat(int dirfd, const char *path, int oflags,
                              ...) {
   va_list args;
   va_start(args, ret_label);
-  int fd = openat(dirfd, path, oflags, args);
+  auto mode = open_mode(oflags, args);
   va_end(args);
+  int fd = openat(dirfd, path, oflags, mode);
 
   if (fd >= 0) {
     get_polytracker_tdag().open_file(fd, path);
-- 
2.43.0


From cd8621814a313424ba11ec72f773b77f7ab8e56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:43 +0000
Subject: [PATCH 04/59] fix: strcat propagates the labels of the appended bytes

---
 polytracker/src/taint_sources/string_taints.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/taint_sources/string_taints.cpp b/polytracker/src/taint_sources/string_taints.cpp
index 7965a84..39b6461 100644
--- a/polytracker/src/taint_sources/string_taints.cpp
+++ b/polytracker/src/taint_sources/string_taints.cpp
@@ -3,9 +3,14 @@
 // __dfsw_strcat
 EXT_C_FUNC char *__dfsw_strcat(char *dest, char *src, dfsan_label dest_label,
                                dfsan_label src_label, dfsan_label *ret_label) {
-  int curr_offset = strlen(dest) - 1;
+  size_t dest_len = strlen(dest);
+  size_t src_len = strlen(src) + 1; // Including terminating null
   char *ret_val = strcat(dest, src);
-  dfsan_set_label(src_label, dest + curr_offset, strlen(dest) - curr_offset);
+  // Each appended byte carries the label of the byte it was copied from
+  for (size_t i = 0; i < src_len; i++) {
+    dfsan_set_label(dfsan_read_label(src + i, sizeof(char)),
+                    dest + dest_len + i, sizeof(char));
+  }
   *ret_label = dest_label;
   return ret_val;
 }
-- 
2.43.0


From 632d43c5de7c189779630fcea681b61a5f34c355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:43 +0000
Subject: [PATCH 05/59] fix: report exhaustion of the label table when creating
 source labels

---
 polytracker/include/taintdag/labels.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polytracker/include/taintdag/labels.h b/polytracker/include/taintdag/labels.h
index 66fcb5b..d9a926e 100644
--- a/polytracker/include/taintdag/labels.h
+++ b/polytracker/include/taintdag/labels.h
@@ -41,7 +41,9 @@ struct Labels : public FixedSizeAlloc<storage_t> {
         construct_range(length, [src, &offset](uint8_t *p) mutable {
           new (p) storage_t{encode(SourceTaint{src, offset++})};
         });
-    // TODO(hbrodin): Check valid return
+    if (!maybe_range) {
+      error_exit("Failed to create ", length, " source labels.");
+    }
     auto first = index(*maybe_range->begin());
     auto last = first + length - 1;
     return {first, last};
-- 
2.43.0


From 9a782881e74b226322babb7b210c07e8f0624ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:43 +0000
Subject: [PATCH 06/59] fix: do not count an unused bucket when a bit range
 ends on a bucket boundary

---
 polytracker/include/taintdag/bitmap_section.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polytracker/include/taintdag/bitmap_section.h b/polytracker/include/taintdag/bitmap_section.h
index c024d89..17291c3 100644
--- a/polytracker/include/taintdag/bitmap_section.h
+++ b/polytracker/include/taintdag/bitmap_section.h
@@ -152,9 +152,11 @@ public:
     if (n > 0) {
       const auto mask_post = all_bits_set >> (bits_per_bucket - n);
       set_bits(bucket(current_bucket), mask_post);
+      ++current_bucket;
     }
+    // current_bucket is now one past the last bucket written.
     // NOTE(hbrodin): See the comment in set about potential inconsistency.
-    update_buckets_used(current_bucket);
+    update_buckets_used(current_bucket - 1);
   }
 
   // Returns wheter the bit designated by bitno is set or not.
-- 
2.43.0


From c8aa3a72547650eefc46ecb3c06ee4a4bd9f261b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:43 +0000
Subject: [PATCH 07/59] fix: key function mappings by the stored name, not by
 caller memory

---
 polytracker/src/taintdag/fnmapping.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/taintdag/fnmapping.cpp b/polytracker/src/taintdag/fnmapping.cpp
index 8ce76a2..0602013 100644
--- a/polytracker/src/taintdag/fnmapping.cpp
+++ b/polytracker/src/taintdag/fnmapping.cpp
@@ -38,8 +38,10 @@ std::optional<index_t> Functions::add_mapping(std::string_view name) {
   if (!maybe_ctx) {
     return {};
   }
-  // Return index of `Function` in `Functions`
-  return mappings[name] = index(maybe_ctx->t);
+  // Return index of `Function` in `Functions`. The key refers to the copy of
+  // `name` in the string table as the memory of `name` belongs to the caller.
+  return mappings[string_table.from_offset(name_offset)] =
+             index(maybe_ctx->t);
 }
 
 } // namespace taintdag
\ No newline at end of file
-- 
2.43.0


From 6ae3d7d34540044ae358b024f62a2083c9f89263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:32 +0000
Subject: [PATCH 08/59] fix: return the condition unchanged before polytracker
 is initialized

---
 polytracker/src/polytracker/polytracker.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/polytracker/src/polytracker/polytracker.cpp b/polytracker/src/polytracker/polytracker.cpp
index 56064e3..3affd8a 100644
--- a/polytracker/src/polytracker/polytracker.cpp
+++ b/polytracker/src/polytracker/polytracker.cpp
@@ -76,10 +76,8 @@ extern "C" void __polytracker_taint_argv(int argc, char *argv[]) {
 extern "C" uint64_t __dfsw___polytracker_log_tainted_control_flow(
     uint64_t conditional, uint32_t functionid, dfsan_label conditional_label,
     dfsan_label function_label, dfsan_label *ret_label) {
-  if (!polytracker_is_initialized()) {
-    return 0;
-  }
-  if (conditional_label > 0) {
+  // The program uses the returned value, it must be passed on in all cases.
+  if (polytracker_is_initialized() && conditional_label > 0) {
     get_polytracker_tdag().log_tainted_control_flow(conditional_label,
                                                     functionid);
   }
-- 
2.43.0


From 42f6ec3800a831d309f5bad74c2e9ce57137080a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:32 +0000
Subject: [PATCH 09/59] fix: clear stale labels when reading from an untracked
 descriptor

---
 polytracker/src/taint_sources/taint_sources.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index d6854ce..355a386 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -81,11 +81,15 @@ static FILE *impl_fopen(const char *filename, const char *mode,
 }
 
 // Wrapper method for tainting a buffer, from source `fd` at `offset` having
-// `length`. If length is invalid nothing happpens.
+// `length`. If length is invalid nothing happpens. Data from a `fd` that is not
+// tracked is untainted, any label of the data it replaces is removed.
 static void taint_source_buffer(int fd, void *buff, Offset offset,
                                 Length length, dfsan_label &ret_label) {
   if (length.valid()) {
-    get_polytracker_tdag().source_taint(fd, buff, offset, *length.value());
+    if (!get_polytracker_tdag().source_taint(fd, buff, offset,
+                                             *length.value())) {
+      dfsan_set_label(0, buff, *length.value());
+    }
   }
 
   ret_label = 0;
-- 
2.43.0


From 7f52b04ec7005f61cedc8bf5876771d0784b7310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:32 +0000
Subject: [PATCH 10/59] fix: do not taint beyond the buffer when recv reports a
 truncated datagram

---
 .../src/taint_sources/taint_sources.cpp       | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index 355a386..4bb796a 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -137,15 +137,20 @@ static ssize_t impl_offset_read_functions(dfsan_label &ret_label, Offset offset,
 // `ret_label` is the label of the return value (will be set to zero)
 // `fd` the file descriptor reading from
 // `buffer` the buffer that will be tainted
+// `size` the size of `buffer`
 // `read_function` is the actual read function (e.g. `read` or `recv`)
 // `read_function_args` are the arguments being passed to `read_function`
 template <typename F, typename... Args>
 static ssize_t impl_read_recv_functions(dfsan_label &ret_label, int fd,
-                                        void *buffer, F &&read_function,
+                                        void *buffer, size_t size,
+                                        F &&read_function,
                                         Args... read_function_args) {
   auto offset = Offset::from_fd(fd);
-  auto ret = read_function(read_function_args...);
-  return impl_offset_read_functions(ret_label, offset, ret, fd, buffer);
+  ssize_t ret = read_function(read_function_args...);
+  // With MSG_TRUNC the returned length may exceed what was stored in buffer
+  auto stored = ret > 0 ? std::min<ssize_t>(ret, size) : ret;
+  impl_offset_read_functions(ret_label, offset, stored, fd, buffer);
+  return ret;
 }
 
 // Implementation for the `fread`-style functions
@@ -241,7 +246,8 @@ EXT_C_FUNC int __dfsw_fclose(FILE *fd, dfsan_label fd_label,
 EXT_C_FUNC ssize_t __dfsw_read(int fd, void *buff, size_t size,
                                dfsan_label fd_label, dfsan_label buff_label,
                                dfsan_label size_label, dfsan_label *ret_label) {
-  return impl_read_recv_functions(*ret_label, fd, buff, read, fd, buff, size);
+  return impl_read_recv_functions(*ret_label, fd, buff, size, read, fd, buff,
+                                  size);
 }
 
 EXT_C_FUNC ssize_t __dfsw_pread(int fd, void *buf, size_t count, off_t offset,
@@ -523,8 +529,8 @@ EXT_C_FUNC ssize_t __dfsw_recv(int socket, void *buff, size_t length, int flags,
                                dfsan_label length_label,
                                dfsan_label flags_label,
                                dfsan_label *ret_label) {
-  return impl_read_recv_functions(*ret_label, socket, buff, recv, socket, buff,
-                                  length, flags);
+  return impl_read_recv_functions(*ret_label, socket, buff, length, recv,
+                                  socket, buff, length, flags);
 }
 
 EXT_C_FUNC ssize_t __dfsw_recvfrom(
@@ -533,6 +539,7 @@ EXT_C_FUNC ssize_t __dfsw_recvfrom(
     dfsan_label buffer_label, dfsan_label length_label, dfsan_label flags_label,
     dfsan_label address_label, dfsan_label address_len_label,
     dfsan_label *ret_label) {
-  return impl_read_recv_functions(*ret_label, socket, buffer, recvfrom, socket,
-                                  buffer, length, flags, address, address_len);
+  return impl_read_recv_functions(*ret_label, socket, buffer, length, recvfrom,
+                                  socket, buffer, length, flags, address,
+                                  address_len);
 }
\ No newline at end of file
-- 
2.43.0


From 4ff8d6ef8d42a7a1f582ef9870c12a2ca0db4193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:32 +0000
Subject: [PATCH 11/59] fix: realloc only copies the labels of the old
 allocation

---
 polytracker/src/taint_sources/memory_taints.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/polytracker/src/taint_sources/memory_taints.cpp b/polytracker/src/taint_sources/memory_taints.cpp
index 5372eef..baeea46 100644
--- a/polytracker/src/taint_sources/memory_taints.cpp
+++ b/polytracker/src/taint_sources/memory_taints.cpp
@@ -1,4 +1,6 @@
 #include "polytracker/taint_sources.h"
+#include <algorithm>
+#include <malloc.h>
 #include <vector>
 
 EXT_C_FUNC void *__dfsw_malloc(size_t size, dfsan_label size_label,
@@ -12,11 +14,8 @@ EXT_C_FUNC void *__dfsw_realloc(void *ptr, size_t new_size,
                                 dfsan_label ptr_label, dfsan_label size_label,
                                 dfsan_label *ret_label) {
 
-  // TODO (hbrodin): This is incorrect. There is not new_size bytes available
-  // (typically) but for now, lets just hope that the user of returned memory
-  // clears it (no undefined read). This might actually cause a read oob if at
-  // the end of shadow memory... Need to track all allocation sizes to only copy
-  // the amount of memory avail in the old allocation.
+  // Only the labels of the old allocation are kept, which is less than new_size
+  // bytes when growing.
   //
   // Make a copy of shadow memory/labels, in case we do actually move it
   // This could be a lot faster if we used the shadow_for function and did a
@@ -24,13 +23,14 @@ EXT_C_FUNC void *__dfsw_realloc(void *ptr, size_t new_size,
   std::vector<dfsan_label> shadow;
   auto oldptr = reinterpret_cast<char *>(ptr);
   if (oldptr != nullptr && new_size > 0) {
-    shadow.reserve(new_size);
-    std::transform(oldptr, oldptr + new_size, std::back_inserter(shadow),
+    auto copy_size = std::min(new_size, malloc_usable_size(ptr));
+    shadow.reserve(copy_size);
+    std::transform(oldptr, oldptr + copy_size, std::back_inserter(shadow),
                    [](char &v) { return dfsan_read_label(&v, sizeof(v)); });
   }
 
   void *new_mem = realloc(ptr, new_size);
-  if (new_mem != oldptr) {
+  if (new_mem != nullptr && new_mem != oldptr) {
     for (size_t i = 0; i < shadow.size(); i++) {
       dfsan_set_label(shadow[i], reinterpret_cast<char *>(new_mem) + i,
                       sizeof(char));
-- 
2.43.0


From aa91a656152089ad6623bf02edaf6274dc565da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:32 +0000
Subject: [PATCH 12/59] fix: record append mode writes at the offset they end
 up at

---
 .../src/taint_sources/write_taints.cpp        | 27 ++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/polytracker/src/taint_sources/write_taints.cpp b/polytracker/src/taint_sources/write_taints.cpp
index 3d8a2a3..50ec40b 100644
--- a/polytracker/src/taint_sources/write_taints.cpp
+++ b/polytracker/src/taint_sources/write_taints.cpp
@@ -2,6 +2,7 @@
 #include "polytracker/early_construct.h"
 #include "polytracker/taint_sources.h"
 #include "taintdag/polytracker.h"
+#include <fcntl.h>
 #include <iostream>
 #include <sanitizer/dfsan_interface.h>
 #include <sys/socket.h>
@@ -39,6 +40,19 @@ void impl_taint_sink(int fd, util::Offset offset, util::Length length,
   }
 }
 
+// Data written to a descriptor in append mode ends up at the end of the file,
+// regardless of the offset before the write.
+bool is_append(int fd) {
+  int flags = fcntl(fd, F_GETFL);
+  return flags != -1 && (flags & O_APPEND);
+}
+
+// Returns the offset where a write of `length` bytes ending at `end` started
+util::Offset start_offset(off_t end, util::Length const &length) {
+  auto len = length.valid() ? static_cast<off_t>(*length.value()) : 0;
+  return util::Offset::from_off_t(end < len ? -1 : end - len);
+}
+
 // Implementation wrapper for write/send-style functions
 //
 // `ret_label` is the return value label, will be cleared
@@ -51,7 +65,11 @@ ssize_t impl_write_send(dfsan_label &ret_label, int fd, void *buffer,
                         F &&write_func, Args... write_func_args) {
   auto offset = util::Offset::from_fd(fd);
   auto retval = write_func(write_func_args...);
-  impl_taint_sink(fd, offset, util::Length::from_returned_size(retval), buffer);
+  auto length = util::Length::from_returned_size(retval);
+  if (offset.valid() && is_append(fd)) {
+    offset = start_offset(lseek(fd, 0, SEEK_CUR), length);
+  }
+  impl_taint_sink(fd, offset, length, buffer);
   ret_label = 0;
   return retval;
 }
@@ -72,6 +90,9 @@ EXT_C_FUNC size_t __dfsw_fwrite(void *buf, size_t size, size_t count,
   auto offset = util::Offset::from_file(stream);
   auto write_count = fwrite(buf, size, count, stream);
   auto length = util::Length::from_returned_size_count(size, write_count);
+  if (offset.valid() && is_append(fileno(stream))) {
+    offset = start_offset(ftello(stream), length);
+  }
   impl_taint_sink(fileno(stream), offset, length, buf);
   *ret_label = 0;
   return write_count;
@@ -82,6 +103,10 @@ EXT_C_FUNC int __dfsw_putc(int ch, FILE *stream, dfsan_label ch_label,
   auto offset = util::Offset::from_file(stream);
   auto ret = fputc(ch, stream);
   if (ret != EOF) {
+    if (offset.valid() && is_append(fileno(stream))) {
+      offset =
+          start_offset(ftello(stream), util::Length::from_returned_size(1));
+    }
     get_polytracker_tdag().taint_sink(fileno(stream), offset, ch_label,
                                       sizeof(char));
   }
-- 
2.43.0


From a284f3c98fb7ce821be4012e9ce3454283c46627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:04 +0000
Subject: [PATCH 13/59] fix: round section starts up to the required alignment

---
 polytracker/include/taintdag/outputfile.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polytracker/include/taintdag/outputfile.h b/polytracker/include/taintdag/outputfile.h
index 752bba1..84dd566 100644
--- a/polytracker/include/taintdag/outputfile.h
+++ b/polytracker/include/taintdag/outputfile.h
@@ -142,7 +142,9 @@ private:
   template <typename T> std::span<uint8_t> do_allocation() {
     constexpr auto idx = util::TypeIndex<T, std::tuple<Sections...>>::index;
     constexpr auto align = T::align_of;
-    auto begin = alloc_ptr_ + (reinterpret_cast<uintptr_t>(alloc_ptr_) % align);
+    // Round up to the next aligned address
+    auto misalignment = reinterpret_cast<uintptr_t>(alloc_ptr_) % align;
+    auto begin = alloc_ptr_ + (misalignment ? align - misalignment : 0);
     auto end = alloc_ptr_ = begin + T::allocation_size;
     file_header_->sections[idx].offset = begin - mapped_memory_.begin;
     return {begin, end};
-- 
2.43.0


From 87be51e9cb72f2a5305bea03bc327c4871468478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:41 +0000
Subject: [PATCH 14/59] fix: keep the labels of memory that munmap failed to
 unmap

---
 polytracker/src/taint_sources/taint_sources.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index 4bb796a..31dd08b 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -396,7 +396,8 @@ EXT_C_FUNC int __dfsw_munmap(void *addr, size_t length, dfsan_label addr_label,
   fprintf(stderr, "### munmap, addr %p, length %zu \n", addr, length);
 #endif
   int ret = munmap(addr, length);
-  dfsan_set_label(0, addr, length);
+  if (ret == 0)
+    dfsan_set_label(0, addr, length);
   *ret_label = 0;
   return ret;
 }
-- 
2.43.0


From 5ad4bfae8bb6b9dd7956cdc8b02b53fa88f11f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:11 +0000
Subject: [PATCH 15/59] fix: ProgramTrace.taints never visited any node

Every node on the stack is already in seen, so each one was skipped and
the result was always empty.
---
 polytracker/tracing.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/polytracker/tracing.py b/polytracker/tracing.py
index a1eb6f6..21a9758 100644
--- a/polytracker/tracing.py
+++ b/polytracker/tracing.py
@@ -1141,9 +1141,6 @@ class ProgramTrace(ABC):
         while stack:
             node = stack.pop()
 
-            if node in seen:
-                continue
-
             p1 = node.parent_one
             p2 = node.parent_two
 
-- 
2.43.0


From 66158ce558f4ded405ba25c09a37996adc861436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:11 +0000
Subject: [PATCH 16/59] fix: cavities of a file opened several times lost its
 tail

zip() stops at the shorter marker array, so when the same file was seen
with different sizes everything past the smaller one was not reported.
---
 polytracker/mapping.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/polytracker/mapping.py b/polytracker/mapping.py
index 845015b..3d5206e 100644
--- a/polytracker/mapping.py
+++ b/polytracker/mapping.py
@@ -143,7 +143,13 @@ class InputOutputMapping:
         for k, v in markers.items():
             fname = self.tdfile.fd_headers[k][0]
             if fname in merged:
-                merged[fname] = bytes(a | b for (a, b) in zip(merged[fname], v))
+                size = max(len(merged[fname]), len(v))
+                merged[fname] = bytes(
+                    a | b
+                    for (a, b) in zip(
+                        merged[fname].ljust(size, b"\0"), v.ljust(size, b"\0")
+                    )
+                )
             else:
                 merged[fname] = bytes(v)
 
-- 
2.43.0


From 13735fa20b91122f959a447ba91959a846f12559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:11 +0000
Subject: [PATCH 17/59] fix: Taints.find yielded its first match forever

---
 polytracker/tracing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polytracker/tracing.py b/polytracker/tracing.py
index 21a9758..e9fbd27 100644
--- a/polytracker/tracing.py
+++ b/polytracker/tracing.py
@@ -304,6 +304,7 @@ class Taints:
                 offset = content.find(byte_sequence, offset)
                 if offset >= 0:
                     yield region[offset : offset + len(byte_sequence)]
+                    offset += 1
                 else:
                     break
 
-- 
2.43.0


From a19203e33f337432b1ad97c557fa6c1491f67449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:11 +0000
Subject: [PATCH 18/59] fix: Taints.to_regions split all regions of the second
 and later sources

last_input kept naming the first source, so every byte of another source
became a region of its own.
---
 polytracker/tracing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polytracker/tracing.py b/polytracker/tracing.py
index e9fbd27..43b34d5 100644
--- a/polytracker/tracing.py
+++ b/polytracker/tracing.py
@@ -273,6 +273,7 @@ class Taints:
                 if region is not None:
                     yield region
                 region = None
+            last_input = offset.source
             last_offset = offset
             if region is None:
                 region = TaintedRegion(
-- 
2.43.0


From c920bb1e966415c8166cb028750a980be3b0a8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:11 +0000
Subject: [PATCH 19/59] fix: slices of a TaintedRegion could reach past its end

The end of the slice was not limited to the length of the region, and an
omitted start or end raised a TypeError.
---
 polytracker/tracing.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/polytracker/tracing.py b/polytracker/tracing.py
index 43b34d5..96b1449 100644
--- a/polytracker/tracing.py
+++ b/polytracker/tracing.py
@@ -104,13 +104,8 @@ class TaintedRegion:
         if isinstance(index_or_slice, slice):
             if index_or_slice.step is not None and index_or_slice.step != 1:
                 raise ValueError("TaintedRegion only supports slices with step == 1")
-            start = index_or_slice.start
-            if start < 0:
-                start = max(self.length + start, 0)
-            stop = index_or_slice.stop
-            if stop < 0:
-                stop = self.length + stop
-            if start >= stop or start >= self.length or stop <= 0:
+            start, stop, _ = index_or_slice.indices(self.length)
+            if start >= stop:
                 return TaintedRegion(source=self.source, offset=self.offset, length=0)
             return TaintedRegion(
                 source=self.source, offset=self.offset + start, length=stop - start
-- 
2.43.0


From 071b87cc43d36639dcd8dc755cb0a6caffec665e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:11 +0000
Subject: [PATCH 20/59] fix: order tainted regions by path within the same
 descriptor number

Sources are told apart by uid and path, and a descriptor number is reused
when a file is closed; sorting by uid alone interleaves their offsets, so
contiguous regions fell apart.
---
 polytracker/tracing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/polytracker/tracing.py b/polytracker/tracing.py
index 96b1449..f0068c4 100644
--- a/polytracker/tracing.py
+++ b/polytracker/tracing.py
@@ -133,10 +133,12 @@ class TaintedRegion:
     def __lt__(self, other):
         return isinstance(other, TaintedRegion) and (
             self.source.uid,
+            self.source.path,
             self.offset,
             self.length,
         ) < (
             other.source.uid,
+            other.source.path,
             other.offset,
             other.length,
         )
-- 
2.43.0


From ba2915a100362af0da2506803061abadad1b01d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:11 +0000
Subject: [PATCH 21/59] fix: traces naming a file that is not valid UTF-8 could
 not be opened

---
 polytracker/taint_dag.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polytracker/taint_dag.py b/polytracker/taint_dag.py
index 744e576..a84bd0b 100644
--- a/polytracker/taint_dag.py
+++ b/polytracker/taint_dag.py
@@ -110,6 +110,7 @@ class TDStringSection:
         return str(
             self.section[offset + sizeof(c_uint16) : offset + sizeof(c_uint16) + n],
             "utf-8",
+            "surrogateescape",
         )
 
 
-- 
2.43.0


From d8988e725167a1b5f9d61885f21a8f942f94db71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:11 +0000
Subject: [PATCH 22/59] fix: storing to an existing key of LRUCache did not
 make it recently used

---
 polytracker/cache.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polytracker/cache.py b/polytracker/cache.py
index 4667f27..dbd9de8 100644
--- a/polytracker/cache.py
+++ b/polytracker/cache.py
@@ -74,6 +74,7 @@ class LRUCache(Generic[R, V], MutableMapping):
 
     def __setitem__(self, k: R, v: V) -> None:
         self._items[k] = v
+        self._items.move_to_end(k, last=True)
         while self.max_size is not None and len(self._items) > self.max_size:
             self._items.popitem(last=False)
 
-- 
2.43.0


From 5fed5c171f27ddf4fcc7eb9ca20b545c3256cffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:12 +0000
Subject: [PATCH 23/59] fix: a memoized function that raised returned None ever
 after

---
 polytracker/cache.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/polytracker/cache.py b/polytracker/cache.py
index dbd9de8..92a2462 100644
--- a/polytracker/cache.py
+++ b/polytracker/cache.py
@@ -16,7 +16,11 @@ class Memoized(Generic[R]):
     def __call__(self, *args, **kwargs) -> R:
         if not self._set:
             self._set = True
-            self.cached = self.func(*args, **kwargs)
+            try:
+                self.cached = self.func(*args, **kwargs)
+            except BaseException:
+                self._set = False
+                raise
         return self.cached  # type: ignore
 
 
-- 
2.43.0


From 534a79d025f72e260a1e66d471937c4bdb4529f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:19 +0000
Subject: [PATCH 24/59] fix: operators of OrderedSet returned a set holding a
 generator

collections.abc.Set builds the results of |, &, - and ^ by calling the
class with one iterable, but OrderedSet takes its items as arguments.
---
 polytracker/cache.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/polytracker/cache.py b/polytracker/cache.py
index 92a2462..9fe1e38 100644
--- a/polytracker/cache.py
+++ b/polytracker/cache.py
@@ -34,6 +34,11 @@ class OrderedSet(Generic[R], AbstractMutableSet):  # type: ignore
         for i in items:
             self._items[i] = i
 
+    @classmethod
+    def _from_iterable(cls, it) -> "OrderedSet[R]":
+        # the set operators of the base class construct their result with this
+        return cls(*it)
+
     def add(self, item: R):
         self._items[item] = item
 
-- 
2.43.0


From 08bb9f3d5a627ee06df08d614bcf8d13dc9c26a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:31 +0000
Subject: [PATCH 25/59] fix: the parser accepted inputs of which only a suffix
 is derived

A finished start production counts as the end of the parse only if it
began at the first byte, and only if it really is the start production
rather than another one with equal rules.
---
 polytracker/grammars.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index 54ff31c..338a566 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -706,7 +706,11 @@ class EarleyParser:
 
     @property
     def end_states(self) -> Iterator[EarleyState]:
-        return (s for s in self.states[-1] if s.finished and s.production == self.start)
+        return (
+            s
+            for s in self.states[-1]
+            if s.finished and s.index == 0 and s.production is self.start
+        )
 
     def parse(self) -> Iterator[ParseTree[ParseTreeValue]]:
         if not self.parsed:
-- 
2.43.0


From 3597a932aa517a6f3af010e82ab66611bdf5e9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:31 +0000
Subject: [PATCH 26/59] fix: parsing a str with non-ASCII characters raised
 IndexError

There has to be one Earley queue per byte, not per character.
---
 polytracker/grammars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index 338a566..137258e 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -699,7 +699,7 @@ class EarleyParser:
         else:
             self.start = start
         self.states: List[EarleyQueue] = [
-            EarleyQueue(self) for _ in range(len(sentence) + 1)
+            EarleyQueue(self) for _ in range(len(self.sentence) + 1)
         ]
         self.parsed: bool = False
         self.start_states: FrozenSet[Prediction] = frozenset()
-- 
2.43.0


From 2589213f23cf539d687bbf0d4ed10141f537ce62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:32 +0000
Subject: [PATCH 27/59] fix: the parser mixed up productions that have equal
 rules

Productions compare equal if their rules do, so the prediction of the
second one was taken for the first and never completed.
---
 polytracker/grammars.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index 137258e..5e82d91 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -499,7 +499,7 @@ class Prediction(EarleyState):
         return MutableParseTree(self.rule)
 
     def __hash__(self):
-        return hash((self.parsed, self.expected, self.index, self.production))
+        return hash((self.parsed, self.expected, self.index, self.production.name))
 
     def __eq__(self, other):
         if isinstance(other, Prediction):
@@ -507,7 +507,7 @@ class Prediction(EarleyState):
                 self.index == other.index
                 and self.parsed == other.parsed
                 and self.expected == other.expected
-                and self.production == other.production
+                and self.production is other.production
             )
         else:
             return False
@@ -538,7 +538,7 @@ class EmptyProduction(EarleyState):
         return (
             isinstance(other, EmptyProduction)
             and EarleyState.__eq__(self, other)
-            and self._production == other._production
+            and self._production is other._production
         )
 
     def to_tree(self) -> MutableParseTree[ParseTreeValue]:
-- 
2.43.0


From 474a467ec72b019ba712b5c8c8d1d9cfb4ad98e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:32 +0000
Subject: [PATCH 28/59] fix: empty productions completed the production that
 uses them

---
 polytracker/grammars.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index 5e82d91..5ea19bc 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -530,6 +530,10 @@ class EmptyProduction(EarleyState):
         super().__init__(prediction, parsed, expected, index)
         self._production: Production = production
 
+    @property
+    def production(self) -> Production:
+        return self._production
+
     __hash__ = EarleyState.__hash__  # type: ignore
 
     __ne__ = EarleyState.__ne__  # type: ignore
-- 
2.43.0


From 749b2ad267ec4dba5fd002beb41f064e960b085f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:32 +0000
Subject: [PATCH 29/59] fix: completing an empty derivation modified the set
 being iterated

---
 polytracker/grammars.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index 5ea19bc..c718cc1 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -815,9 +815,9 @@ class EarleyParser:
         self.states[completed.index].already_completed[completed.production.name][
             completed
         ].add(k)
-        for state in self.states[completed.index].waiting_for[
-            completed.production.name
-        ]:
+        for state in list(
+            self.states[completed.index].waiting_for[completed.production.name]
+        ):
             self.states[k].complete_state(state, completed)
 
 
-- 
2.43.0


From 879872822ee0a5354132bb6b925fb9e40803ee44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:36 +0000
Subject: [PATCH 30/59] fix: parse trees combined parts that do not belong
 together

A completed non-terminal was combined with any predecessor, so trees did not
derive the input, alternatives were missed and others appeared twice.
---
 polytracker/grammars.py | 227 ++++++++++++++--------------------------
 1 file changed, 80 insertions(+), 147 deletions(-)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index c718cc1..59abac4 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -422,7 +422,15 @@ class PartialMatch:
 
 
 class EarleyState(metaclass=ABCMeta):
-    __slots__ = "prediction", "parsed", "expected", "index", "depth", "predecessors"
+    __slots__ = (
+        "prediction",
+        "parsed",
+        "expected",
+        "index",
+        "end",
+        "depth",
+        "predecessors",
+    )
 
     def __init__(
         self,
@@ -435,6 +443,7 @@ class EarleyState(metaclass=ABCMeta):
         self.parsed: Tuple[Symbol, ...] = parsed
         self.expected: Tuple[Symbol, ...] = expected
         self.index: int = index
+        self.end: int = index
         self.depth: int = 0
         self.predecessors: FrozenSet[EarleyState] = frozenset()
 
@@ -608,8 +617,9 @@ S = TypeVar("S", bound=EarleyState)
 
 
 class EarleyQueue:
-    def __init__(self, parser: "EarleyParser"):
+    def __init__(self, parser: "EarleyParser", end: int):
         self.parser: EarleyParser = parser
+        self.end: int = end
         self.queue: List[EarleyState] = []
         self.elements: Dict[EarleyState, EarleyState] = {}
         self.waiting_for: Dict[NonTerminal, Set[EarleyState]] = defaultdict(set)
@@ -634,6 +644,7 @@ class EarleyQueue:
             # We already have this state
             state = cast(S, self.elements[state])
         else:
+            state.end = self.end
             self.queue.append(state)
             self.elements[state] = state
         if not state.finished and isinstance(state.next_element, NonTerminal):
@@ -703,7 +714,7 @@ class EarleyParser:
         else:
             self.start = start
         self.states: List[EarleyQueue] = [
-            EarleyQueue(self) for _ in range(len(self.sentence) + 1)
+            EarleyQueue(self, k) for k in range(len(self.sentence) + 1)
         ]
         self.parsed: bool = False
         self.start_states: FrozenSet[Prediction] = frozenset()
@@ -770,13 +781,72 @@ class EarleyParser:
             return
 
         for end_state in self.end_states:
-            root = _Node(end_state)
-            while True:
-                tree = MutableParseTree(self.start)
-                tree.children = [n.tree.clone() for n in root.siblings]
-                yield tree  # type: ignore
-                if not root.iterate():
-                    break
+            yield from self._derivations(end_state)
+
+    def _derivations(
+        self, end_state: EarleyState
+    ) -> Iterator[MutableParseTree[ParseTreeValue]]:
+        """Lazily enumerates the parse trees of a finished state.
+
+        The states are followed backward from the end of the sentence. A predecessor and the state that completed the
+        non-terminal after it belong together only if one begins where the other ends. Derivations in which a
+        non-terminal derives nothing but itself are infinite in number; these are skipped.
+
+        """
+        # Each element of `stack` is one partial derivation: a linked list of the states (or productions whose
+        # derivation is complete) left to process, and a linked list of what was found so far, leftmost first
+        stack: List[Tuple[Any, Any]] = [((end_state, frozenset(), None), None)]
+        while stack:
+            todo, found = stack.pop()
+            if todo is None:
+                yield self._to_tree(found)
+                continue
+            state, path, remaining = todo
+            if isinstance(state, Production):
+                stack.append((remaining, ((state, True), found)))
+            elif isinstance(state, Completion):
+                alternatives = []
+                for left_sibling in sorted(state.predecessors, key=lambda p: p.depth):
+                    for child in sorted(state.completed_by, key=lambda c: c.depth):
+                        if child.index != left_sibling.end or child in path:
+                            continue
+                        if (child.index, child.end) == (state.index, state.end):
+                            child_path = path | {child}
+                        else:
+                            child_path = frozenset([child])
+                        left = (left_sibling, path, remaining)
+                        alternatives.append(
+                            (
+                                (child, child_path, (child.production, None, left)),
+                                ((child.production, False), found),
+                            )
+                        )
+                stack.extend(reversed(alternatives))
+            elif isinstance(state, ScannedTerminal):
+                found = (MutableParseTree(state.terminal), found)
+                stack.extend(
+                    ((p, path, remaining), found)
+                    for p in sorted(
+                        state.predecessors, key=lambda p: p.depth, reverse=True
+                    )
+                )
+            else:
+                stack.append((remaining, (state.to_tree(), found)))
+
+    def _to_tree(self, found: Any) -> MutableParseTree[ParseTreeValue]:
+        tree: MutableParseTree[ParseTreeValue] = MutableParseTree(self.start)
+        parents = [tree]
+        while found is not None:
+            value, found = found
+            if isinstance(value, MutableParseTree):
+                parents[-1].add_child(value)
+            elif value[1]:
+                node: MutableParseTree[ParseTreeValue] = MutableParseTree(value[0])
+                parents[-1].add_child(node)
+                parents.append(node)
+            else:
+                parents.pop()
+        return tree
 
     def _predict(self, state: EarleyState, k: int):
         prod: Production = self.grammar[state.next_element]  # type: ignore
@@ -821,143 +891,6 @@ class EarleyParser:
             self.states[k].complete_state(state, completed)
 
 
-class _Node:
-    def __init__(
-        self,
-        state: EarleyState,
-        parent: Optional["_Node"] = None,
-        _initialize: bool = True,
-    ):
-        self.parent: Optional[_Node] = parent
-        if parent is None:
-            self.root: _Node = self
-            self.history: Set[EarleyState] = {state}
-        else:
-            self.root = parent.root
-            self.history = parent.history
-            self.history.add(state)
-        self.state: EarleyState = state
-        self.sibling_possibilities: Iterator[EarleyState] = iter(
-            sorted(state.predecessors, key=lambda p: p.depth)
-        )
-        if isinstance(state, Completion):
-            self.child_possibilities: Iterator[EarleyState] = iter(
-                sorted(state.completed_by, key=lambda p: p.depth)
-            )
-        else:
-            self.child_possibilities = iter(())
-        self.rightmost_child: Optional[_Node] = None
-        self.left_sibling: Optional[_Node] = None
-        if isinstance(self.state, Prediction) and parent is not None:
-            self.tree: MutableParseTree[ParseTreeValue] = MutableParseTree(
-                self.state.rule
-            )
-        elif isinstance(self.state, ScannedTerminal):
-            self.tree = MutableParseTree(self.state.terminal)
-        else:
-            self.tree = MutableParseTree(self.state.production)
-
-        if _initialize:
-            stack: List[_Node] = [self]
-            while stack:
-                node = stack.pop()
-                try:
-                    left_sibling = node.next_sibling()
-                    node.left_sibling = _Node(
-                        left_sibling, parent=self.parent, _initialize=False
-                    )
-                    stack.append(node.left_sibling)
-                except StopIteration:
-                    pass
-                try:
-                    rightmost_child = node.next_child()
-                    node.rightmost_child = _Node(
-                        rightmost_child, parent=self, _initialize=False
-                    )
-                    stack.append(node.rightmost_child)
-                except StopIteration:
-                    pass
-            for node in self.postorder_traversal():
-                if node.rightmost_child is not None:
-                    node.tree.children = [
-                        child.tree for child in node.rightmost_child.siblings
-                    ]
-            if parent is not None:
-                parent.tree.children = [child.tree for child in parent.children]
-
-    def next_sibling(self) -> EarleyState:
-        while True:
-            left_sibling = next(self.sibling_possibilities)
-            if left_sibling not in self.history:
-                return left_sibling
-
-    def next_child(self) -> EarleyState:
-        while True:
-            rightmost_child = next(self.child_possibilities)
-            if rightmost_child not in self.history:
-                return rightmost_child
-
-    def descendants(self) -> Iterator[EarleyState]:
-        stack: List[_Node] = [self]
-        while stack:
-            node = stack.pop()
-            yield node.state
-            if node.left_sibling:
-                stack.append(node.left_sibling)
-            if node.rightmost_child:
-                stack.append(node.rightmost_child)
-
-    @property
-    def siblings(self) -> Iterator["_Node"]:
-        nodes = [self]
-        while nodes[-1].left_sibling is not None:
-            nodes.append(nodes[-1].left_sibling)
-        return reversed(nodes)
-
-    @property
-    def children(self) -> Iterator["_Node"]:
-        if self.rightmost_child is not None:
-            yield from self.rightmost_child.siblings
-
-    def _iterate_local(self) -> bool:
-        try:
-            left_sibling = self.next_sibling()
-            if self.left_sibling is not None:
-                self.history -= set(self.left_sibling.descendants())
-            self.left_sibling = _Node(left_sibling, parent=self.parent)
-            return True
-        except StopIteration:
-            pass
-        try:
-            rightmost_child = self.next_child()
-            if self.rightmost_child is not None:
-                self.history -= set(self.rightmost_child.descendants())
-            self.rightmost_child = _Node(rightmost_child, parent=self)
-            return True
-        except StopIteration:
-            return False
-
-    def postorder_traversal(self) -> Iterator["_Node"]:
-        stack: List[Tuple[bool, _Node]] = [(False, self)]
-
-        while stack:
-            expanded, node = stack.pop()
-            if not expanded:
-                stack.append((True, node))
-                if node.left_sibling is not None:
-                    stack.append((False, node.left_sibling))
-                if node.rightmost_child is not None:
-                    stack.append((False, node.rightmost_child))
-            else:
-                yield node
-
-    def iterate(self) -> bool:
-        for node in self.postorder_traversal():
-            if node._iterate_local():
-                return True
-        return False
-
-
 class Match:
     def __init__(self, parser: EarleyParser):
         self.parser: EarleyParser = parser
-- 
2.43.0


From 69a235fa64653f892bc48969dba582e3c6811e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:53 +0000
Subject: [PATCH 31/59] fix: simplify dropped productions whose terminals were
 inlined into them

Rule.has_terminals was computed once and not updated when a sub-production
was replaced by its rule.
---
 polytracker/grammars.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index 59abac4..7e2a635 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -55,7 +55,10 @@ class Rule:
     def __init__(self, grammar: "Grammar", *sequence: Symbol):
         self.grammar: Grammar = grammar
         self.sequence: Tuple[Symbol, ...] = Rule.combine_terminals(sequence)
-        self.has_terminals: bool = any(isinstance(t, Terminal) for t in self.sequence)
+
+    @property
+    def has_terminals(self) -> bool:
+        return any(isinstance(t, Terminal) for t in self.sequence)
 
     @staticmethod
     def combine_terminals(sequence: Iterable[Symbol]) -> Tuple[Symbol, ...]:
-- 
2.43.0


From 031e45cdfb2c8db701ba2367defecc1da52412ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:53 +0000
Subject: [PATCH 32/59] fix: removing a production dropped the empty rule of
 its users

A rule that becomes empty derives the empty string; dropping it changed the
language of the production.
---
 polytracker/grammars.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index 7e2a635..88983d6 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -323,8 +323,7 @@ class Production:
         new_rules = []
         for rule in self.rules:
             rule.remove_sub_production(name)
-            if rule:
-                new_rules.append(rule)
+            new_rules.append(rule)
         self.rules = set(new_rules)
         self.grammar.used_by[name].remove(self.name)
 
-- 
2.43.0


From 6cef8ea13ba2b1b1fb469dcf50c77cf3618b5c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:53 +0000
Subject: [PATCH 33/59] fix: can_produce_terminal was not updated when the
 grammar changed

The result was cached per production and neither additions nor removals
invalidated it; productions with equal rules were also taken for one another.
---
 polytracker/grammars.py | 94 ++++++++++++++++-------------------------
 1 file changed, 36 insertions(+), 58 deletions(-)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index 88983d6..ae83ce7 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -164,7 +164,7 @@ class Production:
             for term in rule.sequence:
                 if isinstance(term, str):
                     grammar.used_by[term].add(name)
-        self._can_produce_terminal: Optional[bool] = None
+        grammar._producing_terminals = None
 
     def first_rule(self) -> Optional[Rule]:
         if self.rules:
@@ -265,60 +265,12 @@ class Production:
 
     @property
     def can_produce_terminal(self) -> bool:
-        if self._can_produce_terminal is None:
-            queue: List[Production] = [
-                prod
-                for prod in self.grammar.productions.values()
-                if prod._can_produce_terminal is None
-                and any(r.has_terminals for r in prod.rules)
-            ]
-            visited: Set[Production] = set(queue)
-            for p in queue:
-                # all nodes in the queue can trivially produce a terminal
-                p._can_produce_terminal = True
-            with tqdm(
-                leave=False, unit=" productions", desc="finding empty productions"
-            ) as status:
-                while queue:
-                    prod = queue.pop()
-                    used_by = [
-                        used_by_prod
-                        for used_by_prod in prod.used_by
-                        if used_by_prod not in visited
-                    ]
-                    for used_by_prod in used_by:
-                        used_by_prod._can_produce_terminal = True
-                    queue.extend(used_by)
-                    visited |= set(used_by)
-                    status.update(1)
-            if self._can_produce_terminal is None:
-                self._can_produce_terminal = False
-        return self._can_produce_terminal  # type: ignore
+        return self.name in self.grammar.producing_terminals
 
     @property
     def used_by(self) -> Iterable["Production"]:
         return (self.grammar[name] for name in self.grammar.used_by[self.name])
 
-    def _propagate_terminals(self):
-        """Calculates if this production can produce a terminal.
-        If a rule calls another terminal whose _can_produce_terminal member is None, assume that it is False
-
-        """
-        if any(r.has_terminals for r in self.rules):
-            self._can_produce_terminal = True
-        for v in itertools.chain(*self.rules):
-            if isinstance(v, Production):
-                if v._can_produce_terminal is not None and v._can_produce_terminal:
-                    # The rule calls another production that can produce a terminal
-                    self._can_produce_terminal = True
-                    break
-            else:
-                # v is a Terminal
-                self._can_produce_terminal = True
-                break
-        else:
-            self._can_produce_terminal = False
-
     def remove_sub_production(self, name: str):
         new_rules = []
         for rule in self.rules:
@@ -326,6 +278,7 @@ class Production:
             new_rules.append(rule)
         self.rules = set(new_rules)
         self.grammar.used_by[name].remove(self.name)
+        self.grammar._producing_terminals = None
 
     def replace_sub_production(
         self, to_replace: NonTerminal, replace_with: Union[NonTerminal, Rule]
@@ -346,6 +299,7 @@ class Production:
             self.grammar.used_by[to_replace].remove(self.name)
             for new_prod in new_prods:
                 self.grammar.used_by[new_prod].add(self.name)
+            self.grammar._producing_terminals = None
 
     @staticmethod
     def load(grammar: "Grammar", name: str, *rules: Iterable[str]) -> "Production":
@@ -363,6 +317,7 @@ class Production:
         for term in rule.sequence:
             if isinstance(term, NonTerminal):
                 self.grammar.used_by[term].add(self.name)
+        self.grammar._producing_terminals = None
         # TODO: investigate checking for common subsequences and generating new sub-productions for those
         return True
 
@@ -927,6 +882,25 @@ class Grammar:
         self.productions: Dict[NonTerminal, Production] = {}
         self.used_by: Dict[NonTerminal, Set[NonTerminal]] = defaultdict(set)
         self.start: Optional[Production] = None
+        # the names of the productions that can produce a terminal; `None` if the grammar changed
+        self._producing_terminals: Optional[Set[NonTerminal]] = None
+
+    @property
+    def producing_terminals(self) -> Set[NonTerminal]:
+        """The names of the productions that can produce a terminal"""
+        if self._producing_terminals is None:
+            producing = set(
+                name
+                for name, prod in self.productions.items()
+                if any(r.has_terminals for r in prod.rules)
+            )
+            queue: List[NonTerminal] = list(producing)
+            while queue:
+                used_by = self.used_by.get(queue.pop(), set()) - producing
+                queue.extend(used_by)
+                producing |= used_by
+            self._producing_terminals = producing
+        return self._producing_terminals
 
     def match(
         self, sentence: Union[str, bytes], start: Optional[Production] = None
@@ -984,6 +958,7 @@ class Grammar:
                 self[uses_name].remove_sub_production(name)
         del self.used_by[name]
         del self.productions[name]
+        self._producing_terminals = None
         return True
 
     def verify(self, test_disconnection: bool = True):
@@ -1057,19 +1032,22 @@ class Grammar:
                     # self.verify(test_disconnection=False)
                     status.update(1)
             for prod in tqdm(
-                list(self.productions.values()),
+                [
+                    prod
+                    for prod in self.productions.values()
+                    if prod.removable and not prod.can_produce_terminal
+                ],
                 desc="removing empty productions",
                 unit=" productions",
                 leave=False,
                 unit_divisor=1,
             ):
-                if prod.removable and not prod.can_produce_terminal:
-                    removed = self.remove(prod)
-                    assert removed
-                    # print(f"removed {prod} because it was empty")
-                    # self.verify(test_disconnection=False)
-                    status.update(1)
-                    modified = True
+                removed = self.remove(prod)
+                assert removed
+                # print(f"removed {prod} because it was empty")
+                # self.verify(test_disconnection=False)
+                status.update(1)
+                modified = True
         return modified
         modified = False
         modified_last_pass = True
-- 
2.43.0


From dfb77e21466e5f12332dd398b9194736745e68c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:54 +0000
Subject: [PATCH 34/59] fix: a removed recursive rule stayed in the used-by
 table

---
 polytracker/grammars.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index ae83ce7..4c4d96e 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -261,6 +261,8 @@ class Production:
             [rule for rule in self if len(rule) == 1 and rule[0] == self.name]
         )
         self.rules -= removed
+        if removed and not any(self.name in rule.sequence for rule in self):
+            self.grammar.used_by[self.name].discard(self.name)
         return removed
 
     @property
-- 
2.43.0


From 1bffc92cf7a914653da922e8ccf97381c13c8d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:54 +0000
Subject: [PATCH 35/59] fix: replacing a production could lose one of the
 resulting rules

---
 polytracker/grammars.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index 4c4d96e..1a97031 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -293,10 +293,10 @@ class Production:
         else:
             new_prods = [v for v in replace_with.sequence if isinstance(v, NonTerminal)]
         modified = False
-        for rule in list(self.rules):
-            self.rules.remove(rule)
+        for rule in self.rules:
             modified = rule.replace_sub_production(to_replace, replace_with) or modified
-            self.rules.add(rule)
+        # the rules were changed in place, so their hashes are no longer valid
+        self.rules = set(list(self.rules))
         if modified:
             self.grammar.used_by[to_replace].remove(self.name)
             for new_prod in new_prods:
-- 
2.43.0


From 53ac88fe28da14e68521a25be03a87bbbf057227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:08 +0000
Subject: [PATCH 36/59] fix: verifying a grammar whose start uses no production
 raised KeyError

The dependency graph held names as nodes instead of productions.
---
 polytracker/grammars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index 1a97031..fc2d825 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -921,7 +921,7 @@ class Grammar:
 
     def dependency_graph(self) -> DiGraph[Production]:
         graph: DiGraph[Production] = DiGraph()
-        for prod in self.productions:
+        for prod in self.productions.values():
             graph.add_node(prod)
         for prod_name, used_by_names in self.used_by.items():
             if prod_name not in self:
-- 
2.43.0


From 1c42b995f085158d9c3527bcabc782a9d20c12d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:45 +0000
Subject: [PATCH 37/59] fix: simplify removed the start production of a grammar

The productions it uses were then removed as well, since the start production
was no longer recorded as using them, and matching raised KeyError.
---
 polytracker/grammars.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index fc2d825..1bbc481 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -1024,7 +1024,11 @@ class Grammar:
             ):
                 # remove any rules in the production that just recursively call the same production
                 prod.remove_recursive_rules()
-                if prod.removable and len(prod.rules) == 1:
+                if (
+                    prod.removable
+                    and prod is not self.start
+                    and len(prod.rules) == 1
+                ):
                     # this production has a single rule, so replace all uses with that rule
                     for user in list(prod.used_by):
                         user.replace_sub_production(prod.name, prod.first_rule())  # type: ignore
@@ -1037,7 +1041,9 @@ class Grammar:
                 [
                     prod
                     for prod in self.productions.values()
-                    if prod.removable and not prod.can_produce_terminal
+                    if prod.removable
+                    and prod is not self.start
+                    and not prod.can_produce_terminal
                 ],
                 desc="removing empty productions",
                 unit=" productions",
-- 
2.43.0


From 6af743e51f5ec0464ac06081a95dc1ddf50b0fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:21 +0000
Subject: [PATCH 38/59] fix: comparison functions ordered bytes above 0x7f as
 negative

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index fb001ba..d5fb4c5 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -205,7 +205,8 @@ SANITIZER_INTERFACE_ATTRIBUTE char *__dfso_strpbrk(
 
 static int dfsan_memcmp_bcmp(const void *s1, const void *s2, size_t n,
                              size_t *bytes_read) {
-  const char *cs1 = (const char *) s1, *cs2 = (const char *) s2;
+  const unsigned char *cs1 = (const unsigned char *)s1;
+  const unsigned char *cs2 = (const unsigned char *)s2;
   for (size_t i = 0; i != n; ++i) {
     if (cs1[i] != cs2[i]) {
       *bytes_read = i + 1;
@@ -305,7 +306,7 @@ static int dfsan_strncmp(const char *s1, const char *s2, size_t n,
   for (size_t i = 0;; ++i) {
     if (s1[i] != s2[i] || s1[i] == 0 || s2[i] == 0 || (n > 0 && i == n - 1)) {
       *bytes_read = i + 1;
-      return s1[i] - s2[i];
+      return (unsigned char)s1[i] - (unsigned char)s2[i];
     }
   }
 }
@@ -348,8 +349,8 @@ SANITIZER_INTERFACE_ATTRIBUTE int __dfso_strcmp(
 static int dfsan_strncasecmp(const char *s1, const char *s2, size_t n,
                              size_t *bytes_read) {
   for (size_t i = 0;; ++i) {
-    char s1_lower = tolower(s1[i]);
-    char s2_lower = tolower(s2[i]);
+    int s1_lower = tolower((unsigned char)s1[i]);
+    int s2_lower = tolower((unsigned char)s2[i]);
 
     if (s1_lower != s2_lower || s1[i] == 0 || s2[i] == 0 ||
         (n > 0 && i == n - 1)) {
-- 
2.43.0


From 15a073954931752a73323929c501b48549cfe6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:21 +0000
Subject: [PATCH 39/59] fix: strchr did not convert the character searched for
 to char

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index d5fb4c5..528ff36 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -120,6 +120,7 @@ static char *dfsan_strchr_with_label(const char *s, int c, size_t *bytes_read,
                                      dfsan_label s_label, dfsan_label c_label,
                                      dfsan_label *ret_label) {
   char *match_pos = nullptr;
+  c = (char)c;
   for (size_t i = 0;; ++i) {
     if (s[i] == c || s[i] == 0) {
       // If s[i] is the \0 at the end of the string, and \0 is not the
-- 
2.43.0


From c7d717c8efed942222bbbcd342aa20216431c6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:21 +0000
Subject: [PATCH 40/59] fix: a failing calloc cleared labels from address zero

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 528ff36..2126b5d 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -467,7 +467,8 @@ SANITIZER_INTERFACE_ATTRIBUTE void *__dfsw_calloc(size_t nmemb, size_t size,
                                                   dfsan_label size_label,
                                                   dfsan_label *ret_label) {
   void *p = calloc(nmemb, size);
-  dfsan_set_label(0, p, nmemb * size);
+  if (p)
+    dfsan_set_label(0, p, nmemb * size);
   *ret_label = 0;
   return p;
 }
-- 
2.43.0


From 476df7ce57b5562fe8cc170ec9a33300cee3f358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:21 +0000
Subject: [PATCH 41/59] fix: strncpy read past the bound of an unterminated
 source

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 2126b5d..e010cc8 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -654,7 +654,7 @@ SANITIZER_INTERFACE_ATTRIBUTE char *
 __dfsw_strncpy(char *s1, const char *s2, size_t n, dfsan_label s1_label,
                dfsan_label s2_label, dfsan_label n_label,
                dfsan_label *ret_label) {
-  size_t len = strlen(s2);
+  size_t len = strnlen(s2, n);
   if (len < n) {
     dfsan_memcpy(s1, s2, len+1);
     dfsan_memset(s1+len+1, 0, 0, n-len-1);
@@ -671,7 +671,7 @@ SANITIZER_INTERFACE_ATTRIBUTE char *__dfso_strncpy(
     dfsan_label s2_label, dfsan_label n_label, dfsan_label *ret_label,
     dfsan_origin s1_origin, dfsan_origin s2_origin, dfsan_origin n_origin,
     dfsan_origin *ret_origin) {
-  size_t len = strlen(s2);
+  size_t len = strnlen(s2, n);
   if (len < n) {
     dfsan_memcpy_with_origin(s1, s2, len + 1);
     dfsan_memset_with_origin(s1 + len + 1, 0, 0, 0, n - len - 1);
-- 
2.43.0


From 0aab909eb6565dcf422411d40b9ddfbbed33e231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:21 +0000
Subject: [PATCH 42/59] fix: select without a timeout crashed

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index e010cc8..6d527c0 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -1526,7 +1526,9 @@ int __dfsw_select(int nfds, fd_set *readfds, fd_set *writefds,
   if (exceptfds) {
     dfsan_set_label(0, exceptfds, sizeof(fd_set));
   }
-  dfsan_set_label(0, timeout, sizeof(struct timeval));
+  if (timeout) {
+    dfsan_set_label(0, timeout, sizeof(struct timeval));
+  }
   *ret_label = 0;
   return ret;
 }
-- 
2.43.0


From 7e658a891ad48c399e784a705328a74187c7f0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:21 +0000
Subject: [PATCH 43/59] fix: an interrupted nanosleep without a remaining-time
 argument crashed

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 6d527c0..4a5516c 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -1916,7 +1916,7 @@ SANITIZER_INTERFACE_ATTRIBUTE int __dfsw_nanosleep(const struct timespec *req,
                                                    dfsan_label *ret_label) {
   int ret = nanosleep(req, rem);
   *ret_label = 0;
-  if (ret == -1) {
+  if (ret == -1 && rem) {
     // Interrupted by a signal, rem is filled with the remaining time.
     dfsan_set_label(0, rem, sizeof(struct timespec));
   }
-- 
2.43.0


From bfbe974143f96aa3c8d8b259a84bb78fd2421047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:57 +0000
Subject: [PATCH 44/59] fix: labels of truncated snprintf output were set for
 the wrong number of bytes

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 4a5516c..7eb349e 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -2222,7 +2222,7 @@ struct Formatter {
     // A return value of {v,}snprintf of size or more means that the output was
     // truncated.
     if (num_written >= num_avail) {
-      num_written -= num_avail;
+      num_written = num_avail - 1;
     }
 
     return num_written;
-- 
2.43.0


From c1097abf9bfe18e424e07e516e03af5581127e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:57 +0000
Subject: [PATCH 45/59] fix: snprintf left output without directives
 unterminated and kept the terminator's old label

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 7eb349e..52b97c9 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -2419,6 +2419,14 @@ static int format_buffer(char *str, size_t size, const char *fmt,
     formatter.str_off += retval;
   }
 
+  // Every chunk that produced output ended with a terminator. Terminate the
+  // output also if there was none, and clear the label of the terminator.
+  if (size > 0) {
+    char *end = str + (formatter.str_off < size ? formatter.str_off : size - 1);
+    *end = '\0';
+    dfsan_set_label(0, end, 1);
+  }
+
   *ret_label = 0;
   if (ret_origin)
     *ret_origin = 0;
-- 
2.43.0


From da7441a006927f00f6d1f6b851fe31d44fe55ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:57 +0000
Subject: [PATCH 46/59] fix: %n cleared labels behind the int it stores

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 52b97c9..c4aa0d6 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -2386,7 +2386,7 @@ static int format_buffer(char *str, size_t size, const char *fmt,
           va_labels++;
           if (va_origins)
             va_origins++;
-          dfsan_set_label(0, ptr, sizeof(ptr));
+          dfsan_set_label(0, ptr, sizeof(*ptr));
           end_fmt = true;
           break;
         }
-- 
2.43.0


From 5a1674f14de2f376a8765bd051da6a1d930e68e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:57 +0000
Subject: [PATCH 47/59] fix: directives with two '*' or a negative '*' width
 got the wrong arguments

---
 .../src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index c4aa0d6..122fa19 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -2172,7 +2172,7 @@ typedef int dfsan_label_va;
 struct Formatter {
   Formatter(char *str_, const char *fmt_, size_t size_)
       : str(str_), str_off(0), size(size_), fmt_start(fmt_), fmt_cur(fmt_),
-        width(-1) {}
+        num_stars(0) {}
 
   int format() {
     char *tmp_fmt = build_format_string();
@@ -2186,9 +2186,12 @@ struct Formatter {
   template <typename T> int format(T arg) {
     char *tmp_fmt = build_format_string();
     int retval;
-    if (width >= 0) {
+    if (num_stars == 2) {
       retval = snprintf(str + str_off, str_off < size ? size - str_off : 0,
-                        tmp_fmt, width, arg);
+                        tmp_fmt, stars[0], stars[1], arg);
+    } else if (num_stars == 1) {
+      retval = snprintf(str + str_off, str_off < size ? size - str_off : 0,
+                        tmp_fmt, stars[0], arg);
     } else {
       retval = snprintf(str + str_off, str_off < size ? size - str_off : 0,
                         tmp_fmt, arg);
@@ -2233,7 +2236,9 @@ struct Formatter {
   size_t size;
   const char *fmt_start;
   const char *fmt_cur;
-  int width;
+  // Values of the '*' arguments of the current directive.
+  int stars[2];
+  int num_stars;
 };
 
 // Formats the input and propagates the input labels to the output. The output
@@ -2257,7 +2262,7 @@ static int format_buffer(char *str, size_t size, const char *fmt,
 
   while (*formatter.fmt_cur) {
     formatter.fmt_start = formatter.fmt_cur;
-    formatter.width = -1;
+    formatter.num_stars = 0;
     int retval = 0;
 
     if (*formatter.fmt_cur != '%') {
@@ -2399,7 +2404,8 @@ static int format_buffer(char *str, size_t size, const char *fmt,
           break;
 
         case '*':
-          formatter.width = va_arg(ap, int);
+          if (formatter.num_stars < 2)
+            formatter.stars[formatter.num_stars++] = va_arg(ap, int);
           va_labels++;
           if (va_origins)
             va_origins++;
-- 
2.43.0


From 182b737b5836fafd3df6555ec3b6c4ef3a167f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:57 +0000
Subject: [PATCH 48/59] fix: labels of %s with a width or precision did not
 follow the characters

---
 .../compiler-rt/lib/dfsan/dfsan_custom.cpp    | 46 +++++++++++++++++--
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 122fa19..0c5a375 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -2211,6 +2211,33 @@ struct Formatter {
 
   char *str_cur() { return str + str_off; }
 
+  // Number of characters of 'arg' that the current %s directive uses, given its
+  // precision.
+  size_t str_arg_len(const char *arg) {
+    if (!arg)
+      return 0;
+    int star = 0;
+    for (const char *p = fmt_start; p < fmt_cur; ++p) {
+      if (*p == '*')
+        ++star;
+      if (*p != '.')
+        continue;
+      int precision = p[1] == '*' ? stars[star] : atoi(p + 1);
+      return precision < 0 ? strlen(arg) : strnlen(arg, precision);
+    }
+    return strlen(arg);
+  }
+
+  // Whether the current directive puts the padding after the text.
+  bool left_adjusted() {
+    const char *p = fmt_start + 1;
+    for (; p < fmt_cur && strchr("#0- +'", *p); ++p) {
+      if (*p == '-')
+        return true;
+    }
+    return *p == '*' && stars[0] < 0;
+  }
+
   size_t num_written_bytes(int retval) {
     if (retval < 0) {
       return 0;
@@ -2359,16 +2386,25 @@ static int format_buffer(char *str, size_t size, const char *fmt,
 
         case 's': {
           char *arg = va_arg(ap, char *);
+          size_t arg_len = formatter.str_arg_len(arg);
           retval = formatter.format(arg);
+          // The output consists of the used part of the argument and padding.
+          size_t written = formatter.num_written_bytes(retval);
+          size_t pad = retval > 0 && (size_t)retval > arg_len &&
+                               !formatter.left_adjusted()
+                           ? retval - arg_len
+                           : 0;
+          size_t copied = written > pad ? written - pad : 0;
+          if (copied > arg_len)
+            copied = arg_len;
+          dfsan_set_label(0, formatter.str_cur(), written);
           if (va_origins) {
             va_origins++;
-            dfsan_mem_origin_transfer(formatter.str_cur(), arg,
-                                      formatter.num_written_bytes(retval));
+            dfsan_mem_origin_transfer(formatter.str_cur() + pad, arg, copied);
           }
           va_labels++;
-          internal_memcpy(shadow_for(formatter.str_cur()), shadow_for(arg),
-                          sizeof(dfsan_label) *
-                              formatter.num_written_bytes(retval));
+          internal_memcpy(shadow_for(formatter.str_cur() + pad),
+                          shadow_for(arg), sizeof(dfsan_label) * copied);
           end_fmt = true;
           break;
         }
-- 
2.43.0


From e6933bbd713a572a3acfbe215df9533909f0fcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:57 +0000
Subject: [PATCH 49/59] fix: %m made snprintf read past the end of the format

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 0c5a375..3bb55b7 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -2432,6 +2432,7 @@ static int format_buffer(char *str, size_t size, const char *fmt,
           break;
         }
 
+        case 'm':
         case '%':
           retval = formatter.format();
           dfsan_set_label(0, formatter.str_cur(),
-- 
2.43.0


From 6f4d2f585cd382e02f441dddbcb7aacf9c0dcfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:20 +0000
Subject: [PATCH 50/59] fix: accepting a connection that was reset, or
 disconnecting a datagram socket, ended the program

---
 polytracker/src/taint_sources/taint_sources.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index 31dd08b..55ba029 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -444,7 +444,7 @@ static std::optional<std::string> connect_name(int socket) {
   if (int ret = getsockname(socket, reinterpret_cast<sockaddr *>(&local_addr),
                             &local_len);
       ret != 0) {
-    taintdag::error_exit("Failed to get sockname for socket ", socket);
+    return {};
   }
 
   // The only supported address family for now is AF_INET
@@ -454,7 +454,9 @@ static std::optional<std::string> connect_name(int socket) {
   if (int ret = getpeername(socket, reinterpret_cast<sockaddr *>(&remote_addr),
                             &remote_len);
       ret != 0) {
-    taintdag::error_exit("Failed to get peername for socket ", socket);
+    // Not connected: the peer has reset the connection already, or connect
+    // dissolved the association of a datagram socket.
+    return {};
   }
 
   if (!inet_ntop(AF_INET, &(local_addr.sin_addr), local_str,
-- 
2.43.0


From a330c14ae57b8c36f10a7e14534f4b0fcf0e0779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:03 +0000
Subject: [PATCH 51/59] fix: sprintf passed snprintf a size above INT_MAX, for
 which the output is lost

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 3bb55b7..16ccab0 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -15,6 +15,7 @@
 #include <assert.h>
 #include <ctype.h>
 #include <dlfcn.h>
+#include <limits.h>
 #include <link.h>
 #include <poll.h>
 #include <pthread.h>
@@ -2485,7 +2486,7 @@ int __dfsw_sprintf(char *str, const char *format, dfsan_label str_label,
                    dfsan_label *ret_label, ...) {
   va_list ap;
   va_start(ap, ret_label);
-  int ret = format_buffer(str, ~0ul, format, va_labels, ret_label, nullptr,
+  int ret = format_buffer(str, INT_MAX, format, va_labels, ret_label, nullptr,
                           nullptr, ap);
   va_end(ap);
   return ret;
@@ -2499,8 +2500,8 @@ int __dfso_sprintf(char *str, const char *format, dfsan_label str_label,
                    dfsan_origin *ret_origin, ...) {
   va_list ap;
   va_start(ap, ret_origin);
-  int ret = format_buffer(str, ~0ul, format, va_labels, ret_label, va_origins,
-                          ret_origin, ap);
+  int ret = format_buffer(str, INT_MAX, format, va_labels, ret_label,
+                          va_origins, ret_origin, ap);
   va_end(ap);
   return ret;
 }
-- 
2.43.0


From caedfc1f6f2626911f76443dea31ce8de22ce4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:04 +0000
Subject: [PATCH 52/59] fix: do not label anonymous mappings with the bytes of
 an ignored descriptor

---
 polytracker/src/taint_sources/taint_sources.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index 55ba029..e1ca4fe 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -382,7 +382,8 @@ EXT_C_FUNC void *__dfsw_mmap(void *start, size_t length, int prot, int flags,
                              dfsan_label offset_label, dfsan_label *ret_label) {
   auto offs = Offset::from_off_t(offset);
   void *ret = mmap(start, length, prot, flags, fd, offset);
-  if (ret != MAP_FAILED) {
+  // The descriptor of an anonymous mapping is ignored
+  if (ret != MAP_FAILED && !(flags & MAP_ANONYMOUS)) {
     get_polytracker_tdag().source_taint(fd, ret, offs, length);
   }
 
-- 
2.43.0


From 17cfd0fc47f3167e3e9c5814b8c2b05f9e5917ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:50 +0000
Subject: [PATCH 53/59] fix: next_function_entry never returned once a function
 had returned to a basic block

---
 polytracker/tracing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polytracker/tracing.py b/polytracker/tracing.py
index f0068c4..ad4de88 100644
--- a/polytracker/tracing.py
+++ b/polytracker/tracing.py
@@ -1194,10 +1194,11 @@ class ProgramTrace(ABC):
         if function_return is None:
             next_event = after.next_control_flow_event
         else:
-            next_event = function_return.returning_to
+            next_event = function_return.next_control_flow_event
         while next_event is not None:
             if isinstance(next_event, FunctionEntry):
                 return next_event
+            next_event = next_event.next_control_flow_event
         return None
 
     @property
-- 
2.43.0


From 403a9116921577daedb147a788f4a2f4fae0c19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:50 +0000
Subject: [PATCH 54/59] fix: input_properties failed when a byte of the input
 was never used

---
 polytracker/tracing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polytracker/tracing.py b/polytracker/tracing.py
index ad4de88..fa623d1 100644
--- a/polytracker/tracing.py
+++ b/polytracker/tracing.py
@@ -1108,7 +1108,9 @@ class ProgramTrace(ABC):
             for previous_offset, (previous, first_used) in enumerate(
                 zip(first_usages, first_usages[1:])
             )
-            if previous > first_used  # type: ignore
+            if previous is not None
+            and first_used is not None
+            and previous > first_used
         ]
         return InputProperties(
             unused_byte_offsets=unused_bytes,
-- 
2.43.0


From d27dec802d5cdf5976cdaa8ebc278e7377c46609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:00 +0000
Subject: [PATCH 55/59] fix: the number of descendants of a parse tree stayed
 the same when the tree changed

---
 polytracker/parsing.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/polytracker/parsing.py b/polytracker/parsing.py
index d6c86b5..d3982ee 100644
--- a/polytracker/parsing.py
+++ b/polytracker/parsing.py
@@ -27,11 +27,10 @@ T = TypeVar("T", bound="ParseTree")
 
 
 class ParseTree(ABC, Generic[V]):
-    __slots__ = "value", "_descendants"
+    __slots__ = ("value",)
 
     def __init__(self, value: V):
         self.value: V = value
-        self._descendants: Optional[int] = None
 
     @property
     @abstractmethod
@@ -52,10 +51,8 @@ class ParseTree(ABC, Generic[V]):
 
     @property
     def descendants(self) -> int:
-        if self._descendants is None:
-            for n in self.postorder_traversal():
-                n._descendants = sum(c._descendants for c in n.children) + len(n)  # type: ignore
-        return self._descendants  # type: ignore
+        # this is not cached because the children of a node can change
+        return sum(len(n) for n in self.preorder_traversal())
 
     def postorder_traversal(self: T) -> Iterator[T]:
         s: List[Tuple[bool, T]] = [(False, self)]
-- 
2.43.0


From dfa3227f33ef117d51382caa71b19bf59f900013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:00 +0000
Subject: [PATCH 56/59] fix: clones of non-generalized parse trees lost the
 byte ranges of their nodes

---
 polytracker/parsing.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/polytracker/parsing.py b/polytracker/parsing.py
index d3982ee..b400de2 100644
--- a/polytracker/parsing.py
+++ b/polytracker/parsing.py
@@ -328,6 +328,16 @@ class NonGeneralizedParseTree(MutableParseTree[Union[Start, TraceEvent, Terminal
             return self._end
         return self.intervals.end()
 
+    def clone(self: G) -> G:
+        cloned = super().clone()
+        for original, copy in zip(
+            self.preorder_traversal(), cloned.preorder_traversal()
+        ):
+            copy.intervals = original.intervals.copy()
+            copy._begin = original._begin
+            copy._end = original._end
+        return cloned
+
     def terminals(self) -> Iterator[Terminal]:
         for leaf in self.leaves():  # type: ignore
             assert isinstance(leaf.value, Terminal)
-- 
2.43.0


From 28b5d4b1e92339f57794d28d2e9e9a11550157ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:00 +0000
Subject: [PATCH 57/59] fix: no parse tree for traces in which blocks that do
 not follow each other touch the same bytes

---
 polytracker/parsing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/polytracker/parsing.py b/polytracker/parsing.py
index b400de2..5ed8495 100644
--- a/polytracker/parsing.py
+++ b/polytracker/parsing.py
@@ -516,8 +516,9 @@ class NonGeneralizedParseTree(MutableParseTree[Union[Start, TraceEvent, Terminal
             child for child in self.children if child.begin_offset < child.end_offset
         ]
         # ensure that none of our children's intervals overlap
-        for child, right_sibling in zip(self.children, self.children[1:]):
-            child.deconflict_sibling(right_sibling)
+        for i, child in enumerate(self.children):
+            for right_sibling in self.children[i + 1 :]:
+                child.deconflict_sibling(right_sibling)
         for child in self.children:
             # update our intervals based off of the child
             self.intervals |= child.intervals
-- 
2.43.0


From 9fa3e26e4acb9e515089957c90a0ccd2473d4c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:44 +0000
Subject: [PATCH 58/59] fix: descendants of a graph node left out leaves and
 contained the node itself

---
 polytracker/graphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/graphs.py b/polytracker/graphs.py
index 0f8586a..5c49c80 100644
--- a/polytracker/graphs.py
+++ b/polytracker/graphs.py
@@ -122,7 +122,7 @@ class DiGraph(nx.DiGraph, Generic[N]):
         return ret
 
     def descendants(self, node: N) -> FrozenSet[N]:
-        return frozenset(nx.dfs_successors(self, node).keys())
+        return frozenset(nx.descendants(self, node))
 
     @property
     def dominator_forest(self) -> "DAG[N]":
-- 
2.43.0


From fcbb9ef1e4d5debdfb1fcbe4e2f1422e70b7d82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:46 +0000
Subject: [PATCH 59/59] fix: matching did not end for cyclic grammars with
 empty terminals

---
 polytracker/grammars.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index 1bbc481..2a923a3 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -65,6 +65,9 @@ class Rule:
         seq: List[Symbol] = []
         for t in sequence:
             if isinstance(t, Terminal):
+                if not t.terminal:
+                    # an empty terminal produces nothing
+                    continue
                 if seq and isinstance(seq[-1], Terminal):
                     seq[-1] = seq[-1] + t
                 else:
-- 
2.43.0

