From 2c1a511b298720b2f9b422c29ac635fd563e1103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 01/42] fix: report inotify queue overflows as overflows

The kernel gives an overflow event the watch descriptor -1, which is never
in our path map, so every overflow was reported as a phantom event.
---
 .../detail/wtr/watcher/adapter/linux/inotify/watch.hpp        | 4 ++--
 include/wtr/watcher.hpp                                       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 2db6bc6..54120fa 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -337,10 +337,10 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         return result::e_sys_ret;
       else if (is_parity_lost(msk) && ! dmrm.push(in_ev->wd))
         return result::e_sys_ret;
+      else if (msk & IN_Q_OVERFLOW)
+        send_msg(result::w_sys_q_overflow, "", cb);
       else if (dmhit == sr.ke.dm.end())
         send_msg(result::w_sys_phantom, "", cb);
-      else if (msk & IN_Q_OVERFLOW)
-        send_msg(result::w_sys_q_overflow, dmhit->second.c_str(), cb);
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(dmhit->second, in_ev, in_ev_tail);
         if (msk & IN_ISDIR && msk & IN_CREATE)
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index bc1c85f..7f0e693 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1616,10 +1616,10 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         return result::e_sys_ret;
       else if (is_parity_lost(msk) && ! dmrm.push(in_ev->wd))
         return result::e_sys_ret;
+      else if (msk & IN_Q_OVERFLOW)
+        send_msg(result::w_sys_q_overflow, "", cb);
       else if (dmhit == sr.ke.dm.end())
         send_msg(result::w_sys_phantom, "", cb);
-      else if (msk & IN_Q_OVERFLOW)
-        send_msg(result::w_sys_q_overflow, dmhit->second.c_str(), cb);
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(dmhit->second, in_ev, in_ev_tail);
         if (msk & IN_ISDIR && msk & IN_CREATE)
-- 
2.43.0


From b217f3ccd00f0fbb7168a363542954a77432d1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 02/42] fix: name both directories of an inotify rename

The destination of a rename was looked up in the directory of its source, so
a move between two watched directories reported a path which never existed.
Each half of the pair now uses its own watch descriptor. A pair which comes
in the order (to, from) is also no longer delivered twice.
---
 .../watcher/adapter/linux/inotify/watch.hpp   | 21 +++++++++++++------
 include/wtr/watcher.hpp                       | 21 +++++++++++++------
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 54120fa..3aab356 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -178,7 +178,7 @@ struct parsed {
 };
 
 inline auto parse_ev = [](
-                         std::filesystem::path const& dirname,
+                         ke_in_ev::paths const& dm,
                          inotify_event const* const in,
                          inotify_event const* const tail) -> parsed
 {
@@ -186,7 +186,9 @@ inline auto parse_ev = [](
   using ev_pt = enum ev::path_type;
   using ev_et = enum ev::effect_type;
   auto pathof = [&](inotify_event const* const m)
-  { return dirname / std::filesystem::path{m->name}; };
+  { return dm.find(m->wd)->second / std::filesystem::path{m->name}; };
+  auto isknown = [&](inotify_event const* const m) -> bool
+  { return dm.find(m->wd) != dm.end(); };
   auto pt = in->mask & IN_ISDIR ? ev_pt::dir : ev_pt::file;
   auto et = in->mask & IN_CREATE ? ev_et::create
           : in->mask & IN_DELETE ? ev_et::destroy
@@ -194,14 +196,21 @@ inline auto parse_ev = [](
           : in->mask & IN_MODIFY ? ev_et::modify
                                  : ev_et::other;
   auto isassoc = [&](auto* a, auto* b) -> bool
-  { return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename; };
+  {
+    return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename
+        && isknown(b);
+  };
   auto isfromto = [](auto* a, auto* b) -> bool
   { return (a->mask & IN_MOVED_FROM) && (b->mask & IN_MOVED_TO); };
   auto one = [&](auto* a, auto* next) -> parsed
   { return {ev(pathof(a), et, pt), next}; };
-  auto assoc = [&](auto* a, auto* b) -> parsed
-  { return {ev(ev(pathof(a), et, pt), ev(pathof(b), et, pt)), peek(b, tail)}; };
   auto next = peek(in, tail);
+  auto assoc = [&](auto* a, auto* b) -> parsed
+  {
+    return {
+      ev(ev(pathof(a), et, pt), ev(pathof(b), et, pt)),
+      peek(next, tail)};
+  };
   return ! isassoc(in, next) ? one(in, next)
        : isfromto(in, next)  ? assoc(in, next)
        : isfromto(next, in)  ? assoc(next, in)
@@ -342,7 +351,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       else if (dmhit == sr.ke.dm.end())
         send_msg(result::w_sys_phantom, "", cb);
       else if (is_real_event(msk)) {
-        auto [ev, next] = parse_ev(dmhit->second, in_ev, in_ev_tail);
+        auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
         if (msk & IN_ISDIR && msk & IN_CREATE)
           do_mark(ev.path_name.c_str(), sr.ke.fd, sr.ke.dm, cb);
         cb(ev);
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 7f0e693..1619b7f 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1457,7 +1457,7 @@ struct parsed {
 };
 
 inline auto parse_ev = [](
-                         std::filesystem::path const& dirname,
+                         ke_in_ev::paths const& dm,
                          inotify_event const* const in,
                          inotify_event const* const tail) -> parsed
 {
@@ -1465,7 +1465,9 @@ inline auto parse_ev = [](
   using ev_pt = enum ev::path_type;
   using ev_et = enum ev::effect_type;
   auto pathof = [&](inotify_event const* const m)
-  { return dirname / std::filesystem::path{m->name}; };
+  { return dm.find(m->wd)->second / std::filesystem::path{m->name}; };
+  auto isknown = [&](inotify_event const* const m) -> bool
+  { return dm.find(m->wd) != dm.end(); };
   auto pt = in->mask & IN_ISDIR ? ev_pt::dir : ev_pt::file;
   auto et = in->mask & IN_CREATE ? ev_et::create
           : in->mask & IN_DELETE ? ev_et::destroy
@@ -1473,14 +1475,21 @@ inline auto parse_ev = [](
           : in->mask & IN_MODIFY ? ev_et::modify
                                  : ev_et::other;
   auto isassoc = [&](auto* a, auto* b) -> bool
-  { return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename; };
+  {
+    return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename
+        && isknown(b);
+  };
   auto isfromto = [](auto* a, auto* b) -> bool
   { return (a->mask & IN_MOVED_FROM) && (b->mask & IN_MOVED_TO); };
   auto one = [&](auto* a, auto* next) -> parsed
   { return {ev(pathof(a), et, pt), next}; };
-  auto assoc = [&](auto* a, auto* b) -> parsed
-  { return {ev(ev(pathof(a), et, pt), ev(pathof(b), et, pt)), peek(b, tail)}; };
   auto next = peek(in, tail);
+  auto assoc = [&](auto* a, auto* b) -> parsed
+  {
+    return {
+      ev(ev(pathof(a), et, pt), ev(pathof(b), et, pt)),
+      peek(next, tail)};
+  };
   return ! isassoc(in, next) ? one(in, next)
        : isfromto(in, next)  ? assoc(in, next)
        : isfromto(next, in)  ? assoc(next, in)
@@ -1621,7 +1630,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       else if (dmhit == sr.ke.dm.end())
         send_msg(result::w_sys_phantom, "", cb);
       else if (is_real_event(msk)) {
-        auto [ev, next] = parse_ev(dmhit->second, in_ev, in_ev_tail);
+        auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
         if (msk & IN_ISDIR && msk & IN_CREATE)
           do_mark(ev.path_name.c_str(), sr.ke.fd, sr.ke.dm, cb);
         cb(ev);
-- 
2.43.0


From 5ba5c9509021345774195a43609ae77097196659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 03/42] fix: follow directories which appear in, or move
 around, the tree

Only directories which were created were marked, and only the topmost one. A
directory which was moved into the tree was never watched, directories which
were already inside of a new directory were never watched, and events in a
directory which was renamed kept its old path. A directory which can't be
listed is also no longer skipped without a warning.
---
 .../wtr/watcher/adapter/linux/inotify/watch.hpp       |  9 ++++++---
 .../detail/wtr/watcher/adapter/linux/sysres.hpp       |  2 +-
 include/wtr/watcher.hpp                               | 11 +++++++----
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 3aab356..462555e 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -113,7 +113,7 @@ inline auto do_mark =
            ? inotify_add_watch(dirfd, real, ke_in_ev::recv_mask)
            : -1;
   if (wd > 0)
-    return dm.emplace(wd, real), result::complete;
+    return dm.insert_or_assign(wd, real), result::complete;
   else
     return send_msg(e, dirpath, cb), e;
 };
@@ -352,8 +352,11 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         send_msg(result::w_sys_phantom, "", cb);
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
-        if (msk & IN_ISDIR && msk & IN_CREATE)
-          do_mark(ev.path_name.c_str(), sr.ke.fd, sr.ke.dm, cb);
+        bool is_here = ev.associated || msk & (IN_CREATE | IN_MOVED_TO);
+        if (msk & IN_ISDIR && is_here)
+          walkdir_do(
+            (ev.associated ? ev.associated->path_name : ev.path_name).c_str(),
+            [&](auto dir) { do_mark(dir, sr.ke.fd, sr.ke.dm, cb); });
         cb(ev);
         in_ev_next = next;
       }
diff --git a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
index 5d6a7ba..b8b6289 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
@@ -151,8 +151,8 @@ inline auto is_dir(char const* const path) -> bool
 template<class Fn>
 inline auto walkdir_do(char const* const path, Fn const& f) -> void
 {
+  f(path);
   if (DIR* d = opendir(path)) {
-    f(path);
     while (dirent* de = readdir(d)) {
       char next[PATH_MAX];
       char real[PATH_MAX];
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 1619b7f..58f1d9f 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -967,8 +967,8 @@ inline auto is_dir(char const* const path) -> bool
 template<class Fn>
 inline auto walkdir_do(char const* const path, Fn const& f) -> void
 {
+  f(path);
   if (DIR* d = opendir(path)) {
-    f(path);
     while (dirent* de = readdir(d)) {
       char next[PATH_MAX];
       char real[PATH_MAX];
@@ -1392,7 +1392,7 @@ inline auto do_mark =
            ? inotify_add_watch(dirfd, real, ke_in_ev::recv_mask)
            : -1;
   if (wd > 0)
-    return dm.emplace(wd, real), result::complete;
+    return dm.insert_or_assign(wd, real), result::complete;
   else
     return send_msg(e, dirpath, cb), e;
 };
@@ -1631,8 +1631,11 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         send_msg(result::w_sys_phantom, "", cb);
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
-        if (msk & IN_ISDIR && msk & IN_CREATE)
-          do_mark(ev.path_name.c_str(), sr.ke.fd, sr.ke.dm, cb);
+        bool is_here = ev.associated || msk & (IN_CREATE | IN_MOVED_TO);
+        if (msk & IN_ISDIR && is_here)
+          walkdir_do(
+            (ev.associated ? ev.associated->path_name : ev.path_name).c_str(),
+            [&](auto dir) { do_mark(dir, sr.ke.fd, sr.ke.dm, cb); });
         cb(ev);
         in_ev_next = next;
       }
-- 
2.43.0


From 40d236bebe0df0db43d5626a8881f1b1dd1741a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 04/42] fix: walk directories on filesystems without entry
 types

readdir(3) gives DT_UNKNOWN on filesystems which don't store the type of an
entry. No subdirectory was watched there.
---
 .../detail/wtr/watcher/adapter/linux/sysres.hpp        | 10 +++++++++-
 include/wtr/watcher.hpp                                | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
index b8b6289..fac9a66 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
@@ -128,6 +128,13 @@ inline auto is_dir(char const* const path) -> bool
   return stat(path, &s) == 0 && S_ISDIR(s.st_mode);
 }
 
+/*  The same, but not through symbolic links. */
+inline auto is_real_dir(char const* const path) -> bool
+{
+  struct stat s;
+  return lstat(path, &s) == 0 && S_ISDIR(s.st_mode);
+}
+
 /*  $ echo time wtr.watcher / -ms 1
       | sudo bash -E
       ...
@@ -156,10 +163,11 @@ inline auto walkdir_do(char const* const path, Fn const& f) -> void
     while (dirent* de = readdir(d)) {
       char next[PATH_MAX];
       char real[PATH_MAX];
-      if (de->d_type != DT_DIR) continue;
+      if (de->d_type != DT_DIR && de->d_type != DT_UNKNOWN) continue;
       if (strcmp(de->d_name, ".") == 0) continue;
       if (strcmp(de->d_name, "..") == 0) continue;
       if (snprintf(next, PATH_MAX, "%s/%s", path, de->d_name) <= 0) continue;
+      if (de->d_type == DT_UNKNOWN && ! is_real_dir(next)) continue;
       if (! realpath(next, real)) continue;
       walkdir_do(real, f);
     }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 58f1d9f..cc156b8 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -944,6 +944,13 @@ inline auto is_dir(char const* const path) -> bool
   return stat(path, &s) == 0 && S_ISDIR(s.st_mode);
 }
 
+/*  The same, but not through symbolic links. */
+inline auto is_real_dir(char const* const path) -> bool
+{
+  struct stat s;
+  return lstat(path, &s) == 0 && S_ISDIR(s.st_mode);
+}
+
 /*  $ echo time wtr.watcher / -ms 1
       | sudo bash -E
       ...
@@ -972,10 +979,11 @@ inline auto walkdir_do(char const* const path, Fn const& f) -> void
     while (dirent* de = readdir(d)) {
       char next[PATH_MAX];
       char real[PATH_MAX];
-      if (de->d_type != DT_DIR) continue;
+      if (de->d_type != DT_DIR && de->d_type != DT_UNKNOWN) continue;
       if (strcmp(de->d_name, ".") == 0) continue;
       if (strcmp(de->d_name, "..") == 0) continue;
       if (snprintf(next, PATH_MAX, "%s/%s", path, de->d_name) <= 0) continue;
+      if (de->d_type == DT_UNKNOWN && ! is_real_dir(next)) continue;
       if (! realpath(next, real)) continue;
       walkdir_do(real, f);
     }
-- 
2.43.0


From 821bedf741e2ac8861f17ad530fbe67c48574808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:05 +0000
Subject: [PATCH 05/42] fix: don't forget a request to stop

When the stop and the filesystem events were ready at once, in that order,
the result of reading the events overwrote our decision to stop.
---
 devel/include/detail/wtr/watcher/adapter/linux/watch.hpp | 2 +-
 include/wtr/watcher.hpp                                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
index a3cb946..5ac05b3 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
@@ -29,7 +29,7 @@ inline auto watch =
       if (ep_c < 0)
         sr.ok = result::e_sys_api_epoll;
       else
-        for (int n = 0; n < ep_c; ++n)
+        for (int n = 0; n < ep_c && sr.ok < result::complete; ++n)
           if (is_ev_of(n, sr.il.fd))
             sr.ok = result::complete;
           else if (is_ev_of(n, sr.ke.fd))
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index cc156b8..4524124 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1686,7 +1686,7 @@ inline auto watch =
       if (ep_c < 0)
         sr.ok = result::e_sys_api_epoll;
       else
-        for (int n = 0; n < ep_c; ++n)
+        for (int n = 0; n < ep_c && sr.ok < result::complete; ++n)
           if (is_ev_of(n, sr.il.fd))
             sr.ok = result::complete;
           else if (is_ev_of(n, sr.ke.fd))
-- 
2.43.0


From 23762ce747915b5e18ad8b582c6fdf81c3e369d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:05 +0000
Subject: [PATCH 06/42] fix: keep watching after an interrupted wait

epoll_wait(2) fails with EINTR after a signal handler, or after SIGCONT even
without a handler. A stopped and continued program lost its watcher.
---
 devel/include/detail/wtr/watcher/adapter/linux/watch.hpp | 4 +++-
 include/wtr/watcher.hpp                                  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
index 5ac05b3..86a3cbb 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
@@ -26,7 +26,9 @@ inline auto watch =
     while (sr.ok < result::complete) {
       int ep_c =
         epoll_wait(sr.ep.fd, sr.ep.interests, sr.ep.q_ulim, sr.ep.wake_ms);
-      if (ep_c < 0)
+      if (ep_c < 0 && errno == EINTR)
+        continue;
+      else if (ep_c < 0)
         sr.ok = result::e_sys_api_epoll;
       else
         for (int n = 0; n < ep_c && sr.ok < result::complete; ++n)
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 4524124..55fdb88 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1683,7 +1683,9 @@ inline auto watch =
     while (sr.ok < result::complete) {
       int ep_c =
         epoll_wait(sr.ep.fd, sr.ep.interests, sr.ep.q_ulim, sr.ep.wake_ms);
-      if (ep_c < 0)
+      if (ep_c < 0 && errno == EINTR)
+        continue;
+      else if (ep_c < 0)
         sr.ok = result::e_sys_api_epoll;
       else
         for (int n = 0; n < ep_c && sr.ok < result::complete; ++n)
-- 
2.43.0


From d5e89ca467e5b032c8c33d2935075de7e609362b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:47 +0000
Subject: [PATCH 07/42] fix: don't leak the event descriptors into child
 processes

---
 .../detail/wtr/watcher/adapter/linux/fanotify/watch.hpp        | 1 +
 .../include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp | 2 +-
 include/wtr/watcher.hpp                                        | 3 ++-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 49f995e..ed89fc3 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -45,6 +45,7 @@ struct ke_fa_ev {
     | FAN_REPORT_NAME
     | FAN_UNLIMITED_QUEUE
     | FAN_UNLIMITED_MARKS
+    | FAN_CLOEXEC
     | FAN_NONBLOCK;
   /*  todo: Support change of ownership w/ FAN_ATTRIB */
   static constexpr auto recv_flags
diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 462555e..960b86a 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -126,7 +126,7 @@ inline auto make_sysres = [](
   auto make_inotify = [](result* ok) -> int
   {
     if (*ok >= result::e) return -1;
-    int in_fd = inotify_init();
+    int in_fd = inotify_init1(IN_CLOEXEC);
     if (in_fd < 0) *ok = result::e_sys_api_inotify;
     return in_fd;
   };
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 55fdb88..12589b9 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1039,6 +1039,7 @@ struct ke_fa_ev {
     | FAN_REPORT_NAME
     | FAN_UNLIMITED_QUEUE
     | FAN_UNLIMITED_MARKS
+    | FAN_CLOEXEC
     | FAN_NONBLOCK;
   /*  todo: Support change of ownership w/ FAN_ATTRIB */
   static constexpr auto recv_flags
@@ -1413,7 +1414,7 @@ inline auto make_sysres = [](
   auto make_inotify = [](result* ok) -> int
   {
     if (*ok >= result::e) return -1;
-    int in_fd = inotify_init();
+    int in_fd = inotify_init1(IN_CLOEXEC);
     if (in_fd < 0) *ok = result::e_sys_api_inotify;
     return in_fd;
   };
-- 
2.43.0


From 875abd34bc3d61170e333c003ce4f435366eb93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:47 +0000
Subject: [PATCH 08/42] fix: a failed readlink is not an offset, descriptor
 zero is valid

---
 .../wtr/watcher/adapter/linux/fanotify/watch.hpp      | 11 ++++++++---
 include/wtr/watcher.hpp                               | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index ed89fc3..26c644f 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -95,10 +95,10 @@ inline auto make_sysres = [](
                             semabin const& living) -> sysres
 {
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
-  if (fa_fd < 1) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
+  if (fa_fd < 0) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
   walkdir_do(base_path, [&](auto dir) { do_mark(dir, fa_fd, cb); });
   auto ep = make_ep(fa_fd, living.fd);
-  if (ep.fd < 1)
+  if (ep.fd < 0)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
   return sysres{
     .ok = result::pending,
@@ -149,13 +149,18 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
   ssize_t file_name_offset = 0;
   /*  Directory name */
   int fd = open_by_handle_at(AT_FDCWD, dir_fh, ofl);
-  if (fd <= 0) {
+  if (fd < 0) {
     *ec = errno;
     return {};
   }
   char fs_ev_pidpath[32] = {0};
   snprintf(fs_ev_pidpath, sizeof(fs_ev_pidpath), "/proc/self/fd/%d", fd);
   file_name_offset = readlink(fs_ev_pidpath, path_buf, path_ulim);
+  if (file_name_offset < 0) {
+    *ec = errno;
+    close(fd);
+    return {};
+  }
   close(fd);
   path_buf[file_name_offset] = 0;
   /*  File name ("Directory entry")
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 12589b9..f179957 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1089,10 +1089,10 @@ inline auto make_sysres = [](
                             semabin const& living) -> sysres
 {
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
-  if (fa_fd < 1) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
+  if (fa_fd < 0) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
   walkdir_do(base_path, [&](auto dir) { do_mark(dir, fa_fd, cb); });
   auto ep = make_ep(fa_fd, living.fd);
-  if (ep.fd < 1)
+  if (ep.fd < 0)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
   return sysres{
     .ok = result::pending,
@@ -1143,13 +1143,18 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
   ssize_t file_name_offset = 0;
   /*  Directory name */
   int fd = open_by_handle_at(AT_FDCWD, dir_fh, ofl);
-  if (fd <= 0) {
+  if (fd < 0) {
     *ec = errno;
     return {};
   }
   char fs_ev_pidpath[32] = {0};
   snprintf(fs_ev_pidpath, sizeof(fs_ev_pidpath), "/proc/self/fd/%d", fd);
   file_name_offset = readlink(fs_ev_pidpath, path_buf, path_ulim);
+  if (file_name_offset < 0) {
+    *ec = errno;
+    close(fd);
+    return {};
+  }
   close(fd);
   path_buf[file_name_offset] = 0;
   /*  File name ("Directory entry")
-- 
2.43.0


From db3dca4401258eb9de6f03582a8fc235371b8b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:47 +0000
Subject: [PATCH 09/42] fix: report fanotify warnings and read errors, keep the
 rest of a batch

---
 .../watcher/adapter/linux/fanotify/watch.hpp  | 30 +++++++++++--------
 include/wtr/watcher.hpp                       | 30 +++++++++++--------
 2 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 26c644f..024506f 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -267,31 +267,37 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   unsigned read_ev_count = 0;
   int read_len = read(sr.ke.fd, sr.ke.buf, sr.ke.buf_len);
   auto const* mtd = (fanotify_event_metadata*)(sr.ke.buf);
-  if (read_len <= 0 && errno != EAGAIN)
-    return result::pending;
-  else if (read_len < 0)
+  if (read_len < 0 && errno != EAGAIN && errno != EINTR)
     return result::e_sys_api_read;
   else
-    while (mtd && FAN_EVENT_OK(mtd, read_len))
+    while (mtd && FAN_EVENT_OK(mtd, read_len)) {
+      auto next = peek(mtd, read_len);
+      auto len = mtd->event_len;
       if (read_ev_count++ > sr.ke.c_ulim)
         return result::e_sys_ret;
       else if (mtd->vers != FANOTIFY_METADATA_VERSION)
         return result::e_sys_lim_kernel_version;
       else if (mtd->fd != FAN_NOFD)
-        return result::w_sys_bad_fd;
+        close(mtd->fd), send_msg(result::w_sys_bad_fd, "", cb);
       else if (mtd->mask & FAN_Q_OVERFLOW)
-        return result::w_sys_q_overflow;
+        send_msg(result::w_sys_q_overflow, "", cb);
       else if (! ev_has_dirname(mtd))
-        return result::w_sys_bad_meta;
+        send_msg(result::w_sys_bad_meta, "", cb);
       else {
         int ec = 0;
         auto [ev, n, l] = parse_ev(mtd, read_len, &ec);
-        if (ec) return result::w_sys_bad_fd;
-        do_mark_if_newdir(ev, sr.ke.fd, cb);
-        cb(ev);
-        mtd = n;
-        read_len -= l;
+        if (ec)
+          send_msg(result::w_sys_bad_fd, "", cb);
+        else {
+          do_mark_if_newdir(ev, sr.ke.fd, cb);
+          cb(ev);
+        }
+        next = n;
+        len = l;
       }
+      mtd = next;
+      read_len -= len;
+    }
   return result::pending;
 };
 
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index f179957..8ee7473 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1261,31 +1261,37 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   unsigned read_ev_count = 0;
   int read_len = read(sr.ke.fd, sr.ke.buf, sr.ke.buf_len);
   auto const* mtd = (fanotify_event_metadata*)(sr.ke.buf);
-  if (read_len <= 0 && errno != EAGAIN)
-    return result::pending;
-  else if (read_len < 0)
+  if (read_len < 0 && errno != EAGAIN && errno != EINTR)
     return result::e_sys_api_read;
   else
-    while (mtd && FAN_EVENT_OK(mtd, read_len))
+    while (mtd && FAN_EVENT_OK(mtd, read_len)) {
+      auto next = peek(mtd, read_len);
+      auto len = mtd->event_len;
       if (read_ev_count++ > sr.ke.c_ulim)
         return result::e_sys_ret;
       else if (mtd->vers != FANOTIFY_METADATA_VERSION)
         return result::e_sys_lim_kernel_version;
       else if (mtd->fd != FAN_NOFD)
-        return result::w_sys_bad_fd;
+        close(mtd->fd), send_msg(result::w_sys_bad_fd, "", cb);
       else if (mtd->mask & FAN_Q_OVERFLOW)
-        return result::w_sys_q_overflow;
+        send_msg(result::w_sys_q_overflow, "", cb);
       else if (! ev_has_dirname(mtd))
-        return result::w_sys_bad_meta;
+        send_msg(result::w_sys_bad_meta, "", cb);
       else {
         int ec = 0;
         auto [ev, n, l] = parse_ev(mtd, read_len, &ec);
-        if (ec) return result::w_sys_bad_fd;
-        do_mark_if_newdir(ev, sr.ke.fd, cb);
-        cb(ev);
-        mtd = n;
-        read_len -= l;
+        if (ec)
+          send_msg(result::w_sys_bad_fd, "", cb);
+        else {
+          do_mark_if_newdir(ev, sr.ke.fd, cb);
+          cb(ev);
+        }
+        next = n;
+        len = l;
       }
+      mtd = next;
+      read_len -= len;
+    }
   return result::pending;
 };
 
-- 
2.43.0


From dff44bfaa500869bb20a7da95eacab942e4de024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:47 +0000
Subject: [PATCH 10/42] fix: pair only whole, adjacent fanotify renames, and
 only once

---
 .../wtr/watcher/adapter/linux/fanotify/watch.hpp  | 15 +++++++++++----
 include/wtr/watcher.hpp                           | 15 +++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 024506f..0648848 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -208,18 +208,25 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
           : m->mask & FAN_MODIFY ? ev_et::modify
           : m->mask & FAN_MOVE   ? ev_et::rename
                                  : ev_et::other;
+  auto has_path = [](auto* m) -> bool
+  {
+    return m->vers == FANOTIFY_METADATA_VERSION && m->fd == FAN_NOFD
+        && ! (m->mask & FAN_Q_OVERFLOW)
+        && ((fanotify_event_info_fid*)(m + 1))->hdr.info_type
+             == FAN_EVENT_INFO_TYPE_DFID_NAME;
+  };
   auto isfromto = [et](unsigned a, unsigned b) -> bool
   { return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO; };
   auto one = [&](auto* m) -> Parsed
   { return {ev(pathof(m, ec), et, pt), n, m->event_len}; };
-  auto assoc = [&](auto* m, auto* n) -> Parsed
+  auto assoc = [&](auto* a, auto* b) -> Parsed
   {
-    auto nn = peek(n, read_len);
+    auto nn = peek(n, read_len - m->event_len);
     auto here_to_nnn = m->event_len + n->event_len;
-    auto e = ev(ev(pathof(m, ec), et, pt), ev(pathof(n, ec), et, pt));
+    auto e = ev(ev(pathof(a, ec), et, pt), ev(pathof(b, ec), et, pt));
     return {e, nn, here_to_nnn};
   };
-  return ! n                        ? one(m)
+  return ! n || ! has_path(n)       ? one(m)
        : isfromto(m->mask, n->mask) ? assoc(m, n)
        : isfromto(n->mask, m->mask) ? assoc(n, m)
                                     : one(m);
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 8ee7473..4242eb8 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1202,18 +1202,25 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
           : m->mask & FAN_MODIFY ? ev_et::modify
           : m->mask & FAN_MOVE   ? ev_et::rename
                                  : ev_et::other;
+  auto has_path = [](auto* m) -> bool
+  {
+    return m->vers == FANOTIFY_METADATA_VERSION && m->fd == FAN_NOFD
+        && ! (m->mask & FAN_Q_OVERFLOW)
+        && ((fanotify_event_info_fid*)(m + 1))->hdr.info_type
+             == FAN_EVENT_INFO_TYPE_DFID_NAME;
+  };
   auto isfromto = [et](unsigned a, unsigned b) -> bool
   { return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO; };
   auto one = [&](auto* m) -> Parsed
   { return {ev(pathof(m, ec), et, pt), n, m->event_len}; };
-  auto assoc = [&](auto* m, auto* n) -> Parsed
+  auto assoc = [&](auto* a, auto* b) -> Parsed
   {
-    auto nn = peek(n, read_len);
+    auto nn = peek(n, read_len - m->event_len);
     auto here_to_nnn = m->event_len + n->event_len;
-    auto e = ev(ev(pathof(m, ec), et, pt), ev(pathof(n, ec), et, pt));
+    auto e = ev(ev(pathof(a, ec), et, pt), ev(pathof(b, ec), et, pt));
     return {e, nn, here_to_nnn};
   };
-  return ! n                        ? one(m)
+  return ! n || ! has_path(n)       ? one(m)
        : isfromto(m->mask, n->mask) ? assoc(m, n)
        : isfromto(n->mask, m->mask) ? assoc(n, m)
                                     : one(m);
-- 
2.43.0


From fa44afd4c132fc4de3f51c2a693caa545bcb8d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:47 +0000
Subject: [PATCH 11/42] fix: follow whole directories, created or moved, with
 fanotify

---
 .../watcher/adapter/linux/fanotify/watch.hpp  | 19 +++++++++++--------
 include/wtr/watcher.hpp                       | 19 +++++++++++--------
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 0648848..700e769 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -233,14 +233,17 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
 }
 
 inline auto do_mark_if_newdir =
-  [](::wtr::watcher::event const& ev, int fa_fd, auto const& cb) -> result
+  [](
+    ::wtr::watcher::event const& ev,
+    unsigned long long mask,
+    int fa_fd,
+    auto const& cb) -> void
 {
-  auto is_newdir = ev.effect_type == ::wtr::watcher::event::effect_type::create
-                && ev.path_type == ::wtr::watcher::event::path_type::dir;
-  if (is_newdir)
-    return do_mark(ev.path_name.c_str(), fa_fd, cb);
-  else
-    return result::complete;
+  auto is_here = ev.associated || mask & (FAN_CREATE | FAN_MOVED_TO);
+  auto is_newdir = ev.path_type == ::wtr::watcher::event::path_type::dir;
+  auto const& path = ev.associated ? ev.associated->path_name : ev.path_name;
+  if (is_here && is_newdir)
+    walkdir_do(path.c_str(), [&](auto dir) { do_mark(dir, fa_fd, cb); });
 };
 
 /*  Read some events from what fanotify gives
@@ -296,7 +299,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         if (ec)
           send_msg(result::w_sys_bad_fd, "", cb);
         else {
-          do_mark_if_newdir(ev, sr.ke.fd, cb);
+          do_mark_if_newdir(ev, mtd->mask, sr.ke.fd, cb);
           cb(ev);
         }
         next = n;
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 4242eb8..3516895 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1227,14 +1227,17 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
 }
 
 inline auto do_mark_if_newdir =
-  [](::wtr::watcher::event const& ev, int fa_fd, auto const& cb) -> result
+  [](
+    ::wtr::watcher::event const& ev,
+    unsigned long long mask,
+    int fa_fd,
+    auto const& cb) -> void
 {
-  auto is_newdir = ev.effect_type == ::wtr::watcher::event::effect_type::create
-                && ev.path_type == ::wtr::watcher::event::path_type::dir;
-  if (is_newdir)
-    return do_mark(ev.path_name.c_str(), fa_fd, cb);
-  else
-    return result::complete;
+  auto is_here = ev.associated || mask & (FAN_CREATE | FAN_MOVED_TO);
+  auto is_newdir = ev.path_type == ::wtr::watcher::event::path_type::dir;
+  auto const& path = ev.associated ? ev.associated->path_name : ev.path_name;
+  if (is_here && is_newdir)
+    walkdir_do(path.c_str(), [&](auto dir) { do_mark(dir, fa_fd, cb); });
 };
 
 /*  Read some events from what fanotify gives
@@ -1290,7 +1293,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         if (ec)
           send_msg(result::w_sys_bad_fd, "", cb);
         else {
-          do_mark_if_newdir(ev, sr.ke.fd, cb);
+          do_mark_if_newdir(ev, mtd->mask, sr.ke.fd, cb);
           cb(ev);
         }
         next = n;
-- 
2.43.0


From f72420843b5b3da5e2a0fa6436872767226d7a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 12/42] fix: render every event time whole, and without padding

---
 devel/include/wtr/watcher-/event.hpp | 11 ++++++-----
 include/wtr/watcher.hpp              | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/devel/include/wtr/watcher-/event.hpp b/devel/include/wtr/watcher-/event.hpp
index ce6aaad..b08d0e2 100644
--- a/devel/include/wtr/watcher-/event.hpp
+++ b/devel/include/wtr/watcher-/event.hpp
@@ -225,20 +225,21 @@ inline auto num_to_str(long long from) noexcept -> std::basic_string<Char> {
   );
   static_assert(is_narrow_char || is_wide_char);
 
-  static constexpr auto buflen = std::numeric_limits<decltype(from)>::digits10 + 1;
+  static constexpr auto buflen = std::numeric_limits<decltype(from)>::digits10 + 2;
   auto buf = std::array<char, buflen>{0};
-  auto [_, ec] = std::to_chars(buf.data(), buf.data() + buf.size(), from);
+  auto [end, ec] = std::to_chars(buf.data(), buf.data() + buf.size(), from);
+  auto len = static_cast<std::size_t>(end - buf.data());
   if (ec != std::errc{}) {
     return {};
   }
   else if constexpr (is_narrow_char) {
-    return {reinterpret_cast<Char const*>(buf.data()), buflen};
+    return {reinterpret_cast<Char const*>(buf.data()), len};
   }
   else if constexpr (is_wide_char) {
     auto xbuf = std::array<Char, buflen>{0};
-    for (std::size_t i = 0; i < buflen; ++i)
+    for (std::size_t i = 0; i < len; ++i)
       xbuf[i] = static_cast<Char>(static_cast<unsigned char>(buf[i]));
-    return {xbuf.data(), buflen};
+    return {xbuf.data(), len};
   }
 };
 
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 3516895..f45115a 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -226,20 +226,21 @@ inline auto num_to_str(long long from) noexcept -> std::basic_string<Char> {
   );
   static_assert(is_narrow_char || is_wide_char);
 
-  static constexpr auto buflen = std::numeric_limits<decltype(from)>::digits10 + 1;
+  static constexpr auto buflen = std::numeric_limits<decltype(from)>::digits10 + 2;
   auto buf = std::array<char, buflen>{0};
-  auto [_, ec] = std::to_chars(buf.data(), buf.data() + buf.size(), from);
+  auto [end, ec] = std::to_chars(buf.data(), buf.data() + buf.size(), from);
+  auto len = static_cast<std::size_t>(end - buf.data());
   if (ec != std::errc{}) {
     return {};
   }
   else if constexpr (is_narrow_char) {
-    return {reinterpret_cast<Char const*>(buf.data()), buflen};
+    return {reinterpret_cast<Char const*>(buf.data()), len};
   }
   else if constexpr (is_wide_char) {
     auto xbuf = std::array<Char, buflen>{0};
-    for (std::size_t i = 0; i < buflen; ++i)
+    for (std::size_t i = 0; i < len; ++i)
       xbuf[i] = static_cast<Char>(static_cast<unsigned char>(buf[i]));
-    return {xbuf.data(), buflen};
+    return {xbuf.data(), len};
   }
 };
 
-- 
2.43.0


From 9f9b74c6a3785e7454a1157e30f4c33c5c12c7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 13/42] fix: escape path names in json

---
 devel/include/wtr/watcher-/event.hpp | 24 ++++++++++++++++++++++--
 include/wtr/watcher.hpp              | 24 ++++++++++++++++++++++--
 2 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/devel/include/wtr/watcher-/event.hpp b/devel/include/wtr/watcher-/event.hpp
index b08d0e2..262198b 100644
--- a/devel/include/wtr/watcher-/event.hpp
+++ b/devel/include/wtr/watcher-/event.hpp
@@ -168,11 +168,31 @@ namespace {
     default                                 : return Lit"other"; \
   }
 
+/*  Escapes what a json string can't hold as it is. */
+template<class Char>
+inline auto json_escape(std::basic_string<Char> const& from) noexcept -> std::basic_string<Char> {
+  auto into = std::basic_string<Char>{};
+  for (auto c : from) {
+    if (c == Char('"') || c == Char('\\')) {
+      into += Char('\\');
+      into += c;
+    }
+    else if (c >= Char(0) && c < Char(0x20)) {
+      for (auto x : {'\\', 'u', '0', '0'}) into += Char(x);
+      into += Char("0123456789abcdef"[static_cast<int>(c) >> 4]);
+      into += Char("0123456789abcdef"[static_cast<int>(c) & 15]);
+    }
+    else
+      into += c;
+  }
+  return into;
+};
+
 #define wtr_event_to_str_cls_as_json(Char, from, Lit)                         \
   using Cls = std::basic_string<Char>;                                        \
   auto&& etm = Lit"\"" + to<Cls>(from.effect_time) + Lit"\"";                 \
   auto&& ety = Lit"\"" + to<Cls>(from.effect_type) + Lit"\"";                 \
-  auto&& pnm = Lit"\"" + to<Cls>(from.path_name)   + Lit"\"";                 \
+  auto&& pnm = Lit"\"" + json_escape<Char>(to<Cls>(from.path_name)) + Lit"\""; \
   auto&& pty = Lit"\"" + to<Cls>(from.path_type)   + Lit"\"";                 \
   return {                         etm + Lit":{"                              \
          + Lit"\"effect_type\":" + ety + Lit","                               \
@@ -183,7 +203,7 @@ namespace {
               auto asc = from.associated.get();                               \
               auto ttl = Cls{Lit",\"associated\""};                           \
               auto ety = Lit"\"" + to<Cls>(asc->effect_type) + Lit"\"";       \
-              auto pnm = Lit"\"" + to<Cls>(asc->path_name)   + Lit"\"";       \
+              auto pnm = Lit"\"" + json_escape<Char>(to<Cls>(asc->path_name)) + Lit"\""; \
               auto pty = Lit"\"" + to<Cls>(asc->path_type)   + Lit"\"";       \
               return { ttl                                                    \
                      + Lit":{"                                                \
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index f45115a..0da4317 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -169,11 +169,31 @@ namespace {
     default                                 : return Lit"other"; \
   }
 
+/*  Escapes what a json string can't hold as it is. */
+template<class Char>
+inline auto json_escape(std::basic_string<Char> const& from) noexcept -> std::basic_string<Char> {
+  auto into = std::basic_string<Char>{};
+  for (auto c : from) {
+    if (c == Char('"') || c == Char('\\')) {
+      into += Char('\\');
+      into += c;
+    }
+    else if (c >= Char(0) && c < Char(0x20)) {
+      for (auto x : {'\\', 'u', '0', '0'}) into += Char(x);
+      into += Char("0123456789abcdef"[static_cast<int>(c) >> 4]);
+      into += Char("0123456789abcdef"[static_cast<int>(c) & 15]);
+    }
+    else
+      into += c;
+  }
+  return into;
+};
+
 #define wtr_event_to_str_cls_as_json(Char, from, Lit)                         \
   using Cls = std::basic_string<Char>;                                        \
   auto&& etm = Lit"\"" + to<Cls>(from.effect_time) + Lit"\"";                 \
   auto&& ety = Lit"\"" + to<Cls>(from.effect_type) + Lit"\"";                 \
-  auto&& pnm = Lit"\"" + to<Cls>(from.path_name)   + Lit"\"";                 \
+  auto&& pnm = Lit"\"" + json_escape<Char>(to<Cls>(from.path_name)) + Lit"\""; \
   auto&& pty = Lit"\"" + to<Cls>(from.path_type)   + Lit"\"";                 \
   return {                         etm + Lit":{"                              \
          + Lit"\"effect_type\":" + ety + Lit","                               \
@@ -184,7 +204,7 @@ namespace {
               auto asc = from.associated.get();                               \
               auto ttl = Cls{Lit",\"associated\""};                           \
               auto ety = Lit"\"" + to<Cls>(asc->effect_type) + Lit"\"";       \
-              auto pnm = Lit"\"" + to<Cls>(asc->path_name)   + Lit"\"";       \
+              auto pnm = Lit"\"" + json_escape<Char>(to<Cls>(asc->path_name)) + Lit"\""; \
               auto pty = Lit"\"" + to<Cls>(asc->path_type)   + Lit"\"";       \
               return { ttl                                                    \
                      + Lit":{"                                                \
-- 
2.43.0


From a128f4557efc52bbe1bc94617dc8577d611fe440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:39 +0000
Subject: [PATCH 14/42] fix: escape path names in the json shown

---
 src/wtr/watcher/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wtr/watcher/main.cpp b/src/wtr/watcher/main.cpp
index b59649c..65c1735 100644
--- a/src/wtr/watcher/main.cpp
+++ b/src/wtr/watcher/main.cpp
@@ -97,7 +97,7 @@ auto json(event const& e) -> string
   auto s = [](auto a) { return to<string>(a); };
   auto q = [&](auto a) { return '"' + s(a) + '"'; };
   return "{\"path_type\":"   + q(e.path_type)
-       + ",\"path_name\":"   + q(e.path_name)
+       + ",\"path_name\":\"" + json_escape(s(e.path_name)) + '"'
        + ",\"effect_type\":" + q(e.effect_type)
        + ",\"effect_time\":" + s(e.effect_time)
        + ",\"associated\":"  + tails
-- 
2.43.0


From 62ac819b002704af2376e67507e4797c95f6f5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:39 +0000
Subject: [PATCH 15/42] fix: watch for as long as possible when TIME is too
 large

---
 src/wtr/watcher/main.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/wtr/watcher/main.cpp b/src/wtr/watcher/main.cpp
index 65c1735..36d5f4d 100644
--- a/src/wtr/watcher/main.cpp
+++ b/src/wtr/watcher/main.cpp
@@ -79,8 +79,11 @@ struct Args {
       auto td = strtod(st, (char**)&stend);
       if (is_help || td == HUGE_VAL || td <= 0)
         return nullopt;
-      else
-        return nanoseconds(llroundl(td) * ttons);
+      else {
+        auto ulim = nanoseconds::max().count();
+        auto t = td < ulim ? llroundl(td) : ulim;
+        return nanoseconds(t > ulim / ttons ? ulim : t * ttons);
+      }
     }();
 
     return is_help || path || time
-- 
2.43.0


From bff5d8c2540bd217e454125c747773dd024bfb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:46 +0000
Subject: [PATCH 16/42] fix: release a watcher which failed, and refuse to
 close one twice

---
 watcher-c/src/watcher-c.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/watcher-c/src/watcher-c.cpp b/watcher-c/src/watcher-c.cpp
index 52101fe..7cabbbb 100644
--- a/watcher-c/src/watcher-c.cpp
+++ b/watcher-c/src/watcher-c.cpp
@@ -1,5 +1,8 @@
 #include <cstdint>
 #include <cstdio>
+#include <memory>
+#include <mutex>
+#include <unordered_set>
 #include "wtr/watcher-c.h"
 #include "wtr/watcher.hpp"
 
@@ -9,6 +12,12 @@
 #include <stringapiset.h>
 #endif
 
+/*  The watchers which are open. With these, closing
+    a watcher which has already been closed, or which
+    doesn't exist, is an error and nothing else. */
+static std::mutex open_watchers_mtx;
+static std::unordered_set<void*> open_watchers;
+
 extern "C" {
 
 #ifdef _WIN32
@@ -63,15 +72,20 @@ void* wtr_watcher_open(
     ev_view.effect_time = ev_owned.effect_time;
     callback(ev_view, context);
   };
-  return (void*)new wtr::watcher::watch(path, wrapped_callback);
+  void* watcher = new wtr::watcher::watch(path, wrapped_callback);
+  auto lock = std::lock_guard<std::mutex>(open_watchers_mtx);
+  open_watchers.insert(watcher);
+  return watcher;
 }
 
 bool wtr_watcher_close(void* watcher)
 {
-  if (! watcher) return false;
-  if (! ((wtr::watcher::watch*)watcher)->close()) return false;
-  delete (wtr::watcher::watch*)watcher;
-  return true;
+  {
+    auto lock = std::lock_guard<std::mutex>(open_watchers_mtx);
+    if (! open_watchers.erase(watcher)) return false;
+  }
+  auto owned = std::unique_ptr<wtr::watcher::watch>((wtr::watcher::watch*)watcher);
+  return owned->close();
 }
 
 }  // extern "C"
-- 
2.43.0


From 11d928707bb5ce94d7dcace7d70887e0f505257f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:07 +0000
Subject: [PATCH 17/42] fix: don't drop or leak events when javascript is busy

---
 watcher-nodejs/lib/watcher-napi.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/watcher-nodejs/lib/watcher-napi.cpp b/watcher-nodejs/lib/watcher-napi.cpp
index 62a6af2..e821b7b 100644
--- a/watcher-nodejs/lib/watcher-napi.cpp
+++ b/watcher-nodejs/lib/watcher-napi.cpp
@@ -48,6 +48,15 @@ static napi_value event_to_js_obj(napi_env env, wtr_watcher_event* event)
   return event_obj;
 }
 
+#if WITH_TSFN_NONBLOCKING
+static void free_event(wtr_watcher_event* event)
+{
+  free((void*)event->path_name);
+  free((void*)event->associated_path_name);
+  free(event);
+}
+#endif
+
 /*  Called by the callback bridge when an event is ready.
     Forwards event to js-land for the user.
     Expects an "owned" event, which will be freed in this scope. */
@@ -60,9 +69,7 @@ static void callback_js_receiver(napi_env env, napi_value js_callback, void* _un
   napi_value result = NULL;
   napi_call_function(env, global, js_callback, 1, &event_obj, &result);
 #if WITH_TSFN_NONBLOCKING
-  free((void*)event->path_name);
-  free((void*)event->associated_path_name);
-  free(event);
+  free_event(event);
 #endif
 }
 
@@ -79,8 +86,12 @@ static void callback_bridge(struct wtr_watcher_event event_view, void* ctx)
   event_owned->associated_path_name = event_view.associated_path_name ? strdup(event_view.associated_path_name) : NULL;
   event_owned->effect_type = event_view.effect_type;
   event_owned->path_type = event_view.path_type;
+  napi_status sent = napi_closing;
   if (w->tsfn) {
-    napi_call_threadsafe_function(w->tsfn, event_owned, napi_tsfn_nonblocking);
+    sent = napi_call_threadsafe_function(w->tsfn, event_owned, napi_tsfn_nonblocking);
+  }
+  if (sent != napi_ok) {
+    free_event(event_owned);
   }
 #else
     napi_call_threadsafe_function(wrapper->tsfn, &event_view, napi_tsfn_blocking);
@@ -142,7 +153,8 @@ static napi_value watch(napi_env env, napi_callback_info func_arg_info)
   napi_create_reference(env, js_callback, 1, &wrapper->js_callback_ref);
   napi_value work_name;
   napi_create_string_utf8(env, "Watcher", NAPI_AUTO_LENGTH, &work_name);
-  size_t work_queue_size = 1024;
+  /*  No limit. Events would be dropped at a limit. */
+  size_t work_queue_size = 0;
   napi_create_threadsafe_function(
     env,
     js_callback,
-- 
2.43.0


From f80c3aa8e8932e9eaeedd361c0850e3762021d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:07 +0000
Subject: [PATCH 18/42] fix: watch the whole path given from javascript

---
 watcher-nodejs/lib/watcher-napi.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/watcher-nodejs/lib/watcher-napi.cpp b/watcher-nodejs/lib/watcher-napi.cpp
index e821b7b..f70d405 100644
--- a/watcher-nodejs/lib/watcher-napi.cpp
+++ b/watcher-nodejs/lib/watcher-napi.cpp
@@ -144,10 +144,10 @@ static napi_value watch(napi_env env, napi_callback_info func_arg_info)
     napi_throw_error(env, NULL, "Wrong number of arguments");
     return NULL;
   }
-  char path[4096];
-  memset(path, 0, sizeof(path));
   size_t path_len = 0;
-  napi_get_value_string_utf8(env, args[0], path, sizeof(path), &path_len);
+  napi_get_value_string_utf8(env, args[0], NULL, 0, &path_len);
+  char* path = (char*)calloc(path_len + 1, sizeof(char));
+  napi_get_value_string_utf8(env, args[0], path, path_len + 1, &path_len);
   watcher_lifetime* wrapper = (watcher_lifetime*)malloc(sizeof(watcher_lifetime));
   napi_value js_callback = args[1];
   napi_create_reference(env, js_callback, 1, &wrapper->js_callback_ref);
@@ -168,6 +168,7 @@ static napi_value watch(napi_env env, napi_callback_info func_arg_info)
     callback_js_receiver,
     &wrapper->tsfn);
   wrapper->watcher = wtr_watcher_open(path, callback_bridge, wrapper);
+  free(path);
   if (wrapper->watcher == NULL) {
     napi_throw_error(env, NULL, "Failed to open watcher");
     return NULL;
-- 
2.43.0


From 1b52b9d87f5cb6f37c5bec9a57e066fd4d027b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:19 +0000
Subject: [PATCH 19/42] fix: close a rust watch once

---
 watcher-rs/src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/watcher-rs/src/lib.rs b/watcher-rs/src/lib.rs
index 958063c..f824204 100644
--- a/watcher-rs/src/lib.rs
+++ b/watcher-rs/src/lib.rs
@@ -2,11 +2,13 @@
 #![allow(non_camel_case_types)]
 #![allow(non_snake_case)]
 include!(concat!(env!("OUT_DIR"), "/watcher_c.rs"));
+use core::cell::Cell;
 use core::ffi::c_char;
 use core::ffi::c_void;
 use core::ffi::CStr;
 use core::mem::transmute;
 use core::pin::Pin;
+use core::ptr::null_mut;
 use core::str;
 use core::task::Context;
 use core::task::Poll;
@@ -108,7 +110,7 @@ unsafe extern "C" fn fwd_ev(ev: wtr_watcher_event, cx: *mut c_void) {
 
 #[allow(dead_code)] // tx is used in fwd_ev
 pub struct Watch {
-    w: *mut c_void,
+    w: Cell<*mut c_void>,
     tx: Box<Tx<Event>>,
     rx: Pin<Box<Rx<Event>>>,
 }
@@ -122,12 +124,16 @@ impl Watch {
         let cx = unsafe { transmute::<&Tx<Event>, *mut c_void>(&tx) };
         match unsafe { wtr_watcher_open(p.as_ptr(), Some(fwd_ev), cx) } {
             w if w.is_null() => Err("wtr_watcher_open"),
-            w => Ok(Watch { w, tx, rx }),
+            w => Ok(Watch {
+                w: Cell::new(w),
+                tx,
+                rx,
+            }),
         }
     }
 
     pub fn close(&self) -> Result<(), &'static str> {
-        match unsafe { wtr_watcher_close(self.w) } {
+        match unsafe { wtr_watcher_close(self.w.replace(null_mut())) } {
             false => Err("wtr_watcher_close"),
             true => Ok(()),
         }
-- 
2.43.0


From c749c97bdac563e62543502a0bd1b4d3dc9925e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:19 +0000
Subject: [PATCH 20/42] fix: keep rust paths which are not utf-8

---
 watcher-rs/src/lib.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/watcher-rs/src/lib.rs b/watcher-rs/src/lib.rs
index f824204..0f9c42d 100644
--- a/watcher-rs/src/lib.rs
+++ b/watcher-rs/src/lib.rs
@@ -9,7 +9,6 @@ use core::ffi::CStr;
 use core::mem::transmute;
 use core::pin::Pin;
 use core::ptr::null_mut;
-use core::str;
 use core::task::Context;
 use core::task::Poll;
 use futures::channel::mpsc::unbounded as async_channel;
@@ -55,13 +54,12 @@ pub struct Event {
     pub path_type: PathType,
 }
 
-fn c_chars_as_str<'a>(ptr: *const c_char) -> Option<&'a str> {
+fn c_chars_as_string(ptr: *const c_char) -> Option<String> {
     match ptr.is_null() {
         true => None,
         false => {
             let b = unsafe { CStr::from_ptr(ptr).to_bytes() };
-            let s = str::from_utf8(b).unwrap_or_default();
-            Some(s)
+            Some(String::from_utf8_lossy(b).into_owned())
         }
     }
 }
@@ -95,8 +93,8 @@ fn path_type_from_c(path_type: i8) -> PathType {
 fn ev_from_c<'a>(ev: wtr_watcher_event) -> Event {
     Event {
         effect_time: ev.effect_time,
-        path_name: c_chars_as_str(ev.path_name).unwrap_or_default().to_string(),
-        associated_path_name: c_chars_as_str(ev.associated_path_name).map(str::to_string),
+        path_name: c_chars_as_string(ev.path_name).unwrap_or_default(),
+        associated_path_name: c_chars_as_string(ev.associated_path_name),
         effect_type: effect_type_from_c(ev.effect_type),
         path_type: path_type_from_c(ev.path_type),
     }
-- 
2.43.0


From cbef201a28c4361f8fece7c7a768585af9b8c3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:19 +0000
Subject: [PATCH 21/42] fix: refuse a rust path with a nul byte without
 panicking

---
 watcher-rs/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/watcher-rs/src/lib.rs b/watcher-rs/src/lib.rs
index 0f9c42d..a275aab 100644
--- a/watcher-rs/src/lib.rs
+++ b/watcher-rs/src/lib.rs
@@ -115,7 +115,7 @@ pub struct Watch {
 
 impl Watch {
     pub fn try_new(path: &str) -> Result<Watch, &'static str> {
-        let p = CString::new(path).unwrap();
+        let p = CString::new(path).map_err(|_| "nul byte in path")?;
         let (tx, rx) = async_channel();
         let tx = Box::new(tx);
         let rx = Box::pin(rx);
-- 
2.43.0


From 96435bd3a5e64a84352edf49e93b61703641bccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:19 +0000
Subject: [PATCH 22/42] fix: deliver python events whose path is not utf-8

---
 watcher-py/watcher/watcher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/watcher-py/watcher/watcher.py b/watcher-py/watcher/watcher.py
index 3a263d4..11e33a5 100644
--- a/watcher-py/watcher/watcher.py
+++ b/watcher-py/watcher/watcher.py
@@ -65,9 +65,9 @@ def _as_utf8(s: str | bytes | memoryview | None) -> str:
     if isinstance(s, str):
         return s
     if isinstance(s, memoryview):
-        return s.tobytes().decode("utf-8")
+        return s.tobytes().decode("utf-8", "surrogateescape")
     if isinstance(s, bytes):
-        return s.decode("utf-8")
+        return s.decode("utf-8", "surrogateescape")
     raise TypeError()
 
 
-- 
2.43.0


From 34f4bcdcaace1e2046d1699a0e5b6a371855a903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:19 +0000
Subject: [PATCH 23/42] fix: escape paths in python json

---
 watcher-py/watcher/watcher.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/watcher-py/watcher/watcher.py b/watcher-py/watcher/watcher.py
index 11e33a5..186a9ff 100644
--- a/watcher-py/watcher/watcher.py
+++ b/watcher-py/watcher/watcher.py
@@ -4,6 +4,7 @@ Filesystem watcher. Simple, efficient and friendly.
 
 from __future__ import annotations
 import ctypes
+import json
 import os
 import sys
 from typing import Callable
@@ -141,13 +142,16 @@ class Event:
     path_type: PathType
 
     def to_json(self) -> str:
-        apn = f'"{self.associated_path_name}"' if self.associated_path_name else "null"
-        return f'{{\
-"effect_time":{self.effect_time},\
-"path_name":"{self.path_name}",\
-"associated_path_name":{apn},\
-"effect_type":"{_ET_TO_S[self.effect_type]}",\
-"path_type":"{_PT_TO_S[self.path_type]}"}}'
+        return json.dumps(
+            {
+                "effect_time": self.effect_time,
+                "path_name": self.path_name,
+                "associated_path_name": self.associated_path_name or None,
+                "effect_type": _ET_TO_S[self.effect_type],
+                "path_type": _PT_TO_S[self.path_type],
+            },
+            separators=(",", ":"),
+        )
 
 
 class Watch:
-- 
2.43.0


From 5f18c97363ffc092aea10c086f5820d3134eefb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:19 +0000
Subject: [PATCH 24/42] fix: watch the whole path given from python

---
 watcher-py/watcher/watcher.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/watcher-py/watcher/watcher.py b/watcher-py/watcher/watcher.py
index 186a9ff..c10cb93 100644
--- a/watcher-py/watcher/watcher.py
+++ b/watcher-py/watcher/watcher.py
@@ -177,8 +177,11 @@ class Watch:
             py_event = _c_event_to_event(c_event)
             callback(py_event)
 
+        self._watcher = None
         self._lib = _lazy_static_solib_handle()
-        self._path = path.encode("utf-8")
+        self._path = os.fsencode(path)
+        if b"\0" in self._path:
+            raise ValueError("embedded null byte")
         self._c_callback = _CCallback(callback_bridge)
         self._watcher = self._lib.wtr_watcher_open(self._path, self._c_callback, None)
         if not self._watcher:
-- 
2.43.0


From fc6209c114e587f37f516ac9c7e34dcfbd3ba737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:29 +0000
Subject: [PATCH 25/42] fix: close waits for the watch even if it could not be
 released

---
 devel/include/wtr/watcher-/watch.hpp | 4 ++--
 include/wtr/watcher.hpp              | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/devel/include/wtr/watcher-/watch.hpp b/devel/include/wtr/watcher-/watch.hpp
index d92817d..be584d5 100644
--- a/devel/include/wtr/watcher-/watch.hpp
+++ b/devel/include/wtr/watcher-/watch.hpp
@@ -88,8 +88,8 @@ public:
 
   inline auto close() noexcept -> bool
   {
-    return this->living.release() != sb::state::error
-        && this->watching.valid() && this->watching.get();
+    auto released = this->living.release() != sb::state::error;
+    return this->watching.valid() && this->watching.get() && released;
   };
 
   inline ~watch() noexcept { this->close(); }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 0da4317..b9da08f 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -2339,8 +2339,8 @@ public:
 
   inline auto close() noexcept -> bool
   {
-    return this->living.release() != sb::state::error
-        && this->watching.valid() && this->watching.get();
+    auto released = this->living.release() != sb::state::error;
+    return this->watching.valid() && this->watching.get() && released;
   };
 
   inline ~watch() noexcept { this->close(); }
-- 
2.43.0


From af68f830745cfe14c4d18c276ae31b76b2237182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:31 +0000
Subject: [PATCH 26/42] fix: name entries of the root directory with one slash
 (fanotify)

---
 .../detail/wtr/watcher/adapter/linux/fanotify/watch.hpp        | 3 ++-
 include/wtr/watcher.hpp                                        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 700e769..6dee5f2 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -171,7 +171,8 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
     auto not_selfdir = strcmp(file_name, ".") != 0;
     auto beg = path_buf + file_name_offset;
     auto end = PATH_MAX - file_name_offset;
-    if (file_name && not_selfdir) snprintf(beg, end, "/%s", file_name);
+    auto fmt = beg[-1] == '/' ? "%s" : "/%s";
+    if (file_name && not_selfdir) snprintf(beg, end, fmt, file_name);
   }
   return {path_buf};
 }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index b9da08f..8619b1d 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1186,7 +1186,8 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
     auto not_selfdir = strcmp(file_name, ".") != 0;
     auto beg = path_buf + file_name_offset;
     auto end = PATH_MAX - file_name_offset;
-    if (file_name && not_selfdir) snprintf(beg, end, "/%s", file_name);
+    auto fmt = beg[-1] == '/' ? "%s" : "/%s";
+    if (file_name && not_selfdir) snprintf(beg, end, fmt, file_name);
   }
   return {path_buf};
 }
-- 
2.43.0


From 0ccdaa4f2e84ee4b49e4f0c1e7f3164acfd3fff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:31 +0000
Subject: [PATCH 27/42] fix: stop watching directories moved out of the tree
 (inotify)

---
 .../watcher/adapter/linux/inotify/watch.hpp   | 29 +++++++++++++++++--
 include/wtr/watcher.hpp                       | 29 +++++++++++++++++--
 2 files changed, 52 insertions(+), 6 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 960b86a..c5a4e98 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -118,6 +118,21 @@ inline auto do_mark =
     return send_msg(e, dirpath, cb), e;
 };
 
+/*  A directory which was moved away takes its watches
+    with it. Those stay in the map, without a path, until
+    the kernel is done with them (`IN_IGNORED`). */
+inline auto un_mark =
+  [](std::filesystem::path const& dirpath, int dirfd, auto& dm) -> void
+{
+  auto const& top = dirpath.native();
+  for (auto& [wd, path] : dm) {
+    auto const& at = path.native();
+    bool is_under = at.compare(0, top.size(), top) == 0
+                 && (at.size() == top.size() || at[top.size()] == '/');
+    if (is_under) inotify_rm_watch(dirfd, wd), path.clear();
+  }
+};
+
 inline auto make_sysres = [](
                             char const* const base_path,
                             auto const& cb,
@@ -188,7 +203,10 @@ inline auto parse_ev = [](
   auto pathof = [&](inotify_event const* const m)
   { return dm.find(m->wd)->second / std::filesystem::path{m->name}; };
   auto isknown = [&](inotify_event const* const m) -> bool
-  { return dm.find(m->wd) != dm.end(); };
+  {
+    auto at = dm.find(m->wd);
+    return at != dm.end() && ! at->second.empty();
+  };
   auto pt = in->mask & IN_ISDIR ? ev_pt::dir : ev_pt::file;
   auto et = in->mask & IN_CREATE ? ev_et::create
           : in->mask & IN_DELETE ? ev_et::destroy
@@ -322,7 +340,10 @@ struct defer_dm_rm_wd {
 inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
 {
   auto is_parity_lost = [](unsigned msk) -> bool
-  { return msk & IN_DELETE_SELF && ! (msk & IN_MOVE_SELF); };
+  {
+    return msk & IN_IGNORED
+        || (msk & IN_DELETE_SELF && ! (msk & IN_MOVE_SELF));
+  };
   auto is_real_event = [](unsigned msk) -> bool
   {
     bool has_any = msk & ke_in_ev::recv_mask;
@@ -350,9 +371,11 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         send_msg(result::w_sys_q_overflow, "", cb);
       else if (dmhit == sr.ke.dm.end())
         send_msg(result::w_sys_phantom, "", cb);
-      else if (is_real_event(msk)) {
+      else if (is_real_event(msk) && ! dmhit->second.empty()) {
         auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
         bool is_here = ev.associated || msk & (IN_CREATE | IN_MOVED_TO);
+        if (msk & IN_ISDIR && msk & IN_MOVED_FROM && ! ev.associated)
+          un_mark(ev.path_name, sr.ke.fd, sr.ke.dm);
         if (msk & IN_ISDIR && is_here)
           walkdir_do(
             (ev.associated ? ev.associated->path_name : ev.path_name).c_str(),
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 8619b1d..11ec90d 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1449,6 +1449,21 @@ inline auto do_mark =
     return send_msg(e, dirpath, cb), e;
 };
 
+/*  A directory which was moved away takes its watches
+    with it. Those stay in the map, without a path, until
+    the kernel is done with them (`IN_IGNORED`). */
+inline auto un_mark =
+  [](std::filesystem::path const& dirpath, int dirfd, auto& dm) -> void
+{
+  auto const& top = dirpath.native();
+  for (auto& [wd, path] : dm) {
+    auto const& at = path.native();
+    bool is_under = at.compare(0, top.size(), top) == 0
+                 && (at.size() == top.size() || at[top.size()] == '/');
+    if (is_under) inotify_rm_watch(dirfd, wd), path.clear();
+  }
+};
+
 inline auto make_sysres = [](
                             char const* const base_path,
                             auto const& cb,
@@ -1519,7 +1534,10 @@ inline auto parse_ev = [](
   auto pathof = [&](inotify_event const* const m)
   { return dm.find(m->wd)->second / std::filesystem::path{m->name}; };
   auto isknown = [&](inotify_event const* const m) -> bool
-  { return dm.find(m->wd) != dm.end(); };
+  {
+    auto at = dm.find(m->wd);
+    return at != dm.end() && ! at->second.empty();
+  };
   auto pt = in->mask & IN_ISDIR ? ev_pt::dir : ev_pt::file;
   auto et = in->mask & IN_CREATE ? ev_et::create
           : in->mask & IN_DELETE ? ev_et::destroy
@@ -1653,7 +1671,10 @@ struct defer_dm_rm_wd {
 inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
 {
   auto is_parity_lost = [](unsigned msk) -> bool
-  { return msk & IN_DELETE_SELF && ! (msk & IN_MOVE_SELF); };
+  {
+    return msk & IN_IGNORED
+        || (msk & IN_DELETE_SELF && ! (msk & IN_MOVE_SELF));
+  };
   auto is_real_event = [](unsigned msk) -> bool
   {
     bool has_any = msk & ke_in_ev::recv_mask;
@@ -1681,9 +1702,11 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         send_msg(result::w_sys_q_overflow, "", cb);
       else if (dmhit == sr.ke.dm.end())
         send_msg(result::w_sys_phantom, "", cb);
-      else if (is_real_event(msk)) {
+      else if (is_real_event(msk) && ! dmhit->second.empty()) {
         auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
         bool is_here = ev.associated || msk & (IN_CREATE | IN_MOVED_TO);
+        if (msk & IN_ISDIR && msk & IN_MOVED_FROM && ! ev.associated)
+          un_mark(ev.path_name, sr.ke.fd, sr.ke.dm);
         if (msk & IN_ISDIR && is_here)
           walkdir_do(
             (ev.associated ? ev.associated->path_name : ev.path_name).c_str(),
-- 
2.43.0


From 8f08651e860467e9c44a4b120bf46d4c452cbef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:04 +0000
Subject: [PATCH 28/42] fix: don't pair a file moved away with a directory
 moved here (fanotify)

---
 .../detail/wtr/watcher/adapter/linux/fanotify/watch.hpp      | 5 ++++-
 include/wtr/watcher.hpp                                      | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 6dee5f2..4090cae 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -217,7 +217,10 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
              == FAN_EVENT_INFO_TYPE_DFID_NAME;
   };
   auto isfromto = [et](unsigned a, unsigned b) -> bool
-  { return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO; };
+  {
+    return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO
+        && (a & FAN_ONDIR) == (b & FAN_ONDIR);
+  };
   auto one = [&](auto* m) -> Parsed
   { return {ev(pathof(m, ec), et, pt), n, m->event_len}; };
   auto assoc = [&](auto* a, auto* b) -> Parsed
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 11ec90d..c460ce6 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1232,7 +1232,10 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
              == FAN_EVENT_INFO_TYPE_DFID_NAME;
   };
   auto isfromto = [et](unsigned a, unsigned b) -> bool
-  { return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO; };
+  {
+    return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO
+        && (a & FAN_ONDIR) == (b & FAN_ONDIR);
+  };
   auto one = [&](auto* m) -> Parsed
   { return {ev(pathof(m, ec), et, pt), n, m->event_len}; };
   auto assoc = [&](auto* a, auto* b) -> Parsed
-- 
2.43.0


From e2179ef4f19bd37f2b5199e884001222bc1a0072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:30 +0000
Subject: [PATCH 29/42] fix: deliver outstanding events before closing (darwin)

The mutex was held while flushing, so event_recv's try_lock failed and
every event which the flush delivered was dropped.
---
 devel/include/detail/wtr/watcher/adapter/darwin/watch.hpp | 3 ++-
 include/wtr/watcher.hpp                                   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/darwin/watch.hpp b/devel/include/detail/wtr/watcher/adapter/darwin/watch.hpp
index 2875960..0942400 100644
--- a/devel/include/detail/wtr/watcher/adapter/darwin/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/darwin/watch.hpp
@@ -309,8 +309,9 @@ inline auto
 close_event_stream(FSEventStreamRef stream, ContextData& ctx) -> bool
 {
   if (! stream) return false;
-  auto _ = std::scoped_lock{*ctx.mtx};
+  /*  Flushing runs `event_recv`, which needs the lock. */
   FSEventStreamFlushSync(stream);
+  auto _ = std::scoped_lock{*ctx.mtx};
   FSEventStreamStop(stream);
   FSEventStreamInvalidate(stream);
   FSEventStreamRelease(stream);
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index c460ce6..59d9acf 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -796,8 +796,9 @@ inline auto
 close_event_stream(FSEventStreamRef stream, ContextData& ctx) -> bool
 {
   if (! stream) return false;
-  auto _ = std::scoped_lock{*ctx.mtx};
+  /*  Flushing runs `event_recv`, which needs the lock. */
   FSEventStreamFlushSync(stream);
+  auto _ = std::scoped_lock{*ctx.mtx};
   FSEventStreamStop(stream);
   FSEventStreamInvalidate(stream);
   FSEventStreamRelease(stream);
-- 
2.43.0


From 6416b5d4ee98dca6519580868f9bc5ac1196c38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:03 +0000
Subject: [PATCH 30/42] fix: don't hand null strings and arrays to FSEvents,
 nor ignore a stream which won't start (darwin)

CFArrayCreate crashes on a null string and FSEventStreamCreate on a null
array. A stream which could not be started was taken for a good one.
---
 .../detail/wtr/watcher/adapter/darwin/watch.hpp        | 10 +++++++---
 include/wtr/watcher.hpp                                | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/darwin/watch.hpp b/devel/include/detail/wtr/watcher/adapter/darwin/watch.hpp
index 0942400..77094b8 100644
--- a/devel/include/detail/wtr/watcher/adapter/darwin/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/darwin/watch.hpp
@@ -208,7 +208,7 @@ inline auto open_event_stream(std::filesystem::path const& path, void* ctx)
   /*  A predefined structure which is (from CFArray.h) --
       "appropriate when the values in a CFArray are CFTypes" */
   static auto const cf_arr_ty = kCFTypeArrayCallBacks;
-  CFArrayRef path_array = CFArrayCreate(
+  CFArrayRef path_array = ! path_cfstring ? nullptr : CFArrayCreate(
     nullptr,        /*  A custom allocator is optional */
     &path_cfstring, /*  Data: A ptr-ptr of (in our case) strings */
     1,              /*  We're just storing one path here */
@@ -218,7 +218,7 @@ inline auto open_event_stream(std::filesystem::path const& path, void* ctx)
       kernel. The event stream will call `event_recv` with
       `context` and some details about each filesystem event
       the kernel sees for the paths in `path_array`. */
-  auto stream = FSEventStreamCreate(
+  auto stream = ! path_array ? nullptr : FSEventStreamCreate(
     nullptr,           /*  A custom allocator is optional */
     &event_recv,       /*  A callable to invoke on changes */
     &context,          /*  The callable's arguments (context) */
@@ -235,7 +235,11 @@ inline auto open_event_stream(std::filesystem::path const& path, void* ctx)
     return nullptr;
   }
   FSEventStreamSetDispatchQueue(stream, queue);
-  FSEventStreamStart(stream);
+  if (! FSEventStreamStart(stream)) {
+    FSEventStreamInvalidate(stream);
+    FSEventStreamRelease(stream);
+    return nullptr;
+  }
   return stream;
 }
 
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 59d9acf..978f49d 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -695,7 +695,7 @@ inline auto open_event_stream(std::filesystem::path const& path, void* ctx)
   /*  A predefined structure which is (from CFArray.h) --
       "appropriate when the values in a CFArray are CFTypes" */
   static auto const cf_arr_ty = kCFTypeArrayCallBacks;
-  CFArrayRef path_array = CFArrayCreate(
+  CFArrayRef path_array = ! path_cfstring ? nullptr : CFArrayCreate(
     nullptr,        /*  A custom allocator is optional */
     &path_cfstring, /*  Data: A ptr-ptr of (in our case) strings */
     1,              /*  We're just storing one path here */
@@ -705,7 +705,7 @@ inline auto open_event_stream(std::filesystem::path const& path, void* ctx)
       kernel. The event stream will call `event_recv` with
       `context` and some details about each filesystem event
       the kernel sees for the paths in `path_array`. */
-  auto stream = FSEventStreamCreate(
+  auto stream = ! path_array ? nullptr : FSEventStreamCreate(
     nullptr,           /*  A custom allocator is optional */
     &event_recv,       /*  A callable to invoke on changes */
     &context,          /*  The callable's arguments (context) */
@@ -722,7 +722,11 @@ inline auto open_event_stream(std::filesystem::path const& path, void* ctx)
     return nullptr;
   }
   FSEventStreamSetDispatchQueue(stream, queue);
-  FSEventStreamStart(stream);
+  if (! FSEventStreamStart(stream)) {
+    FSEventStreamInvalidate(stream);
+    FSEventStreamRelease(stream);
+    return nullptr;
+  }
   return stream;
 }
 
-- 
2.43.0


From 2c37527ca2f5143dd43bf80945ed4770c49d6acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:32 +0000
Subject: [PATCH 31/42] fix: windows: end the pending read and close the
 directory's handle

---
 .../include/detail/wtr/watcher/adapter/windows/watch.hpp  | 8 ++++++++
 include/wtr/watcher.hpp                                   | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/devel/include/detail/wtr/watcher/adapter/windows/watch.hpp b/devel/include/detail/wtr/watcher/adapter/windows/watch.hpp
index 90bf77e..29bfb27 100644
--- a/devel/include/detail/wtr/watcher/adapter/windows/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/windows/watch.hpp
@@ -58,6 +58,14 @@ public:
 
   ~watch_event_proxy() noexcept
   {
+    if (path_handle && path_handle != INVALID_HANDLE_VALUE) {
+      /*  A pending read writes to our buffer,
+          so it needs to end before we do. */
+      DWORD len = 0;
+      if (CancelIo(path_handle))
+        GetOverlappedResult(path_handle, &event_overlap, &len, true);
+      CloseHandle(path_handle);
+    }
     if (event_token) CloseHandle(event_token);
     if (event_completion_token) CloseHandle(event_completion_token);
   }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 978f49d..996e7ee 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1881,6 +1881,14 @@ public:
 
   ~watch_event_proxy() noexcept
   {
+    if (path_handle && path_handle != INVALID_HANDLE_VALUE) {
+      /*  A pending read writes to our buffer,
+          so it needs to end before we do. */
+      DWORD len = 0;
+      if (CancelIo(path_handle))
+        GetOverlappedResult(path_handle, &event_overlap, &len, true);
+      CloseHandle(path_handle);
+    }
     if (event_token) CloseHandle(event_token);
     if (event_completion_token) CloseHandle(event_completion_token);
   }
-- 
2.43.0


From 140e8a01076448173125ededa4c597352e481e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:32 +0000
Subject: [PATCH 32/42] fix: windows: don't copy the path over the members
 after a short buffer

---
 devel/include/detail/wtr/watcher/adapter/windows/watch.hpp | 2 --
 include/wtr/watcher.hpp                                    | 2 --
 2 files changed, 4 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/windows/watch.hpp b/devel/include/detail/wtr/watcher/adapter/windows/watch.hpp
index 29bfb27..b9f4e6c 100644
--- a/devel/include/detail/wtr/watcher/adapter/windows/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/windows/watch.hpp
@@ -24,7 +24,6 @@ public:
   static constexpr auto event_buf_len_max = 8192;
   bool is_valid = true;
   std::filesystem::path path = {};
-  wchar_t path_name[256] = {L""};
   HANDLE path_handle = nullptr;
   HANDLE event_completion_token = nullptr;
   HANDLE event_token = CreateEventW(nullptr, true, false, nullptr);
@@ -35,7 +34,6 @@ public:
   watch_event_proxy(std::filesystem::path const& path) noexcept
       : path{path}
   {
-    memcpy(path_name, path.c_str(), path.string().size());
     this->path_handle = CreateFileW(
       path.c_str(),
       FILE_LIST_DIRECTORY,
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 996e7ee..4a1d312 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1847,7 +1847,6 @@ public:
   static constexpr auto event_buf_len_max = 8192;
   bool is_valid = true;
   std::filesystem::path path = {};
-  wchar_t path_name[256] = {L""};
   HANDLE path_handle = nullptr;
   HANDLE event_completion_token = nullptr;
   HANDLE event_token = CreateEventW(nullptr, true, false, nullptr);
@@ -1858,7 +1857,6 @@ public:
   watch_event_proxy(std::filesystem::path const& path) noexcept
       : path{path}
   {
-    memcpy(path_name, path.c_str(), path.string().size());
     this->path_handle = CreateFileW(
       path.c_str(),
       FILE_LIST_DIRECTORY,
-- 
2.43.0


From 7b269c239a6273796052a87150603488f42da871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:32 +0000
Subject: [PATCH 33/42] fix: windows: say so when we can't watch

---
 .../wtr/watcher/adapter/windows/watch.hpp     | 25 ++++++++++++-------
 include/wtr/watcher.hpp                       | 25 ++++++++++++-------
 2 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/windows/watch.hpp b/devel/include/detail/wtr/watcher/adapter/windows/watch.hpp
index b9f4e6c..610c6bc 100644
--- a/devel/include/detail/wtr/watcher/adapter/windows/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/windows/watch.hpp
@@ -42,15 +42,17 @@ public:
       OPEN_EXISTING,
       FILE_FLAG_BACKUP_SEMANTICS | FILE_FLAG_OVERLAPPED,
       nullptr);
-    if (path_handle)
+    this->is_valid = path_handle && path_handle != INVALID_HANDLE_VALUE;
+    if (is_valid)
       this->event_completion_token =
         CreateIoCompletionPort(INVALID_HANDLE_VALUE, nullptr, 0, 0);
-    if (event_completion_token)
-      this->is_valid = CreateIoCompletionPort(
-                         path_handle,
-                         event_completion_token,
-                         (ULONG_PTR)path_handle,
-                         1)
+    if (is_valid)
+      this->is_valid = event_completion_token
+                    && CreateIoCompletionPort(
+                      path_handle,
+                      event_completion_token,
+                      (ULONG_PTR)path_handle,
+                      1)
                     && ResetEvent(event_token);
   }
 
@@ -109,6 +111,7 @@ inline auto do_event_recv(
            ::wtr::event::path_type::watcher});
         break;
       default :
+        w.is_valid = false;
         callback(
           {"e/sys/read",
            ::wtr::event::effect_type::other,
@@ -228,7 +231,7 @@ inline auto watch(
   if (! w.is_valid) return false;
   do_event_recv(w, callback);
   while (w.is_valid && has_event(w)) do_event_send(w, callback);
-  while (living.state() == semabin::state::pending) {
+  while (w.is_valid && living.state() == semabin::state::pending) {
     ULONG_PTR completion_key = 0;
     LPOVERLAPPED overlap = nullptr;
     bool complete = GetQueuedCompletionStatus(
@@ -243,8 +246,12 @@ inline auto watch(
         do_event_recv(w, callback);
       }
     }
+    else if (overlap) {
+      w.is_valid = false;
+      callback({"e/sys/read", event::effect_type::other, event::path_type::watcher});
+    }
   }
-  return true;
+  return w.is_valid;
 }
 
 } /*  namespace detail::wtr::watcher::adapter  */
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 4a1d312..2a9b3d4 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1865,15 +1865,17 @@ public:
       OPEN_EXISTING,
       FILE_FLAG_BACKUP_SEMANTICS | FILE_FLAG_OVERLAPPED,
       nullptr);
-    if (path_handle)
+    this->is_valid = path_handle && path_handle != INVALID_HANDLE_VALUE;
+    if (is_valid)
       this->event_completion_token =
         CreateIoCompletionPort(INVALID_HANDLE_VALUE, nullptr, 0, 0);
-    if (event_completion_token)
-      this->is_valid = CreateIoCompletionPort(
-                         path_handle,
-                         event_completion_token,
-                         (ULONG_PTR)path_handle,
-                         1)
+    if (is_valid)
+      this->is_valid = event_completion_token
+                    && CreateIoCompletionPort(
+                      path_handle,
+                      event_completion_token,
+                      (ULONG_PTR)path_handle,
+                      1)
                     && ResetEvent(event_token);
   }
 
@@ -1932,6 +1934,7 @@ inline auto do_event_recv(
            ::wtr::event::path_type::watcher});
         break;
       default :
+        w.is_valid = false;
         callback(
           {"e/sys/read",
            ::wtr::event::effect_type::other,
@@ -2051,7 +2054,7 @@ inline auto watch(
   if (! w.is_valid) return false;
   do_event_recv(w, callback);
   while (w.is_valid && has_event(w)) do_event_send(w, callback);
-  while (living.state() == semabin::state::pending) {
+  while (w.is_valid && living.state() == semabin::state::pending) {
     ULONG_PTR completion_key = 0;
     LPOVERLAPPED overlap = nullptr;
     bool complete = GetQueuedCompletionStatus(
@@ -2066,8 +2069,12 @@ inline auto watch(
         do_event_recv(w, callback);
       }
     }
+    else if (overlap) {
+      w.is_valid = false;
+      callback({"e/sys/read", event::effect_type::other, event::path_type::watcher});
+    }
   }
-  return true;
+  return w.is_valid;
 }
 
 } /*  namespace detail::wtr::watcher::adapter  */
-- 
2.43.0


From c677a0a92e79e18e7a4fdc36c68a3241748a6307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:33 +0000
Subject: [PATCH 34/42] fix: windows: read again after an overflow

---
 devel/include/detail/wtr/watcher/adapter/windows/watch.hpp | 7 +++++++
 include/wtr/watcher.hpp                                    | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/devel/include/detail/wtr/watcher/adapter/windows/watch.hpp b/devel/include/detail/wtr/watcher/adapter/windows/watch.hpp
index 610c6bc..07f0558 100644
--- a/devel/include/detail/wtr/watcher/adapter/windows/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/windows/watch.hpp
@@ -241,6 +241,13 @@ inline auto watch(
       &overlap,
       w.delay_ms);
     if (complete && overlap) {
+      if (! has_event(w)) {
+        callback(
+          {"w/sys/q_overflow@" + w.path.string(),
+           event::effect_type::other,
+           event::path_type::watcher});
+        do_event_recv(w, callback);
+      }
       while (w.is_valid && has_event(w)) {
         do_event_send(w, callback);
         do_event_recv(w, callback);
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 2a9b3d4..ddf6cbf 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -2064,6 +2064,13 @@ inline auto watch(
       &overlap,
       w.delay_ms);
     if (complete && overlap) {
+      if (! has_event(w)) {
+        callback(
+          {"w/sys/q_overflow@" + w.path.string(),
+           event::effect_type::other,
+           event::path_type::watcher});
+        do_event_recv(w, callback);
+      }
       while (w.is_valid && has_event(w)) {
         do_event_send(w, callback);
         do_event_recv(w, callback);
-- 
2.43.0


From 15d257c969753115b9e17f09d2a9324d43068473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:41 +0000
Subject: [PATCH 35/42] fix: inotify: a removed directory's last record, read
 later, was taken for a phantom

---
 .../detail/wtr/watcher/adapter/linux/inotify/watch.hpp    | 8 +++-----
 include/wtr/watcher.hpp                                   | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index c5a4e98..1a48c83 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -339,11 +339,9 @@ struct defer_dm_rm_wd {
 */
 inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
 {
-  auto is_parity_lost = [](unsigned msk) -> bool
-  {
-    return msk & IN_IGNORED
-        || (msk & IN_DELETE_SELF && ! (msk & IN_MOVE_SELF));
-  };
+  /*  The last the kernel says about a watch, which might
+      be read after the directory's removal is. */
+  auto is_parity_lost = [](unsigned msk) -> bool { return msk & IN_IGNORED; };
   auto is_real_event = [](unsigned msk) -> bool
   {
     bool has_any = msk & ke_in_ev::recv_mask;
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index ddf6cbf..3c8a912 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1678,11 +1678,9 @@ struct defer_dm_rm_wd {
 */
 inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
 {
-  auto is_parity_lost = [](unsigned msk) -> bool
-  {
-    return msk & IN_IGNORED
-        || (msk & IN_DELETE_SELF && ! (msk & IN_MOVE_SELF));
-  };
+  /*  The last the kernel says about a watch, which might
+      be read after the directory's removal is. */
+  auto is_parity_lost = [](unsigned msk) -> bool { return msk & IN_IGNORED; };
   auto is_real_event = [](unsigned msk) -> bool
   {
     bool has_any = msk & ke_in_ev::recv_mask;
-- 
2.43.0


From 5d26b7f05ae2b600f4e4161d418677f199946c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:41 +0000
Subject: [PATCH 36/42] fix: c, windows: names longer than 4096 bytes were
 dropped, and one which just fit overflowed

---
 watcher-c/src/watcher-c.cpp | 45 +++++++++++++------------------------
 1 file changed, 16 insertions(+), 29 deletions(-)

diff --git a/watcher-c/src/watcher-c.cpp b/watcher-c/src/watcher-c.cpp
index 7cabbbb..786b38b 100644
--- a/watcher-c/src/watcher-c.cpp
+++ b/watcher-c/src/watcher-c.cpp
@@ -2,12 +2,12 @@
 #include <cstdio>
 #include <memory>
 #include <mutex>
+#include <string>
 #include <unordered_set>
 #include "wtr/watcher-c.h"
 #include "wtr/watcher.hpp"
 
 #ifdef _WIN32
-#define PATH_BUF_LEN 4096
 #include <windows.h>
 #include <stringapiset.h>
 #endif
@@ -18,30 +18,20 @@
 static std::mutex open_watchers_mtx;
 static std::unordered_set<void*> open_watchers;
 
-extern "C" {
-
 #ifdef _WIN32
-/*  - utf16_buf
-      Must be null-terminated, which, with std::filesystem, it is.
-    - utf8_buf
-      Points to a null-terminated buffer, if conversion is successful, else null.
-    - utf8_buf_len
-      Just here conventionally. This buffer should be exactly 4096, also conventionally.
-*/
-static int utf16_to_utf8(wchar_t const* utf16_buf, char* utf8_buf, int utf8_buf_len) {
-  if (!utf16_buf || !utf8_buf) return -1;
-  static int const utf16_buf_len = -1;
-  int wrote = WideCharToMultiByte(CP_UTF8, 0, utf16_buf, utf16_buf_len, utf8_buf, utf8_buf_len, NULL, NULL);
-  if (wrote <= 0) {
-    utf8_buf[0] = 0;
-    return -1;
-  } else {
-    utf8_buf[wrote] = 0;
-    return wrote;
-  }
+/*  The UTF-8 for some null-terminated UTF-16, however long. */
+static std::string utf16_to_utf8(wchar_t const* utf16) {
+  int len = WideCharToMultiByte(CP_UTF8, 0, utf16, -1, NULL, 0, NULL, NULL);
+  if (len <= 0) return {};
+  auto utf8 = std::string((size_t)len, 0);
+  WideCharToMultiByte(CP_UTF8, 0, utf16, -1, &utf8[0], len, NULL, NULL);
+  utf8.resize((size_t)len - 1); /*  They count the null byte. */
+  return utf8;
 }
 #endif
 
+extern "C" {
+
 void* wtr_watcher_open(
   char const* const path,
   wtr_watcher_callback callback,
@@ -51,15 +41,12 @@ void* wtr_watcher_open(
   {
     wtr_watcher_event ev_view = {};
 #ifdef _WIN32
-    char path_name[PATH_BUF_LEN] = {0};
-    char associated_path_name[PATH_BUF_LEN] = {0};
-    int wp = utf16_to_utf8(ev_owned.path_name.c_str(), path_name, PATH_BUF_LEN);
-    if (wp <= 0) return;
-    ev_view.path_name = path_name;
+    std::string associated_path_name;
+    auto path_name = utf16_to_utf8(ev_owned.path_name.c_str());
+    ev_view.path_name = path_name.c_str();
     if (ev_owned.associated) {
-      int wa = utf16_to_utf8(ev_owned.associated->path_name.c_str(), associated_path_name, PATH_BUF_LEN);
-      if (wa <= 0) return;
-      ev_view.associated_path_name = associated_path_name;
+      associated_path_name = utf16_to_utf8(ev_owned.associated->path_name.c_str());
+      ev_view.associated_path_name = associated_path_name.c_str();
     }
 #else
     ev_view.path_name = ev_owned.path_name.c_str();
-- 
2.43.0


From e1f99c6ca411be8d2ba42c53abd022f1ef854ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:42 +0000
Subject: [PATCH 37/42] fix: warthog: compile as c++17

---
 .../include/detail/wtr/watcher/adapter/warthog/watch.hpp  | 8 ++++----
 include/wtr/watcher.hpp                                   | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp b/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
index c5637c2..64723ca 100644
--- a/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
@@ -37,7 +37,7 @@ using bucket_type =
     - Returns false if the file tree cannot be scanned. */
 inline bool scan(
   std::filesystem::path const& path,
-  auto const& send_event,
+  ::wtr::watcher::event::callback const& send_event,
   bucket_type& bucket) noexcept
 {
   /*  - Scans a (single) file for changes.
@@ -60,10 +60,10 @@ inline bool scan(
             and remove it from the bucket. */
         send_event(
           event{file, event::effect_type::destroy, event::path_type::file});
-        if (bucket.contains(file)) bucket.erase(file);
+        bucket.erase(file);
       }
       /*  if it's not in our bucket, */
-      else if (! bucket.contains(file)) {
+      else if (bucket.count(file) == 0) {
         /*  we put it in there and call the closure,
             indicating creation. */
         bucket[file] = timestamp;
@@ -117,7 +117,7 @@ inline bool scan(
     otherwise, prune it. */
 inline bool tend_bucket(
   std::filesystem::path const& path,
-  auto const& send_event,
+  ::wtr::watcher::event::callback const& send_event,
   bucket_type& bucket) noexcept
 {
   /*  Creates a file map, the "bucket", from `path`. */
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 3c8a912..3c8ae38 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -2122,7 +2122,7 @@ using bucket_type =
     - Returns false if the file tree cannot be scanned. */
 inline bool scan(
   std::filesystem::path const& path,
-  auto const& send_event,
+  ::wtr::watcher::event::callback const& send_event,
   bucket_type& bucket) noexcept
 {
   /*  - Scans a (single) file for changes.
@@ -2145,10 +2145,10 @@ inline bool scan(
             and remove it from the bucket. */
         send_event(
           event{file, event::effect_type::destroy, event::path_type::file});
-        if (bucket.contains(file)) bucket.erase(file);
+        bucket.erase(file);
       }
       /*  if it's not in our bucket, */
-      else if (! bucket.contains(file)) {
+      else if (bucket.count(file) == 0) {
         /*  we put it in there and call the closure,
             indicating creation. */
         bucket[file] = timestamp;
@@ -2202,7 +2202,7 @@ inline bool scan(
     otherwise, prune it. */
 inline bool tend_bucket(
   std::filesystem::path const& path,
-  auto const& send_event,
+  ::wtr::watcher::event::callback const& send_event,
   bucket_type& bucket) noexcept
 {
   /*  Creates a file map, the "bucket", from `path`. */
-- 
2.43.0


From 00e834d8b12722a05e05d21dcc7cb9d7a77ee4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:42 +0000
Subject: [PATCH 38/42] fix: warthog: tell about removals, and about the first
 file

---
 .../wtr/watcher/adapter/warthog/watch.hpp     | 103 ++++++------------
 include/wtr/watcher.hpp                       | 103 ++++++------------
 2 files changed, 68 insertions(+), 138 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp b/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
index 64723ca..dbcad2b 100644
--- a/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
@@ -113,78 +113,43 @@ inline bool scan(
                                           : false;
 };
 
-/*  If the bucket is empty, try to populate it.
-    otherwise, prune it. */
-inline bool tend_bucket(
-  std::filesystem::path const& path,
+/*  Creates a file map, the "bucket", from `path`.
+    What was there before us is not news. */
+inline bool
+populate(std::filesystem::path const& path, bucket_type& bucket) noexcept
+{
+  auto ignore = [](::wtr::watcher::event const&) {};
+  return scan(path, ignore, bucket);
+}
+
+/*  Removes files which no longer exist from our bucket. */
+inline void prune(
   ::wtr::watcher::event::callback const& send_event,
   bucket_type& bucket) noexcept
 {
-  /*  Creates a file map, the "bucket", from `path`. */
-  auto populate = [&](std::filesystem::path const& path) -> bool
-  {
-    using namespace std::filesystem;
-    /*  this happens when a path was changed while we were reading it.
-        there is nothing to do here; we prune later. */
-    auto dir_ec = std::error_code{};
-    auto lwt_ec = std::error_code{};
-    if (! exists(path))
-      return false;
-    else if (! is_directory(path))
-      bucket[path] = last_write_time(path);
+  using namespace ::wtr::watcher;
+
+  auto ec = std::error_code{};
+  auto bucket_it = bucket.begin();
+  /*  while looking through the bucket's contents, */
+  while (bucket_it != bucket.end()) {
+    /*  check if the stuff in our bucket exists anymore. */
+    if (std::filesystem::is_regular_file(bucket_it->first, ec))
+      /*  if so, move on. */
+      ++bucket_it;
     else {
-      for (auto file :
-           recursive_directory_iterator(path, scan_dir_opts, dir_ec)) {
-        if (! dir_ec) {
-          auto lwt = last_write_time(file, lwt_ec);
-          if (! lwt_ec)
-            bucket[file.path()] = lwt;
-          else
-            bucket[file.path()] = last_write_time(path);
-        }
-      }
-      return true;
-    }
-  };
-
-  /*  Removes files which no longer exist from our bucket. */
-  auto prune =
-    [&](std::filesystem::path const& path, auto const& send_event) -> bool
-  {
-    using namespace ::wtr::watcher;
-    using namespace std::filesystem;
-
-    auto bucket_it = bucket.begin();
-    /*  while looking through the bucket's contents, */
-    while (bucket_it != bucket.end()) {
-      /*  check if the stuff in our bucket exists anymore. */
-      exists(bucket_it->first)
-        /*  if so, move on. */
-        ? std::advance(bucket_it, 1)
-        /*  if not, call the closure,
-            indicating destruction,
-            and remove it from our bucket. */
-        : [&]()
-      {
-        send_event(event{
-          bucket_it->first,
-          event::effect_type::destroy,
-          is_regular_file(path) ? event::path_type::file
-          : is_directory(path)  ? event::path_type::dir
-          : is_symlink(path)    ? event::path_type::sym_link
-                                : event::path_type::other});
-        /*  bucket, erase it! */
-        bucket_it = bucket.erase(bucket_it);
-      }();
+      /*  if not, call the closure,
+          indicating destruction,
+          and remove it from our bucket. */
+      send_event(event{
+        bucket_it->first,
+        event::effect_type::destroy,
+        event::path_type::file});
+      /*  bucket, erase it! */
+      bucket_it = bucket.erase(bucket_it);
     }
-    return true;
-  };
-
-  return bucket.empty() ? populate(path)          ? true
-                        : prune(path, send_event) ? true
-                                                  : false
-                        : true;
-};
+  }
+}
 
 } /* namespace */
 
@@ -199,11 +164,11 @@ inline auto watch(
   /*  Sleep, checking if we're alive every little while.
       Keep running if
         - We are alive
-        - The bucket is doing well
         - No errors occured while scanning
       Otherwise, stop and return false. */
+  if (! populate(path, bucket)) return false;
   while (living.state() == semabin::state::pending) {
-    if (! tend_bucket(path, callback, bucket)) return false;
+    prune(callback, bucket);
     if (! scan(path, callback, bucket)) return false;
     sleep_for(16ms);
   }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 3c8ae38..001c400 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -2198,78 +2198,43 @@ inline bool scan(
                                           : false;
 };
 
-/*  If the bucket is empty, try to populate it.
-    otherwise, prune it. */
-inline bool tend_bucket(
-  std::filesystem::path const& path,
+/*  Creates a file map, the "bucket", from `path`.
+    What was there before us is not news. */
+inline bool
+populate(std::filesystem::path const& path, bucket_type& bucket) noexcept
+{
+  auto ignore = [](::wtr::watcher::event const&) {};
+  return scan(path, ignore, bucket);
+}
+
+/*  Removes files which no longer exist from our bucket. */
+inline void prune(
   ::wtr::watcher::event::callback const& send_event,
   bucket_type& bucket) noexcept
 {
-  /*  Creates a file map, the "bucket", from `path`. */
-  auto populate = [&](std::filesystem::path const& path) -> bool
-  {
-    using namespace std::filesystem;
-    /*  this happens when a path was changed while we were reading it.
-        there is nothing to do here; we prune later. */
-    auto dir_ec = std::error_code{};
-    auto lwt_ec = std::error_code{};
-    if (! exists(path))
-      return false;
-    else if (! is_directory(path))
-      bucket[path] = last_write_time(path);
-    else {
-      for (auto file :
-           recursive_directory_iterator(path, scan_dir_opts, dir_ec)) {
-        if (! dir_ec) {
-          auto lwt = last_write_time(file, lwt_ec);
-          if (! lwt_ec)
-            bucket[file.path()] = lwt;
-          else
-            bucket[file.path()] = last_write_time(path);
-        }
-      }
-      return true;
-    }
-  };
-
-  /*  Removes files which no longer exist from our bucket. */
-  auto prune =
-    [&](std::filesystem::path const& path, auto const& send_event) -> bool
-  {
-    using namespace ::wtr::watcher;
-    using namespace std::filesystem;
+  using namespace ::wtr::watcher;
 
-    auto bucket_it = bucket.begin();
-    /*  while looking through the bucket's contents, */
-    while (bucket_it != bucket.end()) {
-      /*  check if the stuff in our bucket exists anymore. */
-      exists(bucket_it->first)
-        /*  if so, move on. */
-        ? std::advance(bucket_it, 1)
-        /*  if not, call the closure,
-            indicating destruction,
-            and remove it from our bucket. */
-        : [&]()
-      {
-        send_event(event{
-          bucket_it->first,
-          event::effect_type::destroy,
-          is_regular_file(path) ? event::path_type::file
-          : is_directory(path)  ? event::path_type::dir
-          : is_symlink(path)    ? event::path_type::sym_link
-                                : event::path_type::other});
-        /*  bucket, erase it! */
-        bucket_it = bucket.erase(bucket_it);
-      }();
+  auto ec = std::error_code{};
+  auto bucket_it = bucket.begin();
+  /*  while looking through the bucket's contents, */
+  while (bucket_it != bucket.end()) {
+    /*  check if the stuff in our bucket exists anymore. */
+    if (std::filesystem::is_regular_file(bucket_it->first, ec))
+      /*  if so, move on. */
+      ++bucket_it;
+    else {
+      /*  if not, call the closure,
+          indicating destruction,
+          and remove it from our bucket. */
+      send_event(event{
+        bucket_it->first,
+        event::effect_type::destroy,
+        event::path_type::file});
+      /*  bucket, erase it! */
+      bucket_it = bucket.erase(bucket_it);
     }
-    return true;
-  };
-
-  return bucket.empty() ? populate(path)          ? true
-                        : prune(path, send_event) ? true
-                                                  : false
-                        : true;
-};
+  }
+}
 
 } /* namespace */
 
@@ -2284,11 +2249,11 @@ inline auto watch(
   /*  Sleep, checking if we're alive every little while.
       Keep running if
         - We are alive
-        - The bucket is doing well
         - No errors occured while scanning
       Otherwise, stop and return false. */
+  if (! populate(path, bucket)) return false;
   while (living.state() == semabin::state::pending) {
-    if (! tend_bucket(path, callback, bucket)) return false;
+    prune(callback, bucket);
     if (! scan(path, callback, bucket)) return false;
     sleep_for(16ms);
   }
-- 
2.43.0


From 471f28fe356b63194fb253fa24e0b637562b0814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:42 +0000
Subject: [PATCH 39/42] fix: warthog: survive what vanishes, or cannot be read,
 during a scan

---
 .../wtr/watcher/adapter/warthog/watch.hpp     | 29 ++++++++++---------
 include/wtr/watcher.hpp                       | 29 ++++++++++---------
 2 files changed, 30 insertions(+), 28 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp b/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
index dbcad2b..2600122 100644
--- a/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
@@ -25,8 +25,7 @@ namespace adapter {
 namespace {
 
 inline constexpr std::filesystem::directory_options scan_dir_opts =
-  std::filesystem::directory_options::skip_permission_denied
-  & std::filesystem::directory_options::follow_directory_symlink;
+  std::filesystem::directory_options::skip_permission_denied;
 
 using bucket_type =
   std::unordered_map<std::string, std::filesystem::file_time_type>;
@@ -50,17 +49,17 @@ inline bool scan(
     using namespace ::wtr::watcher;
     using namespace std::filesystem;
 
-    if (exists(file) && is_regular_file(file)) {
-      auto ec = std::error_code{};
+    auto ec = std::error_code{};
+    if (is_regular_file(file, ec)) {
       /*  grabbing the file's last write time */
       auto timestamp = last_write_time(file, ec);
       if (ec) {
         /*  the file changed while we were looking at it.
             so, we call the closure, indicating destruction,
             and remove it from the bucket. */
-        send_event(
-          event{file, event::effect_type::destroy, event::path_type::file});
-        bucket.erase(file);
+        if (bucket.erase(file))
+          send_event(
+            event{file, event::effect_type::destroy, event::path_type::file});
       }
       /*  if it's not in our bucket, */
       else if (bucket.count(file) == 0) {
@@ -95,13 +94,15 @@ inline bool scan(
     [&](std::filesystem::path const& dir, auto const& send_event) -> bool
   {
     using namespace std::filesystem;
-    if (is_directory(dir)) {
-      auto ec = std::error_code{};
-      for (auto file : recursive_directory_iterator(dir, scan_dir_opts, ec))
-        if (ec)
-          return false;
-        else
-          scan_file(file.path(), send_event);
+    auto ec = std::error_code{};
+    if (is_directory(dir, ec)) {
+      /*  a directory might vanish just before we look into it.
+          in that case, we'll see the rest of them the next time. */
+      auto file = recursive_directory_iterator(dir, scan_dir_opts, ec);
+      while (! ec && file != recursive_directory_iterator{}) {
+        scan_file(file->path(), send_event);
+        file.increment(ec);
+      }
       return true;
     }
     else
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 001c400..8985b5d 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -2110,8 +2110,7 @@ namespace adapter {
 namespace {
 
 inline constexpr std::filesystem::directory_options scan_dir_opts =
-  std::filesystem::directory_options::skip_permission_denied
-  & std::filesystem::directory_options::follow_directory_symlink;
+  std::filesystem::directory_options::skip_permission_denied;
 
 using bucket_type =
   std::unordered_map<std::string, std::filesystem::file_time_type>;
@@ -2135,17 +2134,17 @@ inline bool scan(
     using namespace ::wtr::watcher;
     using namespace std::filesystem;
 
-    if (exists(file) && is_regular_file(file)) {
-      auto ec = std::error_code{};
+    auto ec = std::error_code{};
+    if (is_regular_file(file, ec)) {
       /*  grabbing the file's last write time */
       auto timestamp = last_write_time(file, ec);
       if (ec) {
         /*  the file changed while we were looking at it.
             so, we call the closure, indicating destruction,
             and remove it from the bucket. */
-        send_event(
-          event{file, event::effect_type::destroy, event::path_type::file});
-        bucket.erase(file);
+        if (bucket.erase(file))
+          send_event(
+            event{file, event::effect_type::destroy, event::path_type::file});
       }
       /*  if it's not in our bucket, */
       else if (bucket.count(file) == 0) {
@@ -2180,13 +2179,15 @@ inline bool scan(
     [&](std::filesystem::path const& dir, auto const& send_event) -> bool
   {
     using namespace std::filesystem;
-    if (is_directory(dir)) {
-      auto ec = std::error_code{};
-      for (auto file : recursive_directory_iterator(dir, scan_dir_opts, ec))
-        if (ec)
-          return false;
-        else
-          scan_file(file.path(), send_event);
+    auto ec = std::error_code{};
+    if (is_directory(dir, ec)) {
+      /*  a directory might vanish just before we look into it.
+          in that case, we'll see the rest of them the next time. */
+      auto file = recursive_directory_iterator(dir, scan_dir_opts, ec);
+      while (! ec && file != recursive_directory_iterator{}) {
+        scan_file(file->path(), send_event);
+        file.increment(ec);
+      }
       return true;
     }
     else
-- 
2.43.0


From 3296c90b1e1a27349fc003dd6e6dc12e87e1cccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:47 +0000
Subject: [PATCH 40/42] fix: a directory whose path is as long as paths can be
 is not taken for its own subdirectory

---
 devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp | 3 ++-
 include/wtr/watcher.hpp                                   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
index fac9a66..0c552ce 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
@@ -166,7 +166,8 @@ inline auto walkdir_do(char const* const path, Fn const& f) -> void
       if (de->d_type != DT_DIR && de->d_type != DT_UNKNOWN) continue;
       if (strcmp(de->d_name, ".") == 0) continue;
       if (strcmp(de->d_name, "..") == 0) continue;
-      if (snprintf(next, PATH_MAX, "%s/%s", path, de->d_name) <= 0) continue;
+      int len = snprintf(next, PATH_MAX, "%s/%s", path, de->d_name);
+      if (len <= 0 || len >= PATH_MAX) continue;
       if (de->d_type == DT_UNKNOWN && ! is_real_dir(next)) continue;
       if (! realpath(next, real)) continue;
       walkdir_do(real, f);
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 8985b5d..c1c171d 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1008,7 +1008,8 @@ inline auto walkdir_do(char const* const path, Fn const& f) -> void
       if (de->d_type != DT_DIR && de->d_type != DT_UNKNOWN) continue;
       if (strcmp(de->d_name, ".") == 0) continue;
       if (strcmp(de->d_name, "..") == 0) continue;
-      if (snprintf(next, PATH_MAX, "%s/%s", path, de->d_name) <= 0) continue;
+      int len = snprintf(next, PATH_MAX, "%s/%s", path, de->d_name);
+      if (len <= 0 || len >= PATH_MAX) continue;
       if (de->d_type == DT_UNKNOWN && ! is_real_dir(next)) continue;
       if (! realpath(next, real)) continue;
       walkdir_do(real, f);
-- 
2.43.0


From 726f55a04cd68792ccc3cd5b57db358528425f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:48 +0000
Subject: [PATCH 41/42] fix: walk trees of any depth, one open directory at a
 time

---
 .../wtr/watcher/adapter/linux/sysres.hpp      | 20 ++++++++++++++++---
 include/wtr/watcher.hpp                       | 20 ++++++++++++++++---
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
index 0c552ce..51bc723 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
@@ -15,6 +15,7 @@
 #include <sys/types.h>
 #include <unistd.h>
 #include <utility>
+#include <vector>
 
 namespace detail::wtr::watcher::adapter {
 
@@ -156,9 +157,8 @@ inline auto is_real_dir(char const* const path) -> bool
     not having a full picture.
 */
 template<class Fn>
-inline auto walkdir_do(char const* const path, Fn const& f) -> void
+inline auto eachdir_do(char const* const path, Fn const& f) -> void
 {
-  f(path);
   if (DIR* d = opendir(path)) {
     while (dirent* de = readdir(d)) {
       char next[PATH_MAX];
@@ -170,12 +170,26 @@ inline auto walkdir_do(char const* const path, Fn const& f) -> void
       if (len <= 0 || len >= PATH_MAX) continue;
       if (de->d_type == DT_UNKNOWN && ! is_real_dir(next)) continue;
       if (! realpath(next, real)) continue;
-      walkdir_do(real, f);
+      f(real);
     }
     (void)closedir(d);
   }
 }
 
+/*  One directory at a time. The depth of a tree is not
+    limited by our stack or by our open directories. */
+template<class Fn>
+inline auto walkdir_do(char const* const path, Fn const& f) -> void
+{
+  auto todo = std::vector<std::string>{path};
+  while (! todo.empty()) {
+    auto const dir = std::move(todo.back());
+    todo.pop_back();
+    f(dir.c_str());
+    eachdir_do(dir.c_str(), [&](auto sub) { todo.emplace_back(sub); });
+  }
+}
+
 } /*  namespace detail::wtr::watcher::adapter */
 
 #endif
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index c1c171d..98b41a2 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -857,6 +857,7 @@ inline auto watch(
 #include <sys/types.h>
 #include <unistd.h>
 #include <utility>
+#include <vector>
 
 namespace detail::wtr::watcher::adapter {
 
@@ -998,9 +999,8 @@ inline auto is_real_dir(char const* const path) -> bool
     not having a full picture.
 */
 template<class Fn>
-inline auto walkdir_do(char const* const path, Fn const& f) -> void
+inline auto eachdir_do(char const* const path, Fn const& f) -> void
 {
-  f(path);
   if (DIR* d = opendir(path)) {
     while (dirent* de = readdir(d)) {
       char next[PATH_MAX];
@@ -1012,12 +1012,26 @@ inline auto walkdir_do(char const* const path, Fn const& f) -> void
       if (len <= 0 || len >= PATH_MAX) continue;
       if (de->d_type == DT_UNKNOWN && ! is_real_dir(next)) continue;
       if (! realpath(next, real)) continue;
-      walkdir_do(real, f);
+      f(real);
     }
     (void)closedir(d);
   }
 }
 
+/*  One directory at a time. The depth of a tree is not
+    limited by our stack or by our open directories. */
+template<class Fn>
+inline auto walkdir_do(char const* const path, Fn const& f) -> void
+{
+  auto todo = std::vector<std::string>{path};
+  while (! todo.empty()) {
+    auto const dir = std::move(todo.back());
+    todo.pop_back();
+    f(dir.c_str());
+    eachdir_do(dir.c_str(), [&](auto sub) { todo.emplace_back(sub); });
+  }
+}
+
 } /*  namespace detail::wtr::watcher::adapter */
 
 #endif
-- 
2.43.0


From 0bf141faa9b463cf564dcfcabaebf8c20d5a6f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:48 +0000
Subject: [PATCH 42/42] fix: look fanotify's directories up on the filesystem
 they are on

---
 .../watcher/adapter/linux/fanotify/watch.hpp  | 67 ++++++++++++++-----
 include/wtr/watcher.hpp                       | 67 ++++++++++++++-----
 2 files changed, 98 insertions(+), 36 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 4090cae..8ae6b27 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -16,7 +16,9 @@
 #include <string>
 #include <sys/epoll.h>
 #include <sys/fanotify.h>
+#include <sys/vfs.h>
 #include <unistd.h>
+#include <unordered_map>
 
 namespace detail::wtr::watcher::adapter::fanotify {
 
@@ -57,6 +59,12 @@ struct ke_fa_ev {
     | FAN_EVENT_ON_CHILD;
 
   int fd = -1;
+  /*  A handle is only good for the filesystem it's from.
+      There might be several below the path we watch.
+      For each of them, by its id, some directory on it
+      which its handles can be looked up by. */
+  using mounts = std::unordered_map<uint64_t, std::string>;
+  mounts mnts{};
   alignas(fanotify_event_metadata) char buf[buf_len]{0};
 };
 
@@ -69,8 +77,19 @@ struct sysres {
   adapter::ep ep{};
 };
 
+inline auto fsid_of = [](auto const& fsid) -> uint64_t
+{
+  uint64_t id = 0;
+  static_assert(sizeof(fsid) == sizeof(id));
+  return memcpy(&id, &fsid, sizeof(id)), id;
+};
+
 inline auto do_mark =
-  [](char const* const dirpath, int fa_fd, auto const& cb) -> result
+  [](
+    char const* const dirpath,
+    int fa_fd,
+    ke_fa_ev::mounts& mnts,
+    auto const& cb) -> result
 {
   auto e = result::w_sys_not_watched;
   char real[PATH_MAX];
@@ -78,6 +97,9 @@ inline auto do_mark =
     realpath(dirpath, real) && is_dir(real)
       ? fanotify_mark(fa_fd, FAN_MARK_ADD, ke_fa_ev::recv_flags, AT_FDCWD, real)
       : -1;
+  struct statfs fs;
+  if (anonymous_wd == 0 && statfs(real, &fs) == 0)
+    mnts.try_emplace(fsid_of(fs.f_fsid), real);
   if (anonymous_wd == 0)
     return result::complete;
   else
@@ -96,13 +118,14 @@ inline auto make_sysres = [](
 {
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
   if (fa_fd < 0) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
-  walkdir_do(base_path, [&](auto dir) { do_mark(dir, fa_fd, cb); });
+  auto mnts = ke_fa_ev::mounts{};
+  walkdir_do(base_path, [&](auto dir) { do_mark(dir, fa_fd, mnts, cb); });
   auto ep = make_ep(fa_fd, living.fd);
   if (ep.fd < 0)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
   return sysres{
     .ok = result::pending,
-    .ke{.fd = fa_fd},
+    .ke{.fd = fa_fd, .mnts = std::move(mnts)},
     .il = living,
     .ep = ep,
   };
@@ -138,21 +161,25 @@ inline auto make_sysres = [](
     character string to the event's directory entry
     after the file handle to the directory.
     Confusing, right? */
-inline auto
-pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
+inline auto pathof(
+  fanotify_event_metadata const* const mtd,
+  ke_fa_ev::mounts const& mnts,
+  int* ec) -> std::string
 {
   constexpr size_t path_ulim = PATH_MAX - sizeof('\0');
   constexpr int ofl = O_RDONLY | O_CLOEXEC | O_PATH;
+  constexpr int mnt_ofl = O_RDONLY | O_CLOEXEC | O_DIRECTORY;
   auto dir_info = (fanotify_event_info_fid*)(mtd + 1);
   auto dir_fh = (file_handle*)(dir_info->handle);
   char path_buf[PATH_MAX];
   ssize_t file_name_offset = 0;
   /*  Directory name */
-  int fd = open_by_handle_at(AT_FDCWD, dir_fh, ofl);
-  if (fd < 0) {
-    *ec = errno;
-    return {};
-  }
+  auto mnt = mnts.find(fsid_of(dir_info->fsid));
+  int mnt_fd = mnt != mnts.end() ? open(mnt->second.c_str(), mnt_ofl) : -1;
+  int fd = open_by_handle_at(mnt_fd < 0 ? AT_FDCWD : mnt_fd, dir_fh, ofl);
+  if (fd < 0) *ec = errno;
+  if (mnt_fd >= 0) close(mnt_fd);
+  if (fd < 0) return {};
   char fs_ev_pidpath[32] = {0};
   snprintf(fs_ev_pidpath, sizeof(fs_ev_pidpath), "/proc/self/fd/%d", fd);
   file_name_offset = readlink(fs_ev_pidpath, path_buf, path_ulim);
@@ -195,9 +222,11 @@ struct Parsed {
   unsigned this_len = 0;
 };
 
-inline auto
-parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
-  -> Parsed
+inline auto parse_ev(
+  fanotify_event_metadata const* const m,
+  size_t read_len,
+  ke_fa_ev::mounts const& mnts,
+  int* ec) -> Parsed
 {
   using ev = ::wtr::watcher::event;
   using ev_pt = enum ev::path_type;
@@ -222,12 +251,13 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
         && (a & FAN_ONDIR) == (b & FAN_ONDIR);
   };
   auto one = [&](auto* m) -> Parsed
-  { return {ev(pathof(m, ec), et, pt), n, m->event_len}; };
+  { return {ev(pathof(m, mnts, ec), et, pt), n, m->event_len}; };
   auto assoc = [&](auto* a, auto* b) -> Parsed
   {
     auto nn = peek(n, read_len - m->event_len);
     auto here_to_nnn = m->event_len + n->event_len;
-    auto e = ev(ev(pathof(a, ec), et, pt), ev(pathof(b, ec), et, pt));
+    auto from = ev(pathof(a, mnts, ec), et, pt);
+    auto e = ev(from, ev(pathof(b, mnts, ec), et, pt));
     return {e, nn, here_to_nnn};
   };
   return ! n || ! has_path(n)       ? one(m)
@@ -241,13 +271,14 @@ inline auto do_mark_if_newdir =
     ::wtr::watcher::event const& ev,
     unsigned long long mask,
     int fa_fd,
+    ke_fa_ev::mounts& mnts,
     auto const& cb) -> void
 {
   auto is_here = ev.associated || mask & (FAN_CREATE | FAN_MOVED_TO);
   auto is_newdir = ev.path_type == ::wtr::watcher::event::path_type::dir;
   auto const& path = ev.associated ? ev.associated->path_name : ev.path_name;
   if (is_here && is_newdir)
-    walkdir_do(path.c_str(), [&](auto dir) { do_mark(dir, fa_fd, cb); });
+    walkdir_do(path.c_str(), [&](auto dir) { do_mark(dir, fa_fd, mnts, cb); });
 };
 
 /*  Read some events from what fanotify gives
@@ -299,11 +330,11 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         send_msg(result::w_sys_bad_meta, "", cb);
       else {
         int ec = 0;
-        auto [ev, n, l] = parse_ev(mtd, read_len, &ec);
+        auto [ev, n, l] = parse_ev(mtd, read_len, sr.ke.mnts, &ec);
         if (ec)
           send_msg(result::w_sys_bad_fd, "", cb);
         else {
-          do_mark_if_newdir(ev, mtd->mask, sr.ke.fd, cb);
+          do_mark_if_newdir(ev, mtd->mask, sr.ke.fd, sr.ke.mnts, cb);
           cb(ev);
         }
         next = n;
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 98b41a2..1bde309 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1051,7 +1051,9 @@ inline auto walkdir_do(char const* const path, Fn const& f) -> void
 #include <string>
 #include <sys/epoll.h>
 #include <sys/fanotify.h>
+#include <sys/vfs.h>
 #include <unistd.h>
+#include <unordered_map>
 
 namespace detail::wtr::watcher::adapter::fanotify {
 
@@ -1092,6 +1094,12 @@ struct ke_fa_ev {
     | FAN_EVENT_ON_CHILD;
 
   int fd = -1;
+  /*  A handle is only good for the filesystem it's from.
+      There might be several below the path we watch.
+      For each of them, by its id, some directory on it
+      which its handles can be looked up by. */
+  using mounts = std::unordered_map<uint64_t, std::string>;
+  mounts mnts{};
   alignas(fanotify_event_metadata) char buf[buf_len]{0};
 };
 
@@ -1104,8 +1112,19 @@ struct sysres {
   adapter::ep ep{};
 };
 
+inline auto fsid_of = [](auto const& fsid) -> uint64_t
+{
+  uint64_t id = 0;
+  static_assert(sizeof(fsid) == sizeof(id));
+  return memcpy(&id, &fsid, sizeof(id)), id;
+};
+
 inline auto do_mark =
-  [](char const* const dirpath, int fa_fd, auto const& cb) -> result
+  [](
+    char const* const dirpath,
+    int fa_fd,
+    ke_fa_ev::mounts& mnts,
+    auto const& cb) -> result
 {
   auto e = result::w_sys_not_watched;
   char real[PATH_MAX];
@@ -1113,6 +1132,9 @@ inline auto do_mark =
     realpath(dirpath, real) && is_dir(real)
       ? fanotify_mark(fa_fd, FAN_MARK_ADD, ke_fa_ev::recv_flags, AT_FDCWD, real)
       : -1;
+  struct statfs fs;
+  if (anonymous_wd == 0 && statfs(real, &fs) == 0)
+    mnts.try_emplace(fsid_of(fs.f_fsid), real);
   if (anonymous_wd == 0)
     return result::complete;
   else
@@ -1131,13 +1153,14 @@ inline auto make_sysres = [](
 {
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
   if (fa_fd < 0) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
-  walkdir_do(base_path, [&](auto dir) { do_mark(dir, fa_fd, cb); });
+  auto mnts = ke_fa_ev::mounts{};
+  walkdir_do(base_path, [&](auto dir) { do_mark(dir, fa_fd, mnts, cb); });
   auto ep = make_ep(fa_fd, living.fd);
   if (ep.fd < 0)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
   return sysres{
     .ok = result::pending,
-    .ke{.fd = fa_fd},
+    .ke{.fd = fa_fd, .mnts = std::move(mnts)},
     .il = living,
     .ep = ep,
   };
@@ -1173,21 +1196,25 @@ inline auto make_sysres = [](
     character string to the event's directory entry
     after the file handle to the directory.
     Confusing, right? */
-inline auto
-pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
+inline auto pathof(
+  fanotify_event_metadata const* const mtd,
+  ke_fa_ev::mounts const& mnts,
+  int* ec) -> std::string
 {
   constexpr size_t path_ulim = PATH_MAX - sizeof('\0');
   constexpr int ofl = O_RDONLY | O_CLOEXEC | O_PATH;
+  constexpr int mnt_ofl = O_RDONLY | O_CLOEXEC | O_DIRECTORY;
   auto dir_info = (fanotify_event_info_fid*)(mtd + 1);
   auto dir_fh = (file_handle*)(dir_info->handle);
   char path_buf[PATH_MAX];
   ssize_t file_name_offset = 0;
   /*  Directory name */
-  int fd = open_by_handle_at(AT_FDCWD, dir_fh, ofl);
-  if (fd < 0) {
-    *ec = errno;
-    return {};
-  }
+  auto mnt = mnts.find(fsid_of(dir_info->fsid));
+  int mnt_fd = mnt != mnts.end() ? open(mnt->second.c_str(), mnt_ofl) : -1;
+  int fd = open_by_handle_at(mnt_fd < 0 ? AT_FDCWD : mnt_fd, dir_fh, ofl);
+  if (fd < 0) *ec = errno;
+  if (mnt_fd >= 0) close(mnt_fd);
+  if (fd < 0) return {};
   char fs_ev_pidpath[32] = {0};
   snprintf(fs_ev_pidpath, sizeof(fs_ev_pidpath), "/proc/self/fd/%d", fd);
   file_name_offset = readlink(fs_ev_pidpath, path_buf, path_ulim);
@@ -1230,9 +1257,11 @@ struct Parsed {
   unsigned this_len = 0;
 };
 
-inline auto
-parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
-  -> Parsed
+inline auto parse_ev(
+  fanotify_event_metadata const* const m,
+  size_t read_len,
+  ke_fa_ev::mounts const& mnts,
+  int* ec) -> Parsed
 {
   using ev = ::wtr::watcher::event;
   using ev_pt = enum ev::path_type;
@@ -1257,12 +1286,13 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
         && (a & FAN_ONDIR) == (b & FAN_ONDIR);
   };
   auto one = [&](auto* m) -> Parsed
-  { return {ev(pathof(m, ec), et, pt), n, m->event_len}; };
+  { return {ev(pathof(m, mnts, ec), et, pt), n, m->event_len}; };
   auto assoc = [&](auto* a, auto* b) -> Parsed
   {
     auto nn = peek(n, read_len - m->event_len);
     auto here_to_nnn = m->event_len + n->event_len;
-    auto e = ev(ev(pathof(a, ec), et, pt), ev(pathof(b, ec), et, pt));
+    auto from = ev(pathof(a, mnts, ec), et, pt);
+    auto e = ev(from, ev(pathof(b, mnts, ec), et, pt));
     return {e, nn, here_to_nnn};
   };
   return ! n || ! has_path(n)       ? one(m)
@@ -1276,13 +1306,14 @@ inline auto do_mark_if_newdir =
     ::wtr::watcher::event const& ev,
     unsigned long long mask,
     int fa_fd,
+    ke_fa_ev::mounts& mnts,
     auto const& cb) -> void
 {
   auto is_here = ev.associated || mask & (FAN_CREATE | FAN_MOVED_TO);
   auto is_newdir = ev.path_type == ::wtr::watcher::event::path_type::dir;
   auto const& path = ev.associated ? ev.associated->path_name : ev.path_name;
   if (is_here && is_newdir)
-    walkdir_do(path.c_str(), [&](auto dir) { do_mark(dir, fa_fd, cb); });
+    walkdir_do(path.c_str(), [&](auto dir) { do_mark(dir, fa_fd, mnts, cb); });
 };
 
 /*  Read some events from what fanotify gives
@@ -1334,11 +1365,11 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         send_msg(result::w_sys_bad_meta, "", cb);
       else {
         int ec = 0;
-        auto [ev, n, l] = parse_ev(mtd, read_len, &ec);
+        auto [ev, n, l] = parse_ev(mtd, read_len, sr.ke.mnts, &ec);
         if (ec)
           send_msg(result::w_sys_bad_fd, "", cb);
         else {
-          do_mark_if_newdir(ev, mtd->mask, sr.ke.fd, cb);
+          do_mark_if_newdir(ev, mtd->mask, sr.ke.fd, sr.ke.mnts, cb);
           cb(ev);
         }
         next = n;
-- 
2.43.0

