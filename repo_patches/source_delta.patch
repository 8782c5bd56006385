From 81fed6dff27af06c6c5fa3789e946322c339c724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:48 +0000
Subject: [PATCH 01/47] fix: return receipts and changelist errors without
 waiting for events

kevent() with EV_RECEIPT (or a failing change) and room left in the
eventlist went on to wait: the call blocked until an unrelated event
arrived, and on timeout returned 0, losing the receipts.
---
 src/common/kevent.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index 51f347b..0e24d62 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -432,8 +432,13 @@ kevent(int kqfd,
     /*
      * If we have space remaining after processing
      * the changelist, copy events out.
+     *
+     * If processing the changelist produced entries
+     * (receipts or errors), return those to the caller
+     * straight away instead of waiting, and without
+     * draining any pending events.
      */
-    if ((el_end - el_p) > 0) {
+    if ((el_p == eventlist) && ((el_end - el_p) > 0)) {
         /*
          * Allow cancellation in kevent_wait as we
          * may be waiting a long time for the thread
-- 
2.43.0


From 8c7f0ead19652b9883524a76df36d0fe20426a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:12 +0000
Subject: [PATCH 02/47] fix: EV_ADD|EV_DISABLE leaves the knote registered and
 enabled-looking

The knote was created with EV_DISABLE already set and the filter's
kn_disable called directly: EVFILT_USER never entered the epoll set so
the change failed with ENOENT, and a disabled flag set before the fd
state was updated lost track of read/write registrations.
---
 src/common/kevent.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index 0e24d62..5140a3a 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -196,7 +196,7 @@ kevent_copyin_one(const struct knote **out, struct kqueue *kq, const struct keve
                 return (-1);
             }
             memcpy(&kn->kev, src, sizeof(kn->kev));
-            kn->kev.flags &= ~EV_ENABLE;
+            kn->kev.flags &= ~(EV_ENABLE | EV_DISABLE);
             kn->kn_kq = kq;
             assert(filt->kn_create);
             rv = filt->kn_create(filt, kn);
@@ -215,10 +215,8 @@ kevent_copyin_one(const struct knote **out, struct kqueue *kq, const struct keve
             *out = kn;
 
 /* XXX- FIXME Needs to be handled in kn_create() to prevent races */
-            if (src->flags & EV_DISABLE) {
-                kn->kev.flags |= EV_DISABLE;
-                return filt->kn_disable(filt, kn);
-            }
+            if (src->flags & EV_DISABLE)
+                return knote_disable(filt, kn);
             //........................................
             return (rv);
         } else {
-- 
2.43.0


From ee5e27fc157fe70f264f251760b1ddb875c6f529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:12 +0000
Subject: [PATCH 03/47] fix: EV_ADD|EV_ENABLE and EV_ADD|EV_DISABLE on an
 existing knote ignore udata

---
 src/common/kevent.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index 5140a3a..14a8517 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -249,6 +249,14 @@ kevent_copyin_one(const struct knote **out, struct kqueue *kq, const struct keve
         }
         dbg_printf("kn=%p - kn_modify rv=%d", kn, rv);
     }
+
+    /*
+     * Re-adding an existing knote updates its udata, also
+     * when it is enabled or disabled by the same change.
+     */
+    if ((rv == 0) && (src->flags & EV_ADD) && (src->flags & (EV_ENABLE | EV_DISABLE)) && !(src->flags & EV_DELETE))
+        kn->kev.udata = src->udata;
+
     *out = kn;
 
     return (rv);
-- 
2.43.0


From e2eb56ab31289a8abd402a265c8d12e475a50bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:39 +0000
Subject: [PATCH 04/47] fix: modifying an EVFILT_PROC knote loses its oneshot
 and disabled state

Re-adding a registration overwrote EV_ONESHOT|EV_CLEAR (set on creation)
and EV_DISABLE, so the exit was reported again on every call and deleting
a disabled registration failed.
---
 src/linux/proc.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/linux/proc.c b/src/linux/proc.c
index ba7d2a2..b1b1b7b 100644
--- a/src/linux/proc.c
+++ b/src/linux/proc.c
@@ -142,8 +142,11 @@ evfilt_proc_knote_create(struct filter *filt, struct knote *kn)
 int
 evfilt_proc_knote_modify(struct filter *filt, struct knote *kn, const struct kevent *kev)
 {
-    /* We don't need to make any changes to the pidfd, just record the new flags */
-    kn->kev.flags = kev->flags;
+    /*
+     * We don't need to make any changes to the pidfd, just record the new flags
+     * keeping those which were set on creation, and whether the knote is disabled.
+     */
+    kn->kev.flags = kev->flags | (kn->kev.flags & (EV_ONESHOT | EV_CLEAR | EV_DISABLE));
     kn->kev.fflags = kev->fflags;
 
     if (kn->kn_procfd < 0) return evfilt_proc_knote_create(filt, kn);
-- 
2.43.0


From 711649e613fb23bbe841da8a45fd8ebb49b1ae1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:39 +0000
Subject: [PATCH 05/47] fix: EVFILT_PROC knote without NOTE_EXIT cannot be
 disabled, enabled or deleted

---
 src/linux/proc.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/linux/proc.c b/src/linux/proc.c
index b1b1b7b..ad34d99 100644
--- a/src/linux/proc.c
+++ b/src/linux/proc.c
@@ -83,6 +83,8 @@ evfilt_proc_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt,
 int
 evfilt_proc_knote_enable(struct filter *filt, struct knote *kn)
 {
+    if (kn->kn_procfd < 0) return (0); /* Not monitoring anything */
+
     if (epoll_ctl(filter_epoll_fd(filt), EPOLL_CTL_ADD, kn->kn_procfd, EPOLL_EV_KN(EPOLLIN, kn)) < 0) {
         dbg_printf("epoll_ctl(2): %s", strerror(errno));
         return -1;
@@ -93,6 +95,8 @@ evfilt_proc_knote_enable(struct filter *filt, struct knote *kn)
 int
 evfilt_proc_knote_disable(struct filter *filt, struct knote *kn)
 {
+    if (kn->kn_procfd < 0) return (0); /* Not monitoring anything */
+
     if (epoll_ctl(filter_epoll_fd(filt), EPOLL_CTL_DEL, kn->kn_procfd, NULL) < 0) {
         dbg_printf("epoll_ctl(2): %s", strerror(errno));
         return (-1);
@@ -136,6 +140,8 @@ evfilt_proc_knote_create(struct filter *filt, struct knote *kn)
 
     KN_UDATA(kn);   /* populate this knote's kn_udata field */
 
+    if (KNOTE_DISABLED(kn)) return (0); /* Created by modifying a disabled knote */
+
     return evfilt_proc_knote_enable(filt, kn);
 }
 
@@ -159,6 +165,8 @@ evfilt_proc_knote_delete(struct filter *filt, struct knote *kn)
 {
     int rv = 0;
 
+    if (kn->kn_procfd < 0) return (0); /* Not monitoring anything */
+
     /* If it's enabled, we need to remove the pidfd from epoll */
     if (KNOTE_ENABLED(kn) && (evfilt_proc_knote_disable(filt, kn) < 0)) rv = -1;
 
-- 
2.43.0


From 452e47acbf46e5bca0ecfe7c32da7cd2b2609824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:39 +0000
Subject: [PATCH 06/47] fix: abort when the process watched by EVFILT_PROC was
 already reaped

waitid() fails with ECHILD if the application collected the child before
calling kevent(), or if the process is not our child; that made kevent()
fail an assertion.  Report the exit, without a status.
---
 src/linux/proc.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/linux/proc.c b/src/linux/proc.c
index ad34d99..ed7cf7e 100644
--- a/src/linux/proc.c
+++ b/src/linux/proc.c
@@ -30,7 +30,7 @@ int
 evfilt_proc_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt,
     struct knote *src, UNUSED_NDEBUG void *ptr)
 {
-    siginfo_t info;
+    siginfo_t info = { .si_code = 0 };
     unsigned int status = 0;
 #ifndef NDEBUG
     struct epoll_event * const ev = (struct epoll_event *) ptr;
@@ -42,7 +42,14 @@ evfilt_proc_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt,
     /* Get the exit status _without_ reaping the process, waitpid() should still work in the caller */
     if (waitid(P_PID, (id_t)src->kev.ident, &info, WEXITED | WNOHANG | WNOWAIT) < 0) {
         dbg_printf("waitid(2): %s", strerror(errno));
-        return (-1);
+        if (errno != ECHILD) return (-1);
+
+        /*
+         *  Not our child, or already reaped by the application.
+         *  The process is gone, but its exit status is not available.
+         */
+        info.si_code = CLD_EXITED;
+        info.si_status = 0;
     }
 
     /*
-- 
2.43.0


From 028b752bf106fc1aa94bbfec0adc89f1675a6c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:39 +0000
Subject: [PATCH 07/47] fix: pidfd leaks when an EVFILT_PROC registration fails

---
 src/linux/proc.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/linux/proc.c b/src/linux/proc.c
index ed7cf7e..ef8a742 100644
--- a/src/linux/proc.c
+++ b/src/linux/proc.c
@@ -131,6 +131,7 @@ evfilt_proc_knote_create(struct filter *filt, struct knote *kn)
     }
     if (fcntl(pfd, F_SETFD, FD_CLOEXEC) < 0) {
         dbg_perror("fcntl(2)");
+        (void) close(pfd);
         return (-1);
     }
     dbg_printf("created pidfd=%i monitoring pid=%u", pfd, (unsigned int)kn->kev.ident);
@@ -149,7 +150,13 @@ evfilt_proc_knote_create(struct filter *filt, struct knote *kn)
 
     if (KNOTE_DISABLED(kn)) return (0); /* Created by modifying a disabled knote */
 
-    return evfilt_proc_knote_enable(filt, kn);
+    if (evfilt_proc_knote_enable(filt, kn) < 0) {
+        (void) close(pfd);
+        kn->kn_procfd = -1;
+        return (-1);
+    }
+
+    return (0);
 }
 
 int
-- 
2.43.0


From 319afaf675746937fceec4a066393b99f1c473f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:38 +0000
Subject: [PATCH 08/47] fix: re-adding an EVFILT_READ or EVFILT_WRITE knote
 fails

EV_ADD on an existing registration (for example to change udata) returned
an error, with errno unset, unless EV_CLEAR was given.
---
 src/linux/read.c  | 25 +++++++++++--------------
 src/linux/write.c | 23 ++++++++++-------------
 2 files changed, 21 insertions(+), 27 deletions(-)

diff --git a/src/linux/read.c b/src/linux/read.c
index a769f65..5fd4c9c 100644
--- a/src/linux/read.c
+++ b/src/linux/read.c
@@ -218,20 +218,17 @@ int
 evfilt_read_knote_modify(UNUSED struct filter *filt, struct knote *kn,
         const struct kevent *kev)
 {
-    if (!(kn->kn_flags & KNFL_FILE)) {
-        /*
-         * This should reset the EOF sate of the socket.
-         * but it's not even clear what that really means.
-         *
-         * With the native kqueue implementations it
-         * basically does nothing.
-         */
-        if ((kev->flags & EV_CLEAR))
-            return (0);
-        return (-1);
-    }
-
-    return (-1);
+    (void)kn;
+    (void)kev;
+
+    /*
+     * This should reset the EOF sate of the socket.
+     * but it's not even clear what that really means.
+     *
+     * With the native kqueue implementations it
+     * basically does nothing.
+     */
+    return (0);
 }
 
 int
diff --git a/src/linux/write.c b/src/linux/write.c
index d253604..8c25c7b 100644
--- a/src/linux/write.c
+++ b/src/linux/write.c
@@ -153,20 +153,17 @@ int
 evfilt_write_knote_modify(UNUSED struct filter *filt, struct knote *kn,
         const struct kevent *kev)
 {
-    if (!(kn->kn_flags & KNFL_FILE)) {
-        /*
-         * This should reset the EOF sate of the socket.
-         * but it's not even clear what that really means.
-         *
-         * With the native kqueue implementations it
-         * basically does nothing.
-         */
-        if ((kev->flags & EV_CLEAR))
-            return (0);
-        return (-1);
-    }
+    (void)kn;
+    (void)kev;
 
-    return (-1);
+    /*
+     * This should reset the EOF sate of the socket.
+     * but it's not even clear what that really means.
+     *
+     * With the native kqueue implementations it
+     * basically does nothing.
+     */
+    return (0);
 }
 
 int
-- 
2.43.0


From 8a5efed648afef4fc3acba38a76694967467cccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:38 +0000
Subject: [PATCH 09/47] fix: disabled EVFILT_READ/EVFILT_WRITE knote reports
 hangups and errors

EPOLLHUP and EPOLLERR cannot be masked, so when the other filter is still
enabled on the same descriptor they were delivered to the disabled one too.
---
 src/linux/platform.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index ac69799..cca3201 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -883,7 +883,7 @@ linux_kevent_copyout(struct kqueue *kq, int nready, struct kevent *el, int neven
             /*
              *    FD, or errored, or other side shutdown
              */
-            if ((kn = fds->fds_read) && (ev->events & (EPOLLIN | EPOLLHUP | EPOLLRDHUP | EPOLLERR))) {
+            if ((kn = fds->fds_read) && KNOTE_ENABLED(kn) && (ev->events & (EPOLLIN | EPOLLHUP | EPOLLRDHUP | EPOLLERR))) {
                 if (el_p >= el_end) goto oos;
 
                 rv = linux_kevent_copyout_ev(el_p, (el_end - el_p), ev, knote_get_filter(kn), kn);
@@ -894,7 +894,7 @@ linux_kevent_copyout(struct kqueue *kq, int nready, struct kevent *el, int neven
             /*
              *    FD is writable, or errored, or other side shutdown
              */
-            if ((kn = write) && (ev->events & (EPOLLOUT | POLLHUP | EPOLLERR))) {
+            if ((kn = write) && KNOTE_ENABLED(kn) && (ev->events & (EPOLLOUT | POLLHUP | EPOLLERR))) {
                 if (el_p >= el_end) goto oos;
 
                 rv = linux_kevent_copyout_ev(el_p, (el_end - el_p), ev, knote_get_filter(kn), kn);
-- 
2.43.0


From 1d07299e8581809d00f106eb4f1befa65fdcb526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:38 +0000
Subject: [PATCH 10/47] fix: EVFILT_READ and EVFILT_WRITE on one descriptor
 corrupt each other's epoll options

Adding, enabling, disabling or deleting one of the two filters dropped
EPOLLRDHUP (the peer's shutdown was never reported with EV_EOF) and
imposed or lost EPOLLET for the other one.
---
 src/linux/platform.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index cca3201..9313916 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -1496,6 +1496,30 @@ epoll_update(int op, struct filter *filt, struct knote *kn, int ev, bool delete)
     else
         return (0);
 
+    /*
+     * Combine the options (EPOLLRDHUP, EPOLLET) of the knotes
+     * which will be enabled.  The fd can only be edge triggered
+     * if that's what all of them asked for.
+     */
+    if (want_ev) {
+        int et = EPOLLET;
+
+        want = want_ev;
+        if (want_ev & EPOLLIN) {
+            int events = (fds->fds_read ? fds->fds_read : kn)->epoll_events;
+
+            want |= events & ~EPOLLET;
+            et &= events;
+        }
+        if (want_ev & EPOLLOUT) {
+            int events = (fds->fds_write ? fds->fds_write : kn)->epoll_events;
+
+            want |= events & ~EPOLLET;
+            et &= events;
+        }
+        want |= et;
+    }
+
     dbg_printf("fd=%i op=0x%04x (%s) opn=0x%04x (%s) %s",
                fd,
                op, epoll_op_dump(op),
-- 
2.43.0


From cb1786234319500683e039ba6719defd57158708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:38 +0000
Subject: [PATCH 11/47] fix: EVFILT_WRITE reports data passed in by the
 application

SIOCOUTQ stores an int, leaving the upper half of the data field as given
when the event was registered; for regular files and on EOF the whole
field was returned unchanged.
---
 src/linux/write.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/linux/write.c b/src/linux/write.c
index 8c25c7b..b0cb99c 100644
--- a/src/linux/write.c
+++ b/src/linux/write.c
@@ -41,6 +41,7 @@ evfilt_write_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt
     /*
      * Fast path for files...
      */
+    dst->data = 0;
     if (src->kn_flags & KNFL_FILE) goto done;
 
     if (ev->events & EPOLLHUP)
@@ -61,10 +62,15 @@ evfilt_write_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt
     }
 
     /* On return, data contains the the amount of space remaining in the write buffer */
-    if (!(dst->flags & EV_EOF) && (ioctl(dst->ident, SIOCOUTQ, &dst->data) < 0)) {
+    if (!(dst->flags & EV_EOF)) {
+        int i;
+
+        if (ioctl(dst->ident, SIOCOUTQ, &i) < 0) {
             /* race condition with socket close, so ignore this error */
             dbg_puts("ioctl(2) of socket failed");
-            dst->data = 0;
+        } else {
+            dst->data = i;
+        }
     }
 
 done:
-- 
2.43.0


From ff119843bad43e502c33c1454e39d5c0d9195f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:38 +0000
Subject: [PATCH 12/47] fix: EV_ONESHOT and EV_DISPATCH on regular files

An EVFILT_READ knote on a regular file was never deleted (EV_ONESHOT) or
marked disabled (EV_DISPATCH), so that it could not be enabled or added
again.  Apply the flags as for every other descriptor, and don't use
EPOLLONESHOT, which disarms the knote even if the event isn't returned.
---
 src/linux/read.c  | 16 +++-------------
 src/linux/write.c |  7 -------
 2 files changed, 3 insertions(+), 20 deletions(-)

diff --git a/src/linux/read.c b/src/linux/read.c
index 5fd4c9c..a479c0d 100644
--- a/src/linux/read.c
+++ b/src/linux/read.c
@@ -99,8 +99,11 @@ evfilt_read_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt,
             }
             /* FIXME: race here, should we check the EOF status again ? */
 #endif
+            return (1);
         }
 
+        if (knote_copyout_flag_actions(filt, src) < 0) return -1;
+
         return (1);
     }
 
@@ -172,19 +175,6 @@ evfilt_read_knote_create(struct filter *filt, struct knote *kn)
     if (kn->kn_flags & KNFL_FILE) {
         int evfd;
 
-        /*
-         * We only set oneshot for cases where we're not going to
-         * be using EPOLL_CTL_MOD.
-         *
-         * We rely on the common code disabling the event after
-         * it's fired once.
-         *
-         * See this SO post for details:
-         * https://stackoverflow.com/questions/59517961/how-should-i-use-epoll-to-read-and-write-from-the-same-fd
-         */
-        if (kn->kev.flags & EV_ONESHOT || kn->kev.flags & EV_DISPATCH)
-            kn->epoll_events |= EPOLLONESHOT;
-
         kn->kn_epollfd = filter_epoll_fd(filt);
         evfd = eventfd(0, 0);
         if (evfd < 0) {
diff --git a/src/linux/write.c b/src/linux/write.c
index b0cb99c..4e63dc8 100644
--- a/src/linux/write.c
+++ b/src/linux/write.c
@@ -103,13 +103,6 @@ evfilt_write_knote_create(struct filter *filt, struct knote *kn)
         if (kn->kev.flags & EV_CLEAR)
             kn->epoll_events |= EPOLLET;
 
-        /*
-         * We only set oneshot for cases where we're not going to
-         * be using EPOLL_CTL_MOD.
-         */
-        if (kn->kev.flags & EV_ONESHOT || kn->kev.flags & EV_DISPATCH)
-            kn->epoll_events |= EPOLLONESHOT;
-
         kn->kn_epollfd = filter_epoll_fd(filt);
         evfd = eventfd(0, 0);
         if (evfd < 0) {
-- 
2.43.0


From 87caeeb50d31db1715f2ae44da5940728264ee36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:38 +0000
Subject: [PATCH 13/47] fix: cannot disable an EVFILT_READ knote on a regular
 file at its end

---
 src/linux/read.c  | 2 +-
 src/linux/write.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linux/read.c b/src/linux/read.c
index a479c0d..5628a5f 100644
--- a/src/linux/read.c
+++ b/src/linux/read.c
@@ -257,7 +257,7 @@ int
 evfilt_read_knote_disable(struct filter *filt, struct knote *kn)
 {
     if (kn->kn_flags & KNFL_FILE) {
-        if (epoll_ctl(kn->kn_epollfd, EPOLL_CTL_DEL, kn->kn_eventfd, NULL) < 0) {
+        if (kn->kn_registered && epoll_ctl(kn->kn_epollfd, EPOLL_CTL_DEL, kn->kn_eventfd, NULL) < 0) {
             dbg_perror("epoll_ctl(2)");
             return (-1);
         }
diff --git a/src/linux/write.c b/src/linux/write.c
index 4e63dc8..2ebaa5d 100644
--- a/src/linux/write.c
+++ b/src/linux/write.c
@@ -201,7 +201,7 @@ int
 evfilt_write_knote_disable(struct filter *filt, struct knote *kn)
 {
     if (kn->kn_flags & KNFL_FILE) {
-        if (epoll_ctl(kn->kn_epollfd, EPOLL_CTL_DEL, kn->kn_eventfd, NULL) < 0) {
+        if (kn->kn_registered && epoll_ctl(kn->kn_epollfd, EPOLL_CTL_DEL, kn->kn_eventfd, NULL) < 0) {
             dbg_perror("epoll_ctl(2)");
             return (-1);
         }
-- 
2.43.0


From 3703d3b3413eccc880f37961cf3ae83458eee93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:38 +0000
Subject: [PATCH 14/47] fix: descriptors backing regular file knotes leak
 across exec

---
 src/linux/read.c  | 2 +-
 src/linux/write.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linux/read.c b/src/linux/read.c
index 5628a5f..989fc41 100644
--- a/src/linux/read.c
+++ b/src/linux/read.c
@@ -176,7 +176,7 @@ evfilt_read_knote_create(struct filter *filt, struct knote *kn)
         int evfd;
 
         kn->kn_epollfd = filter_epoll_fd(filt);
-        evfd = eventfd(0, 0);
+        evfd = eventfd(0, EFD_CLOEXEC);
         if (evfd < 0) {
             dbg_perror("eventfd(2)");
             return (-1);
diff --git a/src/linux/write.c b/src/linux/write.c
index 2ebaa5d..b039707 100644
--- a/src/linux/write.c
+++ b/src/linux/write.c
@@ -104,7 +104,7 @@ evfilt_write_knote_create(struct filter *filt, struct knote *kn)
             kn->epoll_events |= EPOLLET;
 
         kn->kn_epollfd = filter_epoll_fd(filt);
-        evfd = eventfd(0, 0);
+        evfd = eventfd(0, EFD_CLOEXEC);
         if (evfd < 0) {
             dbg_perror("eventfd(2)");
             return (-1);
-- 
2.43.0


From fa97212e0da955b38ecebfecf76d9f0e9ef08926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:11 +0000
Subject: [PATCH 15/47] fix: EVFILT_VNODE knote disappears once anybody closes
 the file

Closing any descriptor of the file, in any process, turned the knote into
a oneshot one, so that only the next change was reported.
---
 src/linux/vnode.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/linux/vnode.c b/src/linux/vnode.c
index 3c28575..b46da6c 100644
--- a/src/linux/vnode.c
+++ b/src/linux/vnode.c
@@ -219,7 +219,9 @@ evfilt_vnode_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt
 scriptors reference the same file.
     */
     if (evt->mask & IN_CLOSE_WRITE || evt->mask & IN_CLOSE_NOWRITE) {
-        src->kev.flags |= EV_ONESHOT; /* KLUDGE: causes the knote to be deleted */
+        /* Other descriptors for the same file come and go, only ours matters */
+        if (fcntl(src->kev.ident, F_GETFD) < 0)
+            src->kev.flags |= EV_ONESHOT; /* KLUDGE: causes the knote to be deleted */
         dst->filter = 0; /* KLUDGE: causes the event to be discarded */
         return (0);
     }
-- 
2.43.0


From 6eb7bbc7f784b15d22af0ba73cef04d1d3ea2371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:11 +0000
Subject: [PATCH 16/47] fix: EVFILT_VNODE with EV_ONESHOT misses the event it
 waits for

IN_ONESHOT removes the watch after the first inotify event, which may be
one that isn't reported (such as somebody closing the file).  The knote is
deleted by the common code after the first event anyway.
---
 src/linux/vnode.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/linux/vnode.c b/src/linux/vnode.c
index b46da6c..c152e77 100644
--- a/src/linux/vnode.c
+++ b/src/linux/vnode.c
@@ -137,8 +137,6 @@ add_watch(struct filter *filt, struct knote *kn)
         mask |= IN_ATTRIB;
     if (kn->kev.fflags & NOTE_RENAME)
         mask |= IN_MOVE_SELF;
-    if (kn->kev.flags & EV_ONESHOT)
-        mask |= IN_ONESHOT;
 
     /* Create an inotify descriptor */
     ifd = inotify_init1(IN_CLOEXEC);
-- 
2.43.0


From 6a24bcff19a4c319fadceae228356a9e1020e452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:11 +0000
Subject: [PATCH 17/47] fix: NOTE_EXTEND is never reported unless NOTE_WRITE is
 requested as well

---
 src/linux/vnode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linux/vnode.c b/src/linux/vnode.c
index c152e77..0c8167d 100644
--- a/src/linux/vnode.c
+++ b/src/linux/vnode.c
@@ -245,7 +245,7 @@ scriptors reference the same file.
                 dst->fflags |= NOTE_TRUNCATE;
 #endif
             if (sb.st_size > src->kn_vnode.size &&
-                src->kev.fflags & NOTE_WRITE)
+                src->kev.fflags & (NOTE_WRITE | NOTE_EXTEND))
                 dst->fflags |= NOTE_EXTEND;
             src->kn_vnode.nlink = sb.st_nlink;
             src->kn_vnode.size = sb.st_size;
-- 
2.43.0


From 969cf60401880fabc8d81f8bb6e61ec2b7e9b82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:11 +0000
Subject: [PATCH 18/47] fix: EVFILT_VNODE reports events the application did
 not ask for

The inotify mask is wider than the request (IN_ATTRIB is needed for
NOTE_DELETE and NOTE_WRITE), and whatever did not match was reported with
fflags == 0, and consumed EV_ONESHOT and EV_DISPATCH.
---
 src/linux/vnode.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/linux/vnode.c b/src/linux/vnode.c
index 0c8167d..fd164d9 100644
--- a/src/linux/vnode.c
+++ b/src/linux/vnode.c
@@ -261,6 +261,11 @@ scriptors reference the same file.
     if (evt->mask & IN_DELETE_SELF && src->kev.fflags & NOTE_DELETE)
         dst->fflags |= NOTE_DELETE;
 
+    if (dst->fflags == 0) {
+        dst->filter = 0; /* Nothing the caller asked for, discard the event */
+        return (0);
+    }
+
     if (knote_copyout_flag_actions(filt, src) < 0) return -1;
 
     return (1);
-- 
2.43.0


From bcadd00fbad9fa22403e353a3b7de4e040afbd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:11 +0000
Subject: [PATCH 19/47] fix: timer expirations are lost

EPOLLET and EPOLLONESHOT disarm the timerfd even if the event did not fit
in the eventlist, and EPOLLONESHOT stays in effect when a oneshot timer is
modified to be periodic.  Reading the timerfd already resets it.
---
 src/linux/timer.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/linux/timer.c b/src/linux/timer.c
index 2e2082d..36ebba3 100644
--- a/src/linux/timer.c
+++ b/src/linux/timer.c
@@ -158,7 +158,6 @@ evfilt_timer_knote_create(struct filter *filt, struct knote *kn)
     struct itimerspec ts;
     int tfd;
     int flags;
-    int events;
 
     kn->kev.flags |= EV_CLEAR;
 
@@ -182,12 +181,8 @@ evfilt_timer_knote_create(struct filter *filt, struct knote *kn)
         return (-1);
     }
 
-    events = EPOLLIN | EPOLLET;
-    if (kn->kev.flags & (EV_ONESHOT | EV_DISPATCH))
-        events |= EPOLLONESHOT;
-
     KN_UDATA(kn);   /* populate this knote's kn_udata field */
-    if (epoll_ctl(filter_epoll_fd(filt), EPOLL_CTL_ADD, tfd, EPOLL_EV_KN(events, kn)) < 0) {
+    if (epoll_ctl(filter_epoll_fd(filt), EPOLL_CTL_ADD, tfd, EPOLL_EV_KN(EPOLLIN, kn)) < 0) {
         dbg_printf("epoll_ctl(2): %d", errno);
         close(tfd);
         return (-1);
-- 
2.43.0


From 549960f6937b2ea24c2ffbaf8cd06ebfe0807e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:11 +0000
Subject: [PATCH 20/47] fix: EV_ADD does not enable a disabled knote

kqueue(2) documents that adding an event enables it unless EV_DISABLE is
given.  A disabled timer could not be re-added at all (EBADF).
---
 src/common/kevent.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index 14a8517..e48542b 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -236,6 +236,11 @@ kevent_copyin_one(const struct knote **out, struct kqueue *kq, const struct keve
     } else if (src->flags & EV_ENABLE) {
         rv = knote_enable(filt, kn);
     } else if (src->flags & EV_ADD || src->flags == 0 || src->flags & EV_RECEIPT) {
+        /* Adding an event enables it, unless EV_DISABLE is given */
+        if ((src->flags & EV_ADD) && ((rv = knote_enable(filt, kn)) < 0)) {
+            *out = kn;
+            return (rv);
+        }
         rv = filt->kn_modify(filt, kn, src);
         /*
          * Implement changes common to all filters
-- 
2.43.0


From 97948e1a5174363483728c951f966bd1efb6d337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:11 +0000
Subject: [PATCH 21/47] fix: map accesses one element past its end

---
 src/common/map.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/common/map.c b/src/common/map.c
index 991cda5..d3a106c 100644
--- a/src/common/map.c
+++ b/src/common/map.c
@@ -58,7 +58,7 @@ map_new(size_t len)
 int
 map_insert(struct map *m, int idx, void *ptr)
 {
-    if (unlikely(idx < 0 || idx > (int)m->len))
+    if (unlikely(idx < 0 || idx >= (int)m->len))
            return (-1);
 
     if (atomic_ptr_cas(&(m->data[idx]), NULL, ptr)) {
@@ -74,7 +74,7 @@ map_insert(struct map *m, int idx, void *ptr)
 int
 map_remove(struct map *m, int idx, void *ptr)
 {
-    if (unlikely(idx < 0 || idx > (int)m->len))
+    if (unlikely(idx < 0 || idx >= (int)m->len))
            return (-1);
 
     if (atomic_ptr_cas(&(m->data[idx]), ptr, NULL)) {
@@ -89,7 +89,7 @@ map_remove(struct map *m, int idx, void *ptr)
 int
 map_replace(struct map *m, int idx, void *oldp, void *newp)
 {
-    if (unlikely(idx < 0 || idx > (int)m->len))
+    if (unlikely(idx < 0 || idx >= (int)m->len))
            return (-1);
 
     if (atomic_ptr_cas(&(m->data[idx]), oldp, newp)) {
@@ -105,7 +105,7 @@ map_replace(struct map *m, int idx, void *oldp, void *newp)
 void *
 map_lookup(struct map *m, int idx)
 {
-    if (unlikely(idx < 0 || idx > (int)m->len))
+    if (unlikely(idx < 0 || idx >= (int)m->len))
         return (NULL);
 
     return (void *)atomic_ptr_load(&m->data[idx]);
@@ -114,7 +114,7 @@ map_lookup(struct map *m, int idx)
 void *
 map_delete(struct map *m, int idx)
 {
-    if (unlikely(idx < 0 || idx > (int)m->len))
+    if (unlikely(idx < 0 || idx >= (int)m->len))
            return ((void *)-1);
 
     return (void *)atomic_ptr_swap(&(m->data[idx]), NULL);
-- 
2.43.0


From 02a7fb9b160e2e30c9895987e417bf83a2c71711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:11 +0000
Subject: [PATCH 22/47] fix: kevent() timeouts of more than 24 days overflow

The conversion to milliseconds wrapped, waiting for ever or returning
early.
---
 src/linux/platform.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 9313916..287fd64 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -19,6 +19,7 @@
 #include <signal.h>
 
 #include <inttypes.h>
+#include <limits.h>
 #include <sys/prctl.h>
 #include <sys/resource.h>
 
@@ -663,8 +664,8 @@ linux_kevent_wait(struct kqueue *kq, int nevents, const struct timespec *ts)
     int timeout, nret;
 
     /* Use a high-resolution syscall if the timeout value's tv_nsec value has a resolution
-     * finer than a millisecond. */
-    if (ts != NULL && (ts->tv_nsec % 1000000 != 0)) {
+     * finer than a millisecond, or the timeout doesn't fit in milliseconds. */
+    if (ts != NULL && ((ts->tv_nsec % 1000000 != 0) || (ts->tv_sec >= INT_MAX / 1000))) {
         nret = linux_kevent_wait_hires(kq, ts);
         if (nret <= 0)
             return (nret);
-- 
2.43.0


From f7839da039645f13839759d7750f6b32c189dc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:30 +0000
Subject: [PATCH 23/47] fix: kevent() returns 0 before its timeout when an
 event is discarded

Events which are not reported (a file that was closed, a regular file at
its end, ...) ended the wait, even with no timeout at all, and hid other
events queued behind them.
---
 src/common/kevent.c | 51 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index e48542b..3b84623 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -350,6 +350,34 @@ kevent_release_kq_mutex(void *arg)
 }
 #endif
 
+#ifdef __linux__
+/** Calculate how much of a timeout is left
+ *
+ * @param[out] out     The remaining time, zero if it has elapsed.
+ * @param[in] start    when the timeout started.
+ * @param[in] timeout  the complete timeout.
+ */
+static void
+kevent_timeout_left(struct timespec *out, const struct timespec *start, const struct timespec *timeout)
+{
+    struct timespec now;
+
+    clock_gettime(CLOCK_MONOTONIC, &now);
+
+    out->tv_sec = timeout->tv_sec - (now.tv_sec - start->tv_sec);
+    out->tv_nsec = timeout->tv_nsec - (now.tv_nsec - start->tv_nsec);
+    if (out->tv_nsec < 0) {
+        out->tv_sec--;
+        out->tv_nsec += 1000000000;
+    } else if (out->tv_nsec >= 1000000000) {
+        out->tv_sec++;
+        out->tv_nsec -= 1000000000;
+    }
+    if (out->tv_sec < 0)
+        out->tv_sec = out->tv_nsec = 0;
+}
+#endif
+
 int VISIBLE
 kevent(int kqfd,
        const struct kevent changelist[], int nchanges,
@@ -462,7 +490,16 @@ kevent(int kqfd,
             pthread_testcancel();
         }
 #endif
+#ifdef __linux__
+        struct timespec start = { 0, 0 }, left;
+        const struct timespec *wait = timeout;
+
+        if (timeout) clock_gettime(CLOCK_MONOTONIC, &start);
+    again:
+        rv = kqops.kevent_wait(kq, nevents, wait);
+#else
         rv = kqops.kevent_wait(kq, nevents, timeout);
+#endif
 #ifndef _WIN32
         (void)pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, NULL);
 #endif
@@ -470,6 +507,20 @@ kevent(int kqfd,
         if (likely(rv > 0)) {
             rv = kqops.kevent_copyout(kq, rv, el_p, el_end - el_p);
             dbg_printf("(%u) kevent_copyout rv=%i", myid, rv);
+#ifdef __linux__
+            /*
+             * All events were spurious and have been discarded,
+             * continue waiting for the rest of the timeout.
+             */
+            if (rv == 0) {
+                if (timeout) {
+                    kevent_timeout_left(&left, &start, timeout);
+                    wait = &left;
+                }
+                (void)pthread_setcancelstate(prev_cancel_state, NULL);
+                goto again;
+            }
+#endif
             if (rv >= 0) {
                 el_p += rv;             /* Add events from copyin */
                 rv = el_p - eventlist;  /* recalculate rv to be the total events in the eventlist */
-- 
2.43.0


From 738f8c8af681fbf7610d17d6fb429a2998ea66cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:28 +0000
Subject: [PATCH 24/47] fix: events lost or starved when a descriptor is both
 readable and writable

The two events of one descriptor may not fit in the space left for it.
Either the last events returned by epoll were dropped (for good if edge
triggered), or with a single entry EVFILT_WRITE was never reported as long
as the descriptor was readable.
---
 src/linux/platform.c | 29 +++++++++++++++++++++++++++--
 src/linux/platform.h |  1 +
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 287fd64..1d109c4 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -873,6 +873,7 @@ linux_kevent_copyout(struct kqueue *kq, int nready, struct kevent *el, int neven
         {
             struct fd_state   *fds = epoll_udata->ud_fds;
             struct knote      *kn, *write;
+            bool              rd, wr;
             assert(fds);
 
             /*
@@ -881,10 +882,33 @@ linux_kevent_copyout(struct kqueue *kq, int nready, struct kevent *el, int neven
              */
             write = fds->fds_write;
 
+            rd = (kn = fds->fds_read) && KNOTE_ENABLED(kn) && (ev->events & (EPOLLIN | EPOLLHUP | EPOLLRDHUP | EPOLLERR));
+            wr = write && KNOTE_ENABLED(write) && (ev->events & (EPOLLOUT | POLLHUP | EPOLLERR));
+
+            /*
+             * This is the only case where an epoll event can
+             * need two eventlist entries.  If that would take
+             * the space of another event which may be lost if
+             * it isn't reported now, or there's no space at all,
+             * report only one, and the other one next time.
+             */
+            if (rd && wr && ((el_end - el_p) <= (nready - i))) {
+                if (fds->fds_write_next)
+                    rd = false;
+                else
+                    wr = false;
+                fds->fds_write_next = !fds->fds_write_next;
+
+                if ((kn->epoll_events & write->epoll_events & EPOLLET) &&
+                    (epoll_ctl(kq->epollfd, EPOLL_CTL_MOD, fds->fds_fd,
+                               EPOLL_EV_FDS(kn->epoll_events | write->epoll_events, fds)) < 0))
+                    dbg_perror("epoll_ctl(2)");
+            }
+
             /*
              *    FD, or errored, or other side shutdown
              */
-            if ((kn = fds->fds_read) && KNOTE_ENABLED(kn) && (ev->events & (EPOLLIN | EPOLLHUP | EPOLLRDHUP | EPOLLERR))) {
+            if (rd) {
                 if (el_p >= el_end) goto oos;
 
                 rv = linux_kevent_copyout_ev(el_p, (el_end - el_p), ev, knote_get_filter(kn), kn);
@@ -895,7 +919,8 @@ linux_kevent_copyout(struct kqueue *kq, int nready, struct kevent *el, int neven
             /*
              *    FD is writable, or errored, or other side shutdown
              */
-            if ((kn = write) && KNOTE_ENABLED(kn) && (ev->events & (EPOLLOUT | POLLHUP | EPOLLERR))) {
+            if (wr) {
+                kn = write;
                 if (el_p >= el_end) goto oos;
 
                 rv = linux_kevent_copyout_ev(el_p, (el_end - el_p), ev, knote_get_filter(kn), kn);
diff --git a/src/linux/platform.h b/src/linux/platform.h
index bf8d7d6..aa29b1c 100644
--- a/src/linux/platform.h
+++ b/src/linux/platform.h
@@ -215,6 +215,7 @@ struct fd_state {
     int                   fds_fd;         //!< File descriptor this entry relates to.
     struct knote          *fds_read;      //!< Knote that should be informed of read events.
     struct knote          *fds_write;     //!< Knote that should be informed of write events.
+    bool                  fds_write_next; //!< No space to report both, write is next.
     struct epoll_udata    fds_udata;      //!< Common struct passed to epoll
 };
 
-- 
2.43.0


From 362bfc513365007efba650efc5a23fc50588bbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:45 +0000
Subject: [PATCH 25/47] fix: unknown EVFILT_LIBKQUEUE option reported without
 an errno

When the knote already exists, an unknown option is reported with
whatever errno was before, usually 0, which reads as success.
---
 src/common/libkqueue.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/libkqueue.c b/src/common/libkqueue.c
index 97223a4..46941f0 100644
--- a/src/common/libkqueue.c
+++ b/src/common/libkqueue.c
@@ -79,6 +79,7 @@ common_libkqueue_knote_create(struct filter *filt, struct knote *kn)
         break;
 #endif
     default:
+        errno = EINVAL;
         return (-1);
     }
 
-- 
2.43.0


From 59fd82ff99c3dd2cd76beac7bc1a7c8d3b8c49cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:27 +0000
Subject: [PATCH 26/47] fix: closing a kqueue can abort the process or free a
 kqueue which is still open

The monitoring thread counted close signals per descriptor number.  A
signal that was still queued when the number was reused found no kqueue
(assertion failure), or was accounted to the wrong one.  Look at the pipe
itself instead: a kqueue is freed when its write end has been closed.
This also removes the tables the thread had to allocate on startup, whose
allocation failure left kqueue() waiting for ever.
---
 src/linux/platform.c | 143 +++++++++----------------------------------
 1 file changed, 28 insertions(+), 115 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 1d109c4..a190c59 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -53,26 +53,19 @@ enum thread_exit_state {
  */
 static enum thread_exit_state monitoring_thread_state;
 
-/*
- * Map for kqueue pipes where index is the read side (for which signals are received)
- * and value is the write side that gets closed and corresponds to the kqueue id.
- *
- * @note Values in the fd_map are never cleared, as we still need to decrement
- * fd_use_cnt when signals for a particular FD are received.
- */
-static int *fd_map;
+static void
+linux_kqueue_free(struct kqueue *kq);
 
-/*
- * Map kqueue id to counter for kq cleanups.
- * When use counter is at 0, cleanup can be performed by signal handler.
- * Otherwise, it means cleanup was already performed for this FD in linux_kqueue_reused.
+/** Check whether the application closed its end of the kqueue's pipe
+ *
  */
-static unsigned int *fd_use_cnt;
-
-static int nb_max_fd;
+static bool
+linux_kqueue_closed(struct kqueue *kq)
+{
+    char buffer;
 
-static void
-linux_kqueue_free(struct kqueue *kq);
+    return (read(kq->pipefd[0], &buffer, 1) == 0);
+}
 
 static void
 monitoring_thread_cleanup(UNUSED void *arg)
@@ -121,26 +114,11 @@ monitoring_thread_cleanup(UNUSED void *arg)
              * been freed by the user application before it exited.
              */
             dbg_printf("kq=%p - fd=%i explicitly checking for closeure", kq, kq->kq_id);
-            if (fcntl(kq->kq_id, F_GETFD) < 0) {
-                dbg_printf("kq=%p - fd=%i forcefully cleaning up, current use_count=%u: %s",
-                           kq,
-                           kq->kq_id, fd_use_cnt[kq->kq_id],
-                           errno == EBADF ? "File descriptor already closed" : strerror(errno));
-                fd_use_cnt[kq->kq_id] = 0;
-            } else {
-                /*
-                 * If there's no use cnt for the kqueue then something
-                 * has gone very wrong.
-                 */
-                assert(fd_use_cnt[kq->kq_id] > 0);
-            }
-
-            if (fd_use_cnt[kq->kq_id] == 0) {
-                dbg_printf("kq=%p - fd=%i use_count=%u cleaning up...", kq, kq->kq_id, fd_use_cnt[kq->kq_id]);
+            if (linux_kqueue_closed(kq)) {
+                dbg_printf("kq=%p - fd=%i cleaning up...", kq, kq->kq_id);
                 kqueue_free(kq);
             } else {
-                dbg_printf("kq=%p - fd=%i is alive use_count=%u.  Skipping, this is likely a leak...",
-                           kq, kq->kq_id, fd_use_cnt[kq->kq_id]);
+                dbg_printf("kq=%p - fd=%i is alive.  Skipping, this is likely a leak...", kq, kq->kq_id);
             }
         }
 
@@ -151,12 +129,6 @@ monitoring_thread_cleanup(UNUSED void *arg)
     dbg_printf("tid=%u - monitoring thread exiting (%s)",
                monitoring_tid,
                monitoring_thread_state == THREAD_EXIT_STATE_SELF_CANCEL ? "no kqueues" : "process term");
-    /* Free thread resources */
-    free(fd_map);
-    fd_map = NULL;
-    free(fd_use_cnt);
-    fd_use_cnt = NULL;
-
     /* Reset so that thread can be restarted */
     monitoring_tid = 0;
 
@@ -172,59 +144,28 @@ monitoring_thread_cleanup(UNUSED void *arg)
 static void
 monitoring_thread_kqueue_cleanup(int signal_fd)
 {
-    int fd;
     struct kqueue *kq;
 
     /*
      * Signal is received for read side of pipe
-     * Get FD for write side as it's the kqueue identifier
+     *
+     * Signals are queued, so by the time one is processed the
+     * kqueue it was raised for may already have been freed (if
+     * its id was reused by a new kqueue), and the descriptor
+     * may now belong to another kqueue which is still open.
      */
-    fd = fd_map[signal_fd];
-    if (fd < 0) {
-       /* Should not happen */
-        dbg_printf("fd=%i - not a known FD", fd);
-        return;
+    LIST_FOREACH(kq, &kq_list, kq_entry) {
+        if (kq->pipefd[0] == signal_fd)
+            break;
     }
 
-    kq = kqueue_lookup(fd);
-    if (!kq) {
-        /* Should not happen */
-        dbg_printf("fd=%i - no kqueue associated", fd);
-        assert(0);
+    if (!kq || !linux_kqueue_closed(kq)) {
+        dbg_printf("fd=%i - no closed kqueue associated, skipping...", signal_fd);
         return;
     }
 
-    /*
-     * We should never have more pending signals than we have
-     * allocated kqueues against a given ID.
-     */
-    assert(fd_use_cnt[kq->kq_id] > 0);
-
-    /*
-     * Decrement use counter as signal handler has been run for
-     * this FD.  We rely on using an RT signal so that multiple
-     * signals are queued.
-     *
-     * Use count is tracked with the kq_id.
-     */
-    fd_use_cnt[kq->kq_id]--;
-
-    /*
-     * If kqueue instance for this FD hasn't been cleaned up yet
-     *
-     * When the main kqueue code frees a kq, the file descriptor
-     * of the kq often gets reused.
-     *
-     * We maintain a count of how many allocations have been
-     * performed against a given file descriptor ID, and only
-     * free the kqueue here if that count is zero.
-     */
-    if (fd_use_cnt[kq->kq_id] == 0) {
-        dbg_printf("kq=%p - fd=%i use_count=%u cleaning up...", kq, fd, fd_use_cnt[kq->kq_id]);
-        kqueue_free(kq);
-    } else {
-        dbg_printf("kq=%p - fd=%i use_count=%u skipping...", kq, fd, fd_use_cnt[kq->kq_id]);
-    }
+    dbg_printf("kq=%p - fd=%i cleaning up...", kq, kq->kq_id);
+    kqueue_free(kq);
 }
 
 /*
@@ -236,8 +177,6 @@ monitoring_thread_loop(UNUSED void *arg)
     int res = 0;
     siginfo_t info;
 
-    int i;
-
     sigset_t monitoring_sig_set;
 
     /* Set the thread's name to something descriptive so it shows up in gdb,
@@ -245,8 +184,6 @@ monitoring_thread_loop(UNUSED void *arg)
      * to do it for backwards compatibility. Max name length is 16 bytes. */
     prctl(PR_SET_NAME, "libkqueue_mon", 0, 0, 0);
 
-    nb_max_fd = get_fd_limit();
-
     sigemptyset(&monitoring_sig_set);
     sigfillset(&monitoring_sig_set);
 
@@ -255,28 +192,12 @@ monitoring_thread_loop(UNUSED void *arg)
     sigemptyset(&monitoring_sig_set);
     sigaddset(&monitoring_sig_set, MONITORING_THREAD_SIGNAL);
 
-    monitoring_tid = syscall(SYS_gettid);
-
-    dbg_printf("tid=%u - monitoring thread started", monitoring_tid);
-
-    fd_map = calloc(nb_max_fd, sizeof(int));
-    if (fd_map == NULL) {
-    error:
-        return NULL;
-    }
-    for (i = 0; i < nb_max_fd; i++)
-        fd_map[i] = -1;
-
-    fd_use_cnt = calloc(nb_max_fd, sizeof(unsigned int));
-    if (fd_use_cnt == NULL){
-        free(fd_map);
-        goto error;
-    }
-
     /*
      * Now that thread is initialized, let kqueue init resume
      */
     pthread_mutex_lock(&monitoring_thread_mtx);    /* Must try to lock to ensure parent is waiting on signal */
+    monitoring_tid = syscall(SYS_gettid);
+    dbg_printf("tid=%u - monitoring thread started", monitoring_tid);
     pthread_cond_signal(&monitoring_thread_cond);
     pthread_mutex_unlock(&monitoring_thread_mtx);
 
@@ -299,7 +220,7 @@ monitoring_thread_loop(UNUSED void *arg)
          */
         pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, NULL);
         tracing_mutex_lock(&kq_mtx);
-        dbg_printf("fd=%i - freeing kqueue due to fd closure (signal) for sfd=%i ", fd_map[info.si_fd], info.si_fd);
+        dbg_printf("freeing kqueue due to fd closure (signal) for sfd=%i ", info.si_fd);
 
         /*
          * Release resources used by this kqueue
@@ -535,14 +456,6 @@ linux_kqueue_init(struct kqueue *kq)
             goto error;
     }
 
-    /* Update pipe FD map */
-    fd_map[kq->pipefd[0]] = kq->kq_id;
-
-    /* Mark this id as in use */
-    fd_use_cnt[kq->kq_id]++;
-
-    dbg_printf("kq=%p - fd=%i use_count=%u", kq, kq->kq_id, fd_use_cnt[kq->kq_id]);
-
     assert(monitoring_tid != 0);
 
     /*
-- 
2.43.0


From 19746c509c1e45cc1bb3f0f2aa8cffc2b914c926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:27 +0000
Subject: [PATCH 27/47] fix: kqueue() crashes when the wait for the monitoring
 thread wakes up spuriously

---
 src/linux/platform.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index a190c59..e86375d 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -265,7 +265,8 @@ linux_kqueue_start_thread(void)
          return (-1);
     }
     /* Wait for thread creating to be done as we need monitoring_tid to be available */
-    pthread_cond_wait(&monitoring_thread_cond, &monitoring_thread_mtx); /* unlocks mt_mtx allowing child to lock it */
+    while (monitoring_tid == 0)
+        pthread_cond_wait(&monitoring_thread_cond, &monitoring_thread_mtx); /* unlocks mt_mtx allowing child to lock it */
     pthread_mutex_unlock(&monitoring_thread_mtx);
 
     return (0);
-- 
2.43.0


From c8aaf4a05519108e6e9350a74186701bf1ca2a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:45 +0000
Subject: [PATCH 28/47] fix: fork closes descriptors of the application in the
 child

If a kqueue was closed shortly before the fork, its number may already be
used by the application for something else.
---
 src/linux/platform.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index e86375d..b1b9eab 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -323,13 +323,18 @@ linux_libkqueue_fork(void)
         close(kq->epollfd);
         kq->epollfd = -1;
 
-        if ((kq->pipefd[0] > 0) && (close(kq->pipefd[0]) < 0))
+        /*
+         * If the application already closed the kqueue, but it
+         * hasn't been cleaned up yet, then the descriptor isn't
+         * ours anymore and may have been reused.
+         */
+        if ((kq->pipefd[1] > 0) && !linux_kqueue_closed(kq) && (close(kq->pipefd[1]) < 0))
             dbg_perror("close(2)");
-        kq->pipefd[0] = -1;
+        kq->pipefd[1] = -1;
 
-        if ((kq->pipefd[1] > 0) && (close(kq->pipefd[1]) < 0))
+        if ((kq->pipefd[0] > 0) && (close(kq->pipefd[0]) < 0))
             dbg_perror("close(2)");
-        kq->pipefd[1] = -1;
+        kq->pipefd[0] = -1;
     }
 }
 
-- 
2.43.0


From 3b0e9066d58c3f629fe703fadb2dd46304bf0ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:45 +0000
Subject: [PATCH 29/47] fix: exit hangs if another thread creates a kqueue
 meanwhile

The new monitoring thread was joined instead of the cancelled one.
---
 src/linux/platform.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index b1b9eab..d0a9b98 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -348,15 +348,17 @@ static void
 linux_libkqueue_free(void)
 {
     pid_t tid;
+    pthread_t thread;
 
     tracing_mutex_lock(&kq_mtx);
     tid = monitoring_tid; /* Gets trashed when the thread exits */
+    thread = monitoring_thread; /* Gets trashed if the thread is restarted */
     if (tid) {
         void *retval;
         int ret;
 
         dbg_printf("tid=%u - cancelling", tid);
-        ret = pthread_cancel(monitoring_thread);
+        ret = pthread_cancel(thread);
         if (ret != 0)
            dbg_printf("tid=%u - cancel failed: %s", tid, strerror(ret));
         /*
@@ -365,7 +367,7 @@ linux_libkqueue_free(void)
          */
         tracing_mutex_unlock(&kq_mtx);
 
-        ret = pthread_join(monitoring_thread, &retval);
+        ret = pthread_join(thread, &retval);
         if (ret == 0) {
             if (retval == PTHREAD_CANCELED) {
                 dbg_printf("tid=%u - joined with exit_status=PTHREAD_CANCELED", tid);
-- 
2.43.0


From 775664c24cc8dc8518bb3340a71375afd7f0a621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:46 +0000
Subject: [PATCH 30/47] fix: kq_mtx is unlocked twice if the owner of the
 kqueue's signals cannot be set

---
 src/linux/platform.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index d0a9b98..f83fb9b 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -475,7 +475,6 @@ linux_kqueue_init(struct kqueue *kq)
     sig_owner.pid = monitoring_tid;
     if (fcntl(kq->pipefd[0], F_SETOWN_EX, &sig_owner) < 0) {
         dbg_printf("fd=%i - failed setting F_SETOWN to tid=%u: %s", monitoring_tid, kq->kq_id, strerror(errno));
-        tracing_mutex_unlock(&kq_mtx);
         goto error;
     }
     dbg_printf("kq=%p - monitoring fd=%i for closure", kq, kq->pipefd[0]);
-- 
2.43.0


From 1023b94caa60fad146f0b7a3fc228ded88b83c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:46 +0000
Subject: [PATCH 31/47] fix: kqueue() leaves cancellation disabled if it runs
 out of memory

---
 src/common/kqueue.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/kqueue.c b/src/common/kqueue.c
index c532258..9497627 100644
--- a/src/common/kqueue.c
+++ b/src/common/kqueue.c
@@ -364,8 +364,12 @@ kqueue(void)
     pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &prev_cancel_state);
 #endif
     kq = calloc(1, sizeof(*kq));
-    if (kq == NULL)
+    if (kq == NULL) {
+#ifndef _WIN32
+        pthread_setcancelstate(prev_cancel_state, NULL);
+#endif
         return (-1);
+    }
 
     tracing_mutex_init(&kq->kq_mtx, NULL);
 
-- 
2.43.0


From e6624efd306575a7065f0aecb8baf4eab042a8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:46 +0000
Subject: [PATCH 32/47] fix: a thread cancelled in kqueue() leaks the new
 kqueue

---
 src/common/kqueue.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/common/kqueue.c b/src/common/kqueue.c
index 9497627..dd5e344 100644
--- a/src/common/kqueue.c
+++ b/src/common/kqueue.c
@@ -355,6 +355,12 @@ kqueue(void)
     tracing_mutex_init(&kq_mtx, NULL);
 #else
     int prev_cancel_state;
+
+    /*
+     * Act on cancellation requests before there's anything
+     * to release, nobody could close the new kqueue later.
+     */
+    pthread_testcancel();
     tracing_mutex_lock(&kq_mtx);
     (void) pthread_once(&kq_is_initialized, libkqueue_init);
     tracing_mutex_unlock(&kq_mtx);
@@ -409,8 +415,6 @@ kqueue(void)
     tracing_mutex_unlock(&kq_mtx);
 #ifndef _WIN32
     pthread_setcancelstate(prev_cancel_state, NULL);
-    if (prev_cancel_state == PTHREAD_CANCEL_ENABLE)
-        pthread_testcancel();
 #endif
 
     return (kq->kq_id);
-- 
2.43.0


From ad190e8213019bead20ab7836d49648264fb3fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:54 +0000
Subject: [PATCH 33/47] fix: kqueue() deadlocks in a child forked while another
 thread was in kevent()

---
 src/common/kqueue.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/common/kqueue.c b/src/common/kqueue.c
index dd5e344..c324f64 100644
--- a/src/common/kqueue.c
+++ b/src/common/kqueue.c
@@ -206,8 +206,19 @@ libkqueue_child_fork(void)
     dbg_puts("cleaning up forked resources");
     filter_fork_all();
 
-    if (kqops.libkqueue_fork)
+    if (kqops.libkqueue_fork) {
+        struct kqueue *kq;
+
+        /*
+         * Forget the parent's kqueues.  They can't be freed if
+         * their id is reused in the child, as another thread of
+         * the parent may have had them locked.
+         */
+        LIST_FOREACH(kq, &kq_list, kq_entry)
+            map_remove(kqmap, kq->kq_id, kq);
+
         kqops.libkqueue_fork();
+    }
 
     tracing_mutex_unlock(&kq_mtx);
 }
-- 
2.43.0


From 0413234806270c66b5ee99dfe4f908e8795ebb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:30 +0000
Subject: [PATCH 34/47] fix: kevent() crashes when it runs out of memory adding
 an EVFILT_READ or EVFILT_WRITE knote

epoll_update() ignored the failure of epoll_fd_state_mod() and went on
to use the fd_state which could not be allocated.
---
 src/linux/platform.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index f83fb9b..747318c 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -1433,7 +1433,8 @@ epoll_update(int op, struct filter *filt, struct knote *kn, int ev, bool delete)
     want_ev = EV_EPOLLINOUT(want);
      if (!have_ev && want_ev) {        /* There's no events registered and we want some */
         opn = EPOLL_CTL_ADD;
-        epoll_fd_state_mod(&fds, kn, want_ev & ~have_ev);
+        if (epoll_fd_state_mod(&fds, kn, want_ev & ~have_ev) < 0)
+            return (-1);
     }
     else if (have_ev && !want_ev)       /* We have events registered but don't want any */
         opn = EPOLL_CTL_DEL;
-- 
2.43.0


From 79c831bd2589894547fe909b9520f052b5ab1132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:48 +0000
Subject: [PATCH 35/47] fix: eventfd leaks when an EVFILT_USER registration
 fails

---
 src/linux/user.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/linux/user.c b/src/linux/user.c
index a24d0e9..0379598 100644
--- a/src/linux/user.c
+++ b/src/linux/user.c
@@ -129,8 +129,11 @@ linux_evfilt_user_knote_create(struct filter *filt, struct knote *kn)
     kn->kn_eventfd = evfd;
     KN_UDATA(kn);   /* populate this knote's kn_udata field */
 
-    if (KNOTE_ENABLED(kn))
-        return linux_evfilt_user_knote_enable(filt, kn);
+    if (KNOTE_ENABLED(kn) && (linux_evfilt_user_knote_enable(filt, kn) < 0)) {
+        (void) close(evfd);
+        kn->kn_eventfd = -1;
+        return (-1);
+    }
 
     return (0);
 }
-- 
2.43.0


From ac9a05e318168bf10596ff9cc2c9b3d75b0ea82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:48 +0000
Subject: [PATCH 36/47] fix: kevent() crashes if kqueue() was never called

---
 src/common/kqueue.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/kqueue.c b/src/common/kqueue.c
index c324f64..af87957 100644
--- a/src/common/kqueue.c
+++ b/src/common/kqueue.c
@@ -346,6 +346,9 @@ kqueue_free_by_id(int id)
 struct kqueue *
 kqueue_lookup(int kq)
 {
+    if (kqmap == NULL)      /* kqueue() was never called */
+        return (NULL);
+
     return ((struct kqueue *) map_lookup(kqmap, kq));
 }
 
-- 
2.43.0


From ffbce507f6814b5a79a4b01d7e6dc802b60a033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:27 +0000
Subject: [PATCH 37/47] fix: first kqueue() aborts the process when out of
 memory

---
 src/common/kqueue.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/common/kqueue.c b/src/common/kqueue.c
index af87957..8dbd2bf 100644
--- a/src/common/kqueue.c
+++ b/src/common/kqueue.c
@@ -251,11 +251,11 @@ libkqueue_init(void)
     }
 #endif
 
+#ifdef _WIN32
    kqmap = map_new(get_fd_limit()); // INT_MAX
    if (kqmap == NULL)
        abort();
 
-#ifdef _WIN32
    kq_init_complete = 1;
 #endif
 
@@ -377,6 +377,14 @@ kqueue(void)
     pthread_testcancel();
     tracing_mutex_lock(&kq_mtx);
     (void) pthread_once(&kq_is_initialized, libkqueue_init);
+
+    /* Tried again by the next call if there's not enough memory */
+    if (kqmap == NULL)
+        kqmap = map_new(get_fd_limit()); // INT_MAX
+    if (kqmap == NULL) {
+        tracing_mutex_unlock(&kq_mtx);
+        return (-1);
+    }
     tracing_mutex_unlock(&kq_mtx);
 #endif
 
-- 
2.43.0


From ed52e888664ff8084806f39ab07230c43dd7ffa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:46 +0000
Subject: [PATCH 38/47] fix: kqueue() crashes or leaks if its descriptor
 exceeds the initial limit

map_delete() reported an index outside the map by a pointer its caller
dereferences, and the failure to insert into the map left the kqueue's
descriptors open and errno unset.
---
 src/common/kqueue.c | 4 ++++
 src/common/map.c    | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/kqueue.c b/src/common/kqueue.c
index 8dbd2bf..23e882f 100644
--- a/src/common/kqueue.c
+++ b/src/common/kqueue.c
@@ -428,8 +428,12 @@ kqueue(void)
 
     if (map_insert(kqmap, kq->kq_id, kq) < 0) {
         dbg_printf("kq=%p - map insertion failed, freeing", kq);
+        kqueue_lock(kq);
         filter_unregister_all(kq);
+        kqops.kqueue_free(kq);
+        kqueue_unlock(kq);
         tracing_mutex_unlock(&kq_mtx);
+        errno = EMFILE;
         goto error;
     }
     LIST_INSERT_HEAD(&kq_list, kq, kq_entry);
diff --git a/src/common/map.c b/src/common/map.c
index d3a106c..05c38ef 100644
--- a/src/common/map.c
+++ b/src/common/map.c
@@ -115,7 +115,7 @@ void *
 map_delete(struct map *m, int idx)
 {
     if (unlikely(idx < 0 || idx >= (int)m->len))
-           return ((void *)-1);
+           return (NULL);
 
     return (void *)atomic_ptr_swap(&(m->data[idx]), NULL);
 }
-- 
2.43.0


From 8a0677f384bc9acc779479bbedae19d92485cde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:08 +0000
Subject: [PATCH 39/47] fix: more than 512 receipts in one kevent() call fail
 with EFAULT

The size of the caller's event list was clipped to the size of the
internal event buffer before the room for receipts and errors was
computed, so a changelist that produces more than 512 of them failed
although the event list had room for all. Clip only the number of
events that are fetched.
---
 src/common/kevent.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index 3b84623..2c6f1d8 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -397,11 +397,12 @@ kevent(int kqfd,
 #endif
     /* deal with ubsan "runtime error: applying zero offset to null pointer" */
     if (eventlist) {
-        if (nevents > MAX_KEVENT)
-            nevents = MAX_KEVENT;
-
         el_p = eventlist;
         el_end = el_p + nevents;
+
+        /* only limits what is fetched from the kernel, not the room for receipts */
+        if (nevents > MAX_KEVENT)
+            nevents = MAX_KEVENT;
     } else {
         eventlist = el_p = el_end = null_kev;
     }
-- 
2.43.0


From 9f1e5999407170625153fb88783fe7528643bec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:52 +0000
Subject: [PATCH 40/47] fix: descriptor 0 is neither closed nor accepted

When standard input is closed, a descriptor the library creates can
have the number 0.  The epoll descriptor or an end of the pipe was then
never closed when the kqueue was freed (or on fork), and a signalfd with
that number was reported as a failure and leaked.
---
 src/linux/platform.c | 8 ++++----
 src/linux/signal.c   | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 747318c..6b250d7 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -328,11 +328,11 @@ linux_libkqueue_fork(void)
          * hasn't been cleaned up yet, then the descriptor isn't
          * ours anymore and may have been reused.
          */
-        if ((kq->pipefd[1] > 0) && !linux_kqueue_closed(kq) && (close(kq->pipefd[1]) < 0))
+        if ((kq->pipefd[1] >= 0) && !linux_kqueue_closed(kq) && (close(kq->pipefd[1]) < 0))
             dbg_perror("close(2)");
         kq->pipefd[1] = -1;
 
-        if ((kq->pipefd[0] > 0) && (close(kq->pipefd[0]) < 0))
+        if ((kq->pipefd[0] >= 0) && (close(kq->pipefd[0]) < 0))
             dbg_perror("close(2)");
         kq->pipefd[0] = -1;
     }
@@ -496,7 +496,7 @@ linux_kqueue_free(struct kqueue *kq)
     ssize_t ret;
     int pipefd;
 
-    if (kq->epollfd > 0) {
+    if (kq->epollfd >= 0) {
         dbg_printf("epoll_fd=%i - closed", kq->epollfd);
 
         if (close(kq->epollfd) < 0)
@@ -529,7 +529,7 @@ linux_kqueue_free(struct kqueue *kq)
     }
 
     pipefd = kq->pipefd[0];
-    if (pipefd > 0) {
+    if (pipefd >= 0) {
         if (close(pipefd) < 0) {
             dbg_perror("close(2) - kq_fd=%i", kq->pipefd[0]);
         } else {
diff --git a/src/linux/signal.c b/src/linux/signal.c
index dccb03f..1ccc3b4 100644
--- a/src/linux/signal.c
+++ b/src/linux/signal.c
@@ -149,7 +149,7 @@ evfilt_signal_knote_create(struct filter *filt, struct knote *kn)
     int fd;
 
     fd = signalfd_create(filter_epoll_fd(filt), kn, kn->kev.ident);
-    if (fd > 0) {
+    if (fd >= 0) {
         kn->kev.flags |= EV_CLEAR;
         kn->kn_signalfd = fd;
         return (0);
-- 
2.43.0


From aa0308ae16b0408f3de0079f7b4282f831c4fb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:59 +0000
Subject: [PATCH 41/47] fix: EOF is reported for a connected stream socket
 without readable data

---
 src/linux/read.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/linux/read.c b/src/linux/read.c
index 989fc41..02e90f0 100644
--- a/src/linux/read.c
+++ b/src/linux/read.c
@@ -146,8 +146,15 @@ evfilt_read_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt,
             dst->data = 0;
         } else {
             dst->data = i;
+#if !defined(HAVE_EPOLLRDHUP)
+            /*
+             * Only needed if epoll can't tell us about EOF, there may
+             * be no data although the peer is still there (urgent data
+             * is next, or another thread was quicker).
+             */
             if (dst->data == 0 && src->kn_flags & KNFL_SOCKET_STREAM)
                 dst->flags |= EV_EOF;
+#endif
         }
     }
 
-- 
2.43.0


From 2d345ed7540243951bd3b564df87e29c192f91d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:51 +0000
Subject: [PATCH 42/47] fix: state of a closed descriptor whose number was
 reused is not released

Closing a kqueue frees it asynchronously.  If a descriptor which was still
registered is closed in the meantime and its number is reused, epoll_ctl()
fails with ENOENT or EPERM instead of EBADF, the fd_state was leaked, or kept
pointing to a knote that has been freed.
---
 src/linux/platform.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 6b250d7..599af69 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -1484,10 +1484,12 @@ epoll_update(int op, struct filter *filt, struct knote *kn, int ev, bool delete)
         case EPOLL_CTL_DEL:
         case EPOLL_CTL_MOD:
             /*
-             * File descriptor went away and we weren't notified
+             * File descriptor went away (and its number may have
+             * been reused since, for something which isn't
+             * registered or can't be) and we weren't notified
              * not necessarily an error.
              */
-            if (errno == EBADF) {
+            if ((errno == EBADF) || (errno == ENOENT) || (errno == EPERM)) {
                 int kn_ev = 0;
 
                 if (kn == fds->fds_read) {
-- 
2.43.0


From e9501687997b4f761289d8fb574fe470a01781f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:51 +0000
Subject: [PATCH 43/47] fix: switching the thread safety option unbalances the
 locking of calls under way

kevent() tested the option separately when locking and unlocking the global
mutex, so it stayed locked for ever (or was unlocked without being held) if
another thread changed the option in between.
---
 src/common/kevent.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index 2c6f1d8..894f448 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -387,6 +387,8 @@ kevent(int kqfd,
     struct kqueue *kq;
     struct kevent *el_p, *el_end;
     int rv = 0;
+    /* may be changed by the changelist of this or another call */
+    const bool thread_safe = libkqueue_thread_safe;
 #ifndef _WIN32
     int prev_cancel_state;
 #endif
@@ -416,14 +418,14 @@ kevent(int kqfd,
      * any operations that might free the
      * kqueue from progressing.
      */
-    if (libkqueue_thread_safe)
+    if (thread_safe)
         tracing_mutex_lock(&kq_mtx);
 
     /* Convert the descriptor into an object pointer */
     kq = kqueue_lookup(kqfd);
     if (kq == NULL) {
         errno = ENOENT;
-        if (libkqueue_thread_safe)
+        if (thread_safe)
             tracing_mutex_unlock(&kq_mtx);
 #ifndef _WIN32
         pthread_setcancelstate(prev_cancel_state, NULL);
@@ -442,7 +444,7 @@ kevent(int kqfd,
      * nothing else can use this kqueue until
      * we release the lock.
      */
-    if (libkqueue_thread_safe)
+    if (thread_safe)
         tracing_mutex_unlock(&kq_mtx);
 #ifndef NDEBUG
     if (libkqueue_debug) {
-- 
2.43.0


From 308b3d2cda3035d3d3e9377f4dcbffd75582a2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:51 +0000
Subject: [PATCH 44/47] fix: kevent() ends its wait early if what woke it up is
 gone

When whatever ended the high resolution wait was taken by another thread or
process before epoll_wait() could fetch it, kevent() returned 0 before its
timeout had elapsed.
---
 src/common/kevent.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index 894f448..2fa378a 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -529,6 +529,21 @@ kevent(int kqfd,
                 rv = el_p - eventlist;  /* recalculate rv to be the total events in the eventlist */
             }
         } else if (rv == 0) {
+#ifdef __linux__
+            /*
+             * Whatever ended the wait was gone (taken by another
+             * thread or process) before it could be fetched,
+             * continue waiting for the rest of the timeout.
+             */
+            if (timeout) {
+                kevent_timeout_left(&left, &start, timeout);
+                if (left.tv_sec > 0 || left.tv_nsec > 0) {
+                    wait = &left;
+                    (void)pthread_setcancelstate(prev_cancel_state, NULL);
+                    goto again;
+                }
+            }
+#endif
             /* Timeout reached */
             dbg_printf("(%u) kevent_wait timedout", myid);
         } else {
-- 
2.43.0


From 1bde1838695677fb36d4842f551e1e17cf235e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:09 +0000
Subject: [PATCH 45/47] fix: system flags passed in a change become part of the
 registration

---
 src/common/kevent.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index 2fa378a..ea8bfa5 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -174,8 +174,17 @@ kevent_copyin_one(const struct knote **out, struct kqueue *kq, const struct keve
 {
     struct knote  *kn = NULL;
     struct filter *filt;
+    struct kevent change;
     int rv = 0;
 
+    /*
+     * The caller may pass back what an earlier call returned,
+     * those flags say nothing about the new registration.
+     */
+    change = *src;
+    change.flags &= ~EV_SYSFLAGS;
+    src = &change;
+
     if (src->flags & EV_DISPATCH && src->flags & EV_ONESHOT) {
         dbg_puts("Error: EV_DISPATCH and EV_ONESHOT are mutually exclusive");
         errno = EINVAL;
-- 
2.43.0


From d079d3704535273dcdef4c98ce50292773706808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:09 +0000
Subject: [PATCH 46/47] fix: idents too large for a descriptor, process or
 signal are truncated

---
 src/linux/platform.c | 6 ++++++
 src/linux/proc.c     | 7 +++++++
 src/linux/signal.c   | 8 ++++++++
 src/linux/vnode.c    | 8 ++++++++
 4 files changed, 29 insertions(+)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 599af69..c7246b0 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -1026,6 +1026,12 @@ linux_get_descriptor_type(struct knote *kn)
     int ret, lsock, stype;
     const int fd = (int)kn->kev.ident;
 
+    if (kn->kev.ident > INT_MAX) {
+        dbg_puts("ident is not a descriptor");
+        errno = EBADF;
+        return (-1);
+    }
+
     /*
      * Determine the actual descriptor type.
      */
diff --git a/src/linux/proc.c b/src/linux/proc.c
index ef8a742..186dd3d 100644
--- a/src/linux/proc.c
+++ b/src/linux/proc.c
@@ -23,6 +23,7 @@
  * If the build system detects SYS_pidfd_open is not available it will fall back
  * to using posix/proc.c and won't build this source file.
  */
+#include <limits.h>
 #include <sys/syscall.h>
 #include <sys/wait.h>
 
@@ -123,6 +124,12 @@ evfilt_proc_knote_create(struct filter *filt, struct knote *kn)
         return 0;
     }
 
+    if (kn->kev.ident > INT_MAX) {
+        dbg_puts("ident is not a process ID");
+        errno = ESRCH;
+        return (-1);
+    }
+
     /* Returns an FD, which, when readable, indicates the process has exited */
     pfd = syscall(SYS_pidfd_open, (pid_t)kn->kev.ident, 0);
     if (pfd < 0) {
diff --git a/src/linux/signal.c b/src/linux/signal.c
index 1ccc3b4..6982b1d 100644
--- a/src/linux/signal.c
+++ b/src/linux/signal.c
@@ -15,6 +15,7 @@
  */
 #include "private.h"
 
+#include <limits.h>
 #include <signal.h>
 
 #if HAVE_SYS_SIGNALFD_H
@@ -148,6 +149,13 @@ evfilt_signal_knote_create(struct filter *filt, struct knote *kn)
 {
     int fd;
 
+    if (kn->kev.ident > INT_MAX) {
+        dbg_puts("ident is not a signal number");
+        kn->kn_signalfd = -1;
+        errno = EINVAL;
+        return (-1);
+    }
+
     fd = signalfd_create(filter_epoll_fd(filt), kn, kn->kev.ident);
     if (fd >= 0) {
         kn->kev.flags |= EV_CLEAR;
diff --git a/src/linux/vnode.c b/src/linux/vnode.c
index fd164d9..6993c0b 100644
--- a/src/linux/vnode.c
+++ b/src/linux/vnode.c
@@ -15,6 +15,8 @@
  */
 #include "private.h"
 
+#include <limits.h>
+
 #ifndef NDEBUG
 static char *
 inotify_mask_dump(uint32_t mask)
@@ -276,6 +278,12 @@ evfilt_vnode_knote_create(struct filter *filt, struct knote *kn)
 {
     struct stat sb;
 
+    if (kn->kev.ident > INT_MAX) {
+        dbg_puts("ident is not a descriptor");
+        errno = EBADF;
+        return (-1);
+    }
+
     if (fstat(kn->kev.ident, &sb) < 0) {
         dbg_puts("fstat failed");
         return (-1);
-- 
2.43.0


From 0cb76466a72e1b1a772af8151cf3221c669ebcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:09 +0000
Subject: [PATCH 47/47] fix: kevent() waits for ever if given an invalid
 timeout

---
 src/common/kevent.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index ea8bfa5..459ad05 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -406,6 +406,15 @@ kevent(int kqfd,
     unsigned int myid = 0;
     (void) myid;
 #endif
+
+    /* Only looked at if there is something to wait for */
+    if (eventlist && (nevents > 0) && timeout &&
+        ((timeout->tv_sec < 0) || (timeout->tv_nsec < 0) || (timeout->tv_nsec >= 1000000000))) {
+        dbg_puts("Error: invalid timeout");
+        errno = EINVAL;
+        return (-1);
+    }
+
     /* deal with ubsan "runtime error: applying zero offset to null pointer" */
     if (eventlist) {
         el_p = eventlist;
-- 
2.43.0

