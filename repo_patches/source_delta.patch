From 3a2627a1ff6d6799f7db1661255993066df97065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:48 +0000
Subject: [PATCH 01/34] fix: keep the other waiters when a timed condition wait
 expires

When the most recent waiter of a condition variable timed out, the whole
waiter list was dropped, so the remaining waiters could never be signalled.
Unlink only the expired waiter.
---
 src/kern/sync/hev-task-cond.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kern/sync/hev-task-cond.c b/src/kern/sync/hev-task-cond.c
index a8a6c77..7dedb3b 100644
--- a/src/kern/sync/hev-task-cond.c
+++ b/src/kern/sync/hev-task-cond.c
@@ -77,7 +77,7 @@ hev_task_cond_timedwait (HevTaskCond *self, HevTaskMutex *mutex,
         if (node.next)
             node.next->prev = node.prev;
         if (self->waiters == &node)
-            self->waiters = NULL;
+            self->waiters = node.next;
         return -1;
     }
 
-- 
2.43.0


From 823eb2b74003c47fad2206ffe0ae8914ab44ec4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:50 +0000
Subject: [PATCH 02/34] fix: normalise timer expiry that falls on a full second

When the nanoseconds of the current time and of the time-out added up to
exactly one second, the expiry kept tv_nsec = 1000000000, which the kernel
rejects, and the process aborted.
---
 src/kern/time/hev-task-timer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kern/time/hev-task-timer.c b/src/kern/time/hev-task-timer.c
index cf212cc..b4ab061 100644
--- a/src/kern/time/hev-task-timer.c
+++ b/src/kern/time/hev-task-timer.c
@@ -60,7 +60,7 @@ hev_task_timer_get_expire (struct timespec *expire, unsigned int microseconds)
 
     expire->tv_sec += microseconds / 1000000;
     expire->tv_nsec += (microseconds % 1000000) * 1000;
-    if (expire->tv_nsec > 1000000000L) {
+    if (expire->tv_nsec >= 1000000000L) {
         expire->tv_sec++;
         expire->tv_nsec -= 1000000000L;
     }
-- 
2.43.0


From 8b0c44a4dac8891c72e0a35f2139e5987951ef82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:00 +0000
Subject: [PATCH 03/34] fix: let long sleeps last as long as requested

Converting milliseconds to microseconds overflowed 32 bits, so sleeping for
more than 4294967 ms returned far too early. The remaining time of such a
sleep was truncated the same way. Use 64-bit microseconds inside the timer.
---
 src/kern/task/hev-task.c       | 11 ++++++++++-
 src/kern/time/hev-task-timer.c | 11 +++++------
 src/kern/time/hev-task-timer.h |  6 ++++--
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/kern/task/hev-task.c b/src/kern/task/hev-task.c
index 164a318..6a7a0d9 100644
--- a/src/kern/task/hev-task.c
+++ b/src/kern/task/hev-task.c
@@ -154,7 +154,16 @@ hev_task_yield (HevTaskYieldType type)
 EXPORT_SYMBOL unsigned int
 hev_task_sleep (unsigned int milliseconds)
 {
-    return hev_task_usleep (milliseconds * 1000) / 1000;
+    HevTaskSystemContext *ctx;
+    uint64_t microseconds;
+
+    if (milliseconds == 0)
+        return 0;
+
+    ctx = hev_task_system_get_context ();
+    microseconds = (uint64_t)milliseconds * 1000;
+    return hev_task_timer_wait (ctx->timer, microseconds, ctx->current_task) /
+           1000;
 }
 
 EXPORT_SYMBOL unsigned int
diff --git a/src/kern/time/hev-task-timer.c b/src/kern/time/hev-task-timer.c
index b4ab061..5ce2f06 100644
--- a/src/kern/time/hev-task-timer.c
+++ b/src/kern/time/hev-task-timer.c
@@ -53,7 +53,7 @@ hev_task_timer_node_compare (HevTaskTimerNode *a, HevTaskTimerNode *b)
 }
 
 static inline void
-hev_task_timer_get_expire (struct timespec *expire, unsigned int microseconds)
+hev_task_timer_get_expire (struct timespec *expire, uint64_t microseconds)
 {
     if (clock_gettime (CLOCK_MONOTONIC, expire) < 0)
         abort ();
@@ -66,7 +66,7 @@ hev_task_timer_get_expire (struct timespec *expire, unsigned int microseconds)
     }
 }
 
-static inline unsigned int
+static inline uint64_t
 hev_task_timer_get_time (const struct timespec *expire)
 {
     struct timespec curr;
@@ -86,12 +86,11 @@ hev_task_timer_get_time (const struct timespec *expire)
     if (sec < 0)
         return 0;
 
-    return (sec * 1000000) + (nsec / 1000);
+    return ((uint64_t)sec * 1000000) + (nsec / 1000);
 }
 
-unsigned int
-hev_task_timer_wait (HevTaskTimer *self, unsigned int microseconds,
-                     HevTask *task)
+uint64_t
+hev_task_timer_wait (HevTaskTimer *self, uint64_t microseconds, HevTask *task)
 {
     HevTaskTimerNode curr_node, *node = &curr_node;
     HevRBTreeNode **new = &self->sort_tree.base.root, *parent = NULL;
diff --git a/src/kern/time/hev-task-timer.h b/src/kern/time/hev-task-timer.h
index 68d100a..d1a0b34 100644
--- a/src/kern/time/hev-task-timer.h
+++ b/src/kern/time/hev-task-timer.h
@@ -10,6 +10,8 @@
 #ifndef __HEV_TASK_TIMER_H__
 #define __HEV_TASK_TIMER_H__
 
+#include <stdint.h>
+
 #include "kern/task/hev-task-private.h"
 #include "lib/rbtree/hev-rbtree-cached.h"
 
@@ -24,7 +26,7 @@ struct _HevTaskTimer
 HevTaskTimer *hev_task_timer_new (void);
 void hev_task_timer_destroy (HevTaskTimer *self);
 
-unsigned int hev_task_timer_wait (HevTaskTimer *self, unsigned int milliseconds,
-                                  HevTask *task);
+uint64_t hev_task_timer_wait (HevTaskTimer *self, uint64_t microseconds,
+                              HevTask *task);
 
 #endif /* __HEV_TASK_TIMER_H__ */
-- 
2.43.0


From 6c070384b5c1d1f1ad0e7837cb0a3d3546cad9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:22 +0000
Subject: [PATCH 04/34] fix: wake the joining task when a task ends with
 hev_task_exit

Only returning from the entry function woke the joiner, so joining a task
that called hev_task_exit could block forever.
---
 src/kern/task/hev-task.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kern/task/hev-task.c b/src/kern/task/hev-task.c
index 6a7a0d9..2c3f1bc 100644
--- a/src/kern/task/hev-task.c
+++ b/src/kern/task/hev-task.c
@@ -196,6 +196,10 @@ hev_task_run (HevTask *self, HevTaskEntry entry, void *data)
 EXPORT_SYMBOL void
 hev_task_exit (void)
 {
+    HevTask *self = hev_task_self ();
+
+    if (self->joiner)
+        hev_task_wakeup (self->joiner);
     hev_task_system_kill_current_task ();
 }
 
-- 
2.43.0


From eefba8d3db0e4adeff76cda9ce3d1ebb3fa74635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:22 +0000
Subject: [PATCH 05/34] fix: forget the joiner once a join has completed

The joiner stayed recorded after hev_task_join returned. Joining the task
again after another run failed, and the end of that run woke the old joiner,
which may have ended or been released meanwhile.
---
 src/kern/task/hev-task.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kern/task/hev-task.c b/src/kern/task/hev-task.c
index 2c3f1bc..0de400e 100644
--- a/src/kern/task/hev-task.c
+++ b/src/kern/task/hev-task.c
@@ -219,6 +219,8 @@ hev_task_join (HevTask *task)
         hev_task_yield (HEV_TASK_WAITIO);
     }
 
+    task->joiner = NULL;
+
     return 0;
 }
 
-- 
2.43.0


From 6f50dd5bf073dcf8631b9799972d062b8dc714a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:01 +0000
Subject: [PATCH 06/34] fix: report a channel as writable once a read makes
 room

A write select looked at the queue only when a reader took a message
from an overfull queue.  A reader that took a message from a full queue
neither listed the channel as writable nor woke the selecting task, so
a write select could sleep although there was room.  In the overfull
case the channel was listed although a write would still have waited.
---
 src/kern/itc/hev-task-channel.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/kern/itc/hev-task-channel.c b/src/kern/itc/hev-task-channel.c
index 3855471..639ed5f 100644
--- a/src/kern/itc/hev-task-channel.c
+++ b/src/kern/itc/hev-task-channel.c
@@ -140,7 +140,10 @@ EXPORT_SYMBOL ssize_t
 hev_task_channel_read (HevTaskChannel *self, void *buffer, size_t count)
 {
     HevTaskChannelBuffer *cbuf;
+    HevTaskChannel *peer;
     ssize_t size = -1;
+    int was_full;
+    int was_busy;
 
     /* wait on empty */
     while (!hev_task_channel_is_readable (self)) {
@@ -161,18 +164,20 @@ hev_task_channel_read (HevTaskChannel *self, void *buffer, size_t count)
         size = cbuf->size;
     size = hev_task_channel_data_copy (buffer, cbuf->data, size);
 
-    if (self->use_count == self->max_count) {
-        HevTaskChannel *peer = self->peer;
+    peer = self->peer;
+    was_full = !hev_task_channel_is_writable (self);
+    was_busy = !hev_task_channel_is_select_writable (self);
 
-        if (peer) {
-            if (peer->select)
-                hev_task_channel_select_add_write (peer->select, peer);
-            if (peer->task)
-                hev_task_wakeup (peer->task);
-        }
+    self->use_count--;
+    if (peer && was_busy) {
+        /* an unbuffered channel is ready once its message was read */
+        if (peer->select && (self->max_count == 1 ||
+                             hev_task_channel_is_select_writable (self)))
+            hev_task_channel_select_add_write (peer->select, peer);
+        if (peer->task && (was_full || peer->select))
+            hev_task_wakeup (peer->task);
     }
 
-    self->use_count--;
     if (self->select && !hev_task_channel_is_readable (self))
         hev_task_channel_select_del_read (self->select, self);
 
-- 
2.43.0


From a28adab34079aaf6b6684571c4fb850bf856ccf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:49 +0000
Subject: [PATCH 07/34] fix: do not wake a task that no longer waits on a
 channel

A channel kept pointing to the task that last waited on it.  When that
task ended or handed the channel to another task, the next operation on
the other end woke a stopped task or used released memory.
---
 src/kern/itc/hev-task-channel.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/kern/itc/hev-task-channel.c b/src/kern/itc/hev-task-channel.c
index 639ed5f..5f1520e 100644
--- a/src/kern/itc/hev-task-channel.c
+++ b/src/kern/itc/hev-task-channel.c
@@ -94,6 +94,17 @@ hev_task_channel_unref (HevTaskChannel *self)
     hev_free (self);
 }
 
+static void
+hev_task_channel_wait (HevTaskChannel *self)
+{
+    WRITE_ONCE (self->task, hev_task_self ());
+    hev_task_yield (HEV_TASK_WAITIO);
+
+    /* the task may end or hand over the channel before the next wakeup */
+    if (!self->select)
+        WRITE_ONCE (self->task, NULL);
+}
+
 EXPORT_SYMBOL void
 hev_task_channel_destroy (HevTaskChannel *self)
 {
@@ -151,8 +162,7 @@ hev_task_channel_read (HevTaskChannel *self, void *buffer, size_t count)
         if (!hev_task_channel_is_active (self))
             goto out;
 
-        WRITE_ONCE (self->task, hev_task_self ());
-        hev_task_yield (HEV_TASK_WAITIO);
+        hev_task_channel_wait (self);
     }
 
     barrier ();
@@ -203,8 +213,7 @@ hev_task_channel_write (HevTaskChannel *self, const void *buffer, size_t count)
         if (!hev_task_channel_is_active (self))
             goto out1;
 
-        WRITE_ONCE (self->task, hev_task_self ());
-        hev_task_yield (HEV_TASK_WAITIO);
+        hev_task_channel_wait (self);
     }
 
     barrier ();
@@ -240,8 +249,7 @@ hev_task_channel_write (HevTaskChannel *self, const void *buffer, size_t count)
             break;
         }
 
-        WRITE_ONCE (self->task, hev_task_self ());
-        hev_task_yield (HEV_TASK_WAITIO);
+        hev_task_channel_wait (self);
     }
 
     barrier ();
-- 
2.43.0


From 452676a0de0f59fe0fee06c68b5ee5fd6fab5bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:53 +0000
Subject: [PATCH 08/34] fix: compute the storage of large channels without
 overflow

Message size times buffer count was computed in 32 bits, so a channel
with more than 4 GiB of message storage got far too little memory.
---
 src/kern/itc/hev-task-channel.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/kern/itc/hev-task-channel.c b/src/kern/itc/hev-task-channel.c
index 5f1520e..1fc728f 100644
--- a/src/kern/itc/hev-task-channel.c
+++ b/src/kern/itc/hev-task-channel.c
@@ -28,12 +28,12 @@ hev_task_channel_new_with_buffers (HevTaskChannel **chan1,
                                    unsigned int buffers)
 {
     HevTaskChannel *c1, *c2;
-    unsigned int buffers_size;
-    unsigned int data_size = 0;
+    size_t buffers_size;
+    size_t data_size = 0;
 
     buffers += 1;
     if (buffers > 1)
-        data_size = size * buffers;
+        data_size = (size_t)size * buffers;
     buffers_size = sizeof (HevTaskChannelBuffer) * buffers;
 
     c1 = hev_malloc (sizeof (HevTaskChannel) + buffers_size + data_size);
@@ -60,8 +60,10 @@ hev_task_channel_new_with_buffers (HevTaskChannel **chan1,
         unsigned int i;
 
         for (i = 0; i < buffers; i++) {
-            c1->buffers[i].data = (void *)c1->buffers + buffers_size + size * i;
-            c2->buffers[i].data = (void *)c2->buffers + buffers_size + size * i;
+            size_t offset = buffers_size + (size_t)size * i;
+
+            c1->buffers[i].data = (void *)c1->buffers + offset;
+            c2->buffers[i].data = (void *)c2->buffers + offset;
         }
     }
 
-- 
2.43.0


From d1faf4ff06648fb6f464a24bf89a48ee872ed4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:17 +0000
Subject: [PATCH 09/34] fix: report name length, control length and flags of
 received messages

hev_task_io_socket_recvmsg receives through a private copy of the message
header, so the lengths and flags set by recvmsg were lost.
---
 src/lib/io/socket/hev-task-io-socket.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/io/socket/hev-task-io-socket.c b/src/lib/io/socket/hev-task-io-socket.c
index 7ca7ca5..733d94a 100644
--- a/src/lib/io/socket/hev-task-io-socket.c
+++ b/src/lib/io/socket/hev-task-io-socket.c
@@ -290,6 +290,12 @@ retry:
         goto retry;
     }
 
+    if (s >= 0 && !size) {
+        msg->msg_namelen = mh.msg_namelen;
+        msg->msg_controllen = mh.msg_controllen;
+        msg->msg_flags = mh.msg_flags;
+    }
+
     if (!(flags & MSG_WAITALL))
         return s;
 
-- 
2.43.0


From db3bad86d121cd0119aa21abdcd0b87793773004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:28:59 +0000
Subject: [PATCH 10/34] fix: poll before waiting in hev_task_io_poll

Descriptors that cannot be registered with the reactor, such as closed
ones, are ready at once for poll but never wake the task.  Errors of the
system call were also reported only after the wait.
---
 src/lib/io/poll/hev-task-io-poll.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/poll/hev-task-io-poll.c b/src/lib/io/poll/hev-task-io-poll.c
index d82421a..4da60bd 100644
--- a/src/lib/io/poll/hev-task-io-poll.c
+++ b/src/lib/io/poll/hev-task-io-poll.c
@@ -17,9 +17,8 @@ hev_task_io_poll (HevTaskIOPollFD fds[], unsigned int nfds, int timeout)
 {
     int res;
 
-    if (timeout == 0) {
-        res = poll (fds, nfds, 0);
-    } else {
+    res = poll (fds, nfds, 0);
+    if (timeout != 0 && res == 0) {
         HevTask *task = hev_task_self ();
         unsigned int i;
 
-- 
2.43.0


From 006f18fbb8bdb9d081d9acc34a8921f556bcac91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:28 +0000
Subject: [PATCH 11/34] fix: wait for the events of all entries of a descriptor
 in hev_task_io_poll

A descriptor given in several entries was registered with the events of
the last one only.
---
 src/lib/io/poll/hev-task-io-poll.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/poll/hev-task-io-poll.c b/src/lib/io/poll/hev-task-io-poll.c
index 4da60bd..d8b9892 100644
--- a/src/lib/io/poll/hev-task-io-poll.c
+++ b/src/lib/io/poll/hev-task-io-poll.c
@@ -20,11 +20,18 @@ hev_task_io_poll (HevTaskIOPollFD fds[], unsigned int nfds, int timeout)
     res = poll (fds, nfds, 0);
     if (timeout != 0 && res == 0) {
         HevTask *task = hev_task_self ();
-        unsigned int i;
+        unsigned int i, j;
 
         for (i = 0; i < nfds; i++) {
-            if (hev_task_mod_fd (task, fds[i].fd, fds[i].events) < 0)
-                hev_task_add_fd (task, fds[i].fd, fds[i].events);
+            unsigned int events = fds[i].events;
+
+            for (j = 0; j < i; j++) {
+                if (fds[j].fd == fds[i].fd)
+                    events |= fds[j].events;
+            }
+
+            if (hev_task_mod_fd (task, fds[i].fd, events) < 0)
+                hev_task_add_fd (task, fds[i].fd, events);
         }
 
         if (timeout > 0) {
-- 
2.43.0


From 43569c89f60b75bf523f53217bd2e0e09dd01724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:30:08 +0000
Subject: [PATCH 12/34] fix: register for priority data, peer shutdown and band
 events

Only POLLIN, POLLOUT and POLLERR were passed on to the reactor, so a task
waiting for one of the others was never woken.
---
 src/kern/io/hev-task-io-reactor-epoll.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kern/io/hev-task-io-reactor-epoll.h b/src/kern/io/hev-task-io-reactor-epoll.h
index b1c6976..1817552 100644
--- a/src/kern/io/hev-task-io-reactor-epoll.h
+++ b/src/kern/io/hev-task-io-reactor-epoll.h
@@ -78,6 +78,9 @@ hev_task_io_reactor_setup_event_gen (HevTaskIOReactorSetupEvent *events, int fd,
         reactor_events |= HEV_TASK_IO_REACTOR_EV_WO;
     if (poll_events & POLLERR)
         reactor_events |= HEV_TASK_IO_REACTOR_EV_ER;
+    reactor_events |= poll_events &
+                      (EPOLLPRI | EPOLLRDHUP | EPOLLRDNORM | EPOLLRDBAND |
+                       EPOLLWRNORM | EPOLLWRBAND);
 
     hev_task_io_reactor_setup_event_set (events, fd, op, reactor_events, data);
 
-- 
2.43.0


From 318dae93b48422689bc9d136c8ed78f8b8a7bca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:32:55 +0000
Subject: [PATCH 13/34] fix: keep to the time-out in hev_task_io_poll across
 wakeups

The time left was rounded down to milliseconds at every wakeup, so a task
woken often got its time-out early.
---
 src/lib/io/poll/hev-task-io-poll.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/lib/io/poll/hev-task-io-poll.c b/src/lib/io/poll/hev-task-io-poll.c
index d8b9892..5d2da72 100644
--- a/src/lib/io/poll/hev-task-io-poll.c
+++ b/src/lib/io/poll/hev-task-io-poll.c
@@ -7,11 +7,24 @@
  ============================================================================
  */
 
+#include <time.h>
+#include <stdint.h>
+
 #include "kern/task/hev-task.h"
 #include "lib/misc/hev-compiler.h"
 
 #include "hev-task-io-poll.h"
 
+static int64_t
+hev_task_io_poll_time (void)
+{
+    struct timespec ts;
+
+    clock_gettime (CLOCK_MONOTONIC, &ts);
+
+    return (int64_t)ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
+}
+
 EXPORT_SYMBOL int
 hev_task_io_poll (HevTaskIOPollFD fds[], unsigned int nfds, int timeout)
 {
@@ -35,10 +48,17 @@ hev_task_io_poll (HevTaskIOPollFD fds[], unsigned int nfds, int timeout)
         }
 
         if (timeout > 0) {
+            int64_t left = (int64_t)timeout * 1000;
+            int64_t end = hev_task_io_poll_time () + left;
+
             do {
-                timeout = hev_task_sleep (timeout);
+                if (left < 1000)
+                    hev_task_usleep (left);
+                else
+                    hev_task_sleep (left / 1000);
                 res = poll (fds, nfds, 0);
-            } while (timeout > 0 && res == 0);
+                left = end - hev_task_io_poll_time ();
+            } while (left > 0 && res == 0);
         } else {
             do {
                 hev_task_yield (HEV_TASK_WAITIO);
-- 
2.43.0


From 02a2639eb23f8046c8786b4f0a75fa6010ac5087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:54:05 +0000
Subject: [PATCH 14/34] fix: circular buffer without capacity divided by zero
 when asked for space

---
 src/lib/io/buffer/hev-circular-buffer.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/buffer/hev-circular-buffer.c b/src/lib/io/buffer/hev-circular-buffer.c
index 4d78c1d..d409b9d 100644
--- a/src/lib/io/buffer/hev-circular-buffer.c
+++ b/src/lib/io/buffer/hev-circular-buffer.c
@@ -99,13 +99,15 @@ hev_circular_buffer_read_finish (HevCircularBuffer *self, size_t size)
 EXPORT_SYMBOL int
 hev_circular_buffer_writing (HevCircularBuffer *self, struct iovec *iov)
 {
-    size_t wp = (self->rp + self->use_size) % self->max_size;
-    size_t upper_size = self->max_size - wp;
-    size_t spc_size = self->max_size - self->use_size;
+    size_t wp, upper_size, spc_size;
 
     if (self->use_size == self->max_size)
         return 0;
 
+    wp = (self->rp + self->use_size) % self->max_size;
+    upper_size = self->max_size - wp;
+    spc_size = self->max_size - self->use_size;
+
     iov[0].iov_base = self->data + wp;
     if (spc_size <= upper_size) {
         iov[0].iov_len = spc_size;
-- 
2.43.0


From f58c05c55dfedae1da4a8f8b1793bdb09b4eb0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:54:35 +0000
Subject: [PATCH 15/34] fix: circular buffer size overflow gave a buffer
 smaller than asked for

---
 src/lib/io/buffer/hev-circular-buffer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/io/buffer/hev-circular-buffer.c b/src/lib/io/buffer/hev-circular-buffer.c
index d409b9d..106e2b1 100644
--- a/src/lib/io/buffer/hev-circular-buffer.c
+++ b/src/lib/io/buffer/hev-circular-buffer.c
@@ -27,6 +27,9 @@ hev_circular_buffer_new (size_t max_size)
 {
     HevCircularBuffer *self;
 
+    if (max_size > (size_t)-1 - sizeof (HevCircularBuffer))
+        return NULL;
+
     self = hev_malloc (sizeof (HevCircularBuffer) + max_size);
     if (!self)
         return NULL;
-- 
2.43.0


From 4fd59fbf05cf1d1c9aae78326b6d705fffd135e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:02:52 +0000
Subject: [PATCH 16/34] fix: huge sizes were taken for small ones by the slice
 allocator

---
 src/mem/slice/hev-memory-allocator-slice.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mem/slice/hev-memory-allocator-slice.c b/src/mem/slice/hev-memory-allocator-slice.c
index 4e14210..7e2fdbf 100644
--- a/src/mem/slice/hev-memory-allocator-slice.c
+++ b/src/mem/slice/hev-memory-allocator-slice.c
@@ -88,7 +88,7 @@ _hev_memory_allocator_alloc (HevMemoryAllocator *allocator, size_t size)
 {
     HevMemoryAllocatorSlice *self = (HevMemoryAllocatorSlice *)allocator;
     HevMemorySlice *slice, **owner;
-    int index;
+    size_t index;
 
     size = ALIGN_UP (size, CACHED_SLICE_ALIGN);
     index = size / CACHED_SLICE_ALIGN;
@@ -140,7 +140,7 @@ _hev_memory_allocator_realloc (HevMemoryAllocator *allocator, void *ptr,
                                size_t size)
 {
     HevMemorySlice *slice;
-    int index;
+    size_t index;
 
     if (0 == size) {
         _hev_memory_allocator_free (allocator, ptr);
@@ -150,6 +150,8 @@ _hev_memory_allocator_realloc (HevMemoryAllocator *allocator, void *ptr,
     slice = (HevMemorySlice *)ptr - 1;
     size = ALIGN_UP (size, CACHED_SLICE_ALIGN);
     index = size / CACHED_SLICE_ALIGN;
+    if (0 == index)
+        return NULL;
 
     slice = realloc (slice, sizeof (HevMemorySlice) + size);
     if (!slice)
-- 
2.43.0


From fba1705013bcbe761e2ea730b2133638c6f4202f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:02:52 +0000
Subject: [PATCH 17/34] fix: array size overflow in hev_calloc gave a block
 that is too small

---
 src/mem/api/hev-memory-allocator-api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mem/api/hev-memory-allocator-api.c b/src/mem/api/hev-memory-allocator-api.c
index cdc5b25..ce9993c 100644
--- a/src/mem/api/hev-memory-allocator-api.c
+++ b/src/mem/api/hev-memory-allocator-api.c
@@ -42,7 +42,7 @@ hev_calloc (size_t nmemb, size_t size)
     HevMemoryAllocator *allocator;
     void *data;
 
-    if (!nmemb || !size)
+    if (!nmemb || !size || nmemb > (size_t)-1 / size)
         return NULL;
 
     size *= nmemb;
-- 
2.43.0


From 0546ef51ff4d923ece1c14b550e46747db054969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:19:52 +0000
Subject: [PATCH 18/34] fix: skip empty segments in vector calls of the
 buffering stage

A vector read or write whose first segment is empty returned 0 although
bytes could be moved, which callers take for the end of the stream.
---
 src/lib/cio/buffer/hev-task-cio-buffer.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/cio/buffer/hev-task-cio-buffer.c b/src/lib/cio/buffer/hev-task-cio-buffer.c
index 1af7e63..c6b197a 100644
--- a/src/lib/cio/buffer/hev-task-cio-buffer.c
+++ b/src/lib/cio/buffer/hev-task-cio-buffer.c
@@ -219,6 +219,9 @@ _hev_task_cio_buffer_readv (HevTaskCIO *base, const struct iovec *iov,
         const struct iovec *v = &iov[i];
         ssize_t res;
 
+        if (!v->iov_len)
+            continue;
+
         res = _hev_task_cio_buffer_read (base, v->iov_base, v->iov_len);
         if (res <= 0) {
             if (size)
@@ -249,6 +252,9 @@ _hev_task_cio_buffer_writev (HevTaskCIO *base, const struct iovec *iov,
         const struct iovec *v = &iov[i];
         ssize_t res;
 
+        if (!v->iov_len)
+            continue;
+
         res = _hev_task_cio_buffer_write (base, v->iov_base, v->iov_len);
         if (res <= 0) {
             if (size)
-- 
2.43.0


From ac4c61273cc86460a225e361895782d24fbf163a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:51 +0000
Subject: [PATCH 19/34] fix: deliver the whole write buffer of the buffering
 stage when flushing

After a lower stage took only part of the buffered bytes, the flush
reported that it had to wait although the lower stage was never full, so
the task slept with nobody to wake it.  Repeat until the buffer is empty
or the lower stage really refuses.
---
 src/lib/cio/buffer/hev-task-cio-buffer.c | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/lib/cio/buffer/hev-task-cio-buffer.c b/src/lib/cio/buffer/hev-task-cio-buffer.c
index c6b197a..af69aa0 100644
--- a/src/lib/cio/buffer/hev-task-cio-buffer.c
+++ b/src/lib/cio/buffer/hev-task-cio-buffer.c
@@ -147,20 +147,16 @@ _hev_task_cio_buffer_flush (HevTaskCIOBuffer *self)
     if (!self->wbuf)
         return 0;
 
-    iovcnt = hev_circular_buffer_reading (self->wbuf, iov);
-    if (iovcnt == 0)
-        return 0;
-
-    res = hev_task_cio_next_writev (base, iov, iovcnt);
-    if (res < 0)
-        return res;
-
-    hev_circular_buffer_read_finish (self->wbuf, res);
+    while ((iovcnt = hev_circular_buffer_reading (self->wbuf, iov))) {
+        res = hev_task_cio_next_writev (base, iov, iovcnt);
+        if (res < 0)
+            return res;
+        if (res == 0) {
+            base->err = EAGAIN;
+            return -1;
+        }
 
-    res = hev_circular_buffer_get_use_size (self->wbuf);
-    if (res) {
-        base->err = EAGAIN;
-        return -1;
+        hev_circular_buffer_read_finish (self->wbuf, res);
     }
 
     return 0;
-- 
2.43.0


From a82f938ad54eaecf1465efb09ee79336338785f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:34:09 +0000
Subject: [PATCH 20/34] fix: release only the own reference of the stage below

Destroying a stage destroyed the stage below it even when others still
held references to that one, leaving them with released memory.
---
 src/lib/cio/base/hev-task-cio.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/lib/cio/base/hev-task-cio.h b/src/lib/cio/base/hev-task-cio.h
index 71979f6..3fb22a3 100644
--- a/src/lib/cio/base/hev-task-cio.h
+++ b/src/lib/cio/base/hev-task-cio.h
@@ -678,13 +678,11 @@ static inline void
 hev_task_cio_next_destruct (HevTaskCIO *self)
 {
     HevTaskCIO *next = self->next;
-    HevObjectClass *nkptr;
 
     if (!next)
         return;
 
-    nkptr = HEV_OBJECT_GET_CLASS (next);
-    nkptr->destruct (HEV_OBJECT (next));
+    hev_object_unref (HEV_OBJECT (next));
 }
 
 #ifdef __cplusplus
-- 
2.43.0


From 5abce8a7c8f5884ab9977b3a29bf6300be37146a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:34:29 +0000
Subject: [PATCH 21/34] fix: close a descriptor used in both directions once

A descriptor stage made for the same descriptor in both directions closed
it twice, which closes an unrelated descriptor opened in between.
---
 src/lib/cio/fd/hev-task-cio-fd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/cio/fd/hev-task-cio-fd.c b/src/lib/cio/fd/hev-task-cio-fd.c
index 4d0ffb9..39d2462 100644
--- a/src/lib/cio/fd/hev-task-cio-fd.c
+++ b/src/lib/cio/fd/hev-task-cio-fd.c
@@ -126,7 +126,7 @@ _hev_task_cio_fd_destruct (HevObject *base)
 
     if (self->fdi >= 0)
         close (self->fdi);
-    if (self->fdo >= 0)
+    if ((self->fdo >= 0) && (self->fdo != self->fdi))
         close (self->fdo);
 
     HEV_TASK_CIO_TYPE->destruct (base);
-- 
2.43.0


From b01f03fdc2c4cd56d292079975456b76e0a284e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:44:39 +0000
Subject: [PATCH 22/34] fix: order the use of a shared object before its
 destruction

Dropping a reference was a relaxed operation, so what other threads did
to the object before releasing it was not ordered before the destruction
by the thread that released it last.
---
 src/lib/object/hev-object-atomic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/object/hev-object-atomic.c b/src/lib/object/hev-object-atomic.c
index 4d93ba7..326e755 100644
--- a/src/lib/object/hev-object-atomic.c
+++ b/src/lib/object/hev-object-atomic.c
@@ -47,7 +47,7 @@ _hev_object_atomic_ref (HevObject *base, int ref)
         return;
     }
 
-    rc = atomic_fetch_sub_explicit (rcp, 1, memory_order_relaxed);
+    rc = atomic_fetch_sub_explicit (rcp, 1, memory_order_acq_rel);
     if (rc > 1)
         return;
 
-- 
2.43.0


From e66706f4cab70013327c34e6bcecdda66a265196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:45:37 +0000
Subject: [PATCH 23/34] fix: fill the classes before threads are started

A class was filled on first use with its name set first.  A second thread
creating an object at the same time took the unfinished class and called
functions that were not there yet.
---
 src/lib/cio/base/hev-task-cio.c          | 2 +-
 src/lib/cio/buffer/hev-task-cio-buffer.c | 2 +-
 src/lib/cio/fd/hev-task-cio-fd.c         | 2 +-
 src/lib/cio/null/hev-task-cio-null.c     | 2 +-
 src/lib/cio/socket/hev-task-cio-socket.c | 2 +-
 src/lib/object/hev-object-atomic.c       | 2 +-
 src/lib/object/hev-object.c              | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/lib/cio/base/hev-task-cio.c b/src/lib/cio/base/hev-task-cio.c
index f64cd73..6fa0164 100644
--- a/src/lib/cio/base/hev-task-cio.c
+++ b/src/lib/cio/base/hev-task-cio.c
@@ -543,7 +543,7 @@ _hev_task_cio_destruct (HevObject *base)
     HEV_OBJECT_TYPE->destruct (base);
 }
 
-EXPORT_SYMBOL HevObjectClass *
+EXPORT_SYMBOL __attribute__ ((constructor)) HevObjectClass *
 hev_task_cio_class (void)
 {
     static HevTaskCIOClass klass;
diff --git a/src/lib/cio/buffer/hev-task-cio-buffer.c b/src/lib/cio/buffer/hev-task-cio-buffer.c
index af69aa0..d88d537 100644
--- a/src/lib/cio/buffer/hev-task-cio-buffer.c
+++ b/src/lib/cio/buffer/hev-task-cio-buffer.c
@@ -316,7 +316,7 @@ _hev_task_cio_buffer_destruct (HevObject *base)
     hev_free (base);
 }
 
-EXPORT_SYMBOL HevObjectClass *
+EXPORT_SYMBOL __attribute__ ((constructor)) HevObjectClass *
 hev_task_cio_buffer_class (void)
 {
     static HevTaskCIOBufferClass klass;
diff --git a/src/lib/cio/fd/hev-task-cio-fd.c b/src/lib/cio/fd/hev-task-cio-fd.c
index 39d2462..6f4b932 100644
--- a/src/lib/cio/fd/hev-task-cio-fd.c
+++ b/src/lib/cio/fd/hev-task-cio-fd.c
@@ -133,7 +133,7 @@ _hev_task_cio_fd_destruct (HevObject *base)
     hev_free (base);
 }
 
-EXPORT_SYMBOL HevObjectClass *
+EXPORT_SYMBOL __attribute__ ((constructor)) HevObjectClass *
 hev_task_cio_fd_class (void)
 {
     static HevTaskCIOFdClass klass;
diff --git a/src/lib/cio/null/hev-task-cio-null.c b/src/lib/cio/null/hev-task-cio-null.c
index c185e80..ce377d8 100644
--- a/src/lib/cio/null/hev-task-cio-null.c
+++ b/src/lib/cio/null/hev-task-cio-null.c
@@ -130,7 +130,7 @@ _hev_task_cio_null_destruct (HevObject *base)
     hev_free (base);
 }
 
-EXPORT_SYMBOL HevObjectClass *
+EXPORT_SYMBOL __attribute__ ((constructor)) HevObjectClass *
 hev_task_cio_null_class (void)
 {
     static HevTaskCIONullClass klass;
diff --git a/src/lib/cio/socket/hev-task-cio-socket.c b/src/lib/cio/socket/hev-task-cio-socket.c
index 02271a4..29bbeca 100644
--- a/src/lib/cio/socket/hev-task-cio-socket.c
+++ b/src/lib/cio/socket/hev-task-cio-socket.c
@@ -214,7 +214,7 @@ _hev_task_cio_socket_destruct (HevObject *base)
     hev_free (base);
 }
 
-EXPORT_SYMBOL HevObjectClass *
+EXPORT_SYMBOL __attribute__ ((constructor)) HevObjectClass *
 hev_task_cio_socket_class (void)
 {
     static HevTaskCIOSocketClass klass;
diff --git a/src/lib/object/hev-object-atomic.c b/src/lib/object/hev-object-atomic.c
index 326e755..8e7b87b 100644
--- a/src/lib/object/hev-object-atomic.c
+++ b/src/lib/object/hev-object-atomic.c
@@ -54,7 +54,7 @@ _hev_object_atomic_ref (HevObject *base, int ref)
     kptr->destruct (base);
 }
 
-EXPORT_SYMBOL HevObjectClass *
+EXPORT_SYMBOL __attribute__ ((constructor)) HevObjectClass *
 hev_object_atomic_class (void)
 {
     static HevObjectAtomicClass klass;
diff --git a/src/lib/object/hev-object.c b/src/lib/object/hev-object.c
index 910cd2f..3263e54 100644
--- a/src/lib/object/hev-object.c
+++ b/src/lib/object/hev-object.c
@@ -42,7 +42,7 @@ _hev_object_ref (HevObject *self, int ref)
     kptr->destruct (self);
 }
 
-EXPORT_SYMBOL HevObjectClass *
+EXPORT_SYMBOL __attribute__ ((constructor)) HevObjectClass *
 hev_object_class (void)
 {
     static HevObjectClass klass;
-- 
2.43.0


From c4caa72a2f50d1057cec0703d7affba927253fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:53:37 +0000
Subject: [PATCH 24/34] fix: forward what a stage could not flush at once

Splicing two streams flushed the output after each write and ignored that the
flush could not be completed.  Bytes kept in a buffering stage then stayed
there although the lower end became ready, and were lost when the input ended.
Remember that a flush is due, retry it, and end only after it.
---
 src/lib/cio/base/hev-task-cio.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/lib/cio/base/hev-task-cio.c b/src/lib/cio/base/hev-task-cio.c
index 6fa0164..c2a4d23 100644
--- a/src/lib/cio/base/hev-task-cio.c
+++ b/src/lib/cio/base/hev-task-cio.c
@@ -424,7 +424,8 @@ retry:
 }
 
 static int
-task_cio_splice (HevCircularBuffer *buf, HevTaskCIO *i, HevTaskCIO *o)
+task_cio_splice (HevCircularBuffer *buf, HevTaskCIO *i, HevTaskCIO *o,
+                 int *flush)
 {
     struct iovec iov[2];
     int res = 1, iovc;
@@ -451,14 +452,25 @@ task_cio_splice (HevCircularBuffer *buf, HevTaskCIO *i, HevTaskCIO *o)
             if ((0 > s) && (o->err == EAGAIN))
                 res = 0;
             else
-                res = -1;
+                return -1;
         } else {
             hev_circular_buffer_read_finish (buf, s);
-            kptr->ctrl (o, HEV_TASK_CIO_CTRL_FLUSH, 0, NULL);
+            *flush = 1;
             res = 1;
         }
     }
 
+    if (*flush) {
+        HevTaskCIOClass *kptr = HEV_OBJECT_GET_CLASS (o);
+        long s = kptr->ctrl (o, HEV_TASK_CIO_CTRL_FLUSH, 0, NULL);
+        if ((0 > s) && (o->err == EAGAIN)) {
+            if (res < 0)
+                res = 0;
+        } else {
+            *flush = 0;
+        }
+    }
+
     return res;
 }
 
@@ -469,6 +481,8 @@ hev_task_cio_splice (HevTaskCIO *a, HevTaskCIO *b, size_t buf_size,
     HevCircularBuffer *buf_f;
     HevCircularBuffer *buf_b;
     int fai, fao, fbi, fbo;
+    int flush_f = 0;
+    int flush_b = 0;
     int res_f = 1;
     int res_b = 1;
 
@@ -493,9 +507,9 @@ hev_task_cio_splice (HevTaskCIO *a, HevTaskCIO *b, size_t buf_size,
         HevTaskYieldType type;
 
         if (res_f >= 0)
-            res_f = task_cio_splice (buf_f, a, b);
+            res_f = task_cio_splice (buf_f, a, b, &flush_f);
         if (res_b >= 0)
-            res_b = task_cio_splice (buf_b, b, a);
+            res_b = task_cio_splice (buf_b, b, a, &flush_b);
 
         if (res_f < 0 || res_b < 0)
             break;
-- 
2.43.0


From 936d931e86d01a7a241565a5882cbfcfdb23611e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:37:52 +0000
Subject: [PATCH 25/34] fix: leave a thread's task system alone when
 initialising it again fails

hev_task_system_init replaced the thread's memory allocator before it looked
whether the thread has a task system already, and left the new allocator in
place when it failed for want of resources.
---
 src/kern/core/hev-task-system.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/kern/core/hev-task-system.c b/src/kern/core/hev-task-system.c
index 10f5761..7d232ba 100644
--- a/src/kern/core/hev-task-system.c
+++ b/src/kern/core/hev-task-system.c
@@ -46,6 +46,11 @@ hev_task_system_init (void)
     HevMemoryAllocator *allocator = NULL;
     HevTaskSystemContext *context;
 
+    pthread_once (&key_once, pthread_key_creator);
+
+    if (hev_task_system_get_context ())
+        return -1;
+
 #ifdef ENABLE_MEMALLOC_SLICE
     allocator = hev_memory_allocator_slice_new ();
 #endif
@@ -53,11 +58,6 @@ hev_task_system_init (void)
     if (allocator)
         hev_memory_allocator_unref (allocator);
 
-    pthread_once (&key_once, pthread_key_creator);
-
-    if (hev_task_system_get_context ())
-        goto exit;
-
     context = hev_malloc0 (sizeof (HevTaskSystemContext));
     if (!context)
         goto exit;
@@ -88,6 +88,9 @@ rest_context:
 free_context:
     hev_free (context);
 exit:
+    allocator = hev_memory_allocator_set_default (NULL);
+    if (allocator)
+        hev_memory_allocator_unref (allocator);
     return -1;
 }
 
-- 
2.43.0


From 80b9c3c154fa649ffce8a67503a5561d4a1a1087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:38:24 +0000
Subject: [PATCH 26/34] fix: keep fault handlers while any thread has a task
 system

Every task system remembered and restored the process-wide SIGSEGV and SIGBUS
actions on its own. With two threads the handlers of one stayed behind after
both had finished, or were gone while the other was still running, and the
library's handler passed faults on to itself instead of to the program's.
Faults of threads without a task system dereferenced a null pointer.
---
 src/lib/misc/hev-task-stack-detector.c | 42 ++++++++++++++++++++------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/lib/misc/hev-task-stack-detector.c b/src/lib/misc/hev-task-stack-detector.c
index ee0e55c..d3aa57d 100644
--- a/src/lib/misc/hev-task-stack-detector.c
+++ b/src/lib/misc/hev-task-stack-detector.c
@@ -10,6 +10,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <signal.h>
+#include <pthread.h>
 
 #if defined(__APPLE__)
 #include <Availability.h>
@@ -26,12 +27,16 @@
 
 struct _HevTaskStackDetector
 {
-    struct sigaction bus_sa;
-    struct sigaction segv_sa;
     stack_t oss;
     char stack[SIGSTKSZ];
 };
 
+/* Signal actions belong to the process, not to the thread. */
+static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
+static unsigned int users;
+static struct sigaction bus_sa;
+static struct sigaction segv_sa;
+
 static int
 setaltstack (const stack_t *ss, stack_t *oss)
 {
@@ -46,8 +51,10 @@ static void
 signal_handler (int signo, siginfo_t *si, void *unused)
 {
     HevTaskSystemContext *context = hev_task_system_get_context ();
-    HevListNode *node = hev_list_first (&context->all_tasks);
-    HevTaskStackDetector *self = context->stack_detector;
+    HevListNode *node = NULL;
+
+    if (context)
+        node = hev_list_first (&context->all_tasks);
 
     for (; node; node = hev_list_node_next (node)) {
         HevTask *task = container_of (node, HevTask, list_node);
@@ -67,10 +74,10 @@ signal_handler (int signo, siginfo_t *si, void *unused)
 
     switch (signo) {
     case SIGBUS:
-        self->bus_sa.sa_sigaction (signo, si, unused);
+        bus_sa.sa_sigaction (signo, si, unused);
         break;
     case SIGSEGV:
-        self->segv_sa.sa_sigaction (signo, si, unused);
+        segv_sa.sa_sigaction (signo, si, unused);
         break;
     default:
         return;
@@ -98,11 +105,21 @@ hev_task_stack_detector_new (void)
     sigemptyset (&sa.sa_mask);
 
     res |= setaltstack (&ss, &self->oss);
-    res |= sigaction (SIGBUS, &sa, &self->bus_sa);
-    res |= sigaction (SIGSEGV, &sa, &self->segv_sa);
     if (res < 0)
         goto free;
 
+    pthread_mutex_lock (&mutex);
+    if (users == 0) {
+        res |= sigaction (SIGBUS, &sa, &bus_sa);
+        res |= sigaction (SIGSEGV, &sa, &segv_sa);
+    }
+    users++;
+    pthread_mutex_unlock (&mutex);
+    if (res < 0) {
+        hev_task_stack_detector_destroy (self);
+        goto exit;
+    }
+
     return self;
 
 free:
@@ -114,8 +131,13 @@ exit:
 void
 hev_task_stack_detector_destroy (HevTaskStackDetector *self)
 {
-    sigaction (SIGBUS, &self->bus_sa, NULL);
-    sigaction (SIGSEGV, &self->segv_sa, NULL);
+    pthread_mutex_lock (&mutex);
+    users--;
+    if (users == 0) {
+        sigaction (SIGBUS, &bus_sa, NULL);
+        sigaction (SIGSEGV, &segv_sa, NULL);
+    }
+    pthread_mutex_unlock (&mutex);
     setaltstack (&self->oss, NULL);
     free (self);
 }
-- 
2.43.0


From 316e5c89f870f092605175593d316862603a3ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:38:48 +0000
Subject: [PATCH 27/34] fix: report lack of memory when the default allocator
 cannot be made

hev_malloc and hev_realloc dereferenced a null pointer when the thread's
default allocator could not be allocated.
---
 src/mem/base/hev-memory-allocator.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mem/base/hev-memory-allocator.c b/src/mem/base/hev-memory-allocator.c
index 7262928..db4702c 100644
--- a/src/mem/base/hev-memory-allocator.c
+++ b/src/mem/base/hev-memory-allocator.c
@@ -76,12 +76,18 @@ hev_memory_allocator_unref (HevMemoryAllocator *self)
 EXPORT_SYMBOL void *
 hev_memory_allocator_alloc (HevMemoryAllocator *self, size_t size)
 {
+    if (!self)
+        return NULL;
+
     return self->alloc (self, size);
 }
 
 EXPORT_SYMBOL void *
 hev_memory_allocator_realloc (HevMemoryAllocator *self, void *ptr, size_t size)
 {
+    if (!self)
+        return NULL;
+
     return self->realloc (self, ptr, size);
 }
 
-- 
2.43.0


From cf61e571b0f546a1848f403bf50c96693cbd4cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:47:39 +0000
Subject: [PATCH 28/34] fix: start the lookup helper once and report when it
 cannot be started

Threads that asked for the helper at the same time could start several, or
were told that it failed although it was running, or waited forever. A helper
that could not be created was taken for a running one.
---
 src/kern/aide/hev-task-aide.c | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/kern/aide/hev-task-aide.c b/src/kern/aide/hev-task-aide.c
index 95bc00c..ce3176f 100644
--- a/src/kern/aide/hev-task-aide.c
+++ b/src/kern/aide/hev-task-aide.c
@@ -22,16 +22,20 @@ static pthread_t thread;
 static pthread_cond_t cond = PTHREAD_COND_INITIALIZER;
 static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
 static HevTaskIOReactor *reactor;
+static int started;
 
 static void *
 hev_task_aide_entry (void *data)
 {
     pthread_mutex_lock (&mutex);
     reactor = hev_task_io_reactor_new ();
-    pthread_cond_signal (&cond);
+    if (!reactor)
+        started = 0;
+    pthread_cond_broadcast (&cond);
+    data = reactor;
     pthread_mutex_unlock (&mutex);
 
-    for (;;) {
+    while (data) {
         HevTaskIOReactorWaitEvent events[256];
         int i, count;
 
@@ -54,19 +58,14 @@ hev_task_aide_entry (void *data)
 int
 hev_task_aide_init (void)
 {
-    int res = -1;
-
-    if (reactor)
-        return 0;
+    int res;
 
     pthread_mutex_lock (&mutex);
-    if (!reactor) {
-        res = pthread_create (&thread, NULL, hev_task_aide_entry, NULL);
-        if (0 == res) {
-            while (!reactor)
-                pthread_cond_wait (&cond, &mutex);
-        }
-    }
+    if (!started)
+        started = !pthread_create (&thread, NULL, hev_task_aide_entry, NULL);
+    while (started && !reactor)
+        pthread_cond_wait (&cond, &mutex);
+    res = reactor ? 0 : -1;
     pthread_mutex_unlock (&mutex);
 
     return res;
-- 
2.43.0


From 0405e228c63bdac4beefadadf20d09e3d768c166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:48:43 +0000
Subject: [PATCH 29/34] fix: wait for the lookup helper before releasing what
 it uses

The helper could still be handling the last lookup of a task system, or have
been told about it, when the system was finished. It then used released memory
and descriptors that were closed or already something else's.
---
 src/kern/aide/hev-task-aide.c | 52 +++++++++++++++++++++++++++++++++--
 src/kern/aide/hev-task-aide.h |  1 +
 2 files changed, 51 insertions(+), 2 deletions(-)

diff --git a/src/kern/aide/hev-task-aide.c b/src/kern/aide/hev-task-aide.c
index ce3176f..0b1fd93 100644
--- a/src/kern/aide/hev-task-aide.c
+++ b/src/kern/aide/hev-task-aide.c
@@ -23,6 +23,8 @@ static pthread_cond_t cond = PTHREAD_COND_INITIALIZER;
 static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
 static HevTaskIOReactor *reactor;
 static int started;
+static HevTaskAideWork *works;
+static HevTaskAideWork *current;
 
 static void *
 hev_task_aide_entry (void *data)
@@ -48,7 +50,22 @@ hev_task_aide_entry (void *data)
             work = hev_task_io_reactor_wait_event_get_data (&events[i]);
             revents = hev_task_io_reactor_wait_event_get_events (&events[i]);
 
+            /* The work may have been removed meanwhile. */
+            pthread_mutex_lock (&mutex);
+            current = works;
+            while (current && current != work)
+                current = current->next;
+            work = current;
+            pthread_mutex_unlock (&mutex);
+            if (!work)
+                continue;
+
             work->handler (revents, work->data);
+
+            pthread_mutex_lock (&mutex);
+            current = NULL;
+            pthread_cond_broadcast (&cond);
+            pthread_mutex_unlock (&mutex);
         }
     }
 
@@ -71,16 +88,43 @@ hev_task_aide_init (void)
     return res;
 }
 
+static void
+hev_task_aide_forget (HevTaskAideWork *work)
+{
+    HevTaskAideWork **iter;
+
+    pthread_mutex_lock (&mutex);
+    for (iter = &works; *iter; iter = &(*iter)->next) {
+        if (*iter == work) {
+            *iter = work->next;
+            break;
+        }
+    }
+    while (current == work)
+        pthread_cond_wait (&cond, &mutex);
+    pthread_mutex_unlock (&mutex);
+}
+
 int
 hev_task_aide_add (HevTaskAideWork *work)
 {
     HevTaskIOReactorSetupEvent revents[HEV_TASK_IO_REACTOR_EVENT_GEN_MAX];
     int count;
+    int res;
+
+    pthread_mutex_lock (&mutex);
+    work->next = works;
+    works = work;
+    pthread_mutex_unlock (&mutex);
 
     count = hev_task_io_reactor_setup_event_gen (
         revents, work->fd, HEV_TASK_IO_REACTOR_OP_ADD, work->events, work);
 
-    return hev_task_io_reactor_setup (reactor, revents, count);
+    res = hev_task_io_reactor_setup (reactor, revents, count);
+    if (0 > res)
+        hev_task_aide_forget (work);
+
+    return res;
 }
 
 int
@@ -88,9 +132,13 @@ hev_task_aide_del (HevTaskAideWork *work)
 {
     HevTaskIOReactorSetupEvent revents[HEV_TASK_IO_REACTOR_EVENT_GEN_MAX];
     int count;
+    int res;
 
     count = hev_task_io_reactor_setup_event_gen (
         revents, work->fd, HEV_TASK_IO_REACTOR_OP_DEL, 0, NULL);
 
-    return hev_task_io_reactor_setup (reactor, revents, count);
+    res = hev_task_io_reactor_setup (reactor, revents, count);
+    hev_task_aide_forget (work);
+
+    return res;
 }
diff --git a/src/kern/aide/hev-task-aide.h b/src/kern/aide/hev-task-aide.h
index d986b72..99b4213 100644
--- a/src/kern/aide/hev-task-aide.h
+++ b/src/kern/aide/hev-task-aide.h
@@ -19,6 +19,7 @@ struct _HevTaskAideWork
     unsigned int events;
     HevTaskAideWorkHandler handler;
     void *data;
+    HevTaskAideWork *next;
 };
 
 int hev_task_aide_init (void);
-- 
2.43.0


From 8290b3b4473ee8cb8e71a60d20627d22e6df4dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:08:01 +0000
Subject: [PATCH 30/34] fix: fail to make a buffering stage when its buffers
 cannot be made

---
 src/lib/cio/buffer/hev-task-cio-buffer.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lib/cio/buffer/hev-task-cio-buffer.c b/src/lib/cio/buffer/hev-task-cio-buffer.c
index d88d537..fbd5fab 100644
--- a/src/lib/cio/buffer/hev-task-cio-buffer.c
+++ b/src/lib/cio/buffer/hev-task-cio-buffer.c
@@ -294,10 +294,19 @@ hev_task_cio_buffer_construct (HevTaskCIOBuffer *self, size_t rsize,
 
     HEV_OBJECT (self)->klass = HEV_TASK_CIO_BUFFER_TYPE;
 
-    if (rsize)
+    if (rsize) {
         self->rbuf = hev_circular_buffer_new (rsize);
-    if (wsize)
+        if (!self->rbuf)
+            return -1;
+    }
+    if (wsize) {
         self->wbuf = hev_circular_buffer_new (wsize);
+        if (!self->wbuf) {
+            if (self->rbuf)
+                hev_circular_buffer_unref (self->rbuf);
+            return -1;
+        }
+    }
 
     return 0;
 }
-- 
2.43.0


From ebf96354c44aafb58ed1677456776b40a3e33c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:08:28 +0000
Subject: [PATCH 31/34] fix: report when memory for a stack on the heap is
 missing

---
 src/kern/task/hev-task-stack-heap.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/kern/task/hev-task-stack-heap.c b/src/kern/task/hev-task-stack-heap.c
index 63d9ffc..c6808ed 100644
--- a/src/kern/task/hev-task-stack-heap.c
+++ b/src/kern/task/hev-task-stack-heap.c
@@ -8,6 +8,7 @@
  */
 
 #include <assert.h>
+#include <stddef.h>
 #include <stdint.h>
 
 #include "lib/misc/hev-compiler.h"
@@ -70,8 +71,10 @@ hev_task_stack_new (int size)
 
     size += STACK_OVERFLOW_DETECTION_SIZE;
     self = hev_malloc (sizeof (HevTaskStack) + size);
-    if (self)
-        self->size = size;
+    if (!self)
+        return NULL;
+
+    self->size = size;
 
     hev_task_stack_detection_mark (self);
     return self;
-- 
2.43.0


From db9cc2eaa082cf0c43f0a1593e252f6323f161f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:13:49 +0000
Subject: [PATCH 32/34] fix: refuse channels whose buffers cannot be addressed

---
 src/kern/itc/hev-task-channel.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/kern/itc/hev-task-channel.c b/src/kern/itc/hev-task-channel.c
index 1fc728f..77936e9 100644
--- a/src/kern/itc/hev-task-channel.c
+++ b/src/kern/itc/hev-task-channel.c
@@ -7,6 +7,8 @@
  ============================================================================
  */
 
+#include <stdint.h>
+
 #include "kern/task/hev-task.h"
 #include "lib/misc/hev-compiler.h"
 #include "mem/api/hev-memory-allocator-api.h"
@@ -32,6 +34,11 @@ hev_task_channel_new_with_buffers (HevTaskChannel **chan1,
     size_t data_size = 0;
 
     buffers += 1;
+    /* more than can be addressed */
+    if (!buffers || (size_t)-1 / 2 / buffers <
+                        (uint64_t)size + sizeof (HevTaskChannelBuffer))
+        goto err0;
+
     if (buffers > 1)
         data_size = (size_t)size * buffers;
     buffers_size = sizeof (HevTaskChannelBuffer) * buffers;
-- 
2.43.0


From 3b6e7b970b32a3edd0b7092225cbcdc3238501c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:34:53 +0000
Subject: [PATCH 33/34] fix: send the control data of a message once

A whole-amount sendmsg that was sent in parts attached the control data to
every part, so that passed descriptors arrived several times.
---
 src/lib/io/socket/hev-task-io-socket.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/io/socket/hev-task-io-socket.c b/src/lib/io/socket/hev-task-io-socket.c
index 733d94a..96fa28e 100644
--- a/src/lib/io/socket/hev-task-io-socket.c
+++ b/src/lib/io/socket/hev-task-io-socket.c
@@ -384,6 +384,10 @@ retry:
         mh.msg_iov += i;
         mh.msg_iovlen -= i;
 
+        /* control data goes with the first part */
+        mh.msg_control = NULL;
+        mh.msg_controllen = 0;
+
         goto retry;
     }
 
-- 
2.43.0


From b8c4634ed79aa5d6ae3d65d2e02f6e87e51e7504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:57:33 +0000
Subject: [PATCH 34/34] fix: notice when a task system cannot be kept for its
 thread

---
 src/kern/core/hev-task-system.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kern/core/hev-task-system.c b/src/kern/core/hev-task-system.c
index 7d232ba..1ca4fc3 100644
--- a/src/kern/core/hev-task-system.c
+++ b/src/kern/core/hev-task-system.c
@@ -62,7 +62,7 @@ hev_task_system_init (void)
     if (!context)
         goto exit;
 
-    if (hev_task_system_set_context (context) < 0)
+    if (hev_task_system_set_context (context) != 0)
         goto free_context;
 
     context->reactor = hev_task_io_reactor_new ();
-- 
2.43.0

