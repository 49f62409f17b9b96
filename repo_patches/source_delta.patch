From a7b2ebaae82f160b9d5b2a7255dffa2c3c5f93db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:18 +0000
Subject: [PATCH 01/34] fix: normalise timer expiry that lands exactly on a
 second

A sleep whose deadline falls exactly on a second boundary left tv_nsec at
1000000000. The kernel rejects that value and the process aborted.
---
 src/kern/time/hev-task-timer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kern/time/hev-task-timer.c b/src/kern/time/hev-task-timer.c
index cf212cc..b4ab061 100644
--- a/src/kern/time/hev-task-timer.c
+++ b/src/kern/time/hev-task-timer.c
@@ -60,7 +60,7 @@ hev_task_timer_get_expire (struct timespec *expire, unsigned int microseconds)
 
     expire->tv_sec += microseconds / 1000000;
     expire->tv_nsec += (microseconds % 1000000) * 1000;
-    if (expire->tv_nsec > 1000000000L) {
+    if (expire->tv_nsec >= 1000000000L) {
         expire->tv_sec++;
         expire->tv_nsec -= 1000000000L;
     }
-- 
2.43.0


From ba9a4f812e755fedf494a31f97e431404546e45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:19 +0000
Subject: [PATCH 02/34] fix: keep long sleeps from wrapping around

hev_task_sleep converted milliseconds to microseconds in 32 bits, so a sleep
of more than about 71 minutes returned far too early. The timer now takes and
returns 64-bit microseconds.
---
 src/kern/task/hev-task.c       | 10 +++++++++-
 src/kern/time/hev-task-timer.c | 12 ++++++------
 src/kern/time/hev-task-timer.h |  6 ++++--
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/kern/task/hev-task.c b/src/kern/task/hev-task.c
index 164a318..841e8d6 100644
--- a/src/kern/task/hev-task.c
+++ b/src/kern/task/hev-task.c
@@ -154,7 +154,15 @@ hev_task_yield (HevTaskYieldType type)
 EXPORT_SYMBOL unsigned int
 hev_task_sleep (unsigned int milliseconds)
 {
-    return hev_task_usleep (milliseconds * 1000) / 1000;
+    HevTaskSystemContext *ctx;
+
+    if (milliseconds == 0)
+        return 0;
+
+    ctx = hev_task_system_get_context ();
+    return hev_task_timer_wait (ctx->timer, (uint64_t)milliseconds * 1000,
+                                ctx->current_task) /
+           1000;
 }
 
 EXPORT_SYMBOL unsigned int
diff --git a/src/kern/time/hev-task-timer.c b/src/kern/time/hev-task-timer.c
index b4ab061..5d53e52 100644
--- a/src/kern/time/hev-task-timer.c
+++ b/src/kern/time/hev-task-timer.c
@@ -8,6 +8,7 @@
  */
 
 #include <time.h>
+#include <stdint.h>
 
 #include "hev-task-timer.h"
 
@@ -53,7 +54,7 @@ hev_task_timer_node_compare (HevTaskTimerNode *a, HevTaskTimerNode *b)
 }
 
 static inline void
-hev_task_timer_get_expire (struct timespec *expire, unsigned int microseconds)
+hev_task_timer_get_expire (struct timespec *expire, uint64_t microseconds)
 {
     if (clock_gettime (CLOCK_MONOTONIC, expire) < 0)
         abort ();
@@ -66,7 +67,7 @@ hev_task_timer_get_expire (struct timespec *expire, unsigned int microseconds)
     }
 }
 
-static inline unsigned int
+static inline uint64_t
 hev_task_timer_get_time (const struct timespec *expire)
 {
     struct timespec curr;
@@ -86,12 +87,11 @@ hev_task_timer_get_time (const struct timespec *expire)
     if (sec < 0)
         return 0;
 
-    return (sec * 1000000) + (nsec / 1000);
+    return ((uint64_t)sec * 1000000) + (nsec / 1000);
 }
 
-unsigned int
-hev_task_timer_wait (HevTaskTimer *self, unsigned int microseconds,
-                     HevTask *task)
+uint64_t
+hev_task_timer_wait (HevTaskTimer *self, uint64_t microseconds, HevTask *task)
 {
     HevTaskTimerNode curr_node, *node = &curr_node;
     HevRBTreeNode **new = &self->sort_tree.base.root, *parent = NULL;
diff --git a/src/kern/time/hev-task-timer.h b/src/kern/time/hev-task-timer.h
index 68d100a..d1a0b34 100644
--- a/src/kern/time/hev-task-timer.h
+++ b/src/kern/time/hev-task-timer.h
@@ -10,6 +10,8 @@
 #ifndef __HEV_TASK_TIMER_H__
 #define __HEV_TASK_TIMER_H__
 
+#include <stdint.h>
+
 #include "kern/task/hev-task-private.h"
 #include "lib/rbtree/hev-rbtree-cached.h"
 
@@ -24,7 +26,7 @@ struct _HevTaskTimer
 HevTaskTimer *hev_task_timer_new (void);
 void hev_task_timer_destroy (HevTaskTimer *self);
 
-unsigned int hev_task_timer_wait (HevTaskTimer *self, unsigned int milliseconds,
-                                  HevTask *task);
+uint64_t hev_task_timer_wait (HevTaskTimer *self, uint64_t microseconds,
+                              HevTask *task);
 
 #endif /* __HEV_TASK_TIMER_H__ */
-- 
2.43.0


From 0b164277c3f783a796a3e5e6ae7844dbf1c502f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:19 +0000
Subject: [PATCH 03/34] fix: wake the joiner of a task that calls hev_task_exit

Only a normal return of the task entry woke the joiner, so joining a task that
exits early never returned.
---
 src/kern/core/hev-task-system-schedule.c | 4 ++++
 src/kern/task/hev-task-executer.c        | 3 ---
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kern/core/hev-task-system-schedule.c b/src/kern/core/hev-task-system-schedule.c
index d04cfd5..8826f82 100644
--- a/src/kern/core/hev-task-system-schedule.c
+++ b/src/kern/core/hev-task-system-schedule.c
@@ -267,6 +267,10 @@ void
 hev_task_system_kill_current_task (void)
 {
     HevTaskSystemContext *ctx = hev_task_system_get_context ();
+    HevTask *joiner = ctx->current_task->joiner;
+
+    if (joiner)
+        hev_task_system_wakeup_task_with_context (ctx, joiner);
 
     /*
      * NOTE: remove current task in kernel context, because current
diff --git a/src/kern/task/hev-task-executer.c b/src/kern/task/hev-task-executer.c
index 51e080e..903d652 100644
--- a/src/kern/task/hev-task-executer.c
+++ b/src/kern/task/hev-task-executer.c
@@ -18,8 +18,5 @@ hev_task_executer (HevTask *task)
 
     task->entry (task->data);
 
-    if (task->joiner)
-        hev_task_wakeup (task->joiner);
-
     hev_task_system_kill_current_task ();
 }
-- 
2.43.0


From 6e9794fbf8a0489e5d45acec09ee2e54b97edc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:19 +0000
Subject: [PATCH 04/34] fix: forget the joiner once the join has returned

The stale joiner made a later join of the same task fail, and a restarted task
woke a joiner that might have terminated already.
---
 src/kern/task/hev-task.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kern/task/hev-task.c b/src/kern/task/hev-task.c
index 841e8d6..9955aac 100644
--- a/src/kern/task/hev-task.c
+++ b/src/kern/task/hev-task.c
@@ -214,6 +214,8 @@ hev_task_join (HevTask *task)
         hev_task_yield (HEV_TASK_WAITIO);
     }
 
+    task->joiner = NULL;
+
     return 0;
 }
 
-- 
2.43.0


From 0f02d6c58b3e6ecd1731cd840372a4aae4967385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:54 +0000
Subject: [PATCH 05/34] fix: keep the other waiters when a timed condition wait
 expires

A timed wait that expired while it was the newest waiter emptied the
whole waiter list, so earlier waiters were never signalled again.
---
 src/kern/sync/hev-task-cond.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kern/sync/hev-task-cond.c b/src/kern/sync/hev-task-cond.c
index a8a6c77..7dedb3b 100644
--- a/src/kern/sync/hev-task-cond.c
+++ b/src/kern/sync/hev-task-cond.c
@@ -77,7 +77,7 @@ hev_task_cond_timedwait (HevTaskCond *self, HevTaskMutex *mutex,
         if (node.next)
             node.next->prev = node.prev;
         if (self->waiters == &node)
-            self->waiters = NULL;
+            self->waiters = node.next;
         return -1;
     }
 
-- 
2.43.0


From 8cac6b5c01ed1759ef4d6bac39199192e4f3196d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:00 +0000
Subject: [PATCH 06/34] fix: forget the task that waited on a channel once it
 resumes

A channel end kept pointing at the last task that had waited on it.
Using or destroying the channel after that task had ended woke a
stopped or freed task.
---
 src/kern/itc/hev-task-channel.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/kern/itc/hev-task-channel.c b/src/kern/itc/hev-task-channel.c
index 3855471..332abfc 100644
--- a/src/kern/itc/hev-task-channel.c
+++ b/src/kern/itc/hev-task-channel.c
@@ -108,6 +108,16 @@ hev_task_channel_destroy (HevTaskChannel *self)
     hev_task_channel_unref (self);
 }
 
+static void
+hev_task_channel_wait (HevTaskChannel *self)
+{
+    WRITE_ONCE (self->task, hev_task_self ());
+    hev_task_yield (HEV_TASK_WAITIO);
+    /* the task may be gone by the time the channel is used again */
+    if (!self->select)
+        WRITE_ONCE (self->task, NULL);
+}
+
 static ssize_t
 hev_task_channel_data_copy (void *dst, const void *src, size_t size)
 {
@@ -148,8 +158,7 @@ hev_task_channel_read (HevTaskChannel *self, void *buffer, size_t count)
         if (!hev_task_channel_is_active (self))
             goto out;
 
-        WRITE_ONCE (self->task, hev_task_self ());
-        hev_task_yield (HEV_TASK_WAITIO);
+        hev_task_channel_wait (self);
     }
 
     barrier ();
@@ -198,8 +207,7 @@ hev_task_channel_write (HevTaskChannel *self, const void *buffer, size_t count)
         if (!hev_task_channel_is_active (self))
             goto out1;
 
-        WRITE_ONCE (self->task, hev_task_self ());
-        hev_task_yield (HEV_TASK_WAITIO);
+        hev_task_channel_wait (self);
     }
 
     barrier ();
@@ -235,8 +243,7 @@ hev_task_channel_write (HevTaskChannel *self, const void *buffer, size_t count)
             break;
         }
 
-        WRITE_ONCE (self->task, hev_task_self ());
-        hev_task_yield (HEV_TASK_WAITIO);
+        hev_task_channel_wait (self);
     }
 
     barrier ();
-- 
2.43.0


From 2b690010f1e5e300b7f69330176207d84fce4378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:02 +0000
Subject: [PATCH 07/34] fix: compute channel buffer sizes without overflow

Large capacities wrapped around in 32 bits, so the channel was created
with too little memory and messages were stored outside of it.
---
 src/kern/itc/hev-task-channel.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/kern/itc/hev-task-channel.c b/src/kern/itc/hev-task-channel.c
index 332abfc..d067587 100644
--- a/src/kern/itc/hev-task-channel.c
+++ b/src/kern/itc/hev-task-channel.c
@@ -28,19 +28,27 @@ hev_task_channel_new_with_buffers (HevTaskChannel **chan1,
                                    unsigned int buffers)
 {
     HevTaskChannel *c1, *c2;
-    unsigned int buffers_size;
-    unsigned int data_size = 0;
+    size_t buffers_size;
+    size_t data_size = 0;
+    size_t total_size;
 
     buffers += 1;
-    if (buffers > 1)
-        data_size = size * buffers;
-    buffers_size = sizeof (HevTaskChannelBuffer) * buffers;
+    if (!buffers)
+        goto err0;
+    if (buffers > 1 && __builtin_mul_overflow (size, buffers, &data_size))
+        goto err0;
+    if (__builtin_mul_overflow (sizeof (HevTaskChannelBuffer), buffers,
+                                &buffers_size))
+        goto err0;
+    total_size = sizeof (HevTaskChannel) + buffers_size;
+    if (__builtin_add_overflow (total_size, data_size, &total_size))
+        goto err0;
 
-    c1 = hev_malloc (sizeof (HevTaskChannel) + buffers_size + data_size);
+    c1 = hev_malloc (total_size);
     if (!c1)
         goto err0;
 
-    c2 = hev_malloc (sizeof (HevTaskChannel) + buffers_size + data_size);
+    c2 = hev_malloc (total_size);
     if (!c2)
         goto err1;
 
@@ -60,8 +68,10 @@ hev_task_channel_new_with_buffers (HevTaskChannel **chan1,
         unsigned int i;
 
         for (i = 0; i < buffers; i++) {
-            c1->buffers[i].data = (void *)c1->buffers + buffers_size + size * i;
-            c2->buffers[i].data = (void *)c2->buffers + buffers_size + size * i;
+            c1->buffers[i].data = (void *)c1->buffers + buffers_size +
+                                  (size_t)size * i;
+            c2->buffers[i].data = (void *)c2->buffers + buffers_size +
+                                  (size_t)size * i;
         }
     }
 
-- 
2.43.0


From 5bfc4d5a3bc67d4cdff44f18beafdd4c27a132ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:34 +0000
Subject: [PATCH 08/34] fix: report a channel as writable when a read makes
 room

A selector was told that a channel had room only when the reader found
it completely full. A channel whose buffers were just used up never
became writable again, and a channel without spare room could be
reported as writable.
---
 src/kern/itc/hev-task-channel.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kern/itc/hev-task-channel.c b/src/kern/itc/hev-task-channel.c
index d067587..27a227c 100644
--- a/src/kern/itc/hev-task-channel.c
+++ b/src/kern/itc/hev-task-channel.c
@@ -180,18 +180,18 @@ hev_task_channel_read (HevTaskChannel *self, void *buffer, size_t count)
         size = cbuf->size;
     size = hev_task_channel_data_copy (buffer, cbuf->data, size);
 
-    if (self->use_count == self->max_count) {
+    self->use_count--;
+    if (self->use_count + 2 >= self->max_count) {
         HevTaskChannel *peer = self->peer;
 
         if (peer) {
-            if (peer->select)
+            if (peer->select && hev_task_channel_is_select_writable (self))
                 hev_task_channel_select_add_write (peer->select, peer);
             if (peer->task)
                 hev_task_wakeup (peer->task);
         }
     }
 
-    self->use_count--;
     if (self->select && !hev_task_channel_is_readable (self))
         hev_task_channel_select_del_read (self->select, self);
 
-- 
2.43.0


From ef5f497c2e038236e4c0008bd34e2e0b1f300066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:57 +0000
Subject: [PATCH 09/34] fix: report address length, ancillary data length and
 flags of received messages

The message receive call worked on a copy of the caller's header and never
copied the results back. With wait-all, repeated receptions also passed the
returned address length on as buffer size, which let the system call write
past a short address buffer.
---
 src/lib/io/socket/hev-task-io-socket.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/socket/hev-task-io-socket.c b/src/lib/io/socket/hev-task-io-socket.c
index 7ca7ca5..737c3d4 100644
--- a/src/lib/io/socket/hev-task-io-socket.c
+++ b/src/lib/io/socket/hev-task-io-socket.c
@@ -189,10 +189,13 @@ hev_task_io_socket_recvfrom (int fd, void *buf, size_t len, int flags,
 {
     ssize_t s;
     size_t size = 0;
+    socklen_t addr_size = addr_len ? *addr_len : 0;
+    socklen_t recv_addr_len;
 
 retry:
+    recv_addr_len = addr_size;
     s = recvfrom (fd, buf + size, len - size, flags & ~MSG_WAITALL, addr,
-                  addr_len);
+                  addr_len ? &recv_addr_len : NULL);
     if (s < 0 && errno == EAGAIN) {
         if (yielder) {
             if (yielder (HEV_TASK_WAITIO, yielder_data))
@@ -203,6 +206,9 @@ retry:
         goto retry;
     }
 
+    if (addr_len && s >= 0 && (s || !size))
+        *addr_len = recv_addr_len;
+
     if (!(flags & MSG_WAITALL))
         return s;
 
@@ -262,6 +268,9 @@ hev_task_io_socket_recvmsg (int fd, struct msghdr *msg, int flags,
 {
     ssize_t s;
     size_t i, size = 0, len = 0;
+    size_t control_size = msg->msg_controllen, control_len = 0;
+    socklen_t name_size = msg->msg_namelen;
+    int msg_flags = 0;
     struct msghdr mh;
     struct iovec iov[msg->msg_iovlen];
 
@@ -290,6 +299,13 @@ retry:
         goto retry;
     }
 
+    if (s >= 0) {
+        if (s || !size)
+            msg->msg_namelen = mh.msg_namelen;
+        msg->msg_controllen = control_len + mh.msg_controllen;
+        msg->msg_flags = msg_flags | mh.msg_flags;
+    }
+
     if (!(flags & MSG_WAITALL))
         return s;
 
@@ -314,6 +330,13 @@ retry:
         mh.msg_iov += i;
         mh.msg_iovlen -= i;
 
+        /* receive further ancillary data behind what is there already */
+        control_len = msg->msg_controllen;
+        msg_flags = msg->msg_flags;
+        mh.msg_namelen = name_size;
+        mh.msg_control = (char *)msg->msg_control + control_len;
+        mh.msg_controllen = control_size - control_len;
+
         goto retry;
     }
 
-- 
2.43.0


From b61fd8ca2e56a601b56489ba82052b251a4a5a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:57 +0000
Subject: [PATCH 10/34] fix: send ancillary data of a message only once

With wait-all, every part of a message that was sent in several parts carried
the ancillary data again, so descriptors arrived more than once.
---
 src/lib/io/socket/hev-task-io-socket.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/io/socket/hev-task-io-socket.c b/src/lib/io/socket/hev-task-io-socket.c
index 737c3d4..5df1e84 100644
--- a/src/lib/io/socket/hev-task-io-socket.c
+++ b/src/lib/io/socket/hev-task-io-socket.c
@@ -401,6 +401,10 @@ retry:
         mh.msg_iov += i;
         mh.msg_iovlen -= i;
 
+        /* ancillary data has been sent with the first part */
+        mh.msg_control = NULL;
+        mh.msg_controllen = 0;
+
         goto retry;
     }
 
-- 
2.43.0


From 0f661f8e0061d9c525a33ca4d185096491ebe6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:23 +0000
Subject: [PATCH 11/34] fix: flush a buffering layer until the next layer would
 block

A partial write by the next layer was reported as would-block. If the next
layer was a smaller buffer over a writable descriptor, the task then waited
for an event that never came.
---
 src/lib/cio/buffer/hev-task-cio-buffer.c | 26 ++++++++++++------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/lib/cio/buffer/hev-task-cio-buffer.c b/src/lib/cio/buffer/hev-task-cio-buffer.c
index 1af7e63..15439bd 100644
--- a/src/lib/cio/buffer/hev-task-cio-buffer.c
+++ b/src/lib/cio/buffer/hev-task-cio-buffer.c
@@ -147,23 +147,23 @@ _hev_task_cio_buffer_flush (HevTaskCIOBuffer *self)
     if (!self->wbuf)
         return 0;
 
-    iovcnt = hev_circular_buffer_reading (self->wbuf, iov);
-    if (iovcnt == 0)
-        return 0;
+    for (;;) {
+        iovcnt = hev_circular_buffer_reading (self->wbuf, iov);
+        if (iovcnt == 0)
+            return 0;
 
-    res = hev_task_cio_next_writev (base, iov, iovcnt);
-    if (res < 0)
-        return res;
+        res = hev_task_cio_next_writev (base, iov, iovcnt);
+        if (res < 0)
+            return res;
 
-    hev_circular_buffer_read_finish (self->wbuf, res);
+        /* the next layer may take a part only, although it can take more */
+        if (res == 0) {
+            base->err = EAGAIN;
+            return -1;
+        }
 
-    res = hev_circular_buffer_get_use_size (self->wbuf);
-    if (res) {
-        base->err = EAGAIN;
-        return -1;
+        hev_circular_buffer_read_finish (self->wbuf, res);
     }
-
-    return 0;
 }
 
 static ssize_t
-- 
2.43.0


From a72710d9601522de070007b0e1f7411e4f1eceb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:21 +0000
Subject: [PATCH 12/34] fix: make task poll report what is ready before it
 waits

With a non-zero timeout the task slept first and asked the kernel after.
Descriptors that cannot be registered, such as regular files and invalid
numbers, cause no event, so a poll on them slept for the whole timeout or
forever instead of reporting them at once.
---
 src/lib/io/poll/hev-task-io-poll.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/poll/hev-task-io-poll.c b/src/lib/io/poll/hev-task-io-poll.c
index d82421a..4da60bd 100644
--- a/src/lib/io/poll/hev-task-io-poll.c
+++ b/src/lib/io/poll/hev-task-io-poll.c
@@ -17,9 +17,8 @@ hev_task_io_poll (HevTaskIOPollFD fds[], unsigned int nfds, int timeout)
 {
     int res;
 
-    if (timeout == 0) {
-        res = poll (fds, nfds, 0);
-    } else {
+    res = poll (fds, nfds, 0);
+    if (timeout != 0 && res == 0) {
         HevTask *task = hev_task_self ();
         unsigned int i;
 
-- 
2.43.0


From 71a10307a4a18fbc179adeb6981a48a3738b88e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:52 +0000
Subject: [PATCH 13/34] fix: wake tasks for every event a poll can ask for

Only readable, writable and error events were passed on to the kernel.
A task that polled for urgent data, a peer's half close or the normal and
band variants of readable and writable was never woken by them.
---
 src/kern/io/hev-task-io-reactor-epoll.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kern/io/hev-task-io-reactor-epoll.h b/src/kern/io/hev-task-io-reactor-epoll.h
index b1c6976..b350ed9 100644
--- a/src/kern/io/hev-task-io-reactor-epoll.h
+++ b/src/kern/io/hev-task-io-reactor-epoll.h
@@ -79,6 +79,10 @@ hev_task_io_reactor_setup_event_gen (HevTaskIOReactorSetupEvent *events, int fd,
     if (poll_events & POLLERR)
         reactor_events |= HEV_TASK_IO_REACTOR_EV_ER;
 
+    /* These have the same values in both interfaces */
+    reactor_events |= poll_events & (EPOLLPRI | EPOLLRDHUP | EPOLLRDNORM |
+                                     EPOLLRDBAND | EPOLLWRNORM | EPOLLWRBAND);
+
     hev_task_io_reactor_setup_event_set (events, fd, op, reactor_events, data);
 
     return 1;
-- 
2.43.0


From c02a042e9d97204009fe56ab7af48d59d8da5915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:28 +0000
Subject: [PATCH 14/34] fix: let buffering layers accept empty elements and
 empty requests

An empty element in a vectored read or write through a buffering layer
ended the call early, so that it reported no data or a short exact
transfer. An empty read of a drained layer waited for data.
---
 src/lib/cio/buffer/hev-task-cio-buffer.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lib/cio/buffer/hev-task-cio-buffer.c b/src/lib/cio/buffer/hev-task-cio-buffer.c
index 15439bd..2e52755 100644
--- a/src/lib/cio/buffer/hev-task-cio-buffer.c
+++ b/src/lib/cio/buffer/hev-task-cio-buffer.c
@@ -108,6 +108,9 @@ _hev_task_cio_buffer_read (HevTaskCIO *base, void *buf, size_t count)
     if (!self->rbuf)
         return hev_task_cio_next_read (base, buf, count);
 
+    if (count == 0)
+        return 0;
+
     res = hev_circular_buffer_get_use_size (self->rbuf);
     if (res == 0) {
         ssize_t res;
@@ -178,6 +181,9 @@ _hev_task_cio_buffer_write (HevTaskCIO *base, const void *buf, size_t count)
     if (!self->wbuf)
         return hev_task_cio_next_write (base, buf, count);
 
+    if (count == 0)
+        return 0;
+
     iovcnt = hev_circular_buffer_writing (self->wbuf, iov);
     if (iovcnt == 0) {
         ssize_t res;
@@ -219,6 +225,9 @@ _hev_task_cio_buffer_readv (HevTaskCIO *base, const struct iovec *iov,
         const struct iovec *v = &iov[i];
         ssize_t res;
 
+        if (v->iov_len == 0)
+            continue;
+
         res = _hev_task_cio_buffer_read (base, v->iov_base, v->iov_len);
         if (res <= 0) {
             if (size)
@@ -249,6 +258,9 @@ _hev_task_cio_buffer_writev (HevTaskCIO *base, const struct iovec *iov,
         const struct iovec *v = &iov[i];
         ssize_t res;
 
+        if (v->iov_len == 0)
+            continue;
+
         res = _hev_task_cio_buffer_write (base, v->iov_base, v->iov_len);
         if (res <= 0) {
             if (size)
-- 
2.43.0


From 13d2dd9b4aef6140c532162dcaa8d5ee7c16761f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:32 +0000
Subject: [PATCH 15/34] fix: flush the layers of a spliced chain until they are
 empty

Splicing two chains flushed the receiving chain once after each write and
ignored the result. Data that did not fit into the transport stayed in a
buffering layer until more data came, and was lost when the other side
had closed.
---
 src/lib/cio/base/hev-task-cio.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/lib/cio/base/hev-task-cio.c b/src/lib/cio/base/hev-task-cio.c
index f64cd73..41b8062 100644
--- a/src/lib/cio/base/hev-task-cio.c
+++ b/src/lib/cio/base/hev-task-cio.c
@@ -426,6 +426,7 @@ retry:
 static int
 task_cio_splice (HevCircularBuffer *buf, HevTaskCIO *i, HevTaskCIO *o)
 {
+    HevTaskCIOClass *okptr;
     struct iovec iov[2];
     int res = 1, iovc;
 
@@ -443,22 +444,29 @@ task_cio_splice (HevCircularBuffer *buf, HevTaskCIO *i, HevTaskCIO *o)
         }
     }
 
+    okptr = HEV_OBJECT_GET_CLASS (o);
     iovc = hev_circular_buffer_reading (buf, iov);
     if (iovc) {
-        HevTaskCIOClass *kptr = HEV_OBJECT_GET_CLASS (o);
-        ssize_t s = kptr->writev (o, iov, iovc);
+        ssize_t s = okptr->writev (o, iov, iovc);
         if (0 >= s) {
             if ((0 > s) && (o->err == EAGAIN))
                 res = 0;
             else
-                res = -1;
+                return -1;
         } else {
             hev_circular_buffer_read_finish (buf, s);
-            kptr->ctrl (o, HEV_TASK_CIO_CTRL_FLUSH, 0, NULL);
             res = 1;
         }
     }
 
+    /* nothing may stay in the layers, in particular not at the end */
+    if (okptr->ctrl (o, HEV_TASK_CIO_CTRL_FLUSH, 0, NULL) < 0) {
+        if (o->err != EAGAIN)
+            return -1;
+        if (res < 0)
+            res = 0;
+    }
+
     return res;
 }
 
-- 
2.43.0


From 8c2a697f545832e88da7740b1a78ea72a51c80bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:24 +0000
Subject: [PATCH 16/34] fix: close a descriptor that serves both directions
 only once

A descriptor endpoint created with the same descriptor for reading and
writing closed it twice. The second close could hit a descriptor opened
elsewhere in between.
---
 src/lib/cio/fd/hev-task-cio-fd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/cio/fd/hev-task-cio-fd.c b/src/lib/cio/fd/hev-task-cio-fd.c
index 4d0ffb9..78ca7bf 100644
--- a/src/lib/cio/fd/hev-task-cio-fd.c
+++ b/src/lib/cio/fd/hev-task-cio-fd.c
@@ -126,7 +126,7 @@ _hev_task_cio_fd_destruct (HevObject *base)
 
     if (self->fdi >= 0)
         close (self->fdi);
-    if (self->fdo >= 0)
+    if (self->fdo >= 0 && self->fdo != self->fdi)
         close (self->fdo);
 
     HEV_TASK_CIO_TYPE->destruct (base);
-- 
2.43.0


From 6534868cd44a9a7ec36b0d65a1684230225ccd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:59 +0000
Subject: [PATCH 17/34] fix: keep chain layers alive that are still referenced
 elsewhere

Destroying the top of a chain destroyed every layer below it, even when
the caller held a reference to one of them. The chain now releases only
its own reference.
---
 src/lib/cio/base/hev-task-cio.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/lib/cio/base/hev-task-cio.h b/src/lib/cio/base/hev-task-cio.h
index 71979f6..8d00855 100644
--- a/src/lib/cio/base/hev-task-cio.h
+++ b/src/lib/cio/base/hev-task-cio.h
@@ -670,7 +670,7 @@ hev_task_cio_next_ctrl (HevTaskCIO *self, int ctrl, long larg, void *parg)
  * hev_task_cio_next_destruct:
  * @self: a #HevTaskCIO
  *
- * Call next #HevTaskCIO destruct.
+ * Release the reference to the next #HevTaskCIO.
  *
  * Since: 5.3
  */
@@ -678,13 +678,11 @@ static inline void
 hev_task_cio_next_destruct (HevTaskCIO *self)
 {
     HevTaskCIO *next = self->next;
-    HevObjectClass *nkptr;
 
     if (!next)
         return;
 
-    nkptr = HEV_OBJECT_GET_CLASS (next);
-    nkptr->destruct (HEV_OBJECT (next));
+    hev_object_unref (HEV_OBJECT (next));
 }
 
 #ifdef __cplusplus
-- 
2.43.0


From bd4bfbb4b4655da9e7247089c809c52b8fe018ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:23 +0000
Subject: [PATCH 18/34] fix: refuse array allocations whose size overflows

hev_calloc multiplied the element count and size without looking at the
result, so an overflowing product gave a block that was far too small.
---
 src/mem/api/hev-memory-allocator-api.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mem/api/hev-memory-allocator-api.c b/src/mem/api/hev-memory-allocator-api.c
index cdc5b25..e25a29b 100644
--- a/src/mem/api/hev-memory-allocator-api.c
+++ b/src/mem/api/hev-memory-allocator-api.c
@@ -45,6 +45,9 @@ hev_calloc (size_t nmemb, size_t size)
     if (!nmemb || !size)
         return NULL;
 
+    if (size > (size_t)-1 / nmemb)
+        return NULL;
+
     size *= nmemb;
     allocator = hev_memory_allocator_default ();
     data = hev_memory_allocator_alloc (allocator, size);
-- 
2.43.0


From b4f2eb392d28541ba63dda2886f53b4a6999267d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:38 +0000
Subject: [PATCH 19/34] fix: refuse slice allocations of overflowing sizes

Rounding up and adding the header overflowed for sizes near the largest
one. The class index was an int, so sizes of 256 GiB and more could be
taken for a small class and be given a small cached block.
---
 src/mem/slice/hev-memory-allocator-slice.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mem/slice/hev-memory-allocator-slice.c b/src/mem/slice/hev-memory-allocator-slice.c
index 4e14210..538960c 100644
--- a/src/mem/slice/hev-memory-allocator-slice.c
+++ b/src/mem/slice/hev-memory-allocator-slice.c
@@ -18,6 +18,8 @@
 #define CACHED_SLICE_ALIGN CONFIG_MEMALLOC_SLICE_ALIGN
 #define MAX_CACHED_SLICE_SIZE CONFIG_MEMALLOC_SLICE_MAX_SIZE
 #define MAX_CACHED_SLICE_COUNT CONFIG_MEMALLOC_SLICE_MAX_COUNT
+#define MAX_SLICE_SIZE \
+    ((size_t)-1 - sizeof (HevMemorySlice) - CACHED_SLICE_ALIGN)
 #define MAX_CACHED_SLICE_INDEX (MAX_CACHED_SLICE_SIZE / CACHED_SLICE_ALIGN)
 
 typedef struct _HevMemorySlice HevMemorySlice;
@@ -88,7 +90,10 @@ _hev_memory_allocator_alloc (HevMemoryAllocator *allocator, size_t size)
 {
     HevMemoryAllocatorSlice *self = (HevMemoryAllocatorSlice *)allocator;
     HevMemorySlice *slice, **owner;
-    int index;
+    size_t index;
+
+    if (size > MAX_SLICE_SIZE)
+        return NULL;
 
     size = ALIGN_UP (size, CACHED_SLICE_ALIGN);
     index = size / CACHED_SLICE_ALIGN;
@@ -140,13 +145,16 @@ _hev_memory_allocator_realloc (HevMemoryAllocator *allocator, void *ptr,
                                size_t size)
 {
     HevMemorySlice *slice;
-    int index;
+    size_t index;
 
     if (0 == size) {
         _hev_memory_allocator_free (allocator, ptr);
         return NULL;
     }
 
+    if (size > MAX_SLICE_SIZE)
+        return NULL;
+
     slice = (HevMemorySlice *)ptr - 1;
     size = ALIGN_UP (size, CACHED_SLICE_ALIGN);
     index = size / CACHED_SLICE_ALIGN;
-- 
2.43.0


From 9a0ff51e3f470bd3f36783780c5e3550c6289c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:12 +0000
Subject: [PATCH 20/34] fix: order the last unref of an atomic object after the
 others

The reference count was dropped with relaxed ordering, so the thread that
finalized an object was not sure to see what other threads had done to it
before they dropped their references.
---
 src/lib/object/hev-object-atomic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/object/hev-object-atomic.c b/src/lib/object/hev-object-atomic.c
index 4d93ba7..326e755 100644
--- a/src/lib/object/hev-object-atomic.c
+++ b/src/lib/object/hev-object-atomic.c
@@ -47,7 +47,7 @@ _hev_object_atomic_ref (HevObject *base, int ref)
         return;
     }
 
-    rc = atomic_fetch_sub_explicit (rcp, 1, memory_order_relaxed);
+    rc = atomic_fetch_sub_explicit (rcp, 1, memory_order_acq_rel);
     if (rc > 1)
         return;
 
-- 
2.43.0


From 8e0529798fdc785b5db0d0e9d2251f270117cd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:21 +0000
Subject: [PATCH 21/34] fix: refuse circular buffers whose size overflows

The header size was added to the capacity without looking at the result,
so a capacity near the largest size gave a block of a few bytes.
---
 src/lib/io/buffer/hev-circular-buffer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/io/buffer/hev-circular-buffer.c b/src/lib/io/buffer/hev-circular-buffer.c
index 4d78c1d..e89135e 100644
--- a/src/lib/io/buffer/hev-circular-buffer.c
+++ b/src/lib/io/buffer/hev-circular-buffer.c
@@ -27,6 +27,9 @@ hev_circular_buffer_new (size_t max_size)
 {
     HevCircularBuffer *self;
 
+    if (max_size > (size_t)-1 - sizeof (HevCircularBuffer))
+        return NULL;
+
     self = hev_malloc (sizeof (HevCircularBuffer) + max_size);
     if (!self)
         return NULL;
-- 
2.43.0


From 588fc6e206fa4664a59735d3f441ded3864bd213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:10:33 +0000
Subject: [PATCH 22/34] fix: do not touch a DNS proxy after its reply has been
 sent

---
 src/lib/dns/hev-task-dns-proxy.c | 48 ++++++++++++++++----------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/lib/dns/hev-task-dns-proxy.c b/src/lib/dns/hev-task-dns-proxy.c
index 3310e5d..caa7ba1 100644
--- a/src/lib/dns/hev-task-dns-proxy.c
+++ b/src/lib/dns/hev-task-dns-proxy.c
@@ -95,35 +95,35 @@ static void
 hev_task_dns_server_handler (unsigned int revents, void *data)
 {
     HevTaskDNSProxy *proxy = data;
+    char sync = 's';
+    int fd;
+    int res;
 
-    for (;;) {
-        char sync = 's';
-        int res;
+    fd = proxy->work.fd;
+    res = read (fd, &sync, sizeof (sync));
+    if (0 >= res)
+        return;
+
+    switch (proxy->call->type) {
+    case HEV_TASK_DNS_CALL_GETADDRINFO:
+        hev_task_dns_server_getaddrinfo (proxy->call);
+        break;
+    case HEV_TASK_DNS_CALL_GETNAMEINFO:
+        hev_task_dns_server_getnameinfo (proxy->call);
+        break;
+    }
 
-        res = read (proxy->work.fd, &sync, sizeof (sync));
-        if (0 >= res)
-            break;
+    /* the proxy may be gone as soon as the reply is written */
+    for (;;) {
+        struct pollfd pfd;
 
-        switch (proxy->call->type) {
-        case HEV_TASK_DNS_CALL_GETADDRINFO:
-            hev_task_dns_server_getaddrinfo (proxy->call);
-            break;
-        case HEV_TASK_DNS_CALL_GETNAMEINFO:
-            hev_task_dns_server_getnameinfo (proxy->call);
+        res = write (fd, &sync, sizeof (sync));
+        if ((0 <= res) || (EAGAIN != errno))
             break;
-        }
-
-        for (;;) {
-            struct pollfd pfd;
-
-            res = write (proxy->work.fd, &sync, sizeof (sync));
-            if ((0 <= res) || (EAGAIN != errno))
-                break;
 
-            pfd.fd = proxy->work.fd;
-            pfd.events = POLLOUT;
-            poll (&pfd, 1, -1);
-        }
+        pfd.fd = fd;
+        pfd.events = POLLOUT;
+        poll (&pfd, 1, -1);
     }
 }
 
-- 
2.43.0


From 8084a1aa89465b21a1de75864aa7d23cc077585e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:12:39 +0000
Subject: [PATCH 23/34] fix: restore signal handlers when systems on several
 threads overlap

---
 src/lib/misc/hev-task-stack-detector.c | 70 +++++++++++++++++++-------
 1 file changed, 53 insertions(+), 17 deletions(-)

diff --git a/src/lib/misc/hev-task-stack-detector.c b/src/lib/misc/hev-task-stack-detector.c
index ee0e55c..1089d8e 100644
--- a/src/lib/misc/hev-task-stack-detector.c
+++ b/src/lib/misc/hev-task-stack-detector.c
@@ -10,6 +10,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <signal.h>
+#include <pthread.h>
 
 #if defined(__APPLE__)
 #include <Availability.h>
@@ -26,12 +27,16 @@
 
 struct _HevTaskStackDetector
 {
-    struct sigaction bus_sa;
-    struct sigaction segv_sa;
     stack_t oss;
     char stack[SIGSTKSZ];
 };
 
+/* signal actions are shared by all threads */
+static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
+static struct sigaction bus_sa;
+static struct sigaction segv_sa;
+static int users;
+
 static int
 setaltstack (const stack_t *ss, stack_t *oss)
 {
@@ -47,7 +52,6 @@ signal_handler (int signo, siginfo_t *si, void *unused)
 {
     HevTaskSystemContext *context = hev_task_system_get_context ();
     HevListNode *node = hev_list_first (&context->all_tasks);
-    HevTaskStackDetector *self = context->stack_detector;
 
     for (; node; node = hev_list_node_next (node)) {
         HevTask *task = container_of (node, HevTask, list_node);
@@ -67,22 +71,57 @@ signal_handler (int signo, siginfo_t *si, void *unused)
 
     switch (signo) {
     case SIGBUS:
-        self->bus_sa.sa_sigaction (signo, si, unused);
+        bus_sa.sa_sigaction (signo, si, unused);
         break;
     case SIGSEGV:
-        self->segv_sa.sa_sigaction (signo, si, unused);
+        segv_sa.sa_sigaction (signo, si, unused);
         break;
     default:
         return;
     }
 }
 
+static int
+signal_handler_get (void)
+{
+    struct sigaction sa;
+    int res = 0;
+
+    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
+    sa.sa_sigaction = signal_handler;
+    sigemptyset (&sa.sa_mask);
+
+    pthread_mutex_lock (&mutex);
+    if (!users) {
+        res = sigaction (SIGBUS, &sa, &bus_sa);
+        if (res == 0) {
+            res = sigaction (SIGSEGV, &sa, &segv_sa);
+            if (res < 0)
+                sigaction (SIGBUS, &bus_sa, NULL);
+        }
+    }
+    if (res == 0)
+        users++;
+    pthread_mutex_unlock (&mutex);
+
+    return res;
+}
+
+static void
+signal_handler_put (void)
+{
+    pthread_mutex_lock (&mutex);
+    if (!--users) {
+        sigaction (SIGBUS, &bus_sa, NULL);
+        sigaction (SIGSEGV, &segv_sa, NULL);
+    }
+    pthread_mutex_unlock (&mutex);
+}
+
 HevTaskStackDetector *
 hev_task_stack_detector_new (void)
 {
     HevTaskStackDetector *self;
-    struct sigaction sa;
-    int res = 0;
     stack_t ss;
 
     self = malloc (sizeof (HevTaskStackDetector));
@@ -93,18 +132,16 @@ hev_task_stack_detector_new (void)
     ss.ss_size = SIGSTKSZ;
     ss.ss_flags = 0;
 
-    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
-    sa.sa_sigaction = signal_handler;
-    sigemptyset (&sa.sa_mask);
-
-    res |= setaltstack (&ss, &self->oss);
-    res |= sigaction (SIGBUS, &sa, &self->bus_sa);
-    res |= sigaction (SIGSEGV, &sa, &self->segv_sa);
-    if (res < 0)
+    if (setaltstack (&ss, &self->oss) < 0)
         goto free;
 
+    if (signal_handler_get () < 0)
+        goto rest_stack;
+
     return self;
 
+rest_stack:
+    setaltstack (&self->oss, NULL);
 free:
     free (self);
 exit:
@@ -114,8 +151,7 @@ exit:
 void
 hev_task_stack_detector_destroy (HevTaskStackDetector *self)
 {
-    sigaction (SIGBUS, &self->bus_sa, NULL);
-    sigaction (SIGSEGV, &self->segv_sa, NULL);
+    signal_handler_put ();
     setaltstack (&self->oss, NULL);
     free (self);
 }
-- 
2.43.0


From 8907a1f89a6772f6e8fe30eddf5df1bc953c9757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:18:12 +0000
Subject: [PATCH 24/34] fix: report a helper thread that cannot be started and
 start only one

---
 src/kern/aide/hev-task-aide.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/kern/aide/hev-task-aide.c b/src/kern/aide/hev-task-aide.c
index 95bc00c..a3c504b 100644
--- a/src/kern/aide/hev-task-aide.c
+++ b/src/kern/aide/hev-task-aide.c
@@ -22,15 +22,25 @@ static pthread_t thread;
 static pthread_cond_t cond = PTHREAD_COND_INITIALIZER;
 static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
 static HevTaskIOReactor *reactor;
+static int starting;
 
 static void *
 hev_task_aide_entry (void *data)
 {
+    int failed;
+
     pthread_mutex_lock (&mutex);
     reactor = hev_task_io_reactor_new ();
-    pthread_cond_signal (&cond);
+    failed = !reactor;
+    starting = 0;
+    pthread_cond_broadcast (&cond);
     pthread_mutex_unlock (&mutex);
 
+    if (failed) {
+        pthread_detach (pthread_self ());
+        return NULL;
+    }
+
     for (;;) {
         HevTaskIOReactorWaitEvent events[256];
         int i, count;
@@ -54,19 +64,20 @@ hev_task_aide_entry (void *data)
 int
 hev_task_aide_init (void)
 {
-    int res = -1;
-
-    if (reactor)
-        return 0;
+    int res;
 
     pthread_mutex_lock (&mutex);
+    while (starting)
+        pthread_cond_wait (&cond, &mutex);
     if (!reactor) {
         res = pthread_create (&thread, NULL, hev_task_aide_entry, NULL);
         if (0 == res) {
-            while (!reactor)
+            starting = 1;
+            while (starting)
                 pthread_cond_wait (&cond, &mutex);
         }
     }
+    res = reactor ? 0 : -1;
     pthread_mutex_unlock (&mutex);
 
     return res;
-- 
2.43.0


From a2401172a2cfce366ac514427d27bbcfc8c98c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:18:35 +0000
Subject: [PATCH 25/34] fix: fail an allocation when its thread's allocator
 cannot be created

---
 src/mem/base/hev-memory-allocator.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mem/base/hev-memory-allocator.c b/src/mem/base/hev-memory-allocator.c
index 7262928..74e3764 100644
--- a/src/mem/base/hev-memory-allocator.c
+++ b/src/mem/base/hev-memory-allocator.c
@@ -76,17 +76,26 @@ hev_memory_allocator_unref (HevMemoryAllocator *self)
 EXPORT_SYMBOL void *
 hev_memory_allocator_alloc (HevMemoryAllocator *self, size_t size)
 {
+    if (!self)
+        return NULL;
+
     return self->alloc (self, size);
 }
 
 EXPORT_SYMBOL void *
 hev_memory_allocator_realloc (HevMemoryAllocator *self, void *ptr, size_t size)
 {
+    if (!self)
+        return NULL;
+
     return self->realloc (self, ptr, size);
 }
 
 EXPORT_SYMBOL void
 hev_memory_allocator_free (HevMemoryAllocator *self, void *ptr)
 {
-    return self->free (self, ptr);
+    if (!self)
+        return;
+
+    self->free (self, ptr);
 }
-- 
2.43.0


From efb3ac12c29163b2b3b4302f7bd5f3abc8be0997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:18:52 +0000
Subject: [PATCH 26/34] fix: leave the allocator alone when initialisation
 fails

---
 src/kern/core/hev-task-system.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/kern/core/hev-task-system.c b/src/kern/core/hev-task-system.c
index 10f5761..6ecdf19 100644
--- a/src/kern/core/hev-task-system.c
+++ b/src/kern/core/hev-task-system.c
@@ -46,6 +46,11 @@ hev_task_system_init (void)
     HevMemoryAllocator *allocator = NULL;
     HevTaskSystemContext *context;
 
+    pthread_once (&key_once, pthread_key_creator);
+
+    if (hev_task_system_get_context ())
+        goto exit;
+
 #ifdef ENABLE_MEMALLOC_SLICE
     allocator = hev_memory_allocator_slice_new ();
 #endif
@@ -53,14 +58,9 @@ hev_task_system_init (void)
     if (allocator)
         hev_memory_allocator_unref (allocator);
 
-    pthread_once (&key_once, pthread_key_creator);
-
-    if (hev_task_system_get_context ())
-        goto exit;
-
     context = hev_malloc0 (sizeof (HevTaskSystemContext));
     if (!context)
-        goto exit;
+        goto rest_allocator;
 
     if (hev_task_system_set_context (context) < 0)
         goto free_context;
@@ -87,6 +87,10 @@ rest_context:
     hev_task_system_set_context (NULL);
 free_context:
     hev_free (context);
+rest_allocator:
+    allocator = hev_memory_allocator_set_default (NULL);
+    if (allocator)
+        hev_memory_allocator_unref (allocator);
 exit:
     return -1;
 }
-- 
2.43.0


From 72669ff67e9d6f24dfb6c6b1ec132ba513dbd071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:19:09 +0000
Subject: [PATCH 27/34] fix: report a heap stack that cannot be allocated

---
 src/kern/task/hev-task-stack-heap.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kern/task/hev-task-stack-heap.c b/src/kern/task/hev-task-stack-heap.c
index 63d9ffc..3357bbb 100644
--- a/src/kern/task/hev-task-stack-heap.c
+++ b/src/kern/task/hev-task-stack-heap.c
@@ -70,9 +70,10 @@ hev_task_stack_new (int size)
 
     size += STACK_OVERFLOW_DETECTION_SIZE;
     self = hev_malloc (sizeof (HevTaskStack) + size);
-    if (self)
-        self->size = size;
+    if (!self)
+        return NULL;
 
+    self->size = size;
     hev_task_stack_detection_mark (self);
     return self;
 }
-- 
2.43.0


From 48fe3b0ccaa6188525bdc5081fb307b4250535d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:26:42 +0000
Subject: [PATCH 28/34] fix: do not share the page size between threads
 unsynchronised

---
 src/kern/task/hev-task-stack-mmap.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/kern/task/hev-task-stack-mmap.c b/src/kern/task/hev-task-stack-mmap.c
index 6008780..83cfeb2 100644
--- a/src/kern/task/hev-task-stack-mmap.c
+++ b/src/kern/task/hev-task-stack-mmap.c
@@ -31,10 +31,9 @@ HevTaskStack *
 hev_task_stack_new (int size)
 {
     HevTaskStack *self;
-    static int page_size;
+    int page_size;
 
-    if (!page_size)
-        page_size = getpagesize ();
+    page_size = getpagesize ();
 
     size = ALIGN_UP (size, page_size);
 #ifdef ENABLE_STACK_OVERFLOW_DETECTION
-- 
2.43.0


From 9d02b597750b4d970b31731858dde6f6bbea3393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:32:47 +0000
Subject: [PATCH 29/34] fix: initialise each object class once for all threads

---
 src/lib/cio/base/hev-task-cio.c          | 21 ++++++++++++------
 src/lib/cio/buffer/hev-task-cio-buffer.c | 21 ++++++++++++------
 src/lib/cio/fd/hev-task-cio-fd.c         | 21 ++++++++++++------
 src/lib/cio/null/hev-task-cio-null.c     | 21 ++++++++++++------
 src/lib/cio/socket/hev-task-cio-socket.c | 21 ++++++++++++------
 src/lib/object/hev-object-atomic.c       | 28 +++++++++++++++---------
 src/lib/object/hev-object.c              | 25 ++++++++++++++-------
 7 files changed, 105 insertions(+), 53 deletions(-)

diff --git a/src/lib/cio/base/hev-task-cio.c b/src/lib/cio/base/hev-task-cio.c
index 41b8062..51662ea 100644
--- a/src/lib/cio/base/hev-task-cio.c
+++ b/src/lib/cio/base/hev-task-cio.c
@@ -9,6 +9,7 @@
 
 #include <errno.h>
 #include <string.h>
+#include <pthread.h>
 
 #include "kern/task/hev-task.h"
 #include "lib/io/basic/hev-task-io.h"
@@ -551,16 +552,14 @@ _hev_task_cio_destruct (HevObject *base)
     HEV_OBJECT_TYPE->destruct (base);
 }
 
-EXPORT_SYMBOL HevObjectClass *
-hev_task_cio_class (void)
+static HevTaskCIOClass klass;
+
+static void
+_hev_task_cio_class_init (void)
 {
-    static HevTaskCIOClass klass;
     HevTaskCIOClass *kptr = &klass;
     HevObjectClass *okptr = HEV_OBJECT_CLASS (kptr);
 
-    if (okptr->name)
-        return okptr;
-
     memcpy (kptr, HEV_OBJECT_TYPE, sizeof (HevObjectClass));
 
     okptr->name = "HevTaskCIO";
@@ -575,6 +574,14 @@ hev_task_cio_class (void)
     kptr->readv_dgram = hev_task_cio_next_readv_dgram;
     kptr->writev_dgram = hev_task_cio_next_writev_dgram;
     kptr->ctrl = hev_task_cio_next_ctrl;
+}
+
+EXPORT_SYMBOL HevObjectClass *
+hev_task_cio_class (void)
+{
+    static pthread_once_t once = PTHREAD_ONCE_INIT;
+
+    pthread_once (&once, _hev_task_cio_class_init);
 
-    return okptr;
+    return HEV_OBJECT_CLASS (&klass);
 }
diff --git a/src/lib/cio/buffer/hev-task-cio-buffer.c b/src/lib/cio/buffer/hev-task-cio-buffer.c
index 2e52755..c88aa3a 100644
--- a/src/lib/cio/buffer/hev-task-cio-buffer.c
+++ b/src/lib/cio/buffer/hev-task-cio-buffer.c
@@ -9,6 +9,7 @@
 
 #include <errno.h>
 #include <string.h>
+#include <pthread.h>
 
 #include "kern/task/hev-task.h"
 #include "lib/io/basic/hev-task-io.h"
@@ -326,17 +327,15 @@ _hev_task_cio_buffer_destruct (HevObject *base)
     hev_free (base);
 }
 
-EXPORT_SYMBOL HevObjectClass *
-hev_task_cio_buffer_class (void)
+static HevTaskCIOBufferClass klass;
+
+static void
+_hev_task_cio_buffer_class_init (void)
 {
-    static HevTaskCIOBufferClass klass;
     HevTaskCIOBufferClass *kptr = &klass;
     HevObjectClass *okptr = HEV_OBJECT_CLASS (kptr);
     HevTaskCIOClass *ckptr;
 
-    if (okptr->name)
-        return okptr;
-
     memcpy (kptr, HEV_TASK_CIO_TYPE, sizeof (HevTaskCIOClass));
 
     okptr->name = "HevTaskCIOBuffer";
@@ -348,6 +347,14 @@ hev_task_cio_buffer_class (void)
     ckptr->readv = _hev_task_cio_buffer_readv;
     ckptr->writev = _hev_task_cio_buffer_writev;
     ckptr->ctrl = _hev_task_cio_buffer_ctrl;
+}
+
+EXPORT_SYMBOL HevObjectClass *
+hev_task_cio_buffer_class (void)
+{
+    static pthread_once_t once = PTHREAD_ONCE_INIT;
+
+    pthread_once (&once, _hev_task_cio_buffer_class_init);
 
-    return okptr;
+    return HEV_OBJECT_CLASS (&klass);
 }
diff --git a/src/lib/cio/fd/hev-task-cio-fd.c b/src/lib/cio/fd/hev-task-cio-fd.c
index 78ca7bf..1376ff9 100644
--- a/src/lib/cio/fd/hev-task-cio-fd.c
+++ b/src/lib/cio/fd/hev-task-cio-fd.c
@@ -9,6 +9,7 @@
 
 #include <errno.h>
 #include <string.h>
+#include <pthread.h>
 #include <unistd.h>
 
 #include "kern/task/hev-task.h"
@@ -133,17 +134,15 @@ _hev_task_cio_fd_destruct (HevObject *base)
     hev_free (base);
 }
 
-EXPORT_SYMBOL HevObjectClass *
-hev_task_cio_fd_class (void)
+static HevTaskCIOFdClass klass;
+
+static void
+_hev_task_cio_fd_class_init (void)
 {
-    static HevTaskCIOFdClass klass;
     HevTaskCIOFdClass *kptr = &klass;
     HevObjectClass *okptr = HEV_OBJECT_CLASS (kptr);
     HevTaskCIOClass *ckptr;
 
-    if (okptr->name)
-        return okptr;
-
     memcpy (kptr, HEV_TASK_CIO_TYPE, sizeof (HevTaskCIOClass));
 
     okptr->name = "HevTaskCIOFd";
@@ -155,6 +154,14 @@ hev_task_cio_fd_class (void)
     ckptr->readv = _hev_task_cio_fd_readv;
     ckptr->writev = _hev_task_cio_fd_writev;
     ckptr->ctrl = _hev_task_cio_fd_ctrl;
+}
+
+EXPORT_SYMBOL HevObjectClass *
+hev_task_cio_fd_class (void)
+{
+    static pthread_once_t once = PTHREAD_ONCE_INIT;
+
+    pthread_once (&once, _hev_task_cio_fd_class_init);
 
-    return okptr;
+    return HEV_OBJECT_CLASS (&klass);
 }
diff --git a/src/lib/cio/null/hev-task-cio-null.c b/src/lib/cio/null/hev-task-cio-null.c
index c185e80..b196341 100644
--- a/src/lib/cio/null/hev-task-cio-null.c
+++ b/src/lib/cio/null/hev-task-cio-null.c
@@ -8,6 +8,7 @@
  */
 
 #include <string.h>
+#include <pthread.h>
 
 #include "kern/task/hev-task.h"
 #include "lib/io/basic/hev-task-io.h"
@@ -130,17 +131,15 @@ _hev_task_cio_null_destruct (HevObject *base)
     hev_free (base);
 }
 
-EXPORT_SYMBOL HevObjectClass *
-hev_task_cio_null_class (void)
+static HevTaskCIONullClass klass;
+
+static void
+_hev_task_cio_null_class_init (void)
 {
-    static HevTaskCIONullClass klass;
     HevTaskCIONullClass *kptr = &klass;
     HevObjectClass *okptr = HEV_OBJECT_CLASS (kptr);
     HevTaskCIOClass *ckptr;
 
-    if (okptr->name)
-        return okptr;
-
     memcpy (kptr, HEV_TASK_CIO_TYPE, sizeof (HevTaskCIOClass));
 
     okptr->name = "HevTaskCIONull";
@@ -156,6 +155,14 @@ hev_task_cio_null_class (void)
     ckptr->readv_dgram = _hev_task_cio_null_readv_dgram;
     ckptr->writev_dgram = _hev_task_cio_null_writev_dgram;
     ckptr->ctrl = _hev_task_cio_null_ctrl;
+}
+
+EXPORT_SYMBOL HevObjectClass *
+hev_task_cio_null_class (void)
+{
+    static pthread_once_t once = PTHREAD_ONCE_INIT;
+
+    pthread_once (&once, _hev_task_cio_null_class_init);
 
-    return okptr;
+    return HEV_OBJECT_CLASS (&klass);
 }
diff --git a/src/lib/cio/socket/hev-task-cio-socket.c b/src/lib/cio/socket/hev-task-cio-socket.c
index 02271a4..fc7f785 100644
--- a/src/lib/cio/socket/hev-task-cio-socket.c
+++ b/src/lib/cio/socket/hev-task-cio-socket.c
@@ -9,6 +9,7 @@
 
 #include <errno.h>
 #include <string.h>
+#include <pthread.h>
 #include <unistd.h>
 #include <netinet/in.h>
 #include <sys/socket.h>
@@ -214,17 +215,15 @@ _hev_task_cio_socket_destruct (HevObject *base)
     hev_free (base);
 }
 
-EXPORT_SYMBOL HevObjectClass *
-hev_task_cio_socket_class (void)
+static HevTaskCIOSocketClass klass;
+
+static void
+_hev_task_cio_socket_class_init (void)
 {
-    static HevTaskCIOSocketClass klass;
     HevTaskCIOSocketClass *kptr = &klass;
     HevObjectClass *okptr = HEV_OBJECT_CLASS (kptr);
     HevTaskCIOClass *ckptr;
 
-    if (okptr->name)
-        return okptr;
-
     memcpy (kptr, HEV_TASK_CIO_TYPE, sizeof (HevTaskCIOClass));
 
     okptr->name = "HevTaskCIOSocket";
@@ -240,6 +239,14 @@ hev_task_cio_socket_class (void)
     ckptr->readv_dgram = _hev_task_cio_socket_readv_dgram;
     ckptr->writev_dgram = _hev_task_cio_socket_writev_dgram;
     ckptr->ctrl = _hev_task_cio_socket_ctrl;
+}
+
+EXPORT_SYMBOL HevObjectClass *
+hev_task_cio_socket_class (void)
+{
+    static pthread_once_t once = PTHREAD_ONCE_INIT;
+
+    pthread_once (&once, _hev_task_cio_socket_class_init);
 
-    return okptr;
+    return HEV_OBJECT_CLASS (&klass);
 }
diff --git a/src/lib/object/hev-object-atomic.c b/src/lib/object/hev-object-atomic.c
index 326e755..e538fe4 100644
--- a/src/lib/object/hev-object-atomic.c
+++ b/src/lib/object/hev-object-atomic.c
@@ -8,6 +8,7 @@
  */
 
 #include <string.h>
+#include <pthread.h>
 #include <stdatomic.h>
 
 #include "lib/misc/hev-compiler.h"
@@ -54,20 +55,27 @@ _hev_object_atomic_ref (HevObject *base, int ref)
     kptr->destruct (base);
 }
 
-EXPORT_SYMBOL HevObjectClass *
-hev_object_atomic_class (void)
+static HevObjectAtomicClass klass;
+
+static void
+_hev_object_atomic_class_init (void)
 {
-    static HevObjectAtomicClass klass;
     HevObjectAtomicClass *kptr = &klass;
     HevObjectClass *okptr = HEV_OBJECT_CLASS (kptr);
 
-    if (!okptr->name) {
-        memcpy (kptr, HEV_OBJECT_TYPE, sizeof (HevObjectClass));
+    memcpy (kptr, HEV_OBJECT_TYPE, sizeof (HevObjectClass));
 
-        okptr->name = "HevObjectAtomic";
-        okptr->destruct = _hev_object_atomic_destruct;
-        okptr->ref = _hev_object_atomic_ref;
-    }
+    okptr->name = "HevObjectAtomic";
+    okptr->destruct = _hev_object_atomic_destruct;
+    okptr->ref = _hev_object_atomic_ref;
+}
+
+EXPORT_SYMBOL HevObjectClass *
+hev_object_atomic_class (void)
+{
+    static pthread_once_t once = PTHREAD_ONCE_INIT;
+
+    pthread_once (&once, _hev_object_atomic_class_init);
 
-    return okptr;
+    return HEV_OBJECT_CLASS (&klass);
 }
diff --git a/src/lib/object/hev-object.c b/src/lib/object/hev-object.c
index 910cd2f..f49b2d3 100644
--- a/src/lib/object/hev-object.c
+++ b/src/lib/object/hev-object.c
@@ -7,6 +7,8 @@
  ============================================================================
  */
 
+#include <pthread.h>
+
 #include "lib/misc/hev-compiler.h"
 
 #include "hev-object.h"
@@ -42,17 +44,24 @@ _hev_object_ref (HevObject *self, int ref)
     kptr->destruct (self);
 }
 
+static HevObjectClass klass;
+
+static void
+_hev_object_class_init (void)
+{
+    HevObjectClass *kptr = &klass;
+
+    kptr->name = "HevObject";
+    kptr->destruct = _hev_object_destruct;
+    kptr->ref = _hev_object_ref;
+}
+
 EXPORT_SYMBOL HevObjectClass *
 hev_object_class (void)
 {
-    static HevObjectClass klass;
-    HevObjectClass *kptr = &klass;
+    static pthread_once_t once = PTHREAD_ONCE_INIT;
 
-    if (!kptr->name) {
-        kptr->name = "HevObject";
-        kptr->destruct = _hev_object_destruct;
-        kptr->ref = _hev_object_ref;
-    }
+    pthread_once (&once, _hev_object_class_init);
 
-    return kptr;
+    return HEV_OBJECT_CLASS (&klass);
 }
-- 
2.43.0


From 3a32ddad18048de8569ebdbec203c571d63ac09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:55:13 +0000
Subject: [PATCH 30/34] fix: allow circular buffers of zero capacity

Asking a circular buffer of zero bytes for space to write, or committing
a read of zero bytes from it, divided by zero and killed the process.
Such a buffer now has nothing to read and no space to write.
---
 src/lib/io/buffer/hev-circular-buffer.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/buffer/hev-circular-buffer.c b/src/lib/io/buffer/hev-circular-buffer.c
index e89135e..5df2cc5 100644
--- a/src/lib/io/buffer/hev-circular-buffer.c
+++ b/src/lib/io/buffer/hev-circular-buffer.c
@@ -95,6 +95,9 @@ hev_circular_buffer_reading (HevCircularBuffer *self, struct iovec *iov)
 EXPORT_SYMBOL void
 hev_circular_buffer_read_finish (HevCircularBuffer *self, size_t size)
 {
+    if (0 == size)
+        return;
+
     self->rp = (self->rp + size) % self->max_size;
     self->use_size -= size;
 }
@@ -102,13 +105,15 @@ hev_circular_buffer_read_finish (HevCircularBuffer *self, size_t size)
 EXPORT_SYMBOL int
 hev_circular_buffer_writing (HevCircularBuffer *self, struct iovec *iov)
 {
-    size_t wp = (self->rp + self->use_size) % self->max_size;
-    size_t upper_size = self->max_size - wp;
-    size_t spc_size = self->max_size - self->use_size;
+    size_t wp, upper_size, spc_size;
 
     if (self->use_size == self->max_size)
         return 0;
 
+    wp = (self->rp + self->use_size) % self->max_size;
+    upper_size = self->max_size - wp;
+    spc_size = self->max_size - self->use_size;
+
     iov[0].iov_base = self->data + wp;
     if (spc_size <= upper_size) {
         iov[0].iov_len = spc_size;
-- 
2.43.0


From a60d7c1f45a395cdd697dfe6d14efabce368e4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:55:25 +0000
Subject: [PATCH 31/34] fix: pass the creation mode of unnamed temporary files
 on

Opening with O_TMPFILE creates a file, so the call takes a mode.
It was only handed on with O_CREAT.
Without it the new file got whatever mode the register happened to hold.
---
 src/lib/io/basic/hev-task-io.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/lib/io/basic/hev-task-io.c b/src/lib/io/basic/hev-task-io.c
index 51000f3..80d33a4 100644
--- a/src/lib/io/basic/hev-task-io.c
+++ b/src/lib/io/basic/hev-task-io.c
@@ -11,9 +11,9 @@
 #undef ENABLE_IO_SPLICE_SYSCALL
 #endif /* !defined(__linux__) && ENABLE_IO_SPLICE_SYSCALL */
 
-#ifdef ENABLE_IO_SPLICE_SYSCALL
+#ifdef __linux__
 #define _GNU_SOURCE
-#endif /* ENABLE_IO_SPLICE_SYSCALL */
+#endif /* __linux__ */
 
 #include <errno.h>
 #include <fcntl.h>
@@ -42,12 +42,23 @@ struct _HevTaskIOSplicer
 #endif /* !ENABLE_IO_SPLICE_SYSCALL */
 };
 
+static int
+hev_task_io_open_needs_mode (int flags)
+{
+#ifdef O_TMPFILE
+    if (O_TMPFILE == (O_TMPFILE & flags))
+        return 1;
+#endif /* O_TMPFILE */
+
+    return O_CREAT & flags;
+}
+
 EXPORT_SYMBOL int
 hev_task_io_open (const char *pathname, int flags, ...)
 {
     flags |= O_NONBLOCK;
 
-    if (O_CREAT & flags) {
+    if (hev_task_io_open_needs_mode (flags)) {
         int fd;
         va_list ap;
 
@@ -72,7 +83,7 @@ hev_task_io_openat (int dirfd, const char *pathname, int flags, ...)
 {
     flags |= O_NONBLOCK;
 
-    if (O_CREAT & flags) {
+    if (hev_task_io_open_needs_mode (flags)) {
         int fd;
         va_list ap;
 
-- 
2.43.0


From 4dcf61dcae4d978a9343e8c85609dbba2a1c5922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:58:47 +0000
Subject: [PATCH 32/34] fix: hand faults of threads without a task system on

The fault handler looked for the tasks of the faulting thread even if that
thread has no task system. It then faulted itself, and the handler of the
program was never called.
---
 src/lib/misc/hev-task-stack-detector.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/misc/hev-task-stack-detector.c b/src/lib/misc/hev-task-stack-detector.c
index 1089d8e..8a684aa 100644
--- a/src/lib/misc/hev-task-stack-detector.c
+++ b/src/lib/misc/hev-task-stack-detector.c
@@ -51,7 +51,11 @@ static void
 signal_handler (int signo, siginfo_t *si, void *unused)
 {
     HevTaskSystemContext *context = hev_task_system_get_context ();
-    HevListNode *node = hev_list_first (&context->all_tasks);
+    HevListNode *node = NULL;
+
+    /* the thread may have no task system */
+    if (context)
+        node = hev_list_first (&context->all_tasks);
 
     for (; node; node = hev_list_node_next (node)) {
         HevTask *task = container_of (node, HevTask, list_node);
-- 
2.43.0


From 2ea5e4300f17884f85f4eeef85593180e1db1819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:59:07 +0000
Subject: [PATCH 33/34] fix: end with the right signal if there is no fault
 handler

A missing or ignored handler was called as if it were a function. A bus error
without handler thereby looked like an access through a null pointer to the
program's handler of segmentation faults.
---
 src/lib/misc/hev-task-stack-detector.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lib/misc/hev-task-stack-detector.c b/src/lib/misc/hev-task-stack-detector.c
index 8a684aa..b88c46a 100644
--- a/src/lib/misc/hev-task-stack-detector.c
+++ b/src/lib/misc/hev-task-stack-detector.c
@@ -52,6 +52,7 @@ signal_handler (int signo, siginfo_t *si, void *unused)
 {
     HevTaskSystemContext *context = hev_task_system_get_context ();
     HevListNode *node = NULL;
+    struct sigaction *sa;
 
     /* the thread may have no task system */
     if (context)
@@ -73,16 +74,15 @@ signal_handler (int signo, siginfo_t *si, void *unused)
         }
     }
 
-    switch (signo) {
-    case SIGBUS:
-        bus_sa.sa_sigaction (signo, si, unused);
-        break;
-    case SIGSEGV:
-        segv_sa.sa_sigaction (signo, si, unused);
-        break;
-    default:
+    sa = signo == SIGBUS ? &bus_sa : &segv_sa;
+    if (sa->sa_handler == SIG_DFL || sa->sa_handler == SIG_IGN) {
+        /* there is no handler to call, end with this signal */
+        signal (signo, SIG_DFL);
+        raise (signo);
         return;
     }
+
+    sa->sa_sigaction (signo, si, unused);
 }
 
 static int
-- 
2.43.0


From 364e03b4c56008845ec38c75b86a01f009b2db19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:59:07 +0000
Subject: [PATCH 34/34] fix: report an overflow for the overflowing stack only

The first byte of the guard page was also taken for a part of the stack that
ends there, so the neighbouring task was reported as well.
---
 src/lib/misc/hev-task-stack-detector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/misc/hev-task-stack-detector.c b/src/lib/misc/hev-task-stack-detector.c
index b88c46a..4c50430 100644
--- a/src/lib/misc/hev-task-stack-detector.c
+++ b/src/lib/misc/hev-task-stack-detector.c
@@ -65,7 +65,7 @@ signal_handler (int signo, siginfo_t *si, void *unused)
         stack_base = hev_task_stack_get_base (task->stack);
         stack_bottom = hev_task_stack_get_bottom (task->stack);
 
-        if (stack_base <= si->si_addr && si->si_addr <= stack_bottom) {
+        if (stack_base <= si->si_addr && si->si_addr < stack_bottom) {
             fprintf (stderr, "========== Oops! Stack overflow! ==========\n");
             fprintf (stderr, "Task: %p\n", task);
             fprintf (stderr, "  Stack   : %p - %p\n", stack_base, stack_bottom);
-- 
2.43.0

