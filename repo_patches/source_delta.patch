From 2ff80ed1d8b50bb8388af68205351ba97168d7c8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:54 +0000
Subject: [PATCH 01/42] fix: wake every thread waiting for a thread pool to
 become idle

---
 src/c/threadpool.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/threadpool.c b/src/c/threadpool.c
index 42b590e..d4de189 100644
--- a/src/c/threadpool.c
+++ b/src/c/threadpool.c
@@ -116,7 +116,7 @@ static void * iot_threadpool_thread (void * arg)
       {
         pool->front = NULL;
         pool->rear = NULL;
-        pthread_cond_signal (&pool->work_cond); // Signal no jobs in queue
+        pthread_cond_broadcast (&pool->work_cond); // Signal no jobs in queue
       }
       if ((pool->jobs + 1) == pool->max_jobs)
       {
@@ -136,7 +136,7 @@ static void * iot_threadpool_thread (void * arg)
       iot_component_lock (comp);
       if (--pool->working == 0)
       {
-        pthread_cond_signal (&pool->work_cond); // Signal when no threads working
+        pthread_cond_broadcast (&pool->work_cond); // Signal when no threads working
       }
     }
     else
-- 
2.43.0


From a2b2ad88a884206af54227d249c3c97e5fadddf0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:54 +0000
Subject: [PATCH 02/42] fix: wake the scheduler thread, not just any waiter on
 the component state, when the queue front changes

---
 src/c/scheduler.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index 892e838..9914a2b 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -335,7 +335,7 @@ bool iot_schedule_add (iot_scheduler_t * scheduler, iot_schedule_t * schedule)
     /* If the schedule was placed and the front of the queue and the scheduler is running */
     if (front && (scheduler->component.state == IOT_COMPONENT_RUNNING))
     {
-      pthread_cond_signal (&scheduler->component.cond);
+      pthread_cond_broadcast (&scheduler->component.cond);
     }
   }
   iot_component_unlock (&scheduler->component);
@@ -371,7 +371,7 @@ void iot_schedule_reset (iot_scheduler_t * scheduler, iot_schedule_t * schedule,
     bool front = iot_schedule_queue_update (scheduler, schedule, next);
     if (front && (scheduler->component.state == IOT_COMPONENT_RUNNING))
     {
-      pthread_cond_signal (&scheduler->component.cond);
+      pthread_cond_broadcast (&scheduler->component.cond);
     }
   }
   else
-- 
2.43.0


From 695f70983f49a7787a5a9369ae3a4685e2d541fe Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:54 +0000
Subject: [PATCH 03/42] fix: compute the scheduler wake up time under the same
 lock hold as the wait, so a schedule added in between is not missed

---
 src/c/scheduler.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index 9914a2b..771552d 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -154,15 +154,17 @@ static void * schedule_fn (void * data)
 static void * iot_scheduler_thread (void * arg)
 {
   iot_component_state_t state;
-  uint64_t next = iot_time_nsecs ();
+  uint64_t next;
   iot_scheduler_t * scheduler = (iot_scheduler_t*) arg;
   iot_data_t * queue = scheduler->queue;
 
-  nsToTimespec (next, &scheduler->schd_time);
   while (true)
   {
     state = iot_component_wait_and_lock (&scheduler->component, (uint32_t) IOT_COMPONENT_DELETED | (uint32_t) IOT_COMPONENT_RUNNING); // State wait
     if (state == IOT_COMPONENT_DELETED) break; // Exit thread on deletion
+    const iot_schedule_t * first = iot_schedule_queue_next (queue);
+    next = first ? first->start : (iot_time_nsecs () + IOT_SCHEDULER_DEFAULT_WAKE);
+    nsToTimespec (next, &scheduler->schd_time); /* Calculate next execution time */
     pthread_cond_timedwait (&scheduler->component.cond, &scheduler->component.mutex, &scheduler->schd_time); // Schedule wait
     state = scheduler->component.state;
     if (state != IOT_COMPONENT_RUNNING)
@@ -250,10 +252,7 @@ static void * iot_scheduler_thread (void * arg)
       {
         iot_log_trace (scheduler->logger, "Current schedule deleted");
       }
-      current = iot_schedule_queue_next (queue);
     }
-    next = current ? current->start : (iot_time_nsecs () + IOT_SCHEDULER_DEFAULT_WAKE);
-    nsToTimespec (next, &scheduler->schd_time); /* Calculate next execution time */
     iot_component_unlock (&scheduler->component);
   }
   iot_component_unlock (&scheduler->component);
-- 
2.43.0


From f1801a9fd278d7829e2e714bab0971784b726975 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:54 +0000
Subject: [PATCH 04/42] fix: read schedule run and abort callbacks once, with
 the scheduler locked

---
 src/c/scheduler.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index 771552d..a446903 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -184,10 +184,11 @@ static void * iot_scheduler_thread (void * arg)
       {
         iot_schedule_add_ref (current);
         /* Notify that the schedule is about to run */
-        if (current->run_cb)
+        iot_schedule_fn_t run_cb = current->run_cb;
+        if (run_cb)
         {
           iot_component_unlock (&scheduler->component);
-          current->run_cb (current->arg);
+          run_cb (current->arg);
           iot_component_lock (&scheduler->component);
           valid_current = atomic_load (&current->scheduled);
         }
@@ -202,10 +203,11 @@ static void * iot_scheduler_thread (void * arg)
           if (! iot_threadpool_try_work (current->threadpool, schedule_fn, current, current->priority))
           {
             /* Notify that the run is aborted */
-            if (current->abort_cb)
+            iot_schedule_fn_t abort_cb = current->abort_cb;
+            if (abort_cb)
             {
               iot_component_unlock (&scheduler->component);
-              current->abort_cb (current->arg);
+              abort_cb (current->arg);
               iot_component_lock (&scheduler->component);
             }
             if (atomic_fetch_add (&current->dropped, 1u) == 0u)
-- 
2.43.0


From 7a20008f868b61feb014edced00dcfa1d6941351 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:54 +0000
Subject: [PATCH 05/42] fix: do not re-queue a schedule removed from its run
 callback when its thread cannot be created

---
 src/c/scheduler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index a446903..8ec05a2 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -223,7 +223,7 @@ static void * iot_scheduler_thread (void * arg)
           iot_log_trace (scheduler->logger, "Running schedule #%" PRIu64 " as thread", current->id);
           if (!iot_thread_create (NULL, schedule_fn, current, current->priority, IOT_THREAD_NO_AFFINITY, scheduler->logger))
           {
-            valid_current = atomic_load (&current->refs) > 1u;
+            valid_current = atomic_load (&current->refs) > 1u && atomic_load (&current->scheduled);
             iot_schedule_free (current);
           }
         }
-- 
2.43.0


From 39846f692e4f860fe9739d0da168c667f430eb15 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:54 +0000
Subject: [PATCH 06/42] fix: run synchronous schedule functions and schedule
 free callbacks with the scheduler unlocked

---
 src/c/scheduler.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index 8ec05a2..308e849 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -177,6 +177,7 @@ static void * iot_scheduler_thread (void * arg)
 
     /* Get the schedule at the front of the queue */
     iot_schedule_t * current = iot_schedule_queue_next (queue);
+    iot_schedule_t * completed = NULL;
     if (current && current->start < iot_time_nsecs ()) // If a schedule and ready to run
     {
       bool valid_current = atomic_load (&current->scheduled);
@@ -195,7 +196,11 @@ static void * iot_scheduler_thread (void * arg)
         if (atomic_load (&current->sync)) // Run schedule directly
         {
           iot_log_trace (scheduler->logger, "Running sync schedule #%" PRIu64 "", current->id);
-          schedule_fn (current);
+          iot_component_unlock (&scheduler->component);
+          current->function (current->arg);
+          iot_component_lock (&scheduler->component);
+          valid_current = atomic_load (&current->scheduled);
+          completed = current;
         }
         else if (current->threadpool) // Run schedule from threadpool
         {
@@ -214,8 +219,8 @@ static void * iot_scheduler_thread (void * arg)
             {
               iot_log_warn (scheduler->logger, "Scheduled event dropped for schedule #%" PRIu64, current->id);
             }
-            valid_current = atomic_load (&current->refs) > 1u && atomic_load (&current->scheduled);;
-            iot_schedule_free (current);
+            valid_current = atomic_load (&current->scheduled);
+            completed = current;
           }
         }
         else // Run schedule in new thread
@@ -223,8 +228,8 @@ static void * iot_scheduler_thread (void * arg)
           iot_log_trace (scheduler->logger, "Running schedule #%" PRIu64 " as thread", current->id);
           if (!iot_thread_create (NULL, schedule_fn, current, current->priority, IOT_THREAD_NO_AFFINITY, scheduler->logger))
           {
-            valid_current = atomic_load (&current->refs) > 1u && atomic_load (&current->scheduled);
-            iot_schedule_free (current);
+            valid_current = atomic_load (&current->scheduled);
+            completed = current;
           }
         }
       }
@@ -256,6 +261,7 @@ static void * iot_scheduler_thread (void * arg)
       }
     }
     iot_component_unlock (&scheduler->component);
+    if (completed) iot_schedule_free (completed); // Can call user free function
   }
   iot_component_unlock (&scheduler->component);
   return NULL;
-- 
2.43.0


From 19055eaf79cc63f739bef76872273d84afe0470a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:54 +0000
Subject: [PATCH 07/42] fix: wait for the scheduler thread to exit before
 freeing the scheduler

---
 src/c/scheduler.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index 308e849..907f22d 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -49,6 +49,7 @@ struct iot_scheduler_t
   iot_data_t * idle;              /* Map of idle schedules, keyed by unique schedule id */
   iot_logger_t * logger;          /* Optional logger */
   struct timespec schd_time;      /* Time for next schedule */
+  _Atomic bool exited;            /* Whether the scheduler thread has finished with the scheduler */
 };
 
 static inline void iot_schedule_add_ref (iot_schedule_t * schedule)
@@ -264,6 +265,7 @@ static void * iot_scheduler_thread (void * arg)
     if (completed) iot_schedule_free (completed); // Can call user free function
   }
   iot_component_unlock (&scheduler->component);
+  atomic_store (&scheduler->exited, true);
   return NULL;
 }
 
@@ -276,7 +278,10 @@ iot_scheduler_t * iot_scheduler_alloc (int priority, int affinity, iot_logger_t
   scheduler->queue = iot_data_alloc_map (IOT_DATA_UINT64);
   iot_logger_add_ref (logger);
   iot_log_info (logger, "iot_scheduler_alloc (priority: %d affinity: %d)", priority, affinity);
-  iot_thread_create (NULL, iot_scheduler_thread, scheduler, priority, affinity, logger);
+  if (! iot_thread_create (NULL, iot_scheduler_thread, scheduler, priority, affinity, logger))
+  {
+    atomic_store (&scheduler->exited, true);
+  }
   return scheduler;
 }
 
@@ -449,7 +454,10 @@ void iot_scheduler_free (iot_scheduler_t * scheduler)
     iot_component_set_stopped (&scheduler->component); // Break schedule thread out of schedule wait
     iot_wait_usecs (500u);
     iot_component_set_deleted (&scheduler->component); // Break schedule thread out of state wait
-    iot_wait_usecs (500u);
+    while (! atomic_load (&scheduler->exited)) // Wait until thread no longer using scheduler
+    {
+      iot_wait_usecs (500u);
+    }
     iot_scheduler_free_schedules (scheduler->queue);
     iot_scheduler_free_schedules (scheduler->idle);
     iot_logger_free (scheduler->logger);
-- 
2.43.0


From 3287f822d1d459f0794244e407610c92099e24b1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:54 +0000
Subject: [PATCH 08/42] fix: create detached thread when retrying thread
 creation with default attributes

---
 src/c/thread.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/c/thread.c b/src/c/thread.c
index f5d779b..184756e 100644
--- a/src/c/thread.c
+++ b/src/c/thread.c
@@ -112,7 +112,11 @@ bool iot_thread_create (pthread_t * tid, iot_thread_fn_t func, void * arg, int p
   ret = pthread_create (tid, &attr, func, arg);
   if (ret != 0)
   {
-    ret = pthread_create (tid, NULL, func, arg);
+    pthread_attr_t dflt; // Retry with default policy, still detached as thread never joined
+    pthread_attr_init (&dflt);
+    pthread_attr_setdetachstate (&dflt, PTHREAD_CREATE_DETACHED);
+    ret = pthread_create (tid, &dflt, func, arg);
+    pthread_attr_destroy (&dflt);
     if (ret != 0) iot_log_error (logger, "pthread_create failed ret: %d", ret);
   }
   pthread_attr_destroy (&attr);
-- 
2.43.0


From 6df55b92fcb2ec612882f2db679a6f0d46c60f5b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:54 +0000
Subject: [PATCH 09/42] fix: free element not enqueued as queue stopped

---
 src/c/queue.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c/queue.c b/src/c/queue.c
index 9fa2a86..b7e3f31 100644
--- a/src/c/queue.c
+++ b/src/c/queue.c
@@ -109,6 +109,7 @@ void iot_queue_enqueue (iot_queue_t *q, iot_data_t *element)
     if (!q->running)
     {
       pthread_mutex_unlock (&q->mtx);
+      iot_data_free (element); // Ownership taken but element not queued
       return;
     }
     pthread_cond_wait (&q->removed, &q->mtx);
-- 
2.43.0


From 1688325b36c351a2a27b43fe54362795cfc6ce1c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:19 +0000
Subject: [PATCH 10/42] fix: do not take a further metadata reference when
 copying pointer data

---
 src/c/data.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 6f6b451..858a2f0 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2679,9 +2679,7 @@ iot_data_t * iot_data_copy (const iot_data_t * data)
     }
     case IOT_DATA_POINTER:
     {
-      ret = (iot_data_t*) data;
-      iot_data_add_ref (ret);
-      break;
+      return iot_data_add_ref (data); // Same data, so metadata already held
     }
     default: // basic types
     {
-- 
2.43.0


From 5415a60978ab3dae5402ee261001f232c14a8a74 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:19 +0000
Subject: [PATCH 11/42] fix: close the directory when the file list regex is
 invalid

---
 src/c/file.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/c/file.c b/src/c/file.c
index b1c4445..894e933 100644
--- a/src/c/file.c
+++ b/src/c/file.c
@@ -140,7 +140,11 @@ iot_data_t * iot_file_list (const char * directory, const char * regex_str)
   DIR *d = opendir (directory);
   if (!d) goto DONE;
   regex_t regex;
-  if (regex_str && regcomp (&regex, regex_str, REG_NOSUB) != 0) goto DONE;
+  if (regex_str && regcomp (&regex, regex_str, REG_NOSUB) != 0)
+  {
+    closedir (d);
+    goto DONE;
+  }
   list = iot_data_alloc_list ();
   const struct dirent *dir;
   while ((dir = readdir (d)))
-- 
2.43.0


From b2c088c773a7f5e0df70d91727a77ac20dee9f55 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:24 +0000
Subject: [PATCH 12/42] fix: rehash a map when an iterator replaces a value

The cached hash of the map kept describing the old value, so the map no longer
compared equal to a map with the same content.
---
 src/c/data.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/c/data.c b/src/c/data.c
index 858a2f0..94753c6 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2358,7 +2358,12 @@ iot_data_t * iot_data_map_iter_replace_value (const iot_data_map_iter_t * iter,
 {
   assert (iter && iter->_map && value && (iter->_map->base.element_type == IOT_DATA_MULTI || iter->_map->base.element_type == value->type));
   iot_data_t * res = (iter->_node) ? iter->_node->value : NULL;
-  if (res) iter->_node->value = value;
+  if (res)
+  {
+    iot_data_t * base = (iot_data_t*) &iter->_map->base;
+    base->rehash = true;
+    iter->_node->value = value;
+  }
   return res;
 }
 
-- 
2.43.0


From 2ae6067f5c469252271be997b880c49bfb03626e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:24 +0000
Subject: [PATCH 13/42] fix: rehash a map when a base64 string value is
 converted to an array

---
 src/c/data.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/c/data.c b/src/c/data.c
index 94753c6..2705c45 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1820,6 +1820,8 @@ bool iot_data_map_base64_to_array (const iot_data_t * map, const iot_data_t * ke
     array = iot_data_alloc_array_from_base64 (((iot_data_value_t*) node->value)->value.str);
     if (array)
     {
+      iot_data_t * base = (iot_data_t*) &mp->base;
+      base->rehash = true;
       iot_data_free (node->value);
       node->value = array;
     }
-- 
2.43.0


From 2d21c52bbb1b1e326275127937535399e1240d84 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:24 +0000
Subject: [PATCH 14/42] fix: resizing a vector to its own size must not drop a
 pending rehash

---
 src/c/data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/data.c b/src/c/data.c
index 2705c45..2bfa79d 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2051,7 +2051,7 @@ void iot_data_vector_resize (iot_data_t * vector, uint32_t size)
     vec->values = realloc (vec->values, size * sizeof (iot_data_t*));
     memset (&vec->values[vec->size], 0, (size - vec->size) * sizeof (iot_data_t*));
   }
-  vector->rehash = vec->size != size;
+  if (vec->size != size) vector->rehash = true;
   vec->size = size;
 }
 
-- 
2.43.0


From b35169fc6557acbd2af65b898e824fb2530ac26c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:24 +0000
Subject: [PATCH 15/42] fix: iot_data_binary_take allocates the size copied and
 resets the hash

The copy was allocated with the number of elements but filled with the number of
bytes, overflowing the heap for element types wider than a byte. When the data was
moved out the emptied value kept the hash of its former content.
---
 src/c/data.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/c/data.c b/src/c/data.c
index 2bfa79d..d2a6156 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1538,10 +1538,11 @@ extern void * iot_data_binary_take (iot_data_t * data, uint32_t * len)
     ret = array->data;
     array->data = NULL;
     array->length = 0u;
+    array->base.hash = 0u;
   }
   else
   {
-    ret = malloc (array->length);
+    ret = malloc (*len);
     memcpy (ret, array->data, *len);
   }
   return ret;
-- 
2.43.0


From 58583b4502dee3f47e3e2e45ad02acde1fb5fd39 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:24 +0000
Subject: [PATCH 16/42] fix: increment and decrement keep the hash in step with
 the value

A counted-up value kept the hash of its first value, so it never compared equal to
another value of the same type holding the same number.
---
 src/c/data.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index d2a6156..dae582f 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1246,16 +1246,16 @@ static void iot_data_inc_dec (iot_data_t * data, bool inc)
   iot_data_union_t * val = &((iot_data_value_t*) data)->value;
   switch (data->type)
   {
-    case IOT_DATA_INT8: inc ? val->i8++ : val->i8--; break;
-    case IOT_DATA_UINT8: inc ? val->ui8++ : val->ui8--; break;
-    case IOT_DATA_INT16: inc ? val->i16++ : val->i16--; break;
-    case IOT_DATA_UINT16: inc ? val->ui16++ : val->ui16--; break;
-    case IOT_DATA_INT32: inc ? val->i32++ : val->i32--; break;
-    case IOT_DATA_UINT32: inc ? val->ui32++ : val->ui32--; break;
-    case IOT_DATA_INT64: inc ? val->i64++ : val->i64--; break;
-    case IOT_DATA_UINT64: inc ? val->ui64++ : val->ui64--; break;
-    case IOT_DATA_FLOAT32: inc ? val->f32++ : val->f32--; break;
-    case IOT_DATA_FLOAT64: inc ? val->f64++ : val->f64--; break;
+    case IOT_DATA_INT8: inc ? val->i8++ : val->i8--; data->hash = (uint32_t) val->i8; break;
+    case IOT_DATA_UINT8: inc ? val->ui8++ : val->ui8--; data->hash = (uint32_t) val->ui8; break;
+    case IOT_DATA_INT16: inc ? val->i16++ : val->i16--; data->hash = (uint32_t) val->i16; break;
+    case IOT_DATA_UINT16: inc ? val->ui16++ : val->ui16--; data->hash = (uint32_t) val->ui16; break;
+    case IOT_DATA_INT32: inc ? val->i32++ : val->i32--; data->hash = (uint32_t) val->i32; break;
+    case IOT_DATA_UINT32: inc ? val->ui32++ : val->ui32--; data->hash = (uint32_t) val->ui32; break;
+    case IOT_DATA_INT64: inc ? val->i64++ : val->i64--; data->hash = (uint32_t) val->i64; break;
+    case IOT_DATA_UINT64: inc ? val->ui64++ : val->ui64--; data->hash = (uint32_t) val->ui64; break;
+    case IOT_DATA_FLOAT32: inc ? val->f32++ : val->f32--; data->hash = (uint32_t) val->f32; break;
+    case IOT_DATA_FLOAT64: inc ? val->f64++ : val->f64--; data->hash = (uint32_t) val->f64; break;
     default: break;
   }
 }
-- 
2.43.0


From 6482e89723ae657da9ea6522ff055e91a98a6ae8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:41 +0000
Subject: [PATCH 17/42] fix: empty arrays neither leak the data taken nor hash
 differently

An array of length zero made from a non-NULL pointer dropped memory it was given with
IOT_DATA_TAKE and got a hash of its own, so it did not equal an empty array made from NULL.
---
 src/c/data.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/c/data.c b/src/c/data.c
index dae582f..dc14b86 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1583,8 +1583,13 @@ extern iot_data_t * iot_data_alloc_array (void * data, uint32_t length, iot_data
   assert ((type <= IOT_DATA_BOOL) && ((length > 0 && data != NULL) || length == 0));
   iot_data_array_t * array = iot_data_block_alloc_data (IOT_DATA_ARRAY);
   size_t size = iot_data_type_sizes[type] * length;
+  if (length == 0)
+  {
+    if (ownership == IOT_DATA_TAKE) free (data);
+    data = NULL;
+  }
   array->base.element_type = type;
-  array->data = length ? data : NULL;
+  array->data = data;
   array->length = length;
   array->base.hash = data ? iot_hash_data (data, size) : 0;
   array->base.release = data ? (ownership != IOT_DATA_REF) : false;
-- 
2.43.0


From 55704dce71e3448fc3f31f68d04eb7af30c547ea Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 18/42] fix: keep saved log level when a logger that is not
 logging is stopped

---
 src/c/logger.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index 5ff1ef0..9bf84a8 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -146,7 +146,7 @@ void iot_logger_stop (iot_logger_t * logger)
   assert (logger);
   iot_logger_impl_t * impl = (iot_logger_impl_t*) logger;
   iot_component_set_stopped (&logger->component);
-  impl->save = logger->level;
+  if (logger->level != IOT_LOG_NONE) impl->save = logger->level; // Keep level saved if already stopped or not started
   logger->level = IOT_LOG_NONE;
 }
 
-- 
2.43.0


From 9d2ca9afe2542ce47465d6422c319fa95b5e7ffc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 19/42] fix: hold reference to next logger before releasing
 previous one

---
 src/c/logger.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index 9bf84a8..514addb 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -276,8 +276,8 @@ const char * iot_logger_level_to_string (iot_loglevel_t level)
 void iot_logger_set_next (iot_logger_t * logger, iot_logger_t * next)
 {
   iot_logger_impl_t * logimpl = (iot_logger_impl_t*) logger;
+  iot_logger_add_ref (next); // Before release as may already be the next logger
   iot_logger_free ((iot_logger_t*) logimpl->next);
-  iot_logger_add_ref (next);
   logimpl->next = (iot_logger_impl_t*) next;
 }
 
-- 
2.43.0


From 52245261c0c803dbcfbb08b1b212d785a20538e1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 20/42] fix: log unresolved numeric configuration to default
 logger if none given

---
 src/c/config.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c/config.c b/src/c/config.c
index 78df114..63d19e5 100644
--- a/src/c/config.c
+++ b/src/c/config.c
@@ -34,6 +34,7 @@ static bool iot_config_cast (const iot_data_t * map, const char * key, void * va
   bool ret = (data && iot_data_cast (data, type, val));
   if (! ret)
   {
+    if (logger == NULL) logger = iot_logger_default ();
     iot_log_error (logger, "Failed to resolve %s configuration value for: %s", iot_data_type_string (type), key);
   }
   return ret;
-- 
2.43.0


From a89daa46f48abeed9cf56972137350958ff451f4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 21/42] fix: report file write as failed if close or rename
 fails

---
 src/c/file.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/file.c b/src/c/file.c
index 894e933..93b1d3e 100644
--- a/src/c/file.c
+++ b/src/c/file.c
@@ -116,8 +116,8 @@ bool iot_file_write_binary (const char * path, const uint8_t * binary, size_t le
   if (fd)
   {
     ok = (fwrite (binary, len, 1u, fd) == 1u);
-    fclose (fd);
-    if (ok) rename (tmp_path, path);
+    if (fclose (fd) != 0) ok = false; // Buffered data may fail to be written
+    if (ok) ok = (rename (tmp_path, path) == 0);
   }
   return ok;
 }
-- 
2.43.0


From 8878647b0372cbb9c4f9fdefa63539de39ae31f8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 22/42] fix: return NULL from iot_store_config_list if
 directory cannot be read

---
 src/c/store.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c/store.c b/src/c/store.c
index 87cf2ac..b6508cc 100644
--- a/src/c/store.c
+++ b/src/c/store.c
@@ -98,6 +98,7 @@ iot_data_t * iot_store_config_list (const char * directory)
 #ifndef _AZURESPHERE_
   static const char extension_regex[] = ".json$";
   iot_data_t * file_list = iot_file_list (directory, extension_regex);
+  if (file_list == NULL) return NULL;
   iot_data_list_iter_t list_iter;
   iot_data_list_iter (file_list, &list_iter);
   while (iot_data_list_iter_next (&list_iter))
-- 
2.43.0


From bf0fce59ea3711e64289bc199646130337dbe0d8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:14 +0000
Subject: [PATCH 23/42] fix: return NULL if a file cannot be read completely

---
 src/c/file.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/c/file.c b/src/c/file.c
index 93b1d3e..5072190 100644
--- a/src/c/file.c
+++ b/src/c/file.c
@@ -87,16 +87,21 @@ uint8_t * iot_file_read_binary (const char * path, size_t * len)
   FILE * fd = fopen (path, "r");
   if (fd)
   {
-    fseek (fd, 0, SEEK_END);
-    size = ftell (fd);
-    if (size) // Return NULL if file empty
+    long end = (fseek (fd, 0, SEEK_END) == 0) ? ftell (fd) : -1;
+    if (end > 0) // Return NULL if file empty or cannot be read
     {
       rewind (fd);
-      ret = malloc (size + 1); // Allocate extra byte so can be NULL terminated if a string
-      size_t items = fread (ret, size, 1u, fd);
-      assert (items == 1);
-      (void) items;
-      ret[size] = 0; // String NULL terminator
+      ret = malloc ((size_t) end + 1u); // Allocate extra byte so can be NULL terminated if a string
+      if (ret && (fread (ret, (size_t) end, 1u, fd) == 1u))
+      {
+        size = (size_t) end;
+        ret[size] = 0; // String NULL terminator
+      }
+      else
+      {
+        free (ret);
+        ret = NULL;
+      }
     }
     fclose (fd);
   }
-- 
2.43.0


From 2ca25d039a5f60e602f5e63f9f5db4f5d67482f5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 24/42] fix: report zero length if store has no read function

---
 src/c/store.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c/store.c b/src/c/store.c
index b6508cc..92a6573 100644
--- a/src/c/store.c
+++ b/src/c/store.c
@@ -39,6 +39,7 @@ bool iot_store_write (const char * path, const char * str)
 uint8_t * iot_store_read_binary (const char * path, size_t * len)
 {
   assert (path);
+  if (len) *len = 0;
   return iot_store_reader ? iot_store_reader (path, len) : NULL;
 }
 
-- 
2.43.0


From 81efafbffd811dd7c9eee63bf816ce36de565f42 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 25/42] fix: count a scheduled run as dropped and call the
 abort callback when its thread cannot be started

---
 src/c/scheduler.c | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index 907f22d..7ae8cd3 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -194,6 +194,7 @@ static void * iot_scheduler_thread (void * arg)
           iot_component_lock (&scheduler->component);
           valid_current = atomic_load (&current->scheduled);
         }
+        bool started = true;
         if (atomic_load (&current->sync)) // Run schedule directly
         {
           iot_log_trace (scheduler->logger, "Running sync schedule #%" PRIu64 "", current->id);
@@ -206,32 +207,29 @@ static void * iot_scheduler_thread (void * arg)
         else if (current->threadpool) // Run schedule from threadpool
         {
           iot_log_trace (scheduler->logger, "Running schedule #%" PRIu64 " from threadpool", current->id);
-          if (! iot_threadpool_try_work (current->threadpool, schedule_fn, current, current->priority))
-          {
-            /* Notify that the run is aborted */
-            iot_schedule_fn_t abort_cb = current->abort_cb;
-            if (abort_cb)
-            {
-              iot_component_unlock (&scheduler->component);
-              abort_cb (current->arg);
-              iot_component_lock (&scheduler->component);
-            }
-            if (atomic_fetch_add (&current->dropped, 1u) == 0u)
-            {
-              iot_log_warn (scheduler->logger, "Scheduled event dropped for schedule #%" PRIu64, current->id);
-            }
-            valid_current = atomic_load (&current->scheduled);
-            completed = current;
-          }
+          started = iot_threadpool_try_work (current->threadpool, schedule_fn, current, current->priority);
         }
         else // Run schedule in new thread
         {
           iot_log_trace (scheduler->logger, "Running schedule #%" PRIu64 " as thread", current->id);
-          if (!iot_thread_create (NULL, schedule_fn, current, current->priority, IOT_THREAD_NO_AFFINITY, scheduler->logger))
+          started = iot_thread_create (NULL, schedule_fn, current, current->priority, IOT_THREAD_NO_AFFINITY, scheduler->logger);
+        }
+        if (! started)
+        {
+          /* Notify that the run is aborted */
+          iot_schedule_fn_t abort_cb = current->abort_cb;
+          if (abort_cb)
           {
-            valid_current = atomic_load (&current->scheduled);
-            completed = current;
+            iot_component_unlock (&scheduler->component);
+            abort_cb (current->arg);
+            iot_component_lock (&scheduler->component);
           }
+          if (atomic_fetch_add (&current->dropped, 1u) == 0u)
+          {
+            iot_log_warn (scheduler->logger, "Scheduled event dropped for schedule #%" PRIu64, current->id);
+          }
+          valid_current = atomic_load (&current->scheduled);
+          completed = current;
         }
       }
       else
-- 
2.43.0


From a3e44305032164df26cc59e705618fd690681138 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 26/42] fix: do not cache the thread priority range
 unsynchronised

---
 src/c/thread.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/c/thread.c b/src/c/thread.c
index 184756e..3a50d01 100644
--- a/src/c/thread.c
+++ b/src/c/thread.c
@@ -35,13 +35,8 @@ static void * zephyr_func_wrapper (void * data)
 
 bool iot_thread_priority_valid (int priority)
 {
-  static int max_priority = -2;
-  static int min_priority = -2;
-  if (max_priority == -2)
-  {
-    max_priority = sched_get_priority_max (SCHED_FIFO);
-    min_priority = sched_get_priority_min (SCHED_FIFO);
-  }
+  int max_priority = sched_get_priority_max (SCHED_FIFO);
+  int min_priority = sched_get_priority_min (SCHED_FIFO);
   return (priority >= min_priority && priority <= max_priority);
 }
 
-- 
2.43.0


From 8b867911c231ce4ca7de2da7d36301592658fd59 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 27/42] fix: initialise the default logger exactly once when
 first used from several threads

---
 src/c/logger.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index 514addb..4196243 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -53,18 +53,19 @@ static iot_logger_impl_t iot_logger_dfl;
 
 static void iot_log_console (iot_logger_t * logger, iot_loglevel_t level, uint64_t timestamp, const char * message, const void *ctx);
 
+static void iot_logger_default_init (void)
+{
+  iot_logger_t * logger = &iot_logger_dfl.base;
+  iot_component_init (&logger->component, IOT_LOGGER_FACTORY, (iot_component_start_fn_t) iot_logger_start, (iot_component_stop_fn_t) iot_logger_stop);
+  iot_logger_dfl.base.level = iot_logger_dfl.save = IOT_LOGLEVEL_DEFAULT;
+  iot_logger_dfl.impl = iot_log_console;
+}
+
 iot_logger_t * iot_logger_default (void)
 {
-  static iot_logger_t * logger = NULL;
-  if (logger == NULL)
-  {
-    logger = &iot_logger_dfl.base;
-    memset (&iot_logger_dfl, 0, sizeof (iot_logger_dfl));
-    iot_component_init (&logger->component, IOT_LOGGER_FACTORY, (iot_component_start_fn_t) iot_logger_start, (iot_component_stop_fn_t) iot_logger_stop);
-    iot_logger_dfl.base.level = iot_logger_dfl.save = IOT_LOGLEVEL_DEFAULT;
-    iot_logger_dfl.impl = iot_log_console;
-  }
-  return logger;
+  static pthread_once_t once = PTHREAD_ONCE_INIT;
+  pthread_once (&once, iot_logger_default_init);
+  return &iot_logger_dfl.base;
 }
 
 void iot_log__va_log (iot_logger_t * l, iot_loglevel_t level, const char* fmt, va_list args)
-- 
2.43.0


From 0419b9460b31bcfca56f6adff8b00592b90f895c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 28/42] fix: keep the components being loaded per thread

---
 src/c/container.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/container.c b/src/c/container.c
index 188c38e..3376259 100644
--- a/src/c/container.c
+++ b/src/c/container.c
@@ -36,7 +36,7 @@ typedef struct iot_load_in_progress_t
 
 static const iot_component_factory_t * iot_component_factories = NULL;
 static const iot_container_config_t * iot_config = NULL;
-static iot_load_in_progress_t * iot_load_in_progress = NULL;
+static _Thread_local iot_load_in_progress_t * iot_load_in_progress = NULL;
 
 #ifdef __ZEPHYR__
   static PTHREAD_MUTEX_DEFINE (iot_container_mutex);
-- 
2.43.0


From 0fd611862571b91a9d94f56241d885508d441c0b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 29/42] fix: JSON escape that can't be represented moved the
 output before its buffer

---
 src/c/data-json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index 2d2306d..d6c1993 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -219,7 +219,7 @@ static char * iot_data_string_from_json_token (const char * json, const iot_json
               mbstate_t ps = { 0 };
               sscanf (++src, "%4" SCNx32, &wc);
               size_t charsz = c32rtomb (dst, wc, &ps);
-              if (charsz > 0) dst += charsz;
+              if (charsz != (size_t) -1) dst += charsz; // Ignore characters that can't be represented
               src += 3;
             }
             break;
-- 
2.43.0


From 33ce508768ddb4984bd390dabea6aa9d1eecf055 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 30/42] fix: unquoted JSON text that is not a number gave a
 NULL value

---
 src/c/data-json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index d6c1993..3d3c503 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -290,7 +290,7 @@ static iot_data_t * iot_data_primitive_from_json (iot_json_tok_t ** tokens, cons
     }
   }
   free (str);
-  return ret;
+  return ret ? ret : iot_data_alloc_null (); // Not a number
 }
 
 static iot_data_t * iot_data_map_from_json (iot_json_tok_t ** tokens, const char * json, bool ordered, iot_data_t * cache)
-- 
2.43.0


From d5af11bf113a3f1e2399ac1d227c0aa6c31e4bcf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 31/42] fix: JSON object key without a value was read past the
 parsed tokens

---
 src/c/json.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/c/json.c b/src/c/json.c
index 18ded8c..f7cc890 100644
--- a/src/c/json.c
+++ b/src/c/json.c
@@ -307,6 +307,11 @@ int iot_json_parse (iot_json_parser *parser, const char * json, size_t len, iot_
       {
         return IOT_JSON_ERROR_PART;
       }
+      /* Object key without a value */
+      if (tokens[i].parent != -1 && tokens[tokens[i].parent].type == IOT_JSON_OBJECT && tokens[i].size == 0)
+      {
+        return IOT_JSON_ERROR_INVAL;
+      }
     }
   }
 
-- 
2.43.0


From 93a284e60d6c489326658de49b20932c387e59f5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:09 +0000
Subject: [PATCH 32/42] fix: logger configured without a name used a NULL name

---
 src/c/logger.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c/logger.c b/src/c/logger.c
index 4196243..0d66536 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -296,6 +296,7 @@ static iot_component_t * iot_logger_config (iot_container_t * cont, const iot_da
   iot_logger_t * next = (iot_logger_t*) iot_container_find_component (cont, iot_data_string_map_get_string (map, "Next"));
   bool start = iot_data_string_map_get_bool (map, "Start", true);
   const char * name = iot_data_string_map_get_string (map, "Name");
+  if (name == NULL) name = IOT_LOGGER_TYPE;
   const char * to = iot_data_string_map_get_string (map, "To");
 
 #if defined (IOT_HAS_FILE) && !defined (_AZURESPHERE_)
-- 
2.43.0


From c9685ce910c14409461155f223596ec8f480f72f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:09 +0000
Subject: [PATCH 33/42] fix: long host name in a logger configuration
 overflowed its buffer

---
 src/c/logger.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index 0d66536..0c437a6 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -316,7 +316,8 @@ static iot_component_t * iot_logger_config (iot_container_t * cont, const iot_da
       const char * sep = strchr (to, ':');
       if (sep)
       {
-        strncpy (target, to, (size_t) (sep - to));
+        size_t len = (size_t) (sep - to);
+        strncpy (target, to, (len < sizeof (target)) ? len : (sizeof (target) - 1));
         host = target;
         to = sep + 1;
       }
-- 
2.43.0


From 2c8fcae1c689bdccca3d492cc7028f6b8cd3c221 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 34/42] fix: length of a truncated log message ran beyond its
 buffer

---
 src/c/logger.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index 0c437a6..1459a05 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -157,7 +157,8 @@ static inline size_t iot_logger_format_log (iot_logger_impl_t * logger, iot_logl
 #ifdef IOT_HAS_PRCTL
   prctl (PR_GET_NAME, tname);
 #endif
-  return (size_t) snprintf (logger->buff, sizeof (logger->buff), "[%s:%" PRIu64 ":%s:%s] %s\n", tname, timestamp, logger->name, iot_log_levels[level], message);
+  size_t len = (size_t) snprintf (logger->buff, sizeof (logger->buff), "[%s:%" PRIu64 ":%s:%s] %s\n", tname, timestamp, logger->name, iot_log_levels[level], message);
+  return (len < sizeof (logger->buff)) ? len : (sizeof (logger->buff) - 1); // Message may have been truncated
 }
 
 static inline void iot_logger_log_to_fd (iot_logger_impl_t * logger, FILE * fd, iot_loglevel_t level, uint64_t timestamp, const char *message)
-- 
2.43.0


From 1a8914d0a65ffe2dda36d4d54fd4f6a8c258ed95 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:01 +0000
Subject: [PATCH 35/42] fix: unset vector elements crashed the JSON and CBOR
 writers

---
 src/c/data-cbor.c | 11 ++++++++++-
 src/c/data-json.c | 10 +++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/c/data-cbor.c b/src/c/data-cbor.c
index 609f549..378f5ea 100644
--- a/src/c/data-cbor.c
+++ b/src/c/data-cbor.c
@@ -184,7 +184,16 @@ static void iot_data_dump_cbor (iot_cbor_holder_t * holder, const iot_data_t * d
       iot_data_vector_iter (data, &iter);
       while (iot_data_vector_iter_next (&iter))
       {
-        iot_data_dump_cbor (holder, iot_data_vector_iter_value (&iter));
+        const iot_data_t * value = iot_data_vector_iter_value (&iter);
+        if (value)
+        {
+          iot_data_dump_cbor (holder, value);
+        }
+        else
+        {
+          iot_cbor_holder_check_size (holder, 1);
+          holder->data[holder->index++] = 0xf6;  // null
+        }
       }
       break;
     }
diff --git a/src/c/data-json.c b/src/c/data-json.c
index 3d3c503..28f5605 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -146,7 +146,15 @@ static void iot_data_dump_json (iot_string_holder_t * holder, const iot_data_t *
       iot_data_strcat (holder, "[");
       while (iot_data_vector_iter_next (&iter))
       {
-        iot_data_dump_json (holder, iot_data_vector_iter_value (&iter));
+        const iot_data_t * value = iot_data_vector_iter_value (&iter);
+        if (value)
+        {
+          iot_data_dump_json (holder, value);
+        }
+        else
+        {
+          iot_data_strcat (holder, "null");
+        }
         if (iot_data_vector_iter_has_next (&iter)) iot_data_strcat (holder, ",");
       }
       iot_data_strcat (holder, "]");
-- 
2.43.0


From 5620507232495615b9c0bb80c83a3aed4159b931 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:01 +0000
Subject: [PATCH 36/42] fix: path lookup aborted instead of returning NULL when
 the path does not match

---
 src/c/data.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index dc14b86..61ee690 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2784,10 +2784,18 @@ extern const iot_data_t * iot_data_get_at (const iot_data_t * data, const iot_da
   const iot_data_t * result = data;
   if (iot_data_list_length (path) > 0)
   {
-    assert (data->type == IOT_DATA_MAP || data->type == IOT_DATA_VECTOR);
     iot_data_t * p = iot_data_copy (path);
     iot_data_t * index = iot_data_list_head_pop (p);
-    result = (data->type == IOT_DATA_MAP) ? iot_data_get_at (iot_data_map_get (data, index), p) : iot_data_get_at (iot_data_vector_get (data, iot_data_ui32 (index)), p);
+    result = NULL;
+    if (data->type == IOT_DATA_MAP)
+    {
+      result = iot_data_map_get (data, index);
+    }
+    else if (data->type == IOT_DATA_VECTOR && iot_data_ui32 (index) < iot_data_vector_size (data))
+    {
+      result = iot_data_vector_get (data, iot_data_ui32 (index));
+    }
+    if (result) result = iot_data_get_at (result, p);
     iot_data_free (index);
     iot_data_free (p);
   }
-- 
2.43.0


From 452c611d3b5390e23eec6de9de444b7ff71801aa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 37/42] fix: adding, removing or updating at a path that is not
 there yet aborted

---
 src/c/data.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 61ee690..8ee666e 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2810,10 +2810,11 @@ extern void iot_data_list_empty (iot_data_t * list)
 
 extern iot_data_t * iot_data_add_at (const iot_data_t * data, const iot_data_t * path, iot_data_t * val)
 {
-  assert (data && path && val);
+  assert (path && val);
   iot_data_t * result;
   if (iot_data_list_length (path) > 0)
   {
+    assert (data);
     assert (data->type == IOT_DATA_MAP || data->type == IOT_DATA_VECTOR);
     iot_data_t * p = iot_data_copy (path);
     iot_data_t * index = iot_data_list_head_pop (p);
@@ -2844,7 +2845,8 @@ extern iot_data_t * iot_data_remove_at (const iot_data_t * data, const iot_data_
     {
       if (iot_data_list_length (p) > 0)
       {
-        iot_data_map_add (result, iot_data_add_ref (index), iot_data_remove_at (iot_data_map_get (result, index), p));
+        const iot_data_t * val = iot_data_map_get (result, index);
+        if (val) iot_data_map_add (result, iot_data_add_ref (index), iot_data_remove_at (val, p));
       }
       else
       {
@@ -2856,7 +2858,8 @@ extern iot_data_t * iot_data_remove_at (const iot_data_t * data, const iot_data_
       uint32_t i = iot_data_ui32 (index);
       if (iot_data_list_length (p) > 0)
       {
-        iot_data_vector_add (result, i, iot_data_remove_at (iot_data_vector_get (result, i), p));
+        const iot_data_t * val = iot_data_vector_get (result, i);
+        if (val) iot_data_vector_add (result, i, iot_data_remove_at (val, p));
       }
       else
       {
@@ -2890,7 +2893,8 @@ extern iot_data_t * iot_data_update_at (const iot_data_t * data, const iot_data_
     }
     else if (data->type == IOT_DATA_VECTOR)
     {
-      iot_data_vector_add (result, iot_data_ui32 (index), iot_data_update_at (iot_data_vector_get (data, iot_data_ui32 (index)), p, fn, arg));
+      const iot_data_t * val = iot_data_vector_get (data, iot_data_ui32 (index));
+      if (val) iot_data_vector_add (result, iot_data_ui32 (index), iot_data_update_at (val, p, fn, arg));
     }
     iot_data_free (index);
     iot_data_free (p);
-- 
2.43.0


From 1a93ebf3a5e73dc9a2d791c44096dc661d9100cf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:09 +0000
Subject: [PATCH 38/42] fix: listing components by category read through a
 factory without a category

---
 src/c/container.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/container.c b/src/c/container.c
index 3376259..c61ceeb 100644
--- a/src/c/container.c
+++ b/src/c/container.c
@@ -452,7 +452,7 @@ iot_data_t * iot_container_list_components (iot_container_t * cont, const char *
   while (iot_data_list_iter_next (&iter))
   {
     const iot_component_t * comp = iot_data_list_iter_pointer_value (&iter);
-    if ((category == NULL) || (strcmp (category, comp->factory->category) == 0)) // Filter on category if set
+    if ((category == NULL) || (comp->factory->category && (strcmp (category, comp->factory->category) == 0))) // Filter on category if set
     {
       iot_data_list_tail_push (list, iot_component_read ((iot_component_t*) comp));
     }
-- 
2.43.0


From 2bc32ef4ff4b61bedc8fb0b1f6156a2a0b09b439 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:09 +0000
Subject: [PATCH 39/42] fix: compressing a vector with unset elements aborted

---
 src/c/data.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c/data.c b/src/c/data.c
index 8ee666e..34b47f2 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1076,6 +1076,7 @@ bool iot_data_is_nan (const iot_data_t * data)
 
 static void iot_data_cache_add (iot_data_t * cache, iot_data_t ** data)
 {
+  if (*data == NULL) return; // Unset vector element
   iot_data_t * cached = (iot_data_t*) iot_data_map_get (cache, *data);
   if (cached)
   {
-- 
2.43.0


From 350d9aa483042bba2d3d02b3edea18e6717c0aaa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:09 +0000
Subject: [PATCH 40/42] fix: reading an unset vector element as a string
 aborted

---
 src/c/data.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/c/data.c b/src/c/data.c
index 34b47f2..01b538a 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2515,7 +2515,8 @@ iot_data_t * iot_data_vector_iter_replace_value (const iot_data_vector_iter_t *
 const char * iot_data_vector_iter_string (const iot_data_vector_iter_t * iter)
 {
   assert (iter);
-  return (iter->_index < iter->_vector->size) ? iot_data_string (iter->_vector->values[iter->_index]) : NULL;
+  const iot_data_t * value = (iter->_index < iter->_vector->size) ? iter->_vector->values[iter->_index] : NULL;
+  return value ? iot_data_string (value) : NULL;
 }
 
 const iot_data_t * iot_data_vector_find (const iot_data_t * vector, iot_data_cmp_fn cmp, const void * arg)
-- 
2.43.0


From 4230248043755cd78a701aaa913a6fe2e4929e1c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:25 +0000
Subject: [PATCH 41/42] fix: adding below a path that is not there read through
 NULL in release builds

---
 src/c/data.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 01b538a..9e343b2 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2821,9 +2821,16 @@ extern iot_data_t * iot_data_add_at (const iot_data_t * data, const iot_data_t *
     iot_data_t * p = iot_data_copy (path);
     iot_data_t * index = iot_data_list_head_pop (p);
     result = iot_data_shallow_copy (data);
-    (data->type == IOT_DATA_MAP) ?
-      iot_data_map_add (result, iot_data_add_ref (index), iot_data_add_at (iot_data_map_get (data, index), p, val)) :
-      iot_data_vector_add (result, iot_data_ui32 (index), iot_data_add_at (iot_data_vector_get (data, iot_data_ui32 (index)), p, val));
+    const iot_data_t * next = (data->type == IOT_DATA_MAP) ? iot_data_map_get (data, index) : iot_data_vector_get (data, iot_data_ui32 (index));
+    if (next == NULL && iot_data_list_length (p) > 0)
+    {
+      iot_data_free (val); // Path does not match the data
+    }
+    else
+    {
+      iot_data_t * element = next ? iot_data_add_at (next, p, val) : val;
+      (data->type == IOT_DATA_MAP) ? iot_data_map_add (result, iot_data_add_ref (index), element) : iot_data_vector_add (result, iot_data_ui32 (index), element);
+    }
     iot_data_free (index);
     iot_data_free (p);
   }
-- 
2.43.0


From 118df69a46b430ad2ed325372fd9d9cc985c626c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:56 +0000
Subject: [PATCH 42/42] fix: any name ending in json was listed as a
 configuration

---
 src/c/store.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/store.c b/src/c/store.c
index 92a6573..c6ac1da 100644
--- a/src/c/store.c
+++ b/src/c/store.c
@@ -97,7 +97,7 @@ bool iot_store_config_delete (const char * name, const char * uri)
 iot_data_t * iot_store_config_list (const char * directory)
 {
 #ifndef _AZURESPHERE_
-  static const char extension_regex[] = ".json$";
+  static const char extension_regex[] = "\\.json$";
   iot_data_t * file_list = iot_file_list (directory, extension_regex);
   if (file_list == NULL) return NULL;
   iot_data_list_iter_t list_iter;
@@ -105,7 +105,7 @@ iot_data_t * iot_store_config_list (const char * directory)
   while (iot_data_list_iter_next (&list_iter))
   {
     const char *full_name = iot_data_list_iter_string_value (&list_iter);
-    const char *new_name = strndup (full_name, strlen (full_name) - (sizeof (extension_regex) - 2));
+    const char *new_name = strndup (full_name, strlen (full_name) - (sizeof (extension_regex) - 3));
     iot_data_t *old_iot = iot_data_list_iter_replace (&list_iter, iot_data_alloc_string (new_name, IOT_DATA_TAKE));
     iot_data_free (old_iot);
   }
-- 
2.43.0

