From 98b9d3debf0fd5c174f864645432ab55f2faffaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:55 +0000
Subject: [PATCH 01/82] fix: deque_take read top before its fence and wrapped
 on an empty deque

---
 src/deque.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/deque.c b/src/deque.c
index 94daaf3..62344f5 100644
--- a/src/deque.c
+++ b/src/deque.c
@@ -75,12 +75,13 @@ void deque_resize(events_deque_t *q) {
 
 tasks_t *deque_take(events_deque_t *q) {
 	size_t b = atomic_load_explicit(&q->bottom, memory_order_relaxed) - 1;
-	size_t t = atomic_load_explicit(&q->top, memory_order_relaxed);
 	deque_array_t *a = (deque_array_t *)atomic_load_explicit(&q->array, memory_order_relaxed);
 	atomic_store_explicit(&q->bottom, b, memory_order_relaxed);
 	atomic_thread_fence(memory_order_seq_cst);
+	/* `top` must be read after the fence, and `b` wraps on a never used queue. */
+	size_t t = atomic_load_explicit(&q->top, memory_order_relaxed);
 	tasks_t *x;
-	if (t <= b) {
+	if (t < b + 1) {
 		/* Non-empty queue */
 		x = (tasks_t *)atomic_load_explicit(&a->buffer[b % a->size], memory_order_relaxed);
 		if (t == b) {
-- 
2.43.0


From 4bf4c2ae9845b8ae0f0863fe2c06a65a57369466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:55 +0000
Subject: [PATCH 02/82] fix: deque_resize released the array other threads may
 be stealing from

---
 src/deque.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/deque.c b/src/deque.c
index 62344f5..cf8502e 100644
--- a/src/deque.c
+++ b/src/deque.c
@@ -55,7 +55,7 @@ void deque_resize(events_deque_t *q) {
 	for (i = t; i < b; i++)
 		new->buffer[i % new_size] = a->buffer[i % old_size];
 
-	atomic_store_explicit(&q->array, new, memory_order_relaxed);
+	atomic_store_explicit(&q->array, new, memory_order_release);
 	/* The question arises as to the appropriate timing for releasing memory
 	 * associated with the previous array denoted by *a. In the original Chase
 	 * and Lev paper, this task was undertaken by the garbage collector, which
@@ -70,7 +70,6 @@ void deque_resize(events_deque_t *q) {
 	 * this design choice ensures that any leaked memory remains bounded by the
 	 * memory actively employed by the functional queues.
 	 */
-	events_free(a);
 }
 
 tasks_t *deque_take(events_deque_t *q) {
-- 
2.43.0


From e104fb12110aebfb71456d8eeba3135093be63c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 03/82] fix: waiting on a task group queued tasks that were
 already in the run queue

---
 src/events.c | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/events.c b/src/events.c
index f988d59..b0638fd 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2175,9 +2175,7 @@ static void __thrd_waitfor(events_deque_t *q) {
 				co->waiting = false;
 				task_delete(co);
 			} else {
-				if (co->status == TASK_NORMAL) {
-					enqueue(l, co);
-				} else if (co->status == TASK_SLEEPING) {
+				if (co->status == TASK_SLEEPING) {
 					is_sleeping = true;
 					co->sleeping = __thrd()->running;
 					suspend();
@@ -2238,9 +2236,7 @@ array_t waitfor(waitgroup_t wg) {
 					worker->waiting = false;
 					task_delete(worker);
 				} else {
-					if (worker->status == TASK_NORMAL) {
-						enqueue(l, worker);
-					} else if (worker->status == TASK_SLEEPING) {
+					if (worker->status == TASK_SLEEPING) {
 						is_sleeping = true;
 						worker->sleeping = __thrd()->running;
 						suspend();
@@ -2301,9 +2297,7 @@ array_t tasks_wait(task_group_t *wg) {
 					worker->waiting = false;
 					task_delete(worker);
 				} else {
-					if (worker->status == TASK_NORMAL) {
-						enqueue(l, worker);
-					} else if (worker->status == TASK_SLEEPING) {
+					if (worker->status == TASK_SLEEPING) {
 						is_sleeping = true;
 						worker->sleeping = __thrd()->running;
 						suspend();
-- 
2.43.0


From e1e8208d0fa074dc291ccdcce276217603526669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 04/82] fix: a worker waiting on its waitgroup jobs looked only
 at the last job

---
 src/events.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index b0638fd..7b9e425 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2166,7 +2166,7 @@ static void __thrd_waitfor(events_deque_t *q) {
 	yield();
 	while ($size(q->jobs) > 0) {
 		foreach(group in q->jobs) {
-			co = (tasks_t *)task.object;
+			co = (tasks_t *)group.object;
 			if (task_is_terminated(co)) {
 				$remove(q->jobs, igroup);
 				if (co->results != NULL)
-- 
2.43.0


From b447f5e8637b1646fbf5a3147b3ed148a25858c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 05/82] fix: waiting on a task group dropped the thread's task
 count once too often

---
 src/events.c | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/events.c b/src/events.c
index 7b9e425..c02eee0 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2146,7 +2146,6 @@ static void __thrd_waitfor(events_deque_t *q) {
 	waitgroup_t wg = q->tasks;
 	tasklist_t *l = __thrd()->run_queue;
 	array_t wgr = wg->results;
-	bool is_sleeping = false;
 	q->tasks = NULL;
 
 	foreach(task in q->jobs) {
@@ -2176,7 +2175,6 @@ static void __thrd_waitfor(events_deque_t *q) {
 				task_delete(co);
 			} else {
 				if (co->status == TASK_SLEEPING) {
-					is_sleeping = true;
 					co->sleeping = __thrd()->running;
 					suspend();
 				}
@@ -2188,7 +2186,6 @@ static void __thrd_waitfor(events_deque_t *q) {
 		igroup = 0;
 	}
 
-	__thrd()->task_count--;
 	atomic_lock($lock(wg->group));
 	wg->count--;
 	atomic_unlock($lock(wg->group));
@@ -2203,7 +2200,6 @@ array_t waitfor(waitgroup_t wg) {
 	tasks_t *worker, *t = active_task();
 	tasklist_t *l = __thrd()->run_queue;
 	array_t wgr = NULL;
-	bool is_sleeping = false;
 	if (t->group_active && t->task_group == wg && t->task_group->threaded) {
 		t->group_active = false;
 		t->group_finish = true;
@@ -2237,7 +2233,6 @@ array_t waitfor(waitgroup_t wg) {
 					task_delete(worker);
 				} else {
 					if (worker->status == TASK_SLEEPING) {
-						is_sleeping = true;
 						worker->sleeping = __thrd()->running;
 						suspend();
 					}
@@ -2264,8 +2259,6 @@ array_t waitfor(waitgroup_t wg) {
 		wg->group = NULL;
 		memset(wg, DATA_INVALID, sizeof(data_types));
 		events_free(wg);
-		if (!is_sleeping)
-			__thrd()->task_count--;
 	}
 
 	return wgr;
@@ -2280,7 +2273,6 @@ array_t tasks_wait(task_group_t *wg) {
 	tasks_t *worker, *t = active_task();
 	tasklist_t *l = __thrd()->run_queue;
 	array_t wgr = NULL;
-	bool is_sleeping = false;
 	if (t->group_active && t->task_group == wg && !t->task_group->threaded) {
 		t->group_active = false;
 		t->group_finish = true;
@@ -2298,7 +2290,6 @@ array_t tasks_wait(task_group_t *wg) {
 					task_delete(worker);
 				} else {
 					if (worker->status == TASK_SLEEPING) {
-						is_sleeping = true;
 						worker->sleeping = __thrd()->running;
 						suspend();
 					}
@@ -2321,8 +2312,6 @@ array_t tasks_wait(task_group_t *wg) {
 		wg->group = NULL;
 		memset(wg, DATA_INVALID, sizeof(data_types));
 		events_free(wg);
-		if (!is_sleeping)
-			__thrd()->task_count--;
 	}
 
 	return wgr;
-- 
2.43.0


From d3e2a1a501c8387cb086c5fa7b178482acdce452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 06/82] fix: sleeping tasks starved while any other task kept
 yielding

---
 src/events.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/events.c b/src/events.c
index c02eee0..13e9035 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1312,8 +1312,7 @@ static void *task_wait_system(void *v) {
 		__thrd()->active_timer++;
 #endif
 		/* let everyone else run */
-		while (task_yielding_active() > 0)
-			;
+		task_yielding_active();
 #ifdef _WIN32
 		__thrd()->active_timer--;
 #endif
-- 
2.43.0


From daaa8bf069e64f342fb86b79418283797cc9d7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 07/82] fix: a task was still read after it was handed to
 another thread

---
 src/events.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/events.c b/src/events.c
index 13e9035..2caccfb 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1753,9 +1753,12 @@ uint32_t task_push(tasks_t *t, bool has_result) {
 	if (t && t->status == TASK_SUSPENDED && t->cid == DATA_INVALID) {
 		tasks_t *c = active_task();
 		bool is_group = false;
+		uint32_t id;
 		t->cid = (uint32_t)atomic_fetch_add(&sys_event.id_generate, 1) + 1;
 		t->rid = (has_result) ? tasks_create_result()->id : NO_RESULT;
 		t->taken = false;
+		/* once handed to another thread `t` may be gone */
+		id = has_result ? t->rid : t->cid;
 
 		/* keep track of tasks in waitgroup */
 		if (c->group_active && c->task_group != NULL && !c->group_finish) {
@@ -1784,6 +1787,8 @@ uint32_t task_push(tasks_t *t, bool has_result) {
 
 			enqueue_tasks(t);
 		}
+
+		return id;
 	}
 
 	return (t == NULL) ? TASK_ERRED : (has_result ? t->rid : t->cid);
@@ -1806,8 +1811,6 @@ EVENTS_INLINE void accept_handler(client_cb connected, int client) {
 		tasks_t *t = create_task(Kb(32), (data_func_t)accept_client_handler, params, true, true);
 		if (!is_empty(t)) {
 			task_push(t, false);
-			events_deque_t *q = sys_event.local[t->tid];
-			atomic_flag_test_and_set(&q->started);
 			yield();
 		} else {
 			$delete(params);
@@ -2076,8 +2079,6 @@ void go_guard(size_t stacksize, guarded_func_t fn, defer_cb cleanup, void *any)
 		tasks_t *t = create_task(stacksize, (data_func_t)_os_guarded, params, true, true);
 		if (!is_empty(t)) {
 			task_push(t, false);
-			events_deque_t *q = sys_event.local[t->tid];
-			atomic_flag_test_and_set(&q->started);
 			yield();
 		} else {
 			$delete(params);
@@ -2467,6 +2468,7 @@ static void enqueue_tasks(tasks_t *t) {
 	atomic_unlock(&sys_event.lock);
 	deque_push(queue, t);
 	atomic_fetch_add(&queue->available, 1);
+	atomic_flag_test_and_set(&queue->started);
 }
 
 static void __tasks_pool_main(param_t args) {
-- 
2.43.0


From 8c75f965533c268dd59c7f80a16d654fc6df91aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:45 +0000
Subject: [PATCH 08/82] fix: two threads could push to one worker's deque at
 the same time

---
 src/events.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index 2caccfb..74c62a8 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2465,8 +2465,8 @@ static void enqueue_tasks(tasks_t *t) {
 	atomic_thread_fence(memory_order_seq_cst);
 	atomic_lock(&sys_event.lock);
 	events_deque_t *queue = sys_event.local[t->tid];
-	atomic_unlock(&sys_event.lock);
 	deque_push(queue, t);
+	atomic_unlock(&sys_event.lock);
 	atomic_fetch_add(&queue->available, 1);
 	atomic_flag_test_and_set(&queue->started);
 }
-- 
2.43.0


From 7b6588f1074e7cb9ab85ad4bd27ecaab30536449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 09/82] fix: the results table was replaced and released while
 other threads used it

---
 src/events.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/events.c b/src/events.c
index 74c62a8..629b3e9 100644
--- a/src/events.c
+++ b/src/events.c
@@ -32,6 +32,8 @@ static main_cb events_main_func = null;
 static array_t events_fsevents_tasks = null;
 static int events_execute(events_t * loop, int max_wait);
 static tasks_t *atexit_ctr_c_task = null;
+/* number of entries in `sys_event.results`, guarded by `sys_event.lock` */
+static size_t tasks_results_size = 0;
 sys_events_t sys_event = {0};
 
 typedef struct {
@@ -1149,7 +1151,6 @@ static EVENTS_INLINE void tasks_result_set(tasks_t *co, void *data) {
 			results[co->rid]->is_terminated = true;
 			co->status = TASK_FINISH;
 		}
-		atomic_store_explicit(&sys_event.results, results, memory_order_release);
 	}
 }
 
@@ -1651,18 +1652,31 @@ static results_data_t tasks_create_result(void) {
 	results_data_t result, *results;
 	size_t id = atomic_fetch_add(&sys_event.result_id_generate, 1);
 	result = (results_data_t)events_malloc(sizeof(_results_data_t));
-	results = (results_data_t *)atomic_load_explicit(&sys_event.results, memory_order_acquire);
-	if (id % sys_event.queue_size == 0 || results == NULL)
-		results = events_realloc(results, (id + sys_event.queue_size) * sizeof(results[0]));
-
 	result->is_ready = false;
 	result->is_terminated = false;
 	result->is_canceled = false;
 	result->id = id;
 	result->result.object = NULL;
 	result->type = DATA_RESULT;
+	atomic_lock(&sys_event.lock);
+	results = (results_data_t *)atomic_load_explicit(&sys_event.results, memory_order_acquire);
+	if (results == NULL || id >= tasks_results_size) {
+		size_t size = results == NULL ? sys_event.queue_size : tasks_results_size * 2;
+		while (id >= size)
+			size *= 2;
+
+		/* other threads read the table without a lock, so the one replaced is left alone */
+		results_data_t *grown = (results_data_t *)events_calloc(size, sizeof(results[0]));
+		if (results != NULL)
+			memcpy(grown, results, tasks_results_size * sizeof(results[0]));
+
+		results = grown;
+		tasks_results_size = size;
+	}
+
 	results[id] = result;
 	atomic_store_explicit(&sys_event.results, results, memory_order_release);
+	atomic_unlock(&sys_event.lock);
 	return result;
 }
 
@@ -1782,7 +1796,6 @@ uint32_t task_push(tasks_t *t, bool has_result) {
 			if (has_result) {
 				results_data_t *results = (results_data_t *)atomic_load_explicit(&sys_event.results, memory_order_acquire);
 				results[t->rid]->tid = t->tid;
-				atomic_store_explicit(&sys_event.results, results, memory_order_release);
 			}
 
 			enqueue_tasks(t);
@@ -1834,7 +1847,6 @@ EVENTS_INLINE void task_set_canceled(uint32_t id) {
 	if ((int)id > 0 && id < (uint32_t)atomic_load(&sys_event.result_id_generate)) {
 		results_data_t *results = (results_data_t *)atomic_load_explicit(&sys_event.results, memory_order_acquire);
 		results[id]->is_canceled = true;
-		atomic_store_explicit(&sys_event.results, results, memory_order_release);
 	}
 }
 
-- 
2.43.0


From 8ae8a724aced45d0ffb782597d1f91e767bbb74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 10/82] fix: go() inside a waitgroup looked up a worker by an
 id that was never set

---
 src/events.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/events.c b/src/events.c
index 629b3e9..f8e0726 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1656,6 +1656,7 @@ static results_data_t tasks_create_result(void) {
 	result->is_terminated = false;
 	result->is_canceled = false;
 	result->id = id;
+	result->tid = __thrd()->thrd_id;
 	result->result.object = NULL;
 	result->type = DATA_RESULT;
 	atomic_lock(&sys_event.lock);
@@ -2066,10 +2067,7 @@ uint32_t go(param_func_t fn, size_t num_of_args, ...) {
 		param_t params = data_ex(num_of_args, ap);
 		va_end(ap);
 
-		uint32_t rid = task_push(create_task(Kb(26), (data_func_t)fn, params, true, true), true);
-		events_deque_t *q = sys_event.local[results_tid(rid)];
-		atomic_flag_test_and_set(&q->started);
-		return rid;
+		return task_push(create_task(Kb(26), (data_func_t)fn, params, true, true), true);
 	}
 
 	panic("MUST call `events_create_pool()` at startup!");
-- 
2.43.0


From 83aeab490c71a56259f4ff3befda879e30781bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:31 +0000
Subject: [PATCH 11/82] fix: a waitgroup with fewer tasks than its capacity
 handed out missing tasks

---
 src/events.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index f8e0726..9827420 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2042,7 +2042,7 @@ static void tasks_poster(waitgroup_t wg) {
 			for (i = 0; i < $size(sys_event.tasks_cpu_idx); i++) {
 				k = sys_event.tasks_cpu_idx[i].u_int;
 				events_deque_t *q = sys_event.local[k];
-				for (c = 0; c < wg->capacity; c++) {
+				for (c = 0; c < wg->capacity && $size(wg->group) > 0; c++) {
 					tasks_t *t = (tasks_t *)$pop(wg->group).object;
 					t->tid = k;
 					$append(q->jobs, t);
-- 
2.43.0


From 2a2341c50873a38bf6974e8b375fc211a6dff0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:31 +0000
Subject: [PATCH 12/82] fix: waitfor() released the waitgroup while a worker
 still held its lock

---
 src/events.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/events.c b/src/events.c
index 9827420..303f60d 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2257,6 +2257,10 @@ array_t waitfor(waitgroup_t wg) {
 		while ((int)wg->count > 0)
 			yield();
 
+		/* the last worker to count down may still hold the lock */
+		atomic_lock($lock(wg->group));
+		atomic_unlock($lock(wg->group));
+
 		if ($size(wgr) == 0) {
 			$delete(wgr);
 			wgr = NULL;
-- 
2.43.0


From 304a2165e631f668b20bac7e6b6c48cb1b18ca87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 13/82] fix: task_is_canceled() looked up a task without result
 by its task id

---
 src/events.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index 303f60d..8b852b4 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1841,7 +1841,8 @@ EVENTS_INLINE bool task_is_terminated(tasks_t *co) {
 }
 
 EVENTS_INLINE bool task_is_canceled(void) {
-	return task_result_get(task_id())->is_canceled;
+	uint32_t id = active_task()->rid;
+	return id != NO_RESULT && task_result_get(id)->is_canceled;
 }
 
 EVENTS_INLINE void task_set_canceled(uint32_t id) {
-- 
2.43.0


From 27dd3624b56f22f62fc1e28b7b5a96884bffdc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:05 +0000
Subject: [PATCH 14/82] fix: yielded() queued a generator task that was already
 in the run queue

---
 src/events.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/events.c b/src/events.c
index 8b852b4..7c818d2 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1624,11 +1624,6 @@ values_t yielded(generator_t gen) {
 		return data_values_empty->value;
 
 	while (!gen->is_ready && !gen->context->halt) {
-		if (gen->context->status == TASK_SUSPENDED) {
-			tasklist_t *l = __thrd()->run_queue;
-			enqueue(l, gen->context);
-		}
-
 		active_info();
 		yield();
 	}
-- 
2.43.0


From 66007657cc86f8c035c36f6bf01d0dc05aeeeb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:05 +0000
Subject: [PATCH 15/82] fix: timers of more than 2147 ms overflowed and fired
 at once

---
 src/events.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index 7c818d2..52f61cf 100644
--- a/src/events.c
+++ b/src/events.c
@@ -891,7 +891,7 @@ static actor_t *events_actor_timeout(events_t *loop, int ms, actor_cb timer, voi
 		: timeout;
 
 	if (actor_running != NULL) {
-		when = (size_t)(events_nsec() + ms * 1000000);
+		when = events_nsec() + (size_t)ms * 1000000;
 		for (t = loop->timers->head; t != NULL && t->alarmtime < when; t = t->next)
 			;
 
-- 
2.43.0


From 85978be8362bf630fc72c2a00456099832b203ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:26 +0000
Subject: [PATCH 16/82] fix: async_wait() parked a task for ever when its
 descriptor could not be watched

---
 src/events.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index 52f61cf..ad87a60 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1414,7 +1414,12 @@ void async_wait(int fd, int rw) {
 			break;
 	}
 
-	events_add(__thrd()->loop, fd, bits, 0, wait_cb, (void *)__thrd()->running);
+	if (events_add(__thrd()->loop, fd, bits, 0, wait_cb, (void *)__thrd()->running) != 0) {
+		/* nothing would ever wake this task */
+		yield();
+		return;
+	}
+
 	task_switch(__thrd()->current_handle);
 }
 
-- 
2.43.0


From 267e6df585c7c6f0b091d13d90344bea6a5413c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:01 +0000
Subject: [PATCH 17/82] fix: a promise used again kept half of its previous
 pointer result

---
 src/future.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/future.c b/src/future.c
index d291fc5..94ee014 100644
--- a/src/future.c
+++ b/src/future.c
@@ -270,7 +270,7 @@ promise *alloc_promise(void) {
 	if (!is_empty(f = (promise *)events_malloc(_mem_align_up(sizeof(promise), 2)))) {
 		f->args = null;
 		f->result->is_array = false;
-		f->result->value.integer = 0;
+		f->result->value.object = null;
 		atomic_flag_clear(&f->mutex);
 		atomic_flag_clear(&f->done);
 		f->type = DATA_PROMISE;
@@ -295,7 +295,7 @@ promise *promise_work(promise *f, param_func_t fn, size_t num_args, ...) {
 			f->args = args;
 			f->func = fn;
 			f->result->extended = null;
-			f->result->value.integer = 0;
+			f->result->value.object = null;
 			f->result->is_array = false;
 			atomic_flag_clear(&f->mutex);
 			atomic_flag_clear(&f->done);
-- 
2.43.0


From 8fbc00a8ab2f27ee7d950d34d270a1c02c40d376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:01 +0000
Subject: [PATCH 18/82] fix: written item counts were truncated to int

---
 src/async_io.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 7f891c7..d2a5c14 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -992,7 +992,7 @@ EVENTS_INLINE int async_fwrite(const char *path, const char *mode,
 
 static EVENTS_INLINE void *_os_fwrite(param_t args) {
 	FILE *fi = (FILE *)args[3].object;
-	int count = fwrite((const void *)args[0].object, args[1].max_size, args[2].max_size, fi);
+	size_t count = fwrite((const void *)args[0].object, args[1].max_size, args[2].max_size, fi);
 	if (count > 0)
 		fflush(fi);
 
@@ -1109,7 +1109,7 @@ EVENTS_INLINE int promise_pclose(promise *p, FILE *stream) {
 
 EVENTS_INLINE size_t promise_fwrite(promise *p, void *buf, size_t items_size, size_t items_count, FILE *stream) {
 	return promise_wait(promise_work(p, _os_fwrite, 4, buf,
-		casting(items_size), casting(items_count), stream)).integer;
+		casting(items_size), casting(items_count), stream)).max_size;
 }
 
 EVENTS_INLINE int promise_fprintf(promise *p, FILE *stream, const char *fmt) {
-- 
2.43.0


From c242a4b78c6839af1ce9e12a3f42111bee1b21a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 19/82] fix: a worker used a promise after setting it, when its
 waiter may have released it

---
 src/events.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/events.c b/src/events.c
index ad87a60..1365300 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2640,11 +2640,14 @@ static int __future_wrapper(void *arg) {
 			promise *worker = (promise *)$shift(queue->jobs).object;
 			atomic_unlock(&work->mutex);
 
-			if (worker && worker->func)
-				res->object = worker->func(worker->args);
+			/* the waiter may release the promise as soon as it is set */
+			param_t args = worker->args;
+			if (worker->func)
+				res->object = worker->func(args);
+			worker->args = null;
 			promise_set(worker, res->object);
 
-			$delete(worker->args);
+			$delete(args);
 			if (is_data(res->object) && is_empty(scope_local()->local))
 				$delete(res->object);
 
-- 
2.43.0


From 54446692be20c307566d401f2aa01b56783539ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:22 +0000
Subject: [PATCH 20/82] fix: a helper task read a promise its waiter may have
 released; errno of a failed job could be missed

---
 src/future.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/future.c b/src/future.c
index 94ee014..29a3855 100644
--- a/src/future.c
+++ b/src/future.c
@@ -60,6 +60,9 @@ EVENTS_INLINE values_t promise_wait(promise *p) {
 	while (is_promise(p) && !atomic_flag_load(&p->done))
 		yield_active_info();
 
+	if (p->erred)
+		errno = p->erred;
+
 	return p->result->value;
 }
 
@@ -258,17 +261,13 @@ static void queue_work_handler(param_t args) {
 
 	atomic_flag_test_and_set(&thrd->queue->started);
 	yield();
-	while (!atomic_flag_load(&job->done))
-		yield_active_info();
-
-	if (job->erred)
-		errno = job->erred;
 }
 
 promise *alloc_promise(void) {
 	promise *f = null;
 	if (!is_empty(f = (promise *)events_malloc(_mem_align_up(sizeof(promise), 2)))) {
 		f->args = null;
+		f->erred = 0;
 		f->result->is_array = false;
 		f->result->value.object = null;
 		atomic_flag_clear(&f->mutex);
@@ -433,6 +432,9 @@ values_t queue_get(void *self) {
 		while (!atomic_flag_load(&p->done))
 			yield_active_info();
 
+		if (p->erred)
+			errno = p->erred;
+
 		if (p->result->is_array == 1) {
 			defer_free(p);
 			defer_free(p->result->value.object);
-- 
2.43.0


From 98c086a8ee5970a733354062764920f38aabd68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:45 +0000
Subject: [PATCH 21/82] fix: thrd_is_done() said no again once the result had
 been fetched

---
 src/future.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/future.c b/src/future.c
index 29a3855..fa9f205 100644
--- a/src/future.c
+++ b/src/future.c
@@ -142,8 +142,6 @@ values_t thrd_get(future_t f) {
 		data_values_t *r = promise_get(f->promise);
 		if (os_join(f->thread, 0, NULL) == 0) {
 			f->type = DATA_RESULT;
-			atomic_flag_clear(&f->promise->mutex);
-			atomic_flag_clear(&f->promise->done);
 			if (f->promise->result->is_array)
 				defer_free(f->promise->result->value.object);
 
-- 
2.43.0


From 213726272e13bfb3a58bb2e0a93e21d2129d5e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:46 +0000
Subject: [PATCH 22/82] fix: delay() wrapped the time slept after 4.29 seconds

---
 src/events.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index 1365300..1155469 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1391,7 +1391,7 @@ EVENTS_INLINE uint32_t delay(uint32_t ms) {
 	add_timeout(__thrd()->running, __thrd()->running, ms, now);
 	task_switch(__thrd()->current_handle);
 
-	return (uint32_t)(events_nsec() - now) / 1000000;
+	return (uint32_t)((events_nsec() - now) / 1000000);
 }
 
 static void wait_cb(fds_t fd, int event, void *arg) {
-- 
2.43.0


From 23b6c999415486f0c1e74650372fce66257b9715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:16 +0000
Subject: [PATCH 23/82] fix: a task waiting on a sleeping task was woken by it
 again and again

---
 src/events.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/events.c b/src/events.c
index 1155469..1e2f71e 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1297,7 +1297,7 @@ static EVENTS_INLINE int task_yielding_active(void) {
 }
 
 static void *task_wait_system(void *v) {
-	tasks_t *t;
+	tasks_t *t, *waiter;
 	tasklist_t *l;
 	size_t now;
 	(void)v;
@@ -1341,10 +1341,10 @@ static void *task_wait_system(void *v) {
 				t->ready = true;
 				enqueue(l, t);
 				if (t->sleeping != NULL) {
-					t = t->sleeping;
-					t->ready = true;
+					waiter = t->sleeping;
 					t->sleeping = NULL;
-					enqueue(l, t);
+					waiter->ready = true;
+					enqueue(l, waiter);
 				}
 			}
 		}
-- 
2.43.0


From 400f6b3df739f45216c6fcc83c949b7e9abbebda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 24/82] fix: register path watches with epoll and deliver their
 events

---
 src/epoll.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/epoll.c b/src/epoll.c
index 09a33f0..74bd2ec 100644
--- a/src/epoll.c
+++ b/src/epoll.c
@@ -97,7 +97,8 @@ int events_update_internal(events_t *_loop, int fd, int event) {
 	memset(&ev, 0, sizeof(ev));
 	assert(EVENTS_FD_BELONGS_TO_LOOP(&loop->loop, fd));
 
-	if ((event & EVENTS_READWRITE) == target->events) {
+	if ((event & EVENTS_PATHWATCH) == 0
+		&& (event & EVENTS_READWRITE) == target->events) {
 		return 0;
 	}
 
@@ -116,7 +117,7 @@ int events_update_internal(events_t *_loop, int fd, int event) {
 
 	if ((event & EVENTS_DEL) != 0) {
 	  /* nothing to do */
-	} else if ((event & EVENTS_READWRITE) == 0) {
+	} else if ((event & (EVENTS_READWRITE | EVENTS_PATHWATCH)) == 0) {
 		SET(EPOLL_CTL_DEL, 1);
 	} else {
 		SET(EPOLL_CTL_MOD, 0);
@@ -159,7 +160,7 @@ int events_poll_once_internal(events_t *_loop, int max_wait) {
 		struct epoll_event *event = loop->events + i;
 		events_fd_t *target = events_target(event->data.fd);
 		if (loop->loop.loop_id == target->loop_id
-			&& (target->events & EVENTS_READWRITE) != 0) {
+			&& ((target->events & EVENTS_READWRITE) != 0 || target->is_pathwatcher)) {
 			int revents = ((event->events & EPOLLIN) != 0 ? EVENTS_READ : 0)
 				| ((event->events & EPOLLOUT) != 0 ? EVENTS_WRITE : 0)
 				| ((event->events & EPOLLHUP) != 0 ? EVENTS_CLOSED : 0);
-- 
2.43.0


From 571e2432c43be9fbf42ffa067153b45cc434da8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 25/82] fix: wake a waiting task when epoll reports only an
 error

---
 src/epoll.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/epoll.c b/src/epoll.c
index 74bd2ec..adfe110 100644
--- a/src/epoll.c
+++ b/src/epoll.c
@@ -163,7 +163,7 @@ int events_poll_once_internal(events_t *_loop, int max_wait) {
 			&& ((target->events & EVENTS_READWRITE) != 0 || target->is_pathwatcher)) {
 			int revents = ((event->events & EPOLLIN) != 0 ? EVENTS_READ : 0)
 				| ((event->events & EPOLLOUT) != 0 ? EVENTS_WRITE : 0)
-				| ((event->events & EPOLLHUP) != 0 ? EVENTS_CLOSED : 0);
+				| ((event->events & (EPOLLHUP | EPOLLERR)) != 0 ? EVENTS_CLOSED : 0);
 			if (target->is_pathwatcher) {
 				char *buffer = events_malloc(Kb(8) + sizeof(inotify_t));
 				if (!is_empty(buffer)) {
-- 
2.43.0


From 44896c90d9794e44b344b1c0a4ee26812d692ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 26/82] fix: a path watch's event dropped the other events of
 its turn

---
 src/epoll.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/epoll.c b/src/epoll.c
index adfe110..08ddb9a 100644
--- a/src/epoll.c
+++ b/src/epoll.c
@@ -173,7 +173,7 @@ int events_poll_once_internal(events_t *_loop, int max_wait) {
 					}
 
 					async_task(inotify_task, 5, casting(event->data.fd), buffer, casting(len), target->callback, target->cb_arg);
-					return 0;
+					continue;
 				}
 
 				return -1;
-- 
2.43.0


From 14b6341aec382940f6e9f2e96881cee6e9216591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 27/82] fix: a timeout callback that removes another descriptor
 aborted the loop or had the removed one called

---
 src/events.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/events.c b/src/events.c
index 1e2f71e..f28e02a 100644
--- a/src/events.c
+++ b/src/events.c
@@ -791,11 +791,13 @@ EVENTS_INLINE void events_handle_timeout_internal(events_t *loop) {
 				for (j = i * EVENTS_SHORT_BITS; vv != 0; j++, vv <<= 1) {
 					if (vv < 0) {
 						short v = vec[j];
-						assert(v != 0);
 						for (k = j * EVENTS_SHORT_BITS; v != 0; k++, v <<= 1) {
 							if (v < 0) {
 								events_fd_t *fd = events_target(k);
-								assert(fd->loop_id == loop->loop_id);
+								/* an earlier callback may have removed or rearmed it */
+								if (fd->loop_id != loop->loop_id || fd->timeout_idx != loop->timeout.base_idx)
+									continue;
+
 								fd->timeout_idx = EVENTS_TIMEOUT_IDX_UNUSED;
 								events_id_t loop_id = loop->loop_id;
 								(*fd->callback)(k, EVENTS_TIMEOUT, fd->cb_arg);
-- 
2.43.0


From aa0708e581de943b8eb3882faadf6f2238b2e390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 28/82] fix: events_set_timeout() on a descriptor that is not
 registered read through a null pointer

---
 src/events.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index f28e02a..f9e7b07 100644
--- a/src/events.c
+++ b/src/events.c
@@ -416,7 +416,7 @@ EVENTS_INLINE void events_set_timeout(fds_t sfd, int secs) {
 	assert(EVENTS_IS_INITD_AND_FD_IN_RANGE(fd));
 	target = events_target(sfd);
 	loop = target->loop;
-	if (!EVENTS_FD_BELONGS_TO_LOOP(loop, fd))
+	if (loop == NULL || !EVENTS_FD_BELONGS_TO_LOOP(loop, fd))
 		return;
 
 	/* clear timeout */
-- 
2.43.0


From a60b240bf3860138b929edc6418cbd8eda626176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:12 +0000
Subject: [PATCH 29/82] fix: an exception not taken by catch_if ran its block
 twice and never its finally block

---
 src/except.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/except.c b/src/except.c
index 794e5b0..c3cd59b 100644
--- a/src/except.c
+++ b/src/except.c
@@ -937,7 +937,7 @@ bool try_next(ex_error_t *err, ex_context_t *ex_err) {
 bool try_catching(char *type, ex_error_t *err, ex_context_t *ex_err) {
     /* check if this CATCH block can handle current exception */
     bool status = false;
-    if (ex_err->state == ex_throw_st) {
+    if (ex_err->state == ex_throw_st && err->stage == ex_throw_st) {
         try_updating_err(err, ex_err);
         if (str_is("_if", type)) {
             status = true;
-- 
2.43.0


From 5369d18c3ff2d6fd4c3c2d8c52fde43ded073a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:44 +0000
Subject: [PATCH 30/82] fix: tasks of one thread shared one chain of try blocks
 and took each other's exceptions

---
 src/events.c          | 8 ++++++++
 src/events_internal.h | 1 +
 2 files changed, 9 insertions(+)

diff --git a/src/events.c b/src/events.c
index f9e7b07..e96a87b 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1441,6 +1441,7 @@ tasks_t *task_derive(void *memory, size_t heapsize, bool is_thread) {
 }
 
 void task_switch(tasks_t *handle) {
+	ex_context_t *context = ex_local();
 	tasks_t *coro_previous_handle = __thrd()->active_handle;
 	__thrd()->active_handle = handle;
 	__thrd()->active_handle->status = TASK_RUNNING;
@@ -1449,6 +1450,7 @@ void task_switch(tasks_t *handle) {
 		__thrd()->current_handle->status = TASK_NORMAL;
 
 	SwitchToFiber(handle->type->fiber);
+	ex_update(context);
 }
 
 #elif defined(USE_SJLJ)
@@ -1460,6 +1462,7 @@ static void _spring_board(int ignored) {
 
 /* Switch to specified coroutine. */
 void task_switch(tasks_t *co) {
+	ex_context_t *context = ex_local();
 	if (!sigsetjmp(((coroutine_t *)active_task())->sig_ctx, 0)) {
 		tasks_t *task_previous_handle = __thrd()->active_handle;
 		__thrd()->active_handle = co;
@@ -1471,6 +1474,7 @@ void task_switch(tasks_t *co) {
 
 		siglongjmp(((coroutine_t *)__thrd()->active_handle)->sig_ctx, 1);
 	}
+	ex_update(context);
 }
 
 tasks_t *task_derive(void *co, size_t stack_size, bool is_thread) {
@@ -1538,6 +1542,7 @@ tasks_t *task_derive(void *co, size_t stack_size, bool is_thread) {
 
 /* Switch to specified coroutine. */
 void task_switch(tasks_t *co) {
+	ex_context_t *context = ex_local();
 	tasks_t *task_previous_handle = __thrd()->active_handle;
 	__thrd()->active_handle = co;
 	__thrd()->active_handle->status = TASK_RUNNING;
@@ -1547,9 +1552,11 @@ void task_switch(tasks_t *co) {
 
 	if (swapcontext((ucontext_t *)__thrd()->current_handle, (ucontext_t *)__thrd()->active_handle))
 		perror("Error! `swapcontext`");
+	ex_update(context);
 }
 #else
 EVENTS_INLINE void task_switch(tasks_t *co) {
+	ex_context_t *context = ex_local();
 #if defined(_M_X64) || defined(_M_IX86)
 	register tasks_t *task_previous_handle = __thrd()->active_handle;
 #else
@@ -1562,6 +1569,7 @@ EVENTS_INLINE void task_switch(tasks_t *co) {
 		__thrd()->current_handle->status = TASK_NORMAL;
 
 	coro_swap(__thrd()->active_handle, task_previous_handle);
+	ex_update(context); /* each task has its own `try` blocks */
 }
 #endif
 
diff --git a/src/events_internal.h b/src/events_internal.h
index 8c55633..67d67f8 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -615,6 +615,7 @@ int fsevents_stop(uint32_t rid);
 
 bool scope_is_guarded(void);
 int scope_deferred(ex_memory_t *scope, func_t func, void *data);
+void ex_update(ex_context_t *context);
 void deferred_unwind(array_t garbage);
 
 char *str_parseip(char *name, uint32_t *ip, int *port, bool autofree);
-- 
2.43.0


From e4b3c89aef2775f3f2e38f9a15b2e144aa2dbad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:07 +0000
Subject: [PATCH 31/82] fix: a protected pointer that is NULL kept the older
 ones from being released

---
 src/except.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/except.c b/src/except.c
index c3cd59b..b066a7d 100644
--- a/src/except.c
+++ b/src/except.c
@@ -167,13 +167,16 @@ static void ex_unwind_stack(ex_context_t *ctx) {
 		scope_unwind(ctx->data);
     } else {
 		while (p && p->type == DATA_EXCEPT_PROTECTED) {
+            if (is_empty(*p->ptr)) {
+                p = p->next;
+                continue;
+            }
+
             if ((got_uncaught_exception = (temp == *p->ptr) || !is_ptr_usable(*p->ptr)))
                 break;
 
-            if (*p->ptr) {
-				p->type = DATA_INVALID;
-                p->func(*p->ptr);
-            }
+            p->type = DATA_INVALID;
+            p->func(*p->ptr);
 
             temp = *p->ptr;
             p = p->next;
-- 
2.43.0


From b5c6ef584545f53b4be69c1a82f5b723141855c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:29 +0000
Subject: [PATCH 32/82] fix: fence() inside a try block had the release called
 with the first word of the memory instead of its address

---
 src/except.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/except.c b/src/except.c
index b066a7d..a7fbab2 100644
--- a/src/except.c
+++ b/src/except.c
@@ -1110,9 +1110,9 @@ void *fence(void *ptr, func_t func) {
 		return null;
 
 	ex_memory_t *scope = get_scope();
-	ex_protect_ptr(scope->protector, ptr, func);
-	scope->is_protected = true;
-	scope_deferred(scope, func, ptr);
+	ex_init();
+	if (scope_deferred(scope, func, ptr) != TASK_ERRED)
+		scope->is_protected = true;
 
 	return ptr;
 }
-- 
2.43.0


From fdedf09b1380a7ba445b31da429ddf71dc04991a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:56 +0000
Subject: [PATCH 33/82] fix: deferred calls of a queue_work job never ran, and
 its second guard or array result crashed the worker

---
 src/events.c | 4 +++-
 src/except.c | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index e96a87b..6c974bf 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2654,11 +2654,13 @@ static int __future_wrapper(void *arg) {
 			param_t args = worker->args;
 			if (worker->func)
 				res->object = worker->func(args);
+			deferred_unwind(active_task()->garbage);
+			active_task()->garbage = null;
 			worker->args = null;
 			promise_set(worker, res->object);
 
 			$delete(args);
-			if (is_data(res->object) && is_empty(scope_local()->local))
+			if (is_data(res->object) && (is_empty(scope_local()) || is_empty(scope_local()->local)))
 				$delete(res->object);
 
 			scope_unwind(scope_local());
diff --git a/src/except.c b/src/except.c
index a7fbab2..34744df 100644
--- a/src/except.c
+++ b/src/except.c
@@ -1020,6 +1020,9 @@ ex_memory_t *scope_init(void) {
 			atexit_ctr_c_unwind = scope;
 
 		atexit(scope_destroy);
+	} else if (is_empty(scope->defer_arr)) {
+		/* unwound before, and used again */
+		scope->defer_arr = array();
 	}
 
 	return scope;
@@ -1083,6 +1086,7 @@ void scope_unwind(ex_memory_t *scope) {
 	}
 
 	scope->defer_arr = null;
+	scope->is_protected = false;
 	if (!is_empty(scope->protector)) {
 		ex_unprotected_ptr(scope->protector);
 		memset(scope->protector, 0, sizeof(ex_ptr_t));
-- 
2.43.0


From 8fedef97d687b461cc35d24291d7be26e3055078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 34/82] fix: the error of a try block never told the function
 that threw it

---
 src/except.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/except.c b/src/except.c
index 34744df..3f5a8ef 100644
--- a/src/except.c
+++ b/src/except.c
@@ -868,6 +868,7 @@ EVENTS_INLINE ex_error_t *try_updating_err(ex_error_t *err, ex_context_t *ex_err
     err->name = ex_err->ex;
 #endif
     err->file = ex_err->file;
+    err->function = ex_err->function;
     err->backtrace = ex_err->backtrace;
     err->line = ex_err->line;
 	err->is_caught = ex_err->state == ex_catch_st;
-- 
2.43.0


From bc88b6ef36a8f6fbc45444aaecba76b021f60737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:49 +0000
Subject: [PATCH 35/82] fix: caught() asked the thread's scope, which need not
 know of the exception in flight

---
 src/except.c | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/except.c b/src/except.c
index 3f5a8ef..127925a 100644
--- a/src/except.c
+++ b/src/except.c
@@ -968,21 +968,22 @@ EVENTS_INLINE bool try_finallying(ex_error_t *err, ex_context_t *ex_err) {
 
 bool try_caught(const char *err) {
 	ex_memory_t *scope = scope_local();
-	if (!is_empty(scope)) {
-		const char *exception = !is_empty(scope->_panic) ? scope->_panic : scope->err;
-		if ((scope->is_recovered = str_is(err, exception)))
-			ex_local()->state = ex_catch_st;
+	ex_context_t *ctx = ex_init();
+	/* the `scope` may not know of the exception, or still hold an earlier one */
+	const char *exception = !is_empty((void *)ctx->_panic) ? ctx->_panic : ctx->ex;
+	bool is_err;
 
-		return scope->is_recovered;
-	}
+	if (is_empty((void *)exception) && !is_empty(scope))
+		exception = !is_empty((void *)scope->_panic) ? scope->_panic : scope->err;
 
-	const char *exception = !is_empty(ex_local()->_panic) ? ex_local()->_panic : ex_local()->ex;
-	if (str_is(err, exception)) {
-		ex_local()->state = ex_catch_st;
-		return true;
-	}
+	is_err = str_is(err, exception);
+	if (!is_empty(scope))
+		scope->is_recovered = is_err;
+
+	if (is_err)
+		ctx->state = ex_catch_st;
 
-	return false;
+	return is_err;
 }
 
 EVENTS_INLINE const char *try_message(void) {
-- 
2.43.0


From 15d740081807187d074455db617ff7cdd689aec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:27 +0000
Subject: [PATCH 36/82] fix: an array that grew left its callers with the
 released memory

---
 include/arrays.h | 27 ++++++++++++++-------------
 src/arrays.c     | 22 +++++++++++++++-------
 src/async_tls.c  |  2 +-
 src/events.c     |  2 ++
 4 files changed, 32 insertions(+), 21 deletions(-)

diff --git a/include/arrays.h b/include/arrays.h
index 9463abe..759b8f4 100644
--- a/include/arrays.h
+++ b/include/arrays.h
@@ -199,10 +199,11 @@ C_API array_t array(void);
 C_API array_t arrays(size_t, ...);
 C_API array_t data_ex(size_t, va_list);
 C_API array_t data_copy(array_t des, array_t src);
-C_API void data_append(array_t, void *);
+/* Appends, returns the array, which `moves` when it has to grow. */
+C_API array_t data_append(array_t, void *);
 C_API values_t data_pop(array_t arr);
 C_API values_t data_shift(array_t arr);
-C_API void data_append_item(array_t arr, ...);
+C_API array_t data_append_item(array_t arr, ...);
 C_API void data_delete(array_t);
 C_API void data_remove(array_t, size_t);
 
@@ -212,7 +213,7 @@ C_API tuple_t data_tuple(array_t);
 C_API array_t data_reset(array_t);
 C_API size_t data_size(array_t);
 C_API size_t data_capacity(array_t);
-C_API void data_reserve(array_t, size_t);
+C_API array_t data_reserve(array_t, size_t);
 C_API atomic_spinlock *data_lock(array_t);
 C_API size_t data_queue_size(void);
 C_API data_types data_type(void *self);
@@ -248,15 +249,15 @@ C_API range_t range_char(const char *text);
 #ifndef $append
 /* Collect references for global cleanup. */
 #define $gc(ptr) 						data_gc((void *)ptr)
-#define $append(arr, value) 			data_append((array_t)arr, (void *)value)
-#define $append_double(arr, value) 		data_append_item((array_t)arr, DATA_DOUBLE, (double)value)
-#define $append_unsigned(arr, value)	data_append_item((array_t)arr, DATA_MAXSIZE, (size_t)value)
-#define $append_signed(arr, value) 		data_append_item((array_t)arr, DATA_LLONG, (int64_t)value)
-#define $append_string(arr, value) 		data_append_item((array_t)arr, DATA_STRING, (char *)value)
-#define $append_func(arr, value) 		data_append_item((array_t)arr, DATA_FUNC, (data_func_t)value)
-#define $append_char(arr, value) 		data_append_item((array_t)arr, DATA_CHAR, (char)value)
-#define $append_bool(arr, value) 		data_append_item((array_t)arr, DATA_BOOL, (bool)value)
-#define $append_short(arr, value) 		data_append_item((array_t)arr, DATA_SHORT, (short)value)
+#define $append(arr, value) 			(arr) = data_append((array_t)arr, (void *)value)
+#define $append_double(arr, value) 		(arr) = data_append_item((array_t)arr, DATA_DOUBLE, (double)value)
+#define $append_unsigned(arr, value)	(arr) = data_append_item((array_t)arr, DATA_MAXSIZE, (size_t)value)
+#define $append_signed(arr, value) 		(arr) = data_append_item((array_t)arr, DATA_LLONG, (int64_t)value)
+#define $append_string(arr, value) 		(arr) = data_append_item((array_t)arr, DATA_STRING, (char *)value)
+#define $append_func(arr, value) 		(arr) = data_append_item((array_t)arr, DATA_FUNC, (data_func_t)value)
+#define $append_char(arr, value) 		(arr) = data_append_item((array_t)arr, DATA_CHAR, (char)value)
+#define $append_bool(arr, value) 		(arr) = data_append_item((array_t)arr, DATA_BOOL, (bool)value)
+#define $append_short(arr, value) 		(arr) = data_append_item((array_t)arr, DATA_SHORT, (short)value)
 #define $copy(des, src) 				data_copy((array_t)des, (array_t)src)
 #define $remove(arr, index) 			data_remove((array_t)arr, index)
 #define $pop(arr) 						data_pop((array_t)arr)
@@ -267,7 +268,7 @@ C_API range_t range_char(const char *text);
 #define $delete(arr) 					data_delete((array_t)arr)
 #define $capacity(arr) 					data_capacity((array_t)arr)
 #define $lock(arr) 						data_lock((array_t)arr)
-#define $reserve(arr, cap)				data_reserve((array_t)arr, (size_t)cap)
+#define $reserve(arr, cap)				(arr) = data_reserve((array_t)arr, (size_t)cap)
 #endif
 
 #define trim_at(str, pos) (char *)((uintptr_t)(str) + (pos))
diff --git a/src/arrays.c b/src/arrays.c
index cc0ff10..1af9638 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -28,6 +28,8 @@ typedef struct array_metadata_s {
 
 static char EVENTS_ARGS[EVENTS_ARGS_LENGTH] = {0};
 const data_values_t data_values_empty[1] = {0};
+/* not the lock of the array itself, the array moves when it grows */
+static atomic_spinlock data_gc_lock;
 
 #define array_address(vec) (&((array_metadata_t *)(vec))[-1])
 #define array_base(ptr) ((void *)&((array_metadata_t *)(ptr))[1])
@@ -124,9 +126,11 @@ EVENTS_INLINE atomic_spinlock *data_lock(array_t v) {
 	return &array_mutex(v);
 }
 
-EVENTS_INLINE void data_reserve(array_t v, size_t capacity) {
+EVENTS_INLINE array_t data_reserve(array_t v, size_t capacity) {
 	if (v && capacity)
 		array_reserve(v, capacity);
+
+	return v;
 }
 
 EVENTS_INLINE void data_remove(array_t arr, size_t i) {
@@ -150,18 +154,20 @@ EVENTS_INLINE void data_delete(array_t arr) {
 	}
 }
 
-EVENTS_INLINE void data_append(array_t arr, void *value) {
+EVENTS_INLINE array_t data_append(array_t arr, void *value) {
 	if (array_type(arr) == DATA_TUPLE)
 		throw(logic_error);
 
 	size_t size, cv_cap__ = array_cap(arr);
 	if (cv_cap__ <= array_length(arr)) {
-		size = cv_cap__ << 1;
+		size = cv_cap__ ? cv_cap__ << 1 : 2;
 		array_grow(arr, size);
 	}
 
 	arr[array_length(arr)].object = value;
 	array_set_size(arr, array_length(arr) + 1);
+
+	return arr;
 }
 
 EVENTS_INLINE values_t data_pop(array_t arr) {
@@ -194,7 +200,7 @@ EVENTS_INLINE values_t data_shift(array_t arr) {
 	return data_values_empty->value;
 }
 
-void data_append_item(array_t arr, ...) {
+array_t data_append_item(array_t arr, ...) {
 	if (array_type(arr) == DATA_TUPLE)
 		throw(logic_error);
 
@@ -202,7 +208,7 @@ void data_append_item(array_t arr, ...) {
 	data_types n = DATA_INVALID;
 	size_t size, cv_cap__ = array_cap(arr), index = array_length(arr);
 	if (cv_cap__ <= index) {
-		size = cv_cap__ << 1;
+		size = cv_cap__ ? cv_cap__ << 1 : 2;
 		array_grow(arr, size);
 	}
 
@@ -229,6 +235,8 @@ void data_append_item(array_t arr, ...) {
 	}
 	va_end(ap);
 	array_set_size(arr, index + 1);
+
+	return arr;
 }
 
 EVENTS_INLINE array_t data_copy(array_t des, array_t src) {
@@ -302,9 +310,9 @@ array_t arrays(size_t count, ...) {
 }
 
 EVENTS_INLINE void data_gc(void *ptr) {
-	atomic_lock($lock(sys_event.gc));
+	atomic_lock(&data_gc_lock);
 	$append(sys_event.gc, ptr);
-	atomic_unlock($lock(sys_event.gc));
+	atomic_unlock(&data_gc_lock);
 }
 
 EVENTS_INLINE array_t array(void) {
diff --git a/src/async_tls.c b/src/async_tls.c
index 670714e..5da1be1 100644
--- a/src/async_tls.c
+++ b/src/async_tls.c
@@ -422,7 +422,7 @@ static array_t thrd_return(array_t args, size_t numof, ...) {
 		$reset(args);
 		va_start(ap, numof);
 		for (i = 0; i < numof; i++)
-			data_append(args, va_arg(ap, void *));
+			$append(args, va_arg(ap, void *));
 		va_end(ap);
 
 		return args;
diff --git a/src/events.c b/src/events.c
index 6c974bf..6737025 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2225,6 +2225,8 @@ array_t waitfor(waitgroup_t wg) {
 		t->group_active = false;
 		t->group_finish = true;
 		wgr = array();
+		/* the workers append too, it must not move */
+		$reserve(wgr, $size(wg->group) + 1);
 		wg->results = wgr;
 		tasks_poster(wg);
 		foreach(co in wg->group) {
-- 
2.43.0


From 589d6ce026be766721ba914c6b86f5fa58e1e783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:49 +0000
Subject: [PATCH 37/82] fix: a task's deferred calls went to the guard of
 another task, those deferred while unwinding were lost

---
 src/events.c          | 64 ++++++++++++++++++++----------------
 src/events_internal.h |  7 ++--
 src/except.c          | 76 +++++++++++++++++++++++++------------------
 3 files changed, 85 insertions(+), 62 deletions(-)

diff --git a/src/events.c b/src/events.c
index 6737025..1c50d80 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1102,30 +1102,35 @@ void task_delete(tasks_t *co) {
 	}
 }
 
-void deferred_unwind(array_t garbage) {
-	if (is_data(garbage)) {
-		foreach_back(arr in garbage) {
-			if (is_ptr_usable(arr.object)) {
-				data_types type = data_type(arr.object);
-				if (is_data(arr.object)) {
-					$delete(arr.object);
-				} else if (type == DATA_DEFER) {
-					defer_t *clean = (defer_t *)arr.object;
-					clean->type = DATA_INVALID;
-					if (clean->is_ptr)
-						clean->func(clean->data);
-					else
-						clean->_func(clean->value);
-					events_free(clean);
-				} else if (type == DATA_OBJ || type == DATA_HASHTABLE || type == DATA_MAP) {
-					((data_object_t *)arr.object)->dtor(arr.object);
-				} else if (!is_empty(arr.object)) {
-					events_free(arr.object);
-				}
+void deferred_unwind(array_t *garbage) {
+	if (!is_data(*garbage))
+		return;
+
+	/* newest first, also what is deferred meanwhile */
+	while ($size(*garbage) > 0) {
+		void *object = $pop(*garbage).object;
+		if (is_ptr_usable(object)) {
+			data_types type = data_type(object);
+			if (is_data(object)) {
+				$delete(object);
+			} else if (type == DATA_DEFER) {
+				defer_t *clean = (defer_t *)object;
+				clean->type = DATA_INVALID;
+				if (clean->is_ptr)
+					clean->func(clean->data);
+				else
+					clean->_func(clean->value);
+				events_free(clean);
+			} else if (type == DATA_OBJ || type == DATA_HASHTABLE || type == DATA_MAP) {
+				((data_object_t *)object)->dtor(object);
+			} else {
+				events_free(object);
 			}
 		}
-		$delete(garbage);
 	}
+
+	$delete(*garbage);
+	*garbage = null;
 }
 
 void events_ctr_c_unwind(void) {
@@ -1135,7 +1140,7 @@ void events_ctr_c_unwind(void) {
 	tasks_t *co = atexit_ctr_c_task;
 	atexit_ctr_c_task = null;
 	data_delete(co->args);
-	deferred_unwind(co->garbage);
+	deferred_unwind(&co->garbage);
 	task_delete(co);
 }
 
@@ -1168,8 +1173,7 @@ void task_awaitable(void) {
 	param_t args = (param_t)co->args;
 	tasks_result_set(co, co->func(args));
 	data_delete(args);
-	deferred_unwind(co->garbage);
-	co->garbage = null;
+	deferred_unwind(&co->garbage);
 }
 
 void task_func(void) {
@@ -1223,6 +1227,11 @@ EVENTS_INLINE void task_scope_set(ex_memory_t *scope) {
 	active_task()->scope = scope;
 }
 
+/* Is this the thread itself, not one of its tasks? */
+bool task_is_thread(void) {
+	return active_task() == __thrd()->active_buffer;
+}
+
 EVENTS_INLINE ex_memory_t *task_scope(void) {
 	return active_task()->scope;
 }
@@ -1955,7 +1964,7 @@ int deferred(func_t func, void *data, bool is_ptr) {
 		return TASK_ERRED;
 
 	if (scope_is_guarded()) {
-		return scope_deferred(scope_local()->arena, func, data);
+		return scope_deferred(guard_scope(), func, data, is_ptr);
 	}
 
 	defer_t *deferred = (defer_t *)events_malloc(sizeof(defer_t));
@@ -2545,7 +2554,7 @@ static int __tasks_pool_wrapper(void *arg) {
 			&& is_data(t->user_data)) {
 			t->user_data = null;
 			data_delete(params);
-			deferred_unwind(t->garbage);
+			deferred_unwind(&t->garbage);
 			task_delete(t);
 		}
 	}
@@ -2656,8 +2665,7 @@ static int __future_wrapper(void *arg) {
 			param_t args = worker->args;
 			if (worker->func)
 				res->object = worker->func(args);
-			deferred_unwind(active_task()->garbage);
-			active_task()->garbage = null;
+			deferred_unwind(&active_task()->garbage);
 			worker->args = null;
 			promise_set(worker, res->object);
 
diff --git a/src/events_internal.h b/src/events_internal.h
index 67d67f8..2ef8f9a 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -525,6 +525,7 @@ struct ex_memory_s {
 
 struct ex_guard_s {
 	data_types type;
+	ex_memory_t *outer;
 	ex_memory_t scope[1];
 };
 
@@ -614,9 +615,11 @@ int fsevents_init(const char *name, watch_cb handler, void *filter);
 int fsevents_stop(uint32_t rid);
 
 bool scope_is_guarded(void);
-int scope_deferred(ex_memory_t *scope, func_t func, void *data);
+ex_memory_t *guard_scope(void);
+int scope_deferred(ex_memory_t *scope, func_t func, void *data, bool is_ptr);
 void ex_update(ex_context_t *context);
-void deferred_unwind(array_t garbage);
+bool task_is_thread(void);
+void deferred_unwind(array_t *garbage);
 
 char *str_parseip(char *name, uint32_t *ip, int *port, bool autofree);
 #ifdef __cplusplus
diff --git a/src/except.c b/src/except.c
index 127925a..66cedbb 100644
--- a/src/except.c
+++ b/src/except.c
@@ -1030,22 +1030,27 @@ ex_memory_t *scope_init(void) {
 	return scope;
 }
 
-EVENTS_INLINE ex_memory_t *get_scope(void) {
+/* The innermost open `guard` of the ~current~ task, or thread without tasks,
+a task is not inside the `guard` another task of its thread has open. */
+ex_memory_t *guard_scope(void) {
 	ex_memory_t *scope = null;
-	if (tasks_is_active())
+	if (tasks_is_active()) {
 		scope = task_scope();
-
-	if (is_empty(scope)) {
-		scope = scope_init();
-		if (scope->status == DATA_GUARDED_STATUS)
-			scope = ((ex_memory_t *)scope->arena);
+		/* may be opened before there were tasks */
+		if (!is_empty(scope) || !task_is_thread())
+			return scope;
 	}
 
-	return scope;
+	return is_empty(scope = scope_local()) ? null : (ex_memory_t *)scope->arena;
+}
+
+EVENTS_INLINE ex_memory_t *get_scope(void) {
+	ex_memory_t *thread = scope_init(), *scope = guard_scope();
+	return is_empty(scope) ? thread : scope;
 }
 
 bool scope_is_guarded(void) {
-	return get_scope()->status == DATA_GUARDED_STATUS;
+	return !is_empty(guard_scope());
 }
 
 void scope_unwind(ex_memory_t *scope) {
@@ -1053,17 +1058,18 @@ void scope_unwind(ex_memory_t *scope) {
 		return;
 
 	bool defer_ran = false;
-	size_t i;
 
 	scope->is_recovered = is_empty(scope->err);
-	foreach_back(arr in scope->defer_arr) {
-		if (is_ptr_usable(arr.object)) {
-			data_types type = data_type(arr.object);
-			if (is_data(arr.object)) {
-				$delete(arr.object);
+	/* newest first, also what is deferred meanwhile */
+	while ($size(scope->defer_arr) > 0) {
+		void *object = $pop(scope->defer_arr).object;
+		if (is_ptr_usable(object)) {
+			data_types type = data_type(object);
+			if (is_data(object)) {
+				$delete(object);
 			} else if (type == DATA_DEFER) {
 				defer_ran = true;
-				defer_t *clean = (defer_t *)arr.object;
+				defer_t *clean = (defer_t *)object;
 				clean->type = DATA_INVALID;
 				if (clean->is_ptr)
 					clean->func(clean->data);
@@ -1071,9 +1077,9 @@ void scope_unwind(ex_memory_t *scope) {
 					clean->_func(clean->value);
 				events_free(clean);
 			} else if (type == DATA_OBJ || type == DATA_HASHTABLE || type == DATA_MAP) {
-				((data_object_t *)arr.object)->dtor(arr.object);
-			} else if (!is_empty(arr.object)) {
-				events_free(arr.object);
+				((data_object_t *)object)->dtor(object);
+			} else {
+				events_free(object);
 			}
 		}
 	}
@@ -1095,12 +1101,18 @@ void scope_unwind(ex_memory_t *scope) {
 	}
 }
 
-int scope_deferred(ex_memory_t *scope, func_t func, void *data) {
+int scope_deferred(ex_memory_t *scope, func_t func, void *data, bool is_ptr) {
 	defer_t *deferred = (defer_t *)events_malloc(sizeof(defer_t));
 	if (deferred) {
-		deferred->is_ptr = true;
-		deferred->func = func;
-		deferred->data = data;
+		deferred->is_ptr = is_ptr;
+		if (is_ptr) {
+			deferred->func = func;
+			deferred->data = data;
+		} else {
+			deferred->_func = (defer_func)func;
+			deferred->value = (intptr_t)data;
+		}
+
 		deferred->type = DATA_DEFER;
 		atomic_lock($lock(scope->defer_arr));
 		$append(scope->defer_arr, deferred);
@@ -1117,7 +1129,7 @@ void *fence(void *ptr, func_t func) {
 
 	ex_memory_t *scope = get_scope();
 	ex_init();
-	if (scope_deferred(scope, func, ptr) != TASK_ERRED)
+	if (scope_deferred(scope, func, ptr, true) != TASK_ERRED)
 		scope->is_protected = true;
 
 	return ptr;
@@ -1130,6 +1142,7 @@ ex_guard_t *guard_init(void) {
 
 	gd->scope->defer_arr = array();
 	gd->scope->status = DATA_GUARDED_STATUS;
+	gd->outer = tasks_is_active() ? task_scope() : null;
 
 	ex_context_t *ctx = ex_init();
 	ctx->data = (void *)gd->scope;
@@ -1158,7 +1171,7 @@ EVENTS_INLINE const char *guard_message(void) {
 	const char *exception = (const char *)(!is_empty(scope->_panic) ? scope->_panic : scope->err);
 	return exception == NULL ? ex_local()->ex : exception;
 #else
-	ex_memory_t *scope = scope_local()->arena;
+	ex_memory_t *scope = guard_scope();
 	if (is_empty(scope)) {
 		/* This is temporary, need custom indicator flag instead and routine.
 		 * Since this also means no error */
@@ -1178,7 +1191,10 @@ EVENTS_INLINE bool guard_caught(const char *err) {
 		return true;
 	}
 #else
-	ex_memory_t *scope = scope_local()->arena;
+	ex_memory_t *scope = guard_scope();
+	if (is_empty(scope))
+		return false;
+
     const char *exception = (const char *)(!is_empty((void *)scope->_panic) ? scope->_panic : scope->err);
 #endif
     if ((scope->is_recovered = str_is(err, exception)))
@@ -1188,12 +1204,8 @@ EVENTS_INLINE bool guard_caught(const char *err) {
 }
 
 void guard_set(ex_context_t *ctx, const char *ex, const char *message) {
-    ex_memory_t* scope = scope_local();
+    ex_memory_t* scope = guard_scope();
     if (!is_empty(scope)) {
-        scope = (ex_memory_t*)scope->arena;
-        if (is_empty(scope))
-            return;
-
         scope->err = (void*)ex;
         scope->_panic = message;
         ctx->is_guarded = true;
@@ -1215,7 +1227,7 @@ void guard_reset(ex_guard_t *block, void *scope, ex_setup_func set, ex_unwind_fu
 		guard_setup_func = set;
 		guard_unwind_func = unwind;
 		if (tasks_is_active())
-			task_scope_set(null);
+			task_scope_set(block->outer);
 
 		events_free(block);
 	}
-- 
2.43.0


From 44b51d999aed75d4f2e0b77f9f62e77f2fb3bd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:11 +0000
Subject: [PATCH 38/82] fix: a task was announced terminated before its
 deferred calls had run

---
 src/events.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index 1c50d80..5003ad2 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1171,9 +1171,11 @@ void task_done(void) {
 void task_awaitable(void) {
 	tasks_t *co = active_task();
 	param_t args = (param_t)co->args;
-	tasks_result_set(co, co->func(args));
+	void *data = co->func(args);
 	data_delete(args);
 	deferred_unwind(&co->garbage);
+	/* a waiter may release the task now */
+	tasks_result_set(co, data);
 }
 
 void task_func(void) {
-- 
2.43.0


From 6ca67bf2f5d020278288f5cdd92b5724b315cb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 39/82] fix: the arguments of a task were released before its
 deferred calls, which may use them

---
 src/events.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index 5003ad2..cb27e7a 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1172,8 +1172,8 @@ void task_awaitable(void) {
 	tasks_t *co = active_task();
 	param_t args = (param_t)co->args;
 	void *data = co->func(args);
-	data_delete(args);
 	deferred_unwind(&co->garbage);
+	data_delete(args);
 	/* a waiter may release the task now */
 	tasks_result_set(co, data);
 }
-- 
2.43.0


From 9e68ba53961a4705febe2e17592e57fd7cecaeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:30 +0000
Subject: [PATCH 40/82] fix: released memory starting like a deferred call or
 an object was called as one, memory next to others taken for an array

---
 src/arrays.c          |  9 +++++++-
 src/events.c          | 50 ++++++++++++++++++++++++-------------------
 src/events_internal.h |  6 ++++++
 src/except.c          | 26 ++++------------------
 4 files changed, 46 insertions(+), 45 deletions(-)

diff --git a/src/arrays.c b/src/arrays.c
index 1af9638..be136bc 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -18,8 +18,12 @@
 #	define UNEXPECTED(x) __builtin_expect((x), 0)
 #endif
 
+/* tells an array from any other memory */
+#define ARRAY_MAGIC_NUMBER	0xA77A5EED
+
 typedef struct array_metadata_s {
 	data_types type;
+	unsigned int magic;
 	size_t size;
 	size_t capacity;
 	events_cacheline_t _pad;
@@ -51,6 +55,7 @@ static atomic_spinlock data_gc_lock;
             void *cv_p__ = events_malloc(cv_sz__);	\
             (vec) = array_base(cv_p__);			\
             array_set_size((vec), 0);			\
+            array_address(vec)->magic = ARRAY_MAGIC_NUMBER;	\
             array_set_type((vec), DATA_ARRAY);	\
         }										\
         array_set_capacity((vec), (count));		\
@@ -150,6 +155,7 @@ EVENTS_INLINE void data_delete(array_t arr) {
 	if (arr && is_ptr_usable(arr)) {
 		void *p1__ = array_address(arr);
 		array_set_type(arr, DATA_INVALID);
+		array_address(arr)->magic = 0;
 		events_free(p1__);
 	}
 }
@@ -331,7 +337,8 @@ EVENTS_INLINE data_types data_type(void *self) {
 }
 
 EVENTS_INLINE bool is_data(void *params) {
-	return (is_empty(params) || !is_ptr_usable(params))
+	return (is_empty(params) || !is_ptr_usable(params)
+		|| array_address(params)->magic != ARRAY_MAGIC_NUMBER)
 		? false
 		: array_type((array_t)params) == DATA_ARRAY
 		|| array_type((array_t)params) == DATA_RANGE
diff --git a/src/events.c b/src/events.c
index cb27e7a..69c8d81 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1102,32 +1102,34 @@ void task_delete(tasks_t *co) {
 	}
 }
 
+/* Make a deferred call, or release the memory, `true` if it was a call. */
+bool defer_release(void *object) {
+	bool is_call = is_defer(object);
+	if (is_call) {
+		defer_t *clean = defer_of(object);
+		clean->type = DATA_INVALID;
+		if (clean->is_ptr)
+			clean->func(clean->data);
+		else
+			clean->_func(clean->value);
+		events_free(clean);
+	} else if (is_ptr_usable(object)) {
+		if (is_data(object))
+			$delete(object);
+		else
+			events_free(object);
+	}
+
+	return is_call;
+}
+
 void deferred_unwind(array_t *garbage) {
 	if (!is_data(*garbage))
 		return;
 
 	/* newest first, also what is deferred meanwhile */
-	while ($size(*garbage) > 0) {
-		void *object = $pop(*garbage).object;
-		if (is_ptr_usable(object)) {
-			data_types type = data_type(object);
-			if (is_data(object)) {
-				$delete(object);
-			} else if (type == DATA_DEFER) {
-				defer_t *clean = (defer_t *)object;
-				clean->type = DATA_INVALID;
-				if (clean->is_ptr)
-					clean->func(clean->data);
-				else
-					clean->_func(clean->value);
-				events_free(clean);
-			} else if (type == DATA_OBJ || type == DATA_HASHTABLE || type == DATA_MAP) {
-				((data_object_t *)object)->dtor(object);
-			} else {
-				events_free(object);
-			}
-		}
-	}
+	while ($size(*garbage) > 0)
+		(void)defer_release($pop(*garbage).object);
 
 	$delete(*garbage);
 	*garbage = null;
@@ -1907,6 +1909,10 @@ bool defer_free(void *data) {
 	if (data == NULL)
 		return false;
 
+	data_types type = is_ptr_usable(data) && !is_data(data) ? data_type(data) : DATA_INVALID;
+	if ((type == DATA_OBJ || type == DATA_HASHTABLE || type == DATA_MAP) && ((data_object_t *)data)->dtor)
+		return deferred((func_t)((data_object_t *)data)->dtor, data, true) > 0;
+
 	if (tasks_is_active()) {
 		if (!is_empty(__thrd()->running))
 			t = __thrd()->running;
@@ -1971,7 +1977,7 @@ int deferred(func_t func, void *data, bool is_ptr) {
 
 	defer_t *deferred = (defer_t *)events_malloc(sizeof(defer_t));
 	int index = TASK_ERRED;
-	if ((index = _defer_init(deferred)) > 0) {
+	if ((index = _defer_init(is_empty(deferred) ? null : defer_mark(deferred))) > 0) {
 		deferred->is_ptr = is_ptr;
 		if (is_ptr) {
 			deferred->func = func;
diff --git a/src/events_internal.h b/src/events_internal.h
index 2ef8f9a..f3cd346 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -620,6 +620,12 @@ int scope_deferred(ex_memory_t *scope, func_t func, void *data, bool is_ptr);
 void ex_update(ex_context_t *context);
 bool task_is_thread(void);
 void deferred_unwind(array_t *garbage);
+/* A deferred call is told from other memory in the same list by the lowest bit of its address,
+the memory may hold anything. */
+#define defer_mark(call)	((void *)((uintptr_t)(call) | 1))
+#define is_defer(object)	(((uintptr_t)(object) & 1) != 0)
+#define defer_of(object)	((defer_t *)((uintptr_t)(object) & ~(uintptr_t)1))
+bool defer_release(void *object);
 
 char *str_parseip(char *name, uint32_t *ip, int *port, bool autofree);
 #ifdef __cplusplus
diff --git a/src/except.c b/src/except.c
index 66cedbb..ac83910 100644
--- a/src/except.c
+++ b/src/except.c
@@ -1062,29 +1062,12 @@ void scope_unwind(ex_memory_t *scope) {
 	scope->is_recovered = is_empty(scope->err);
 	/* newest first, also what is deferred meanwhile */
 	while ($size(scope->defer_arr) > 0) {
-		void *object = $pop(scope->defer_arr).object;
-		if (is_ptr_usable(object)) {
-			data_types type = data_type(object);
-			if (is_data(object)) {
-				$delete(object);
-			} else if (type == DATA_DEFER) {
-				defer_ran = true;
-				defer_t *clean = (defer_t *)object;
-				clean->type = DATA_INVALID;
-				if (clean->is_ptr)
-					clean->func(clean->data);
-				else
-					clean->_func(clean->value);
-				events_free(clean);
-			} else if (type == DATA_OBJ || type == DATA_HASHTABLE || type == DATA_MAP) {
-				((data_object_t *)object)->dtor(object);
-			} else {
-				events_free(object);
-			}
-		}
+		if (defer_release($pop(scope->defer_arr).object))
+			defer_ran = true;
 	}
 
 	$delete(scope->defer_arr);
+	scope->defer_arr = null;
 	if (scope->is_protected && !is_empty(scope->protector) && !is_empty(scope->err)) {
 		scope->is_protected = false;
 		if (!defer_ran) {
@@ -1093,7 +1076,6 @@ void scope_unwind(ex_memory_t *scope) {
 		}
 	}
 
-	scope->defer_arr = null;
 	scope->is_protected = false;
 	if (!is_empty(scope->protector)) {
 		ex_unprotected_ptr(scope->protector);
@@ -1115,7 +1097,7 @@ int scope_deferred(ex_memory_t *scope, func_t func, void *data, bool is_ptr) {
 
 		deferred->type = DATA_DEFER;
 		atomic_lock($lock(scope->defer_arr));
-		$append(scope->defer_arr, deferred);
+		$append(scope->defer_arr, defer_mark(deferred));
 		atomic_unlock($lock(scope->defer_arr));
 		return $size(scope->defer_arr);
 	}
-- 
2.43.0


From 2e4397f10524a0aaec4149858516e4db2a7a1208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:14 +0000
Subject: [PATCH 41/82] fix: range() with a stop below its start claimed room
 its memory does not have

---
 src/arrays.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arrays.c b/src/arrays.c
index be136bc..d436447 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -98,7 +98,7 @@ range_t rangeing(int start, int stop, int steps) {
 range_t range(int start, int stop) {
 	range_t arr = array();
 	int i, n = stop - start;
-	array_grow((arr), (n + 1));
+	array_grow((arr), (n > 0 ? n + 1 : 1));
 	for (i = start; i < stop; i++)
 		$append(arr, (intptr_t)i);
 
-- 
2.43.0


From af9fc72fe543ed212b1b94c3f8e0d81cb9b764ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:32 +0000
Subject: [PATCH 42/82] fix: a worker destroyed the main thread's loop again,
 closing whatever descriptor had its number

---
 src/events.c          | 3 ++-
 src/events_internal.h | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index 69c8d81..a344112 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2653,7 +2653,7 @@ int events_create_pool(events_t *loop) {
 static int __future_wrapper(void *arg) {
 	future *work = (future *)arg;
 	events_deque_t *queue = work->queue;
-	events_t *loop = work->queue->loop;
+	events_t *loop = work->is_shared ? NULL : work->queue->loop;
 	values_t res[1] = {0};
 	int status = 0, tid = work->id;
 
@@ -2716,6 +2716,7 @@ future *events_create_future(events_t *loop) {
 				f_work->queue->loop = loop;
 				f_work->queue->pool = f_work;
 				f_work->last_fd = TASK_ERRED;
+				f_work->is_shared = loop == __thrd()->loop;
 				f_work->type = DATA_THREAD;
 				local[index]->thread = os_create(__future_wrapper, (void *)f_work);
 				if (local[index]->thread != OS_NULL) {
diff --git a/src/events_internal.h b/src/events_internal.h
index f3cd346..3217dff 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -171,6 +171,8 @@ struct _future {
 	data_types type;
 	int id;
 	int last_fd;
+	/* the loop belongs to the thread that created it */
+	bool is_shared;
 	events_deque_t *queue;
 	atomic_spinlock mutex;
 	char buffer[MAX_PATH];
-- 
2.43.0


From ab089b8aeed446a294fc114a43779aee26b54ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:38 +0000
Subject: [PATCH 43/82] fix: a thread kept using its system task after the
 scheduler had released it

---
 src/events.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/events.c b/src/events.c
index a344112..f0030a9 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1186,6 +1186,9 @@ void task_func(void) {
 }
 
 static EVENTS_INLINE void task_sleep_switch(void) {
+	if (__thrd()->sleep_handle == NULL)
+		return;
+
 	task_switch(__thrd()->sleep_handle);
 	task_scheduler_switch();
 }
@@ -2461,6 +2464,9 @@ static int tasks_schedulering(bool do_io) {
 		}
 
 		if (!t->waiting && !t->referenced) {
+			if (t == __thrd()->sleep_handle)
+				__thrd()->sleep_handle = NULL;
+
 			task_delete(t);
 		} else if (t->referenced) {
 			data_gc(t);
-- 
2.43.0


From 37bcb99b987852f81f85b59b88b5bdeb589f80b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:00 +0000
Subject: [PATCH 44/82] fix: a pool worker looked at its main task after the
 scheduler had released it

---
 src/events.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/events.c b/src/events.c
index f0030a9..9aa048b 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2558,6 +2558,8 @@ static int __tasks_pool_wrapper(void *arg) {
 		tasks_t *t = create_task(Kb(32), (data_func_t)__tasks_pool_main, params, false, true);
 		(void)task_push(t, false);
 		t->user_data = params;
+		/* still looked at below when it has ended */
+		t->referenced = true;
 		__thrd()->pool = work->queue->pool;
 		do {
 			if (!__thrd()->task_count || atomic_flag_load_explicit(&queue->shutdown, memory_order_relaxed)
-- 
2.43.0


From d8ad5b642f7d6c6530ff29473d58df5a6702bc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:41 +0000
Subject: [PATCH 45/82] fix: Ctrl-C looked into the record of a main task that
 had been released

---
 src/events.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/events.c b/src/events.c
index 9aa048b..857482b 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2466,6 +2466,8 @@ static int tasks_schedulering(bool do_io) {
 		if (!t->waiting && !t->referenced) {
 			if (t == __thrd()->sleep_handle)
 				__thrd()->sleep_handle = NULL;
+			else if (t == atexit_ctr_c_task)
+				atexit_ctr_c_task = NULL;
 
 			task_delete(t);
 		} else if (t->referenced) {
-- 
2.43.0


From 77b16de1cd8f2989daac0681ea244d033cecce0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:26 +0000
Subject: [PATCH 46/82] fix: a generator's last value was lost, and its record
 used after release, when its task ended first

---
 src/events.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/events.c b/src/events.c
index 857482b..22c2085 100644
--- a/src/events.c
+++ b/src/events.c
@@ -307,6 +307,8 @@ EVENTS_INLINE void events_deinit(void) {
 			foreach_back(t in sys_event.gc) {
 				if (is_data(t.object))
 					$delete(t.object);
+				else if (data_type(t.object) == DATA_GENERATOR)
+					events_free(t.object);
 				else if (is_ptr_usable(t.object)
 					&& ((tasks_t *)t.object)->magic_number == TASK_MAGIC_NUMBER) {
 #if defined(_WIN32) && defined(USE_FIBER)
@@ -1174,6 +1176,9 @@ void task_awaitable(void) {
 	tasks_t *co = active_task();
 	param_t args = (param_t)co->args;
 	void *data = co->func(args);
+	if (co->is_generator)
+		co->generator->context = NULL;
+
 	deferred_unwind(&co->garbage);
 	data_delete(args);
 	/* a waiter may release the task now */
@@ -1628,8 +1633,8 @@ generator_t generator(param_func_t fn, size_t num_of, ...) {
 			gen->type = DATA_GENERATOR;
 			t->generator = gen;
 			t->is_generator = true;
-			t->garbage = array();
-			$append(t->garbage, gen);
+			/* asked for values also when its task has ended */
+			data_gc(gen);
 		}
 	}
 
@@ -1654,12 +1659,12 @@ values_t yielded(generator_t gen) {
 	if (data_type(gen) != DATA_GENERATOR)
 		return data_values_empty->value;
 
-	while (!gen->is_ready && !gen->context->halt) {
+	while (!gen->is_ready && gen->context != NULL) {
 		active_info();
 		yield();
 	}
 
-	if (data_type(gen) != DATA_GENERATOR || (gen->context->halt && !gen->is_ready))
+	if (!gen->is_ready)
 		return data_values_empty->value;
 
 	active_task()->gen_id = gen->rid;
-- 
2.43.0


From 95ee5cb2451c34de38ec8b929f807f9a7235e895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:25 +0000
Subject: [PATCH 47/82] fix: tasks released by events_deinit stayed queued for
 the next events_init

---
 src/events.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/events.c b/src/events.c
index 22c2085..33df173 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1065,6 +1065,8 @@ static void __thrd_init(bool is_main, uint32_t thread_id) {
 	__thrd()->main_handle = NULL;
 	__thrd()->loop = NULL;
 	__thrd()->pool = NULL;
+	memset(__thrd()->run_queue, 0, sizeof(__thrd()->run_queue));
+	memset(__thrd()->sleep_queue, 0, sizeof(__thrd()->sleep_queue));
 	__thrd()->sleep_handle = create_task(Kb(18), (data_func_t)task_wait_system, null, false, true);
 	__thrd()->sleep_activated = (int)task_push(__thrd()->sleep_handle, true) > 0;
 }
-- 
2.43.0


From 95751095c5f5c0641affced1a17834d3499b4456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:25 +0000
Subject: [PATCH 48/82] fix: after a failed events_init the next one reported
 success with nothing set up

---
 src/events.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/events.c b/src/events.c
index 33df173..d705513 100644
--- a/src/events.c
+++ b/src/events.c
@@ -241,6 +241,7 @@ int events_init(int max_fd) {
 	cerr("%s, %s"CLR_LN, events_uname(), events_hostname());
 #endif
 	if (os_init() == -1) {
+		events_startup_set = false;
 		return -1;
 	}
 
@@ -255,6 +256,7 @@ int events_init(int max_fd) {
 	events_fd_t *fds = (events_fd_t *)events_memalign(sizeof(events_fd_t) * max_fd, &sys_event._fds_free_addr, 1);
 	if (fds == NULL) {
 		os_shutdown();
+		events_startup_set = false;
 		return -1;
 	}
 
-- 
2.43.0


From 801842655e5fea5bdbe7bfc21383d3e9db87c679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:25 +0000
Subject: [PATCH 49/82] fix: the main task of a second events_start was not
 made as one

---
 src/events.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/events.c b/src/events.c
index d705513..8ca9b6e 100644
--- a/src/events.c
+++ b/src/events.c
@@ -369,6 +369,7 @@ EVENTS_INLINE void events_deinit(void) {
 #ifdef _WIN32
 	WSACleanup();
 #endif
+	events_tasks_started = false;
 	events_startup_set = false;
 }
 
-- 
2.43.0


From 134a2669eb5609a22a94fa08e9c8861642b527d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:52 +0000
Subject: [PATCH 50/82] fix: a loop that could not be created stayed the loop
 of its thread, released

---
 src/epoll.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/epoll.c b/src/epoll.c
index 08ddb9a..54f7982 100644
--- a/src/epoll.c
+++ b/src/epoll.c
@@ -49,24 +49,24 @@ typedef struct events_epoll_s {
 events_t *events_create(int max_timeout) {
 	events_epoll *loop;
 
-	/* init parent */
 	assert(EVENTS_IS_INITD);
 	if ((loop = (events_epoll *)events_malloc(sizeof(events_epoll))) == NULL) {
 		return NULL;
 	}
-	if (events_init_loop_internal(&loop->loop, max_timeout) != 0) {
-		events_free(loop);
-		return NULL;
-	}
 
-	/* init myself */
+	/* init myself first, others know of the loop once the parent is done */
 #ifndef _WIN32
 	if ((loop->epfd = epoll_create(sys_event.max_fd)) == -1)
 #else
 	if ((loop->epfd = epoll_create(sys_event.max_fd)) == NULL)
 #endif
 	{
-		events_deinit_loop_internal(&loop->loop);
+		events_free(loop);
+		return NULL;
+	}
+
+	if (events_init_loop_internal(&loop->loop, max_timeout) != 0) {
+		epoll_close(loop->epfd);
 		events_free(loop);
 		return NULL;
 	}
-- 
2.43.0


From 78d91c854d255f09a845160455db25f26e169972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:52 +0000
Subject: [PATCH 51/82] fix: a failed os_init left itself initialized, or
 cleared a table never filled

---
 src/os_unix.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index d37cd46..10afb31 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -81,10 +81,12 @@ int os_init(void) {
 	os_initialized = true;
 	fdTable = (FD_TABLE *)events_malloc(ioTableSize * sizeof(FD_TABLE));
 	if (fdTable == NULL) {
+		os_initialized = false;
 		errno = ENOMEM;
 		return -1;
 	}
 
+	memset((char *)fdTable, 0, (size_t)(ioTableSize * sizeof(FD_TABLE)));
 	if (hIoCompPort == -1) {
 #if __APPLE__ && __MACH__
 		int status, rtoken;
@@ -103,7 +105,6 @@ int os_init(void) {
 		}
 	}
 
-	memset((char *)fdTable, 0, (size_t)(ioTableSize * sizeof(FD_TABLE)));
 	return 0;
 }
 
-- 
2.43.0


From 827155595773784ec6f3a93c42634d75033e044d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:09 +0000
Subject: [PATCH 52/82] fix: a worker that could not be started was joined at
 shutdown

---
 src/events.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/events.c b/src/events.c
index 8ca9b6e..540bd9d 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2660,7 +2660,14 @@ int events_create_pool(events_t *loop) {
 					$append_unsigned(sys_event.tasks_cpu_idx, index);
 					return 0;
 				}
+
+				$delete(t_work->queue->jobs);
+				events_free(t_work);
 			}
+
+			/* no thread to be joined later */
+			deque_free(local[index]);
+			local[index] = NULL;
 		}
 	} else if (is_ptr_usable(local[index])) {
 		errno = save_err;
@@ -2746,10 +2753,17 @@ future *events_create_future(events_t *loop) {
 					errno = save_err;
 					$append_unsigned(sys_event.future_cpu_idx, index);
 				} else {
+					$delete(f_work->queue->jobs);
 					events_free(f_work);
 					f_work = NULL;
 				}
 			}
+
+			/* no thread to be joined later */
+			if (f_work == NULL) {
+				deque_free(local[index]);
+				local[index] = NULL;
+			}
 		}
 	}
 
-- 
2.43.0


From 49c6cf1c4358e936c098605b4aa7f942ed58d78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:09 +0000
Subject: [PATCH 53/82] fix: events_create_pool read past the table of queues
 with more loops than processors

---
 src/events.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index 540bd9d..e4b7f27 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2669,7 +2669,7 @@ int events_create_pool(events_t *loop) {
 			deque_free(local[index]);
 			local[index] = NULL;
 		}
-	} else if (is_ptr_usable(local[index])) {
+	} else if (index <= sys_event.cpu_count && is_ptr_usable(local[index])) {
 		errno = save_err;
 		return 0;
 	}
-- 
2.43.0


From d2ccf8d1dc37697dc2fc6c93a5481b71ff9bf6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:52 +0000
Subject: [PATCH 54/82] fix: the sleeper of a main thread without a pool
 crashed

---
 src/events.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index e4b7f27..c971bbe 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1351,7 +1351,7 @@ static void *task_wait_system(void *v) {
 		if (is_empty(__thrd()->loop))
 			return 0;
 
-		if (__thrd()->is_main
+		if (__thrd()->is_main && __thrd()->pool != NULL
 			&& atomic_flag_load_explicit(&__thrd()->pool->queue->shutdown, memory_order_relaxed)) {
 			__thrd()->loop = null;
 			return 0;
-- 
2.43.0


From 787ef8e889e5b9901b4854c946372ba2db97a381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:56 +0000
Subject: [PATCH 55/82] fix: a waitgroup of a thread that hands out no tasks
 waited forever for the workers

---
 src/events.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index c971bbe..2fe98c5 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2080,6 +2080,8 @@ static void tasks_poster(waitgroup_t wg) {
 		int c, i, k;
 		if (t->group_finish && t->task_group && !t->task_group->taken && t->task_group->threaded) {
 			t->task_group->taken = true;
+			/* each of the queues told below counts down */
+			wg->count = $size(sys_event.tasks_cpu_idx);
 			for (i = 0; i < $size(sys_event.tasks_cpu_idx); i++) {
 				k = sys_event.tasks_cpu_idx[i].u_int;
 				events_deque_t *q = sys_event.local[k];
@@ -2160,7 +2162,6 @@ waitgroup_t waitgroup(uint32_t capacity) {
 
 		wg->threaded = true;
 		wg->capacity = resized;
-		wg->count = active_cores;
 
 		for (i = 0; i < active_cores; i++) {
 			events_deque_t *q = sys_event.local[sys_event.tasks_cpu_idx[i].max_size];
-- 
2.43.0


From ddf3d09ab7483d6b5552284d02dd9928a5dd52e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:56 +0000
Subject: [PATCH 56/82] fix: the tasks of two waitgroups waited for at the same
 time got mixed up, and never ran

---
 src/events.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index 2fe98c5..06330a9 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2073,12 +2073,26 @@ EVENTS_INLINE task_group_t *task_group(void) {
 	return t->task_group;
 }
 
+static bool tasks_posted(void) {
+	int i;
+	for (i = 0; i < $size(sys_event.tasks_cpu_idx); i++) {
+		if (!is_empty(sys_event.local[(sys_event.tasks_cpu_idx[i].u_int)]->tasks))
+			return true;
+	}
+
+	return false;
+}
+
 static void tasks_poster(waitgroup_t wg) {
 	atomic_thread_fence(memory_order_seq_cst);
 	if (__thrd()->is_main) {
 		tasks_t *t = active_task();
 		int c, i, k;
 		if (t->group_finish && t->task_group && !t->task_group->taken && t->task_group->threaded) {
+			/* a worker takes one group at a time */
+			while (tasks_posted())
+				yield();
+
 			t->task_group->taken = true;
 			/* each of the queues told below counts down */
 			wg->count = $size(sys_event.tasks_cpu_idx);
@@ -2198,7 +2212,6 @@ static void __thrd_waitfor(events_deque_t *q) {
 	waitgroup_t wg = q->tasks;
 	tasklist_t *l = __thrd()->run_queue;
 	array_t wgr = wg->results;
-	q->tasks = NULL;
 
 	foreach(task in q->jobs) {
 		co = (tasks_t *)task.object;
@@ -2238,6 +2251,8 @@ static void __thrd_waitfor(events_deque_t *q) {
 		igroup = 0;
 	}
 
+	/* ready for the next group */
+	q->tasks = NULL;
 	atomic_lock($lock(wg->group));
 	wg->count--;
 	atomic_unlock($lock(wg->group));
-- 
2.43.0


From 37c594a78faa4262df104a7fc3b604852d682d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:56 +0000
Subject: [PATCH 57/82] fix: waitgroup() moved the list of jobs a worker was
 going through

---
 src/events.c | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/events.c b/src/events.c
index 06330a9..6e1f05f 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2099,6 +2099,10 @@ static void tasks_poster(waitgroup_t wg) {
 			for (i = 0; i < $size(sys_event.tasks_cpu_idx); i++) {
 				k = sys_event.tasks_cpu_idx[i].u_int;
 				events_deque_t *q = sys_event.local[k];
+				/* not before, the worker may still go through the former jobs */
+				if ($capacity(q->jobs) < wg->capacity)
+					$reserve(q->jobs, wg->capacity + 1);
+
 				for (c = 0; c < wg->capacity && $size(wg->group) > 0; c++) {
 					tasks_t *t = (tasks_t *)$pop(wg->group).object;
 					t->tid = k;
@@ -2169,24 +2173,13 @@ waitgroup_t waitgroup(uint32_t capacity) {
 	atomic_thread_fence(memory_order_seq_cst);
 	waitgroup_t wg = NULL;
 	if (is_data(sys_event.tasks_cpu_idx) && $size(sys_event.tasks_cpu_idx) > 0) {
-		size_t i, active_cores = $size(sys_event.tasks_cpu_idx), resized = capacity / (active_cores + 1);
+		size_t resized = capacity / ($size(sys_event.tasks_cpu_idx) + 1);
 		wg = task_group();
 		if ($capacity(wg->group) < capacity)
 			$reserve(wg->group, capacity + 1);
 
 		wg->threaded = true;
 		wg->capacity = resized;
-
-		for (i = 0; i < active_cores; i++) {
-			events_deque_t *q = sys_event.local[sys_event.tasks_cpu_idx[i].max_size];
-			if (is_ptr_usable(q) && is_data(q->jobs)) {
-				if ($capacity(q->jobs) < resized) {
-					atomic_lock($lock(q->jobs));
-					$reserve(q->jobs, resized + 1);
-					atomic_unlock($lock(q->jobs));
-				}
-			}
-		}
 	}
 
 	return wg;
-- 
2.43.0


From c5c0e8b9c200abba3185daf8237309de4c5a5c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:19 +0000
Subject: [PATCH 58/82] fix: an array made by appending had whatever was in
 memory as its lock

Only arrays() set the lock free: an array that an append, a copy or a reserve
creates kept the old contents of the block, and a non zero byte there means
locked, so the first user of its lock waited forever.
---
 src/arrays.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/arrays.c b/src/arrays.c
index d436447..b98b5be 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -57,6 +57,7 @@ static atomic_spinlock data_gc_lock;
             array_set_size((vec), 0);			\
             array_address(vec)->magic = ARRAY_MAGIC_NUMBER;	\
             array_set_type((vec), DATA_ARRAY);	\
+            atomic_flag_clear(&array_mutex(vec));	\
         }										\
         array_set_capacity((vec), (count));		\
     } while (0)
-- 
2.43.0


From eb2e8a646913520455841712400ae0c450ad903e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:19 +0000
Subject: [PATCH 59/82] fix: the list of watch tasks was created without a lock
 and moved under its own

Two threads starting their first watch could each create the list, losing a
task that could then not be stopped, and an append moved the memory of the
very lock the others were waiting for.
---
 src/events.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/events.c b/src/events.c
index 6e1f05f..9bd936d 100644
--- a/src/events.c
+++ b/src/events.c
@@ -494,12 +494,12 @@ int fsevents_init(const char *name, watch_cb handler, void *filter) {
 	int rid = task_push(create_task(Kb(26),
 		(data_func_t)fsevents_task, arrays(3, name, handler, filter), true, true), true);
 	if (rid > 0) {
+		atomic_lock(&sys_event.lock);
 		if (events_fsevents_tasks == null)
 			events_fsevents_tasks = array();
 
-		atomic_lock($lock(events_fsevents_tasks));
 		$append_signed(events_fsevents_tasks, rid);
-		atomic_unlock($lock(events_fsevents_tasks));
+		atomic_unlock(&sys_event.lock);
 		__thrd()->task_count++;
 	}
 
@@ -508,18 +508,20 @@ int fsevents_init(const char *name, watch_cb handler, void *filter) {
 
 int fsevents_stop(uint32_t rid) {
 	int found = TASK_ERRED;
-	if (rid > 0 && is_data(events_fsevents_tasks) && $size(events_fsevents_tasks) > 0) {
-		atomic_lock($lock(events_fsevents_tasks));
-		foreach(watch in events_fsevents_tasks) {
-			if (watch.integer == rid) {
-				$remove(events_fsevents_tasks, iwatch);
-				task_set_canceled(rid);
-				__thrd()->task_count--;
-				found = 0;
-				break;
+	if (rid > 0) {
+		atomic_lock(&sys_event.lock);
+		if (is_data(events_fsevents_tasks) && $size(events_fsevents_tasks) > 0) {
+			foreach(watch in events_fsevents_tasks) {
+				if (watch.integer == rid) {
+					$remove(events_fsevents_tasks, iwatch);
+					task_set_canceled(rid);
+					__thrd()->task_count--;
+					found = 0;
+					break;
+				}
 			}
 		}
-		atomic_unlock($lock(events_fsevents_tasks));
+		atomic_unlock(&sys_event.lock);
 	}
 
 	return found;
-- 
2.43.0


From 15af4e7fac74b46a797944806c2a3db2849364d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:10 +0000
Subject: [PATCH 60/82] fix: a unix socket that could not listen left its
 record allocated

---
 src/async_io.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/async_io.c b/src/async_io.c
index d2a5c14..c0838d0 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -92,6 +92,9 @@ fds_t async_socket(struct sockaddr *sa, char *address, int backlog, int protocol
 		if (listen(fd, backlog) != 0) {
 			cerr("Cannot listen to %s: %d (%s)"CLR_LN, address, os_geterror(), strerror(errno));
 			close(fd);
+			if (is_unix)
+				events_free(uds);
+
 			fd = INVALID_SOCKET;
 			return fd;
 		}
-- 
2.43.0


From f626f06c46e362a79f52c852460e42804acdddb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:10 +0000
Subject: [PATCH 61/82] fix: a file stayed open when there was no memory to
 read it into

---
 src/async_io.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index c0838d0..d794388 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -713,10 +713,10 @@ char *fs_readfile(const char *path) {
 	int fd = 0;
 	size_t len = fs_filesize(path);
 	if (len > 0 && (fd = fs_open(path, O_RDONLY, 0)) > 0) {
-		if (defer_free(buffer = events_calloc(1, _mem_align_up(len + 1, 2)))) {
+		if (defer_free(buffer = events_calloc(1, _mem_align_up(len + 1, 2))))
 			fs_read(fd, buffer, len);
-			fs_close(fd);
-		}
+
+		fs_close(fd);
 	}
 
 	return buffer;
-- 
2.43.0


From 34fa42fd114b2973334ad1835eff2a97a8cf10a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:12 +0000
Subject: [PATCH 62/82] fix: copying a file counted every byte twice and
 stopped half way in files of more than 2 GiB

---
 src/os_unix.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index 10afb31..090090d 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -1468,8 +1468,7 @@ int copyfile(const char *source, const char *destination) {
 	off_t copied = 0;
 	while (result == 0 && copied < file_stat.st_size) {
 		ssize_t written = sendfile(output, input, &copied, SSIZE_MAX);
-		copied += written;
-		if (written == -1) {
+		if (written <= 0) {
 			result = -1;
 		}
 	}
-- 
2.43.0


From 3500101df2ba508aa2cdc04b951341712eb33057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:33 +0000
Subject: [PATCH 63/82] fix: writing a file left the rest of a longer one that
 was there before

---
 src/async_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/async_io.c b/src/async_io.c
index d794388..3c66fd3 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -697,7 +697,7 @@ EVENTS_INLINE int fs_copyfile(const char *oldfile, const char *newfile) {
 
 int fs_writefile(const char *path, char *text) {
 	int len, fd;
-	if ((fd = fs_open(path, O_WRONLY | O_CREAT, S_IRUSR | S_IWUSR)) > 0) {
+	if ((fd = fs_open(path, O_WRONLY | O_CREAT | O_TRUNC, S_IRUSR | S_IWUSR)) > 0) {
 		if ((len = (int)strlen(text)) > 0)
 			len = fs_write(fd, text, len);
 
-- 
2.43.0


From 95209ffef289585a24e353334c990f774121ec8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:25 +0000
Subject: [PATCH 64/82] fix: a file that could not be written or touched was
 reported as written; touching must not empty

---
 src/async_io.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 3c66fd3..c4c7f54 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -671,7 +671,8 @@ EVENTS_INLINE size_t fs_filesize(const char *path) {
 }
 
 EVENTS_INLINE bool fs_touch(const char *path) {
-	return fs_writefile(path, "") == 0;
+	int fd = fs_open(path, O_WRONLY | O_CREAT, S_IRUSR | S_IWUSR);
+	return fd > 0 && !fs_close(fd);
 }
 
 static EVENTS_INLINE void *_os_rename(param_t args) {
@@ -705,7 +706,7 @@ int fs_writefile(const char *path, char *text) {
 			return len;
 	}
 
-	return task_code();
+	return TASK_ERRED;
 }
 
 char *fs_readfile(const char *path) {
-- 
2.43.0


From d828aa6dfd82a16522981d121058883fe4324b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:25 +0000
Subject: [PATCH 65/82] fix: a udp socket kept the record of a datagram after
 its handler had released it

---
 src/async_udp.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/async_udp.c b/src/async_udp.c
index d0dee28..0767e05 100644
--- a/src/async_udp.c
+++ b/src/async_udp.c
@@ -120,7 +120,6 @@ udp_t udp_recv(int fd) {
 				memcpy(client->message, buf, m);
 				client->message_set = true;
 				client->type = DATA_UDP;
-				events_target(fd)->udp = client;
 				errno = 0;
 			} else {
 				if (!is_empty(client->message))
-- 
2.43.0


From f88497a4258b3ab94a0f383aca7f4c9c1097a067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:25 +0000
Subject: [PATCH 66/82] fix: the reply to a datagram went to whoever had sent
 the latest one

---
 src/async_udp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/async_udp.c b/src/async_udp.c
index 0767e05..e70b1bb 100644
--- a/src/async_udp.c
+++ b/src/async_udp.c
@@ -69,7 +69,7 @@ int async_sendto(int fd, void *buf, int n) {
 
 int udp_send(udp_t packet, void *buf, int n) {
 	int m;
-	u_saddr_t *addr = events_get_sockaddr(fd2socket(packet->socket));
+	u_saddr_t *addr = packet->addr;
 	socklen_t client_len = addr->sa.sa_family == AF_INET6 ? sizeof(addr->sin6) : sizeof(addr->sin);
 
 	while ((m = sendto(fd2socket(packet->socket), (const char *)buf, n,
-- 
2.43.0


From 2884d0c3095652105975b271da1e5c5ed22f48b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:25 +0000
Subject: [PATCH 67/82] fix: a datagram to an IPv6 address was sent with the
 length of an IPv4 one

---
 src/async_udp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/async_udp.c b/src/async_udp.c
index e70b1bb..6d7a5c4 100644
--- a/src/async_udp.c
+++ b/src/async_udp.c
@@ -58,7 +58,8 @@ void udp_to(int fd, char *addr, unsigned int flags) {
 int async_sendto(int fd, void *buf, int n) {
 	int m;
 	udp_t packet = events_target(fd)->udp;
-	socklen_t client_len = sizeof(sockaddr_t);
+	socklen_t client_len = !is_empty(packet->addr) && packet->addr->sa.sa_family == AF_INET6
+		? sizeof(packet->addr->sin6) : sizeof(packet->addr->sin);
 
 	while ((m = sendto(socket2fd(fd), (const char *)buf, n, packet->flags, (sockaddr_t *)packet->addr, client_len)) < 0
 		&& os_geterror() == EAGAIN) {
-- 
2.43.0


From 1a9a1a0b9bbcda16f000fbdef1a860ec4f3ea14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:25 +0000
Subject: [PATCH 68/82] fix: a datagram whose handler did not ask for the
 message was never released

---
 src/async_udp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/async_udp.c b/src/async_udp.c
index 6d7a5c4..85d31da 100644
--- a/src/async_udp.c
+++ b/src/async_udp.c
@@ -178,6 +178,7 @@ static void *udp_client(param_t args) {
 	udp_packet_cb handlerFunc = (udp_packet_cb)args[1].func;
 
 	defer_free((void *)client);
+	udp_message(client);
 	handlerFunc(client);
 
 	return 0;
-- 
2.43.0


From 9eaf56358e1302b01c07d09c1089370a64a2475e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:25 +0000
Subject: [PATCH 69/82] fix: a new socket was taken for what the one before
 with its number had been

---
 src/async_io.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/async_io.c b/src/async_io.c
index c4c7f54..294debc 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -102,6 +102,7 @@ fds_t async_socket(struct sockaddr *sa, char *address, int backlog, int protocol
 
 	events_set_nonblocking(fd);
 	events_target(socket2fd(fd))->uds = uds;
+	events_target(socket2fd(fd))->udp = null;
 	return fd;
 }
 
@@ -170,6 +171,7 @@ fds_t async_bind(char *address, int port, int backlog, int protocol) {
 
 	events_set_nonblocking(fd);
 	events_target(socket2fd(fd))->uds = uds;
+	events_target(socket2fd(fd))->udp = null;
 	return fd;
 }
 
@@ -200,6 +202,8 @@ fds_t async_accept(fds_t fd, char *server, int *port) {
 	if (port && !is_unix)
 		*port = ntohs((usa.sa.sa_family == AF_INET6 ? usa.sin6.sin6_port : usa.sin.sin_port));
 	events_set_nonblocking(cfd);
+	events_target(socket2fd(cfd))->uds = null;
+	events_target(socket2fd(cfd))->udp = null;
 	one = 1;
 	if (is_unix)
 		events_get_sockaddr(cfd)->sa.sa_family = AF_UNIX;
@@ -283,6 +287,7 @@ fds_t async_connect(char *hostname, int port, int protocol) {
 	async_wait(fd, 'w');
 	if (getpeername(fd, (is_unix ? (struct sockaddr *)&sa->sun : &sa->sa), &sn) >= 0) {
 		events_target(socket2fd(fd))->uds = uds;
+		events_target(socket2fd(fd))->udp = null;
 		return fd;
 	}
 
-- 
2.43.0


From 1e25e405b690518c98c7f49d7fe3f297c8c6b085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:08 +0000
Subject: [PATCH 70/82] fix: a signal registered again got a second record when
 an earlier one was free, its callback depending on the order

---
 src/os_unix.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index 090090d..527e529 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -690,10 +690,15 @@ sys_signal_t *events_signals(void) {
 int events_add_signal(int sig, sig_cb proc, void *data) {
 	int i;
 	for (i = 0; i < max_event_sig; i++) {
-		if (!events_sig[i].proc || events_sig[i].sig == sig)
+		if (events_sig[i].proc && events_sig[i].sig == sig)
 			break;
 	}
 
+	if (i == max_event_sig) {
+		for (i = 0; i < max_event_sig && events_sig[i].proc; i++)
+			;
+	}
+
 	if (i == max_event_sig) {
 		cerr("Cannot install exception handler for signal no (%d), "
 			"too many signal exception handlers installed (max %d)"CLR_LN,
-- 
2.43.0


From 01bfa7c21ffb37d5af8bdee599655b55231a3406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:08 +0000
Subject: [PATCH 71/82] fix: threads registering or handling signals at the
 same time put back each other's signal mask

---
 src/os_unix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index 527e529..90a4cc9 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -16,13 +16,13 @@
 #if !defined(_WIN32) /* UNIX ONLY */
 
 static void clear_pseudo_events(void);
-static sigset_t events_siglock, events_siglock_all;
 static struct sigaction events_sig_sa = {0}, events_sig_osa = {0};
 static volatile sig_atomic_t signal_running = false;
 static sys_signal_t events_sig[max_event_sig] = {0};
 volatile sig_atomic_t events_got_signal = 0;
 
-#define events_sigblock		sigfillset(&events_siglock);	\
+#define events_sigblock		sigset_t events_siglock, events_siglock_all;	\
+	sigfillset(&events_siglock);	\
     pthread_sigmask(SIG_SETMASK, &events_siglock, &events_siglock_all)
 #define events_sigunblock	pthread_sigmask(SIG_SETMASK, &events_siglock_all, NULL)
 
-- 
2.43.0


From 9c5fd3de1dadb048023d347c6024c6fc11b52a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:08 +0000
Subject: [PATCH 72/82] fix: a signal registered again was counted twice, and
 one took the loop of the descriptor with its number

---
 src/events.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/events.c b/src/events.c
index 9bd936d..378e105 100644
--- a/src/events.c
+++ b/src/events.c
@@ -561,11 +561,14 @@ int events_add(events_t *loop, fds_t sfd, int event, int timeout_in_secs,
 #endif
 	target = events_target(fd);
 	if (event == EVENTS_SIGNAL) {
+		events_t *former = target->signal_set ? events_signals()[target->signal_idx].loop : NULL;
 		if ((sig_idx = events_add_signal(fd, callback, cb_arg)) >= 0) {
+			if (former)
+				former->active_signals--;
+
 			loop->signal_handlers = events_signals();
 			loop->active_signals++;
 			loop->signal_handlers[sig_idx].loop = loop;
-			target->loop = loop;
 			target->signal_idx = sig_idx;
 			target->signal_set = true;
 			return 0;
@@ -627,7 +630,8 @@ int events_del(fds_t sfd) {
 			&& signal_handlers[target->signal_idx].is_running) {
 			events_del_signal(fd, target->signal_idx);
 			target->signal_set = false;
-			target->loop->active_signals--;
+			if ((loop = signal_handlers[target->signal_idx].loop))
+				loop->active_signals--;
 			return 0;
 		}
 	}
@@ -778,6 +782,12 @@ int events_init_loop_internal(events_t *loop, int max_timeout) {
 }
 
 void events_deinit_loop_internal(events_t *loop) {
+	int i;
+	for (i = 0; i < max_event_sig; i++) {
+		if (events_signals()[i].loop == loop)
+			events_signals()[i].loop = NULL;
+	}
+
 	events_free(loop->timeout._free_addr);
 }
 
-- 
2.43.0


From c8a312e6f03825dc16fc58f84c727cf199b34b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:12 +0000
Subject: [PATCH 73/82] fix: an address starting with digits was taken for port
 1 on any address, numbers out of range wrapped

---
 src/async_io.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 294debc..1757d08 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -411,7 +411,7 @@ int async_parse_addr(char *host, u_saddr_t *dst, int *ip_version) {
 		&len) // NOLINT(cert-err34-c) 'sscanf' used to convert a string
 			  // to an integer value, but function will not report
 			  // conversion errors; consider using 'strtol' instead
-		== 5) {
+		== 5 && a <= 255 && b <= 255 && c <= 255 && d <= 255 && port <= 0xffff) {
 		/* Bind to a specific IPv4 address, e.g. 192.168.1.5:8080 */
 		dst->sin.sin_addr.s_addr =
 			htonl((a << 24) | (b << 16) | (c << 8) | d);
@@ -419,15 +419,15 @@ int async_parse_addr(char *host, u_saddr_t *dst, int *ip_version) {
 		*ip_version = 4;
 		return 1;
 	} else if (sscanf(host, "[%49[^]]]:%u%n", buf, &port, &len) == 2
-		&& ((size_t)len <= ptrlen)
+		&& ((size_t)len <= ptrlen) && port <= 0xffff
 		&& async_inet_pton(AF_INET6, buf, &dst->sin6, sizeof(dst->sin6), 0)) {
 		/* IPv6 address, examples: see above */
 		/* dst->sin6.sin6_family = AF_INET6; already set by http_inet_pton */
 		dst->sin6.sin6_port = htons((uint16_t)port);
 		*ip_version = 6;
 		return 1;
-	} else if ((portUL = strtoul(host, &endptr, 0) && port <= 0xffff)
-		&& (host != endptr)) {
+	} else if ((portUL = strtoul(host, &endptr, 0)) <= 0xffff
+		&& (host != endptr) && *endptr == '\0') {
 		len = (int)(endptr - host);
 		port = (uint16_t)portUL;
 		/* If only port is specified, bind to IPv4, INADDR_ANY */
@@ -455,7 +455,7 @@ int async_parse_addr(char *host, u_saddr_t *dst, int *ip_version) {
 		str_lcpy(hostname, host, hostnlen + 1);
 		if (async_inet_pton(AF_INET, hostname, &dst->sin, sizeof(dst->sin), 1)) {
 			if (sscanf(cb + 1, "%u%n", &port, &len)
-				== 1) { // NOLINT(cert-err34-c) 'sscanf' used to convert a
+				== 1 && port <= 0xffff) { // NOLINT(cert-err34-c) 'sscanf' used to convert a
 						// string to an integer value, but function will not
 						// report conversion errors; consider using 'strtol'
 						// instead
@@ -465,7 +465,7 @@ int async_parse_addr(char *host, u_saddr_t *dst, int *ip_version) {
 				return 1;
 			}
 		} else if (async_inet_pton(AF_INET6, hostname, &dst->sin6, sizeof(dst->sin6), 1)) {
-			if (sscanf(cb + 1, "%u%n", &port, &len) == 1) {
+			if (sscanf(cb + 1, "%u%n", &port, &len) == 1 && port <= 0xffff) {
 				*ip_version = 6;
 				dst->sin6.sin6_port = htons((uint16_t)port);
 				len += (int)(hostnlen + 1);
-- 
2.43.0


From 7d4bd537ae7b8bb52b4c48609cf48693c18f2d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:12 +0000
Subject: [PATCH 74/82] fix: async_bind could not bind IPv6 or all interfaces,
 and reported sockets that do not listen

---
 src/async_io.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 1757d08..84efce7 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -110,7 +110,7 @@ fds_t async_bind(char *address, int port, int backlog, int protocol) {
 	fds_t fd;
 	int err, proto, n = 0, ip_family = 0;
 	u_saddr_t usa;
-	socklen_t sn;
+	socklen_t sn = sizeof(n);
 	uds_t uds = (protocol == -1)
 		? (uds_t)events_calloc(1, sizeof(struct af_unix_s))
 		: null;
@@ -118,7 +118,9 @@ fds_t async_bind(char *address, int port, int backlog, int protocol) {
 
 	if (!is_unix) {
 		char host[ARRAY_SIZE] = {0};
-		if (port)
+		if (is_empty(address))
+			snprintf(host, sizeof(host) - 1, "%d", port);
+		else if (port)
 			snprintf(host, sizeof(host) - 1, "%s:%d", address, port);
 		else
 			snprintf(host, sizeof(host) - 1, "%s", address);
@@ -130,7 +132,7 @@ fds_t async_bind(char *address, int port, int backlog, int protocol) {
 	}
 
 	proto = protocol ? SOCK_STREAM : SOCK_DGRAM;
-	if ((fd = socket((is_unix ? AF_UNIX : AF_INET),
+	if ((fd = socket((is_unix ? AF_UNIX : usa.sa.sa_family),
 		proto, (protocol ? IPPROTO_IP : IPPROTO_UDP))) < 0) {
 		errno = os_geterror();
 		if (is_unix)
@@ -166,8 +168,13 @@ fds_t async_bind(char *address, int port, int backlog, int protocol) {
 	}
 
 	memcpy(&events_get_sockaddr(fd)->storage, &usa.storage, sizeof(usa.storage));
-	if (proto == SOCK_STREAM)
-		listen(fd, backlog);
+	if (proto == SOCK_STREAM && listen(fd, backlog) != 0) {
+		errno = os_geterror();
+		close(fd);
+		if (is_unix)
+			events_free(uds);
+		return -1;
+	}
 
 	events_set_nonblocking(fd);
 	events_target(socket2fd(fd))->uds = uds;
-- 
2.43.0


From 6314c181f543c388004caf6cae7b3f67edb5f3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:12 +0000
Subject: [PATCH 75/82] fix: async_connect() reported ENOTCONN for whatever
 kept it from connecting

---
 src/async_io.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/async_io.c b/src/async_io.c
index 84efce7..2955fa6 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -302,12 +302,13 @@ fds_t async_connect(char *hostname, int port, int protocol) {
 	sn = (int)sizeof(n);
 	getsockopt(fd, SOL_SOCKET, SO_ERROR, (char *)&n, &sn);
 	if (n == 0)
-		errno = os_geterror();
+		n = os_geterror();
 
 	if (is_unix)
 		events_free(uds);
 
 	close(fd);
+	errno = n;
 	return -1;
 }
 
-- 
2.43.0


From 56617f9e495d93df461a8f6da2e9e384fb79b390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:09 +0000
Subject: [PATCH 76/82] fix: a child without environment of its own did not get
 the parent's, a failed vfork() was reported as launched

---
 src/os_unix.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index 90a4cc9..c864b0d 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -510,6 +510,7 @@ void events_free_fd(int pseudo) {
 	}
 }
 
+extern char **environ;
 static inline process_t os_exec_info(const char *filename, execinfo_t *info) {
 	process_t p = vfork();
 	if (p != 0) {
@@ -519,10 +520,13 @@ static inline process_t os_exec_info(const char *filename, execinfo_t *info) {
 		if (info->env != NULL)
 			events_free(info->env);
 
-		fdTable[info->fd].fd = p;
-		info->ps = p;
 		info->argv = NULL;
 		info->env = NULL;
+		if (p < 0)
+			return -1;
+
+		fdTable[info->fd].fd = p;
+		info->ps = p;
 		return (process_t)info->fd;
 	}
 
@@ -571,7 +575,7 @@ static inline process_t os_exec_info(const char *filename, execinfo_t *info) {
 	if (info->workdir != NULL && 0 != chdir(info->workdir))
 		goto end;
 
-	execve(filename, (char **)info->argv, (char **)info->env);
+	execve(filename, (char **)info->argv, info->env == NULL ? environ : (char **)info->env);
 
 end:
 	_exit(255);
-- 
2.43.0


From e9bfe339e5c8eeefad281189d65af6bd9eade7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:09 +0000
Subject: [PATCH 77/82] fix: ending the wait for a child closed the descriptor
 whose number is the pid of the child

---
 src/os_unix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index c864b0d..adcebd3 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -351,7 +351,7 @@ EVENTS_INLINE int os_close(int fd) {
 	if (can_clear)
 		events_free_fd(fd);
 
-	r = close(events_get_fd(fd));
+	r = (can_clear && fdTable[fd].type == FD_CHILD) ? 0 : close(events_get_fd(fd));
 	if (can_clear) {
 		fdTable[fd].type = (fd_types)FD_UNUSED;
 		fdTable[fd].fd = TASK_ERRED;
-- 
2.43.0


From e79d93a0836fff997cec5c1764596e031a79761d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:09 +0000
Subject: [PATCH 78/82] fix: exec() without arguments gave the child an empty
 one

---
 src/os_unix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index adcebd3..13e3117 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -608,7 +608,7 @@ EVENTS_INLINE execinfo_t *exec_info(const char *env, bool is_detached,
 }
 
 EVENTS_INLINE process_t exec(const char *command, const char *args, execinfo_t *info) {
-	char *cmd_arg = str_cat_ex((args == NULL ? 2 : 3), command, ",", args);
+	char *cmd_arg = str_cat_ex((args == NULL ? 1 : 3), command, ",", args);
 	if (info == NULL)
 		info = exec_info(NULL, false, inherit, inherit, inherit);
 
-- 
2.43.0


From 0264bb071518d5d94fab0325b885c344d4d3aef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:09 +0000
Subject: [PATCH 79/82] fix: exec_addenv() gave a text without its end, and
 read beyond its buffer for long values

---
 src/async_io.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 2955fa6..84f0613 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -839,9 +839,9 @@ char *exec_addenv(char *env, size_t *size, uint32_t num_pairs, ...) {
 			k = va_arg(ap, char *);
 			v = va_arg(ap, char *);
 			len = snprintf(buf, sizeof(buf), "%s=%s;", k, v);
+			data = events_realloc(data, *size + len + 1);
+			snprintf(data + *size, len + 1, "%s=%s;", k, v);
 			*size += len;
-			data = events_realloc(data, *size);
-			memcpy(data + (*size - len), buf, len);
 		}
 		va_end(ap);
 	}
-- 
2.43.0


From 10301e4648be9645abdb97063784bb0e623a9459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:09 +0000
Subject: [PATCH 80/82] fix: a child that could not be launched left its pipes
 and record in use, and the error pipe was never closed

---
 src/async_io.c | 34 +++++++++++++++++++++++++++++-----
 src/os_unix.c  | 13 ++++++++++++-
 2 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 84f0613..79cb3ad 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -771,6 +771,20 @@ static void spawn_io(fds_t fd, int events, void *arg) {
 #endif
 }
 
+static void spawn_close(filefd_t pair[2]) {
+	int i;
+	for (i = 0; i < 2; i++) {
+		if (pair[i] != inherit) {
+#ifdef _WIN32
+			CloseHandle(pair[i]);
+#else
+			close((uintptr_t)pair[i]);
+#endif
+			pair[i] = inherit;
+		}
+	}
+}
+
 static void *spawning(param_t args) {
 	process_t pid;
 	execinfo_t *info = (execinfo_t *)args[2].object;
@@ -782,7 +796,7 @@ static void *spawning(param_t args) {
 #endif
 	task_name("spawn #%d", task_id());
 	pid = exec((const char *)command, args[1].const_char_ptr, info);
-	if (info->io_func) {
+	if (pid > 0 && info->io_func) {
 #ifndef _WIN32
 		status = events_add(futures_pool()->queue->loop, (fds_t)info->read_output[1], EVENTS_WRITE, 0, spawn_io, info);
 #else
@@ -806,10 +820,9 @@ static void *spawning(param_t args) {
 		if (info->io_func) {
 #ifndef _WIN32
 			events_del((fds_t)info->read_output[1]);
-			close((uintptr_t)info->read_output[0]);
-			close((uintptr_t)info->read_output[1]);
-			close((uintptr_t)info->write_input[0]);
-			close((uintptr_t)info->write_input[1]);
+			spawn_close(info->read_output);
+			spawn_close(info->write_input);
+			spawn_close(info->error);
 #else
 			CloseHandle(ioThread);
 			CloseHandle(info->write_input[1]);
@@ -822,6 +835,9 @@ static void *spawning(param_t args) {
 			info->exit_func(status, status);
 	} else {
 		cerr("Process launch failed with: %s"CLR_LN, strerror(os_geterror()));
+		spawn_close(info->read_output);
+		spawn_close(info->write_input);
+		spawn_close(info->error);
 	}
 
 	return 0;
@@ -864,6 +880,9 @@ EVENTS_INLINE filefd_t exec_fderr(execinfo_t *child) {
 static execinfo_t *spawn_ex(const char *command, const char *args, const char *env,
 	bool is_datached, spawn_cb io_func, exit_cb exit_func) {
 	execinfo_t *info = exec_info(env, is_datached, inherit, inherit, inherit);
+	if (is_empty(info))
+		return NULL;
+
 	if (io_func) {
 #ifdef _WIN32
 		if (os_create_pipe("spawn_in", &info->write_input[0], &info->write_input[1])
@@ -899,12 +918,17 @@ static execinfo_t *spawn_ex(const char *command, const char *args, const char *e
 		if (pipe2(_2fd(info->write_input), O_NONBLOCK)
 			|| pipe2(_2fd(info->read_output), O_NONBLOCK)) {
 			perror("pipe2");
+			spawn_close(info->write_input);
+			os_close(info->fd);
 			return NULL;
 		}
 
 		if (!is_empty(env)) {
 			if (pipe2(_2fd(info->error), O_NONBLOCK)) {
 				perror("pipe2");
+				spawn_close(info->write_input);
+				spawn_close(info->read_output);
+				os_close(info->fd);
 				return NULL;
 			}
 		}
diff --git a/src/os_unix.c b/src/os_unix.c
index 13e3117..2de4abb 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -522,8 +522,10 @@ static inline process_t os_exec_info(const char *filename, execinfo_t *info) {
 
 		info->argv = NULL;
 		info->env = NULL;
-		if (p < 0)
+		if (p < 0) {
+			os_close(info->fd);
 			return -1;
+		}
 
 		fdTable[info->fd].fd = p;
 		info->ps = p;
@@ -589,7 +591,11 @@ EVENTS_INLINE execinfo_t *exec_info(const char *env, bool is_detached,
 #else
 	int pseudofd = events_new_fd(FD_CHILD, eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK), -1);
 #endif
+	if (pseudofd < 0)
+		return NULL;
+
 	execinfo_t *info = fdTable[pseudofd].process;
+	fdTable[pseudofd].fd = pseudofd;
 	info->detached = is_detached;
 	if (env != NULL && str_has(env, "=") && str_has(env, ";"))
 		info->env = (const char **)str_split_ex(env, ";", NULL);
@@ -612,6 +618,11 @@ EVENTS_INLINE process_t exec(const char *command, const char *args, execinfo_t *
 	if (info == NULL)
 		info = exec_info(NULL, false, inherit, inherit, inherit);
 
+	if (info == NULL) {
+		events_free(cmd_arg);
+		return -1;
+	}
+
 	info->argv = str_split_ex(cmd_arg, ",", NULL);
 	events_free(cmd_arg);
 
-- 
2.43.0


From 0d7ee121ee6bce0fa435b524a259c2783e07748a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:19 +0000
Subject: [PATCH 81/82] fix: promise_work() never released the arguments of a
 job that was refused

---
 src/future.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/future.c b/src/future.c
index fa9f205..2b3eac0 100644
--- a/src/future.c
+++ b/src/future.c
@@ -313,7 +313,8 @@ promise *promise_work(promise *f, param_func_t fn, size_t num_args, ...) {
 			array_t data = arrays(2, thrd, f);
 			tasks_t *t = create_task(Kb(32), (data_func_t)queue_work_handler, data, false, true);
 			if (task_push(t, false) == TASK_ERRED) {
-				promise_clean(f);
+				f->args = null;
+				$delete(args);
 				if (!is_empty(data))
 					$delete(data);
 
-- 
2.43.0


From 6661b24e87df2f0e6bb1eaa034958316b8299877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:29 +0000
Subject: [PATCH 82/82] fix: thrd_get() did not wait for the thread it joins,
 and so lost what its function raised

---
 src/future.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/future.c b/src/future.c
index 2b3eac0..d277d53 100644
--- a/src/future.c
+++ b/src/future.c
@@ -140,7 +140,7 @@ future_t thrd_async(thrd_func_t fn, size_t num_of_args, ...) {
 values_t thrd_get(future_t f) {
 	if (data_type(f) == DATA_FUTURE) {
 		data_values_t *r = promise_get(f->promise);
-		if (os_join(f->thread, 0, NULL) == 0) {
+		if (os_join(f->thread, -1, NULL) == 0) {
 			f->type = DATA_RESULT;
 			if (f->promise->result->is_array)
 				defer_free(f->promise->result->value.object);
-- 
2.43.0

