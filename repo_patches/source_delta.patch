From 0ece0f7451348c58da83335d1a8a1c681a6e2264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 001/121] fix: don't run a task twice after it was submitted
 via the dependency graph

update_graph submits dependents directly when it does not rescan the queue,
leaving the job in the queue; a later rescan (e.g. a new engine) ran it again.
---
 ipyparallel/controller/task_scheduler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index b354b96..e023e7c 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -722,9 +722,11 @@ class TaskScheduler(Scheduler):
         to_restore = []
         while jobs:
             job = jobs.popleft()
-            if job.removed:
-                continue
             msg_id = job.msg_id
+            if job.removed or self.queue_map.get(msg_id) is not job:
+                # already failed, or already submitted
+                # (the queue keeps an entry for jobs submitted via the graph)
+                continue
 
             put_it_back = True
 
-- 
2.43.0


From 318b848ccce5dafe90b38cab6240a488f26cd87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 002/121] fix: following a task that never ran anywhere is an
 impossible dependency

maybe_run raised KeyError when following (failure=True) a task which failed
without ever being assigned to an engine: the job never got a reply and every
job already taken off the queue during that scan was lost.
---
 ipyparallel/controller/task_scheduler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index e023e7c..5a08db0 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -535,8 +535,9 @@ class TaskScheduler(Scheduler):
                     if job.follow.failure:
                         relevant = relevant.union(self.all_failed)
                     for m in job.follow.intersection(relevant):
-                        dests.add(self.destinations[m])
-                    if len(dests) > 1:
+                        # None: failed without ever running on an engine
+                        dests.add(self.destinations.get(m))
+                    if len(dests) > 1 or None in dests:
                         self.queue_map[msg_id] = job
                         self.fail_unreachable(msg_id)
                         return False
-- 
2.43.0


From 2752f09d037798cfc1fe1ccb8870e918117c5ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 003/121] fix: registering an engine twice with the task
 scheduler is a no-op

An engine can be announced by both its registration notification and the
reply to the scheduler's connection_request. The second registration
forgot its pending tasks and doubled its slots.
---
 ipyparallel/controller/task_scheduler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index 5a08db0..cefda88 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -258,6 +258,10 @@ class TaskScheduler(Scheduler):
 
     def _register_engine(self, uid):
         """New engine with ident `uid` became available."""
+        if uid in self.targets:
+            # already registered: a registration notification and
+            # the reply to our connection request can both list an engine
+            return
         # head of the line:
         self.targets.insert(0, uid)
         self.loads.insert(0, 0)
-- 
2.43.0


From e23dda3834b28f938d6fc47fc58c2a2e1296782d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 004/121] fix: tasks failing at submission may share
 dependencies with waiting tasks

fail_unreachable raised KeyError (and sent no reply) for a job that was never
saved in the graph when another job waits on one of its dependencies.
---
 ipyparallel/controller/task_scheduler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index cefda88..e1da28c 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -467,7 +467,7 @@ class TaskScheduler(Scheduler):
         job.removed = True
         for mid in job.dependents:
             if mid in self.graph:
-                self.graph[mid].remove(msg_id)
+                self.graph[mid].discard(msg_id)
 
         try:
             raise why()
@@ -749,7 +749,7 @@ class TaskScheduler(Scheduler):
                     self.queue_map.pop(msg_id)
                     for mid in job.dependents:
                         if mid in self.graph:
-                            self.graph[mid].remove(msg_id)
+                            self.graph[mid].discard(msg_id)
 
                     # abort the loop if we just filled up all of our engines.
                     # avoids an O(N) operation in situation of full queue,
-- 
2.43.0


From 186a9ed2675b9372a6d9632dae0056617615655d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 005/121] fix: keep the order of waiting tasks when rescanning
 the queue

extendleft reverses its argument: waiting tasks that were checked, but
could not run, were put back in reverse order.
---
 ipyparallel/controller/task_scheduler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index e1da28c..84ab3f2 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -767,7 +767,8 @@ class TaskScheduler(Scheduler):
 
         # put back any tasks we popped but didn't run
         if using_queue:
-            self.queue.extendleft(to_restore)
+            # extendleft reverses its argument
+            self.queue.extendleft(reversed(to_restore))
 
     # ----------------------------------------------------------------------
     # methods to be overridden by subclasses
-- 
2.43.0


From ba01cdaddaecf7251d87f053746aefbd1e296b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:28 +0000
Subject: [PATCH 006/121] fix: broadcast schedulers in one process must not
 share coalescing state

---
 ipyparallel/controller/broadcast_scheduler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/controller/broadcast_scheduler.py b/ipyparallel/controller/broadcast_scheduler.py
index 667b9b1..16a2067 100644
--- a/ipyparallel/controller/broadcast_scheduler.py
+++ b/ipyparallel/controller/broadcast_scheduler.py
@@ -1,7 +1,7 @@
 import logging
 
 import zmq
-from traitlets import Bool, Bytes, Integer, List, Unicode
+from traitlets import Bool, Bytes, Dict, Integer, List, Unicode
 
 from ipyparallel import util
 from ipyparallel.controller.scheduler import (
@@ -13,8 +13,9 @@ from ipyparallel.controller.scheduler import (
 
 class BroadcastScheduler(Scheduler):
     port_name = 'broadcast'
-    accumulated_replies = {}
-    accumulated_targets = {}
+    # per instance: with threads, all schedulers share one process
+    accumulated_replies = Dict()
+    accumulated_targets = Dict()
     is_leaf = Bool(False)
     connected_sub_scheduler_ids = List(Bytes())
     outgoing_streams = List()
-- 
2.43.0


From cd42abda707742a83ca6adf504ae781f399e2d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:17 +0000
Subject: [PATCH 007/121] fix: list coalesced targets in the order of their
 results, at any tree depth

---
 ipyparallel/controller/broadcast_scheduler.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ipyparallel/controller/broadcast_scheduler.py b/ipyparallel/controller/broadcast_scheduler.py
index 16a2067..838a0ab 100644
--- a/ipyparallel/controller/broadcast_scheduler.py
+++ b/ipyparallel/controller/broadcast_scheduler.py
@@ -35,11 +35,11 @@ class BroadcastScheduler(Scheduler):
     def send_to_targets(self, msg, original_msg_id, targets, idents, is_coalescing):
         if is_coalescing:
             self.accumulated_replies[original_msg_id] = {
-                target.encode('utf8'): None for target in targets
+                target.encode('utf8'): None for target, _ in targets
             }
             self.accumulated_targets[original_msg_id] = targets
 
-        for target in targets:
+        for target, _ in targets:
             new_msg = self.append_new_msg_id_to_msg(
                 self.get_new_msg_id(original_msg_id, target), target, idents, msg
             )
@@ -89,6 +89,12 @@ class BroadcastScheduler(Scheduler):
     def coalescing_reply(self, raw_msg, msg, original_msg_id, outgoing_id, idents):
         # accumulate buffers
         self.accumulated_replies[original_msg_id][outgoing_id] = msg['buffers']
+        if not self.is_leaf:
+            # sub-schedulers list their targets in the order of their buffers,
+            # which may not be the order we sent them in
+            self.accumulated_targets[original_msg_id][outgoing_id] = msg['metadata'][
+                'broadcast_targets'
+            ]
         if all(
             msg_buffers is not None
             for msg_buffers in self.accumulated_replies[original_msg_id].values()
@@ -138,10 +144,7 @@ class BroadcastScheduler(Scheduler):
 
         original_msg_id = metadata['original_msg_id']
         if self.is_leaf:
-            target_idents = [t[0] for t in targets]
-            self.send_to_targets(
-                msg, original_msg_id, target_idents, idents, is_coalescing
-            )
+            self.send_to_targets(msg, original_msg_id, targets, idents, is_coalescing)
         else:
             self.send_to_sub_schedulers(
                 msg, original_msg_id, targets, idents, is_coalescing
-- 
2.43.0


From 6bd92c77fb1689d5127983f0362ce9919e1df71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 008/121] fix: don't lose errors when coalescing broadcast
 replies

---
 ipyparallel/controller/broadcast_scheduler.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/ipyparallel/controller/broadcast_scheduler.py b/ipyparallel/controller/broadcast_scheduler.py
index 838a0ab..345e9b1 100644
--- a/ipyparallel/controller/broadcast_scheduler.py
+++ b/ipyparallel/controller/broadcast_scheduler.py
@@ -87,8 +87,8 @@ class BroadcastScheduler(Scheduler):
             self.outgoing_streams[i].send_multipart(new_msg, copy=False)
 
     def coalescing_reply(self, raw_msg, msg, original_msg_id, outgoing_id, idents):
-        # accumulate buffers
-        self.accumulated_replies[original_msg_id][outgoing_id] = msg['buffers']
+        # accumulate replies
+        self.accumulated_replies[original_msg_id][outgoing_id] = msg
         if not self.is_leaf:
             # sub-schedulers list their targets in the order of their buffers,
             # which may not be the order we sent them in
@@ -96,13 +96,19 @@ class BroadcastScheduler(Scheduler):
                 'broadcast_targets'
             ]
         if all(
-            msg_buffers is not None
-            for msg_buffers in self.accumulated_replies[original_msg_id].values()
+            reply is not None
+            for reply in self.accumulated_replies[original_msg_id].values()
         ):
             replies = self.accumulated_replies.pop(original_msg_id)
             self.log.debug(f"Coalescing {len(replies)} reply to {original_msg_id}")
             targets = self.accumulated_targets.pop(original_msg_id)
 
+            # if any target failed, report (one of) the errors
+            for reply in replies.values():
+                if reply['metadata'].get('status') == 'error':
+                    msg = reply
+                    break
+
             new_msg = msg.copy()
             # begin rebuilding message
             # metadata['targets']
@@ -113,8 +119,8 @@ class BroadcastScheduler(Scheduler):
 
             # avoid duplicated msg buffers
             buffers = []
-            for sub_target, msg_buffers in replies.items():
-                buffers.extend(msg_buffers)
+            for sub_target, reply in replies.items():
+                buffers.extend(reply['buffers'])
                 if not self.is_leaf:
                     new_msg['metadata']['broadcast_targets'].extend(targets[sub_target])
 
-- 
2.43.0


From a9557407722173e37346f23849dd95da9db68a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:14 +0000
Subject: [PATCH 009/121] fix: forget the id of an unregistered engine

queries without explicit targets kept listing engines that are gone
---
 ipyparallel/controller/hub.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 282ffa1..e527e83 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -986,6 +986,7 @@ class Hub(LoggingConfigurable):
         )
 
         # cleanup mappings
+        self.ids.discard(eid)
         self.by_ident.pop(ec.ident, None)
         self.engines.pop(eid, None)
 
-- 
2.43.0


From 2cb3dcbe9efbb796ded4f1895482e91ba3aaa363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:48 +0000
Subject: [PATCH 010/121] fix: cancel the stall timer of a cancelled
 registration

otherwise it drops a later registration of the same engine early
---
 ipyparallel/controller/hub.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index e527e83..76dc599 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -965,6 +965,8 @@ class Hub(LoggingConfigurable):
             if remove_heart_id is not None:
                 self.log.info(f"registration::canceling registration {ec.id}:{ec.uuid}")
                 self.incoming_registrations.pop(remove_heart_id)
+                if ec.stallback is not None:
+                    self.loop.remove_timeout(ec.stallback)
             else:
                 self.log.info(
                     f"registration::unregister_engine({eid}) already unregistered"
-- 
2.43.0


From 19dd59a7897669816f6526e7af216df30aefd210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:36 +0000
Subject: [PATCH 011/121] fix: key load replies by engine id

bytes keys made every load_request fail
---
 ipyparallel/controller/hub.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 76dc599..a57891d 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -1172,7 +1172,7 @@ class Hub(LoggingConfigurable):
         content = dict(status='ok')
         # loads = {}
         for t in targets:
-            content[bytes(t)] = len(self.queues[t]) + len(self.tasks[t])
+            content[str(t)] = len(self.queues[t]) + len(self.tasks[t])
         self.session.send(
             self.query, "load_reply", content=content, ident=client_id, parent=msg
         )
-- 
2.43.0


From b0823d29e0d8e8ef1ee6e01ea1bbca53287dcb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:59 +0000
Subject: [PATCH 012/121] fix: a retried task is no longer on its previous
 engine

the Hub kept listing it among that engine's tasks forever
---
 ipyparallel/controller/hub.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index a57891d..26061d0 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -170,6 +170,7 @@ class Hub(LoggingConfigurable):
     pending = Set()
     queues = Dict()  # pending msg_ids keyed by engine_id
     tasks = Dict()  # pending msg_ids submitted as tasks, keyed by client_id
+    task_destinations = Dict()  # engine_id each pending task was last sent to
     completed = Dict()  # completed msg_ids keyed by engine_id
     all_completed = Set()  # completed msg_ids keyed by engine_id
     unassigned = Set()  # set of task msg_ids not yet assigned a destination
@@ -730,11 +731,9 @@ class Hub(LoggingConfigurable):
             self.log.info("task::task %r finished on %s", msg_id, eid)
             self.pending.remove(msg_id)
             self.all_completed.add(msg_id)
-            if eid is not None:
-                if status != 'aborted':
-                    self.completed[eid].append(msg_id)
-                if msg_id in self.tasks[eid]:
-                    self.tasks[eid].remove(msg_id)
+            if eid is not None and status != 'aborted':
+                self.completed[eid].append(msg_id)
+            self._forget_task_destination(msg_id)
             ensure_date_is_parsed(header)
             completed = util.ensure_timezone(header['date'])
             started = extract_dates(md.get('started', None))
@@ -757,6 +756,12 @@ class Hub(LoggingConfigurable):
         else:
             self.log.debug("task::unknown task %r finished", msg_id)
 
+    def _forget_task_destination(self, msg_id):
+        """A task is no longer on the engine it was last sent to, if any"""
+        eid = self.task_destinations.pop(msg_id, None)
+        if eid is not None and msg_id in self.tasks[eid]:
+            self.tasks[eid].remove(msg_id)
+
     def save_task_destination(self, idents, msg):
         try:
             msg = self.session.deserialize(msg, content=True)
@@ -775,6 +780,9 @@ class Hub(LoggingConfigurable):
         # else:
         #     self.log.debug("task::task %r not listed as MIA?!"%(msg_id))
 
+        # a retried task is no longer on its previous engine
+        self._forget_task_destination(msg_id)
+        self.task_destinations[msg_id] = eid
         self.tasks[eid].append(msg_id)
         try:
             self.db.update_record(msg_id, dict(engine_uuid=engine_uuid))
-- 
2.43.0


From 0908741758f9d62bdc442ce808354c2d1095ca58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:59 +0000
Subject: [PATCH 013/121] fix: record result metadata for messages lost with
 their engine

clients could not get such results from the Hub
---
 ipyparallel/controller/hub.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 26061d0..1aa06de 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -1031,6 +1031,7 @@ class Hub(LoggingConfigurable):
             header['engine'] = uuid
             header['date'] = util.utcnow()
             rec = dict(result_content=content, result_header=header, result_buffers=[])
+            rec['result_metadata'] = {'engine': uuid, 'status': 'error'}
             rec['completed'] = util.ensure_timezone(header['date'])
             rec['engine_uuid'] = uuid
             try:
-- 
2.43.0


From b94e68a6bae675ee06ff978c31eb67c6049d9288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:07 +0000
Subject: [PATCH 014/121] fix: note the destination of a task even if that
 engine is already gone

---
 ipyparallel/controller/hub.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 1aa06de..9754a79 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -772,7 +772,8 @@ class Hub(LoggingConfigurable):
         # print (content)
         msg_id = content['msg_id']
         engine_uuid = content['engine_id']
-        eid = self.by_ident[engine_uuid.encode("utf8")]
+        # None if the engine is already gone
+        eid = self.by_ident.get(engine_uuid.encode("utf8"), None)
 
         self.log.info("task::task %r arrived on %r", msg_id, eid)
         if msg_id in self.unassigned:
@@ -782,8 +783,9 @@ class Hub(LoggingConfigurable):
 
         # a retried task is no longer on its previous engine
         self._forget_task_destination(msg_id)
-        self.task_destinations[msg_id] = eid
-        self.tasks[eid].append(msg_id)
+        if eid is not None:
+            self.task_destinations[msg_id] = eid
+            self.tasks[eid].append(msg_id)
         try:
             self.db.update_record(msg_id, dict(engine_uuid=engine_uuid))
         except Exception:
-- 
2.43.0


From 3911abc8ec0d9c3fca00722550ee2ba6441437f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:43 +0000
Subject: [PATCH 015/121] fix: only the messages of a dead engine are lost, not
 those of a new engine with its id

---
 ipyparallel/controller/hub.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 9754a79..717782c 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -992,9 +992,11 @@ class Hub(LoggingConfigurable):
         self.hearts.pop(ec.ident, None)
         self.expect_stopped_hearts.append(ec.ident)
 
+        # not by id: a new engine may get the same id in the meantime
+        outstanding = self.queues[eid]
         self.loop.add_timeout(
             self.loop.time() + self.registration_timeout,
-            lambda: self._handle_stranded_msgs(eid, ec.uuid),
+            lambda: self._handle_stranded_msgs(eid, ec.uuid, outstanding),
         )
 
         # cleanup mappings
@@ -1009,7 +1011,7 @@ class Hub(LoggingConfigurable):
                 self.notifier, "unregistration_notification", content=content
             )
 
-    def _handle_stranded_msgs(self, eid, uuid):
+    def _handle_stranded_msgs(self, eid, uuid, outstanding):
         """Handle messages known to be on an engine when the engine unregisters.
 
         It is possible that this will fire prematurely - that is, an engine will
@@ -1017,8 +1019,6 @@ class Hub(LoggingConfigurable):
         that the result failed and later receive the actual result.
         """
 
-        outstanding = self.queues[eid]
-
         for msg_id in outstanding:
             self.pending.remove(msg_id)
             self.all_completed.add(msg_id)
-- 
2.43.0


From 8e1af90357670e77805304ab771146c784c41af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:05 +0000
Subject: [PATCH 016/121] fix: check the right record when getting results of
 earlier sessions

and find them with status_only, too
---
 ipyparallel/controller/hub.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 717782c..6ff83d3 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -1405,11 +1405,22 @@ class Hub(LoggingConfigurable):
         content['pending'] = pending
         content['completed'] = completed
         buffers = []
-        if not statusonly:
+        if statusonly:
+            # only the db knows about messages from previous sessions
+            find_ids = [
+                msg_id
+                for msg_id in msg_ids
+                if msg_id not in self.pending and msg_id not in self.all_completed
+            ]
+            keys = ['completed']
+        else:
+            find_ids = msg_ids
+            keys = None
+        records = {}
+        if find_ids:
             try:
-                matches = self.db.find_records(dict(msg_id={'$in': msg_ids}))
+                matches = self.db.find_records(dict(msg_id={'$in': find_ids}), keys)
                 # turn match list into dict, for faster lookup
-                records = {}
                 for rec in matches:
                     records[rec['msg_id']] = rec
             except Exception:
@@ -1423,8 +1434,6 @@ class Hub(LoggingConfigurable):
                     ident=client_id,
                 )
                 return
-        else:
-            records = {}
         for msg_id in msg_ids:
             if msg_id in self.pending:
                 pending.append(msg_id)
@@ -1435,11 +1444,12 @@ class Hub(LoggingConfigurable):
                     content[msg_id] = c
                     buffers.extend(bufs)
             elif msg_id in records:
-                if rec['completed']:
+                if records[msg_id]['completed']:
                     completed.append(msg_id)
-                    c, bufs = self._extract_record(records[msg_id])
-                    content[msg_id] = c
-                    buffers.extend(bufs)
+                    if not statusonly:
+                        c, bufs = self._extract_record(records[msg_id])
+                        content[msg_id] = c
+                        buffers.extend(bufs)
                 else:
                     pending.append(msg_id)
             else:
-- 
2.43.0


From 524b51d2db8b43527121a0e7540cfae91e7f191b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:05 +0000
Subject: [PATCH 017/121] fix: DictDB queries on several keys compare each with
 its own value

purging results by engine never matched anything
---
 ipyparallel/controller/dictdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/controller/dictdb.py b/ipyparallel/controller/dictdb.py
index e9e67e7..b5b2e29 100644
--- a/ipyparallel/controller/dictdb.py
+++ b/ipyparallel/controller/dictdb.py
@@ -158,7 +158,7 @@ class DictDB(BaseDB):
             if isinstance(v, dict):
                 tests[k] = CompositeFilter(v)
             else:
-                tests[k] = lambda o: _add_tz(o) == _add_tz(v)
+                tests[k] = lambda o, v=v: _add_tz(o) == _add_tz(v)
 
         for rec in self._records.values():
             if self._match_one(rec, tests):
-- 
2.43.0


From aec458b1d2807b9c1e6c8a7be2698902b1872e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 018/121] fix: DictDB: correct $gt, and ordering tests don't
 match unset fields

---
 ipyparallel/controller/dictdb.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/controller/dictdb.py b/ipyparallel/controller/dictdb.py
index b5b2e29..205dc7e 100644
--- a/ipyparallel/controller/dictdb.py
+++ b/ipyparallel/controller/dictdb.py
@@ -49,12 +49,13 @@ from ..util import ensure_timezone
 copy._deepcopy_dispatch[memoryview] = lambda x, memo: memoryview(x)
 
 filters = {
-    '$lt': lambda a, b: a < b,
-    '$gt': lambda a, b: b > a,
+    # unset fields are not ordered, so no ordering test matches them
+    '$lt': lambda a, b: a is not None and a < b,
+    '$gt': lambda a, b: a is not None and a > b,
     '$eq': lambda a, b: a == b,
     '$ne': lambda a, b: a != b,
-    '$lte': lambda a, b: a <= b,
-    '$gte': lambda a, b: a >= b,
+    '$lte': lambda a, b: a is not None and a <= b,
+    '$gte': lambda a, b: a is not None and a >= b,
     '$in': lambda a, b: a in b,
     '$nin': lambda a, b: a not in b,
     '$all': lambda a, b: all([a in bb for bb in b]),
-- 
2.43.0


From 3493252282223cb3fc0b41eaf4df39d76f3a10a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 019/121] fix: DictDB: $all matches fields containing all of
 the values

---
 ipyparallel/controller/dictdb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/controller/dictdb.py b/ipyparallel/controller/dictdb.py
index 205dc7e..68ed4dd 100644
--- a/ipyparallel/controller/dictdb.py
+++ b/ipyparallel/controller/dictdb.py
@@ -58,8 +58,8 @@ filters = {
     '$gte': lambda a, b: a is not None and a >= b,
     '$in': lambda a, b: a in b,
     '$nin': lambda a, b: a not in b,
-    '$all': lambda a, b: all([a in bb for bb in b]),
-    '$mod': lambda a, b: a % b[0] == b[1],
+    '$all': lambda a, b: a is not None and all(bb in a for bb in b),
+    '$mod': lambda a, b: a is not None and a % b[0] == b[1],
     '$exists': lambda a, b: (b and a is not None) or (a is None and not b),
     '$glob': lambda a, b: fnmatch.fnmatch(a, b) if a is not None else False,
 }
-- 
2.43.0


From bfd69572e066110de2dc198d44bd752f2b26bef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 020/121] fix: DictDB: enforce small record limits

---
 ipyparallel/controller/dictdb.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/dictdb.py b/ipyparallel/controller/dictdb.py
index 68ed4dd..29cd99a 100644
--- a/ipyparallel/controller/dictdb.py
+++ b/ipyparallel/controller/dictdb.py
@@ -198,7 +198,11 @@ class DictDB(BaseDB):
     def _maybe_cull(self):
         # cull by count:
         if len(self._records) > self.record_limit:
-            to_cull = int(self.cull_fraction * self.record_limit)
+            # always cull at least enough to get back within the limit
+            to_cull = max(
+                int(self.cull_fraction * self.record_limit),
+                len(self._records) - self.record_limit,
+            )
             self.log.info(
                 "%i records exceeds limit of %i, culling oldest %i",
                 len(self._records),
-- 
2.43.0


From 63d590173e20262c163749cb905135ce91fbe733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 021/121] fix: SQLiteDB: $ne and $nin match records where the
 field is unset

---
 ipyparallel/controller/sqlitedb.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/controller/sqlitedb.py b/ipyparallel/controller/sqlitedb.py
index 8eb42ff..adb6ae9 100644
--- a/ipyparallel/controller/sqlitedb.py
+++ b/ipyparallel/controller/sqlitedb.py
@@ -37,13 +37,14 @@ from .dictdb import BaseDB
 operators = {
     '$lt': "<",
     '$gt': ">",
-    # null is handled weird with ==,!=
+    # null is handled weird with ==,!=:
+    # `col != value` does not match unset columns, `col IS NOT value` does
     '$eq': "=",
-    '$ne': "!=",
+    '$ne': "IS NOT",
     '$lte': "<=",
     '$gte': ">=",
     '$in': ('=', ' OR '),
-    '$nin': ('!=', ' AND '),
+    '$nin': ('IS NOT', ' AND '),
     # '$all': None,
     # '$mod': None,
     # '$exists' : None
@@ -51,7 +52,7 @@ operators = {
 }
 null_operators = {
     '=': "IS NULL",
-    '!=': "IS NOT NULL",
+    'IS NOT': "IS NOT NULL",
 }
 
 
-- 
2.43.0


From 7123885ac858633d6e8558d3c36279bc8f6025d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 022/121] fix: SQLiteDB: allow empty queries and empty lists

---
 ipyparallel/controller/sqlitedb.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/controller/sqlitedb.py b/ipyparallel/controller/sqlitedb.py
index adb6ae9..e0e9f3d 100644
--- a/ipyparallel/controller/sqlitedb.py
+++ b/ipyparallel/controller/sqlitedb.py
@@ -358,7 +358,11 @@ class SQLiteDB(BaseDB):
                                 raise ValueError(
                                     f"Cannot use {test!r} test with NULL values on SQLite backend"
                                 )
-                            expr = f'( {join.join([expr] * len(value))} )'
+                            if value:
+                                expr = f'( {join.join([expr] * len(value))} )'
+                            else:
+                                # nothing is in an empty list
+                                expr = '0' if test == '$in' else '1'
                             args.extend(value)
                         else:
                             args.append(value)
@@ -371,7 +375,8 @@ class SQLiteDB(BaseDB):
                     expressions.append(f"{name} = ?")
                     args.append(sub_check)
 
-        expr = " AND ".join(expressions)
+        # an empty query matches everything
+        expr = " AND ".join(expressions) or "1"
         return expr, args
 
     def add_record(self, msg_id, rec):
-- 
2.43.0


From ec779d5e22dd2f657361e95db3683dbb88dd39b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 023/121] fix: SQLiteDB: timestamps compare by time, in any
 timezone

---
 ipyparallel/controller/sqlitedb.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/controller/sqlitedb.py b/ipyparallel/controller/sqlitedb.py
index e0e9f3d..e151a7c 100644
--- a/ipyparallel/controller/sqlitedb.py
+++ b/ipyparallel/controller/sqlitedb.py
@@ -10,7 +10,7 @@ try:
 except ImportError:
     import pickle
 
-from datetime import datetime
+from datetime import datetime, timezone
 
 try:
     import sqlite3
@@ -91,8 +91,11 @@ def _convert_bufs(bs):
 
 
 def _adapt_timestamp(dt):
-    """Adapt datetime to text"""
-    return ensure_timezone(dt).isoformat()
+    """Adapt datetime to text
+
+    Always in UTC, because sqlite compares and sorts the text.
+    """
+    return ensure_timezone(dt).astimezone(timezone.utc).isoformat()
 
 
 def _convert_timestamp(s):
-- 
2.43.0


From 845440bf7f4d03dd5f35819a1925777c48a4cc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:03 +0000
Subject: [PATCH 024/121] fix: broadcast messages don't stay outstanding after
 all their replies arrive

The original message of a non-coalescing broadcast never gets a reply of its own,
so waiting for it (client.wait(), view.wait()) never ended,
the futures and metadata of its per-engine messages were kept for ever,
and wait_for_send never returned.
---
 ipyparallel/client/client.py | 20 ++++++++++++--------
 ipyparallel/client/view.py   | 34 +++++++++++++++++++++++++++-------
 2 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 0e7fd64..6ebd708 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -1244,6 +1244,17 @@ class Client(HasTraits):
             futures.append(output)
         return futures
 
+    def _cleanup_when_done(self, msg_id, futures):
+        """Purge caches of a message when all of its futures are resolved"""
+
+        def cleanup(f):
+            self.results.pop(msg_id, None)
+            self._futures.pop(msg_id, None)
+            self._output_futures.pop(msg_id, None)
+            self.metadata.pop(msg_id, None)
+
+        multi_future(futures).add_done_callback(cleanup)
+
     def _send(
         self,
         socket,
@@ -1298,14 +1309,7 @@ class Client(HasTraits):
             if message_future_hook is not None:
                 message_future_hook(futures[0])
 
-            def cleanup(f):
-                """Purge caches on Future resolution"""
-                self.results.pop(msg_id, None)
-                self._futures.pop(msg_id, None)
-                self._output_futures.pop(msg_id, None)
-                self.metadata.pop(msg_id, None)
-
-            multi_future(futures).add_done_callback(cleanup)
+            self._cleanup_when_done(msg_id, futures)
 
         def _really_send():
             sent = self.session.send(
diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index f5ca23b..55ac580 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -933,21 +933,41 @@ class BroadcastView(DirectView):
     def _make_async_result(self, message_future, s_idents, **kwargs):
         original_msg_id = message_future.msg_id
         if not self.is_coalescing:
+            client = self.client
             futures = []
+            msg_ids = []
             for ident in s_idents:
                 msg_and_target_id = f'{original_msg_id}_{ident}'
-                future = self.client.create_message_futures(
+                msg_futures = client.create_message_futures(
                     msg_and_target_id,
                     message_future.header,
                     async_result=True,
-                    track=True,
+                    track=message_future.track,
                 )
-                self.client.outstanding.add(msg_and_target_id)
-                self.client._outstanding_dict[ident].add(msg_and_target_id)
+                client.outstanding.add(msg_and_target_id)
+                client._outstanding_dict[ident].add(msg_and_target_id)
                 self.outstanding.add(msg_and_target_id)
-                futures.append(future[0])
-            if original_msg_id in self.outstanding:
-                self.outstanding.remove(original_msg_id)
+                client._cleanup_when_done(msg_and_target_id, msg_futures)
+                msg_ids.append(msg_and_target_id)
+                futures.append(msg_futures[0])
+
+            # there is no reply to the original message,
+            # it is replaced by one message per engine
+            client.outstanding.discard(original_msg_id)
+            idx = client.history.index(original_msg_id)
+            client.history[idx : idx + 1] = msg_ids
+            client._futures.pop(original_msg_id, None)
+            client._output_futures.pop(original_msg_id, None)
+            client.metadata.pop(original_msg_id, None)
+
+            if message_future.track:
+                # all the messages are sent when the original message is
+
+                def _sent(f):
+                    for future in futures:
+                        future.tracker.set_result(f.result())
+
+                message_future.tracker.add_done_callback(_sent)
         else:
             self.client.outstanding.add(original_msg_id)
             for ident in s_idents:
-- 
2.43.0


From a4d4188c7b7d33e562ca09a48257c02821b6eb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:18 +0000
Subject: [PATCH 025/121] fix: ignore replies to messages that already have a
 result

A reply arriving after the message was given up (its engine was unregistered)
raised KeyError or InvalidStateError, after replacing the result and metadata.
---
 ipyparallel/client/client.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 6ebd708..7df673f 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -911,12 +911,13 @@ class Client(HasTraits):
 
         future = self._futures.get(msg_id, None)
         if msg_id not in self.outstanding:
+            # already have a result, e.g. its engine was thought to be dead
             if msg_id in self.history:
                 print(f"got stale result: {msg_id}")
             else:
                 print(f"got unknown result: {msg_id}")
-        else:
-            self.outstanding.remove(msg_id)
+            return
+        self.outstanding.remove(msg_id)
 
         content = msg['content']
         header = msg['header']
@@ -972,14 +973,13 @@ class Client(HasTraits):
 
         future = self._futures.get(msg_id, None)
         if msg_id not in self.outstanding:
+            # already have a result, e.g. its engine was thought to be dead
             if msg_id in self.history:
                 print(f"got stale result: {msg_id}")
-                print(self.results[msg_id])
-                print(msg)
             else:
                 print(f"got unknown result: {msg_id}")
-        else:
-            self.outstanding.remove(msg_id)
+            return
+        self.outstanding.remove(msg_id)
         content = msg['content']
         header = msg['header']
 
-- 
2.43.0


From 163d5b1f054710a5d9d5dcd009d3a67d3b67ddf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:31 +0000
Subject: [PATCH 026/121] fix: don't keep metadata for output of messages that
 are not tracked

---
 ipyparallel/client/client.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 7df673f..a458f09 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -1134,8 +1134,11 @@ class Client(HasTraits):
             # ignore status messages if they aren't mine
             return
 
-        # init metadata:
-        md = self.metadata[msg_id]
+        if msg_id in self.metadata:
+            md = self.metadata[msg_id]
+        else:
+            # output of a message that is no longer tracked: there is nothing to update
+            md = Metadata()
 
         if md['engine_id'] is None and 'engine' in msg['metadata']:
             e_uuid = msg['metadata']['engine']
-- 
2.43.0


From fff6db5a9ac6f71d6db9f9198059595c66c5f332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:31 +0000
Subject: [PATCH 027/121] fix: don't wait for ever for the output of coalesced
 results

Output is published with the ids of the per-engine messages,
so nothing ever resolved the output future of the coalesced message.
---
 ipyparallel/client/client.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index a458f09..a9c392b 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -1019,8 +1019,11 @@ class Client(HasTraits):
             pass
         else:
             self.results[msg_id] = self._unwrap_exception(content)
-        if content['status'] != 'ok' and not content.get('engine_info'):
+        if md.get('is_coalescing', False) or (
+            content['status'] != 'ok' and not content.get('engine_info')
+        ):
             # not an engine failure, don't expect output
+            # (nor is the output of coalesced messages collected)
             out_future = self._output_futures.get(msg_id)
             if out_future and not out_future.done():
                 out_future.set_result(None)
-- 
2.43.0


From 91c1183297e5bf38c286f401ab601cc408ef7f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:57 +0000
Subject: [PATCH 028/121] fix: purging the local results of engines

'submitted' was recorded as if it was a message, and engine uuids were compared as str and bytes,
so purging by target failed or purged nothing. 0 is an engine, too.
---
 ipyparallel/client/client.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index a9c392b..3bfafe1 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -247,6 +247,11 @@ class Metadata(dict):
             raise KeyError(key)
 
 
+def _no_targets(targets):
+    """Whether targets are empty or unspecified (0 is an engine)"""
+    return not isinstance(targets, int) and not targets
+
+
 def _is_future(f):
     """light duck-typing check for Futures"""
     return hasattr(f, 'add_done_callback')
@@ -1302,7 +1307,6 @@ class Client(HasTraits):
                 if ident_str in self._engines.values():
                     # save for later, in case of engine death
                     self._outstanding_dict[ident_str].add(msg_id)
-            self.metadata['submitted'] = util.utcnow()
 
         if expect_reply:
             futures = self.create_message_futures(
@@ -2342,9 +2346,10 @@ class Client(HasTraits):
 
     def _msg_ids_from_target(self, targets=None):
         """Build a list of msg_ids from the list of engine targets"""
-        if not targets:  # needed as _build_targets otherwise uses all engines
+        if _no_targets(targets):
+            # needed as _build_targets otherwise uses all engines
             return []
-        target_ids = self._build_targets(targets)[0]
+        target_ids = [ident.decode("utf8") for ident in self._build_targets(targets)[0]]
         return [
             md_id
             for md_id in self.metadata
@@ -2442,7 +2447,7 @@ class Client(HasTraits):
         RuntimeError : if any of the tasks to be purged are still outstanding.
 
         """
-        if not targets and not jobs:
+        if _no_targets(targets) and not jobs:
             raise ValueError("Must specify at least one of `targets` and `jobs`")
 
         if jobs == 'all':
@@ -2484,9 +2489,9 @@ class Client(HasTraits):
 
             default : None
         """
-        if not targets and not jobs:
+        if _no_targets(targets) and not jobs:
             raise ValueError("Must specify at least one of `targets` and `jobs`")
-        if targets:
+        if not _no_targets(targets):
             targets = self._build_targets(targets)[1]
 
         # construct msg_ids from jobs
-- 
2.43.0


From a1d83e2088a40bf399c572039c01db950ba79b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 029/121] fix: the history of views contains exactly the
 messages they sent

Calls that sent nothing added the whole history of the client (history[-0:]),
nested calls added their messages twice,
and messages of DirectView.map were missing, so view.wait() didn't wait for them.
---
 ipyparallel/client/remotefunction.py | 4 ++++
 ipyparallel/client/view.py           | 7 ++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/client/remotefunction.py b/ipyparallel/client/remotefunction.py
index 5b7a935..e86cf57 100644
--- a/ipyparallel/client/remotefunction.py
+++ b/ipyparallel/client/remotefunction.py
@@ -297,6 +297,10 @@ class ParallelFunction(RemoteFunction):
                 ar.owner = False
 
             msg_id = ar.msg_ids[0]
+            if view is not self.view:
+                # sent by a view of a single engine
+                self.view.history.append(msg_id)
+                self.view.outstanding.add(msg_id)
             chunk_sizes[msg_id] = chunk_size
             futures.extend(ar._children)
 
diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 55ac580..c647a6b 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -35,12 +35,13 @@ from .remotefunction import ParallelFunction, getname, parallel, remote
 def save_ids(f, self, *args, **kwargs):
     """Keep our history and outstanding attributes up to date after a method call."""
     n_previous = len(self.client.history)
+    n_mine = len(self.history)
     try:
         ret = f(self, *args, **kwargs)
     finally:
-        nmsgs = len(self.client.history) - n_previous
-        msg_ids = self.client.history[-nmsgs:]
-        self.history.extend(msg_ids)
+        msg_ids = self.client.history[n_previous:]
+        # replace ids already noted by nested calls
+        self.history[n_mine:] = msg_ids
         self.outstanding.update(msg_ids)
     return ret
 
-- 
2.43.0


From f48becc7425ec354516caecf5f7db2ca1500b0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:38 +0000
Subject: [PATCH 030/121] fix: parallel functions use their view's block by
 default, as documented

---
 ipyparallel/client/remotefunction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/remotefunction.py b/ipyparallel/client/remotefunction.py
index e86cf57..2caf902 100644
--- a/ipyparallel/client/remotefunction.py
+++ b/ipyparallel/client/remotefunction.py
@@ -314,7 +314,8 @@ class ParallelFunction(RemoteFunction):
             chunk_sizes=chunk_sizes,
         )
 
-        if self.block:
+        block = self.view.block if self.block is None else self.block
+        if block:
             try:
                 return r.get()
             except KeyboardInterrupt:
-- 
2.43.0


From fcc7fc3ec42f9de43e8946001a60887947ea4e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:50 +0000
Subject: [PATCH 031/121] fix: imap raises the error of its input iterator

---
 ipyparallel/client/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index c647a6b..619b4f0 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -1678,7 +1678,7 @@ class LoadBalancedView(View):
                 # exception consuming iterator, propagate
                 ar = concurrent.futures.Future()
                 # mock get so it gets re-raised when awaited
-                ar.get = lambda *args: ar.result()
+                ar.get = lambda *args, **kwargs: ar.result()
                 ar.set_exception(e)
                 with outstanding_lock:
                     add_outstanding(ar)
-- 
2.43.0


From 306b9f4263e79c570b4b11eeadc855d7ac773113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:05 +0000
Subject: [PATCH 032/121] fix: AsyncMapResult.get(return_exceptions=True)

only worked if the map was called with return_exceptions=True, too.
---
 ipyparallel/client/asyncresult.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 3478d34..fbbcf58 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -1087,18 +1087,17 @@ class AsyncMapResult(AsyncResult):
 
     def _reconstruct_result(self, res):
         """Perform the gather on the actual results."""
-        if self._return_exceptions:
-            if any(isinstance(r, Exception) for r in res):
-                # running with _return_exceptions,
-                # cannot reconstruct original
-                # use simple chain iterable
-                flattened = []
-                for r in res:
-                    if isinstance(r, Exception):
-                        flattened.append(r)
-                    else:
-                        flattened.extend(r)
-                return flattened
+        if any(isinstance(r, Exception) for r in res):
+            # running with return_exceptions,
+            # cannot reconstruct original
+            # use simple chain iterable
+            flattened = []
+            for r in res:
+                if isinstance(r, Exception):
+                    flattened.append(r)
+                else:
+                    flattened.extend(r)
+            return flattened
         return self._mapObject.joinPartitions(res)
 
     # asynchronous iterator:
-- 
2.43.0


From aee2adb3eb7fb7ed046a763fc6ff680fab668169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:05 +0000
Subject: [PATCH 033/121] fix: keep the dtype of arrays joined from round-robin
 partitions

---
 ipyparallel/client/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/client/map.py b/ipyparallel/client/map.py
index 25ed377..d7663b9 100644
--- a/ipyparallel/client/map.py
+++ b/ipyparallel/client/map.py
@@ -97,7 +97,7 @@ class RoundRobinMap(Map):
         test = listOfPartitions[0]
         shape = list(test.shape)
         shape[0] = sum(p.shape[0] for p in listOfPartitions)
-        A = numpy.ndarray(shape)
+        A = numpy.ndarray(shape, dtype=numpy.result_type(*listOfPartitions))
         N = shape[0]
         q = len(listOfPartitions)
         for p, part in enumerate(listOfPartitions):
-- 
2.43.0


From 0971bb1536c1dea77273c0e0648330412a7f23d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:05 +0000
Subject: [PATCH 034/121] fix: display_outputs(groupby='order') when engines
 have different numbers of outputs

Outputs were only shown for the engines with the most of them.
---
 ipyparallel/client/asyncresult.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index fbbcf58..71bcf35 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -1030,7 +1030,7 @@ class AsyncResult(Future):
                     for i in range(N):
                         for eid in targets:
                             outputs = output_dict[eid]
-                            if len(outputs) >= N:
+                            if len(outputs) > i:
                                 _raw_text(f'[output:{eid}]')
                                 self._republish_displaypub(outputs[i], eid)
                 else:
-- 
2.43.0


From 1b5b365d0655cb97b3c543483d4b5061c577e5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:05 +0000
Subject: [PATCH 035/121] fix: blocking scatter raises errors

---
 ipyparallel/client/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 619b4f0..1c6218d 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -831,7 +831,7 @@ class DirectView(View):
         )
         r._scatter_lengths = _lengths
         if block:
-            r.wait()
+            r.get()
         else:
             return r
 
-- 
2.43.0


From aa3ae53d04e2c3a9a99eee2986535a7f2b9403c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:05 +0000
Subject: [PATCH 036/121] fix: allow LoadBalancedView.timeout=None, as
 documented

---
 ipyparallel/client/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 1c6218d..e3a6590 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -1246,7 +1246,7 @@ class LoadBalancedView(View):
 
     follow = Any()
     after = Any()
-    timeout = CFloat()
+    timeout = CFloat(allow_none=True)
     retries = Integer(0)
     label = Any()
 
-- 
2.43.0


From 31cef89f45ef1cd56a7ee8e72bc62fec5d12a529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:19 +0000
Subject: [PATCH 037/121] fix: iterating through AsyncMapResults gives the same
 elements before and after they are ready

If partial results are tuples or arrays, or partitions are interleaved,
the elements and their order depended on when the results arrived.
---
 ipyparallel/client/asyncresult.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 71bcf35..6f1046d 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -23,6 +23,7 @@ from ipyparallel import error
 from ipyparallel.util import _parse_date, compare_datetimes, progress, utcnow
 
 from .futures import MessageFuture, multi_future
+from .map import RoundRobinMap, mappable
 
 
 def _raw_text(s):
@@ -1093,10 +1094,10 @@ class AsyncMapResult(AsyncResult):
             # use simple chain iterable
             flattened = []
             for r in res:
-                if isinstance(r, Exception):
-                    flattened.append(r)
-                else:
+                if mappable(r):
                     flattened.extend(r)
+                else:
+                    flattened.append(r)
             return flattened
         return self._mapObject.joinPartitions(res)
 
@@ -1111,7 +1112,7 @@ class AsyncMapResult(AsyncResult):
         for use in iterator methods
         """
         rlist = child.result()
-        if not isinstance(rlist, list):
+        if not mappable(rlist):
             rlist = [rlist]
         self._collect_exceptions(rlist)
         yield from rlist
@@ -1119,6 +1120,9 @@ class AsyncMapResult(AsyncResult):
     # asynchronous ordered iterator:
     def _ordered_iter(self):
         """iterator for results *as they arrive*, preserving submission order."""
+        if isinstance(self._mapObject, RoundRobinMap):
+            # partitions are interleaved, need all of them to preserve order
+            self.wait()
         try:
             rlist = self.get(0)
         except TimeoutError:
-- 
2.43.0


From 0af371481b5f01e49fd58bbacb23295f77cfbe88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:19 +0000
Subject: [PATCH 038/121] fix: AsyncResults of locally cached results

---
 ipyparallel/client/asyncresult.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 6f1046d..3e9c4e0 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -121,7 +121,7 @@ class AsyncResult(Future):
                     if result is not _default:
                         future = MessageFuture(msg_id)
                         future.output = Future()
-                        future.output.metadata = self.client.metadata[msg_id]
+                        future.output.metadata = self._client.metadata[msg_id]
                         future.set_result(result)
                         future.output.set_result(None)
                 if not future:
-- 
2.43.0


From ffce11a22d76a164f59dc6be2a7fbc6212c97b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:42 +0000
Subject: [PATCH 039/121] fix: get_result of several results

get_result(AsyncResult) of several engines only had the first result,
locally known results were left out if others had to be requested from the Hub,
and pending results given by msg_id in a list raised TypeError.
---
 ipyparallel/client/client.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 3bfafe1..3e34cd3 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -2382,18 +2382,21 @@ class Client(HasTraits):
     def _asyncresult_from_jobs(self, jobs=None, owner=False):
         """Construct an AsyncResult from msg_ids or asyncresult objects"""
         if not isinstance(jobs, (list, tuple, set, types.GeneratorType)):
-            single = True
+            # an AsyncResult may have several results
+            single = not isinstance(jobs, AsyncResult) or jobs._single_result
             jobs = [jobs]
         else:
             single = False
         futures = []
         msg_ids = []
+        remote = False
         for job in jobs:
             if isinstance(job, int):
                 job = self.history[job]
             if isinstance(job, str):
+                msg_ids.append(job)
                 if job in self._futures:
-                    futures.append(job)
+                    futures.append(self._futures[job])
                 elif job in self.results:
                     f = MessageFuture(job)
                     f.set_result(self.results[job])
@@ -2402,15 +2405,16 @@ class Client(HasTraits):
                     f.output.set_result(None)
                     futures.append(f)
                 else:
-                    msg_ids.append(job)
+                    remote = True
             elif isinstance(job, AsyncResult):
+                msg_ids.extend(job.msg_ids)
                 if job._children:
                     futures.extend(job._children)
                 else:
-                    msg_ids.extend(job.msg_ids)
+                    remote = True
             else:
                 raise TypeError(f"Expected msg_id, int, or AsyncResult, got {job!r}")
-        if msg_ids:
+        if remote:
             if single:
                 msg_ids = msg_ids[0]
             return AsyncHubResult(self, msg_ids, owner=owner)
-- 
2.43.0


From 19de9231f2cde3334b2b3a5c0dc22c54c7cf0372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:22 +0000
Subject: [PATCH 040/121] fix: result_status doesn't request cached results
 from the Hub

Removing items while iterating skipped every other one,
and requesting the same result twice failed to unpack it.
---
 ipyparallel/client/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 3e34cd3..b0a5422 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -2248,10 +2248,11 @@ class Client(HasTraits):
             if msg_id in self.results:
                 completed.append(msg_id)
                 local_results[msg_id] = self.results[msg_id]
-                theids.remove(msg_id)
+        # the Hub replies to each id once
+        theids = set(theids).difference(local_results)
 
         if theids:  # some not locally cached
-            content = dict(msg_ids=theids, status_only=status_only)
+            content = dict(msg_ids=sorted(theids), status_only=status_only)
             reply = self._send_recv(
                 self._query_stream, "result_request", content=content
             )
-- 
2.43.0


From 371017c759b47009eb168e6322e0236bc7ac4d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:22 +0000
Subject: [PATCH 041/121] fix: retrieving the results of aborted tasks from the
 Hub

---
 ipyparallel/client/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index b0a5422..87bf42c 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -2304,6 +2304,9 @@ class Client(HasTraits):
                         raise KeyError(
                             "unhandled msg type: {!r}".format(header['msg_type'])
                         )
+                elif rcontent['status'] == 'aborted':
+                    res = error.TaskAborted(msg_id)
+                    failures.append(res)
                 else:
                     res = self._unwrap_exception(rcontent)
                     failures.append(res)
-- 
2.43.0


From 123560c36809ea20198178b71c27bbad90495c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:42 +0000
Subject: [PATCH 042/121] fix: collecting aborted tasks and CompositeErrors

Results of several engines were considered successful if tasks were aborted,
and CompositeErrors raised on engines were replaced by AttributeErrors.
---
 ipyparallel/error.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/error.py b/ipyparallel/error.py
index d09144e..8af3afe 100644
--- a/ipyparallel/error.py
+++ b/ipyparallel/error.py
@@ -236,11 +236,13 @@ def collect_exceptions(rdict_or_list, method='unspecified'):
             # the errors out of them and put them in our new list.  This
             # has the effect of flattening lists of CompositeErrors into one
             # CompositeError
-            if en == 'CompositeError':
-                for e in ev.elist:
+            if isinstance(r, CompositeError):
+                for e in r.elist:
                     elist.append(e)
             else:
                 elist.append((en, ev, etb, ei))
+        elif isinstance(r, TaskAborted):
+            elist.append((r.__class__.__name__, str(r), None, {}))
     if len(elist) == 0:
         return rdict_or_list
     else:
-- 
2.43.0


From 85025ca79730d5228115960ed9d682d143e66457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:01 +0000
Subject: [PATCH 043/121] fix: waiting for failed results from the Hub doesn't
 raise

AsyncHubResult.wait() and ready() raised the error of the result the first time.
---
 ipyparallel/client/asyncresult.py |  5 +++--
 ipyparallel/client/client.py      | 22 +++++++++++++++-------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 3e9c4e0..6b78379 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -1178,12 +1178,13 @@ class AsyncHubResult(AsyncResult):
             if not remote_ids:
                 self._ready = True
             else:
-                rdict = self._client.result_status(remote_ids, status_only=False)
+                # errors are raised by get()
+                rdict, _ = self._client._get_result_status(remote_ids, False)
                 pending = rdict['pending']
                 while pending and (
                     timeout is None or time.perf_counter() < start + timeout
                 ):
-                    rdict = self._client.result_status(remote_ids, status_only=False)
+                    rdict, _ = self._client._get_result_status(remote_ids, False)
                     pending = rdict['pending']
                     if pending:
                         time.sleep(0.1)
diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 87bf42c..576fbba 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -2239,7 +2239,19 @@ class Client(HasTraits):
             is False, then completed results will be keyed by their `msg_id`.
         """
         theids = self._msg_ids_from_jobs(msg_ids)
+        content, failures = self._get_result_status(theids, status_only)
 
+        if len(set(theids)) == 1 and failures:
+            raise failures[0]
+
+        error.collect_exceptions(failures, "result_status")
+        return content
+
+    def _get_result_status(self, theids, status_only):
+        """Get status and results, without raising errors of the results
+
+        returns the dict of results, and the list of new results which are errors.
+        """
         completed = []
         local_results = {}
 
@@ -2265,10 +2277,10 @@ class Client(HasTraits):
 
         content['completed'].extend(completed)
 
+        failures = []
         if status_only:
-            return content
+            return content, failures
 
-        failures = []
         # load cached results into result:
         content.update(local_results)
 
@@ -2314,11 +2326,7 @@ class Client(HasTraits):
                 self.results[msg_id] = res
                 content[msg_id] = res
 
-        if len(theids) == 1 and failures:
-            raise failures[0]
-
-        error.collect_exceptions(failures, "result_status")
-        return content
+        return content, failures
 
     def queue_status(self, targets='all', verbose=False):
         """Fetch the status of engine queues.
-- 
2.43.0


From a138d93040cc2675e4809060197ec61035176d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:01 +0000
Subject: [PATCH 044/121] fix: iterating through pending AsyncHubResults yields
 their results

---
 ipyparallel/client/asyncresult.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 6b78379..4708023 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -1212,5 +1212,10 @@ class AsyncHubResult(AsyncResult):
 
         return self._ready
 
+    def __iter__(self):
+        # there are no Futures to wait for one by one
+        self.wait()
+        yield from super().__iter__()
+
 
 __all__ = ['AsyncResult', 'AsyncMapResult', 'AsyncHubResult']
-- 
2.43.0


From 57f0550d5d3023af7c5001dc4cb31bc093795ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:01 +0000
Subject: [PATCH 045/121] fix: get_dict for coalesced results

---
 ipyparallel/client/asyncresult.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 4708023..1ed209c 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -575,6 +575,10 @@ class AsyncResult(Future):
         if self._single_result:
             results = [results]
         engine_ids = [md['engine_id'] for md in self._metadata]
+        if len(engine_ids) == 1 and isinstance(engine_ids[0], list):
+            # coalesced results of several engines
+            engine_ids = engine_ids[0]
+            results = results[0]
 
         rdict = {}
         for engine_id, result in zip(engine_ids, results):
-- 
2.43.0


From 0785c053f7a72669ca7762fdcae3bc1b6977bccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:01 +0000
Subject: [PATCH 046/121] fix: AsyncResult.join of load-balanced results

---
 ipyparallel/client/asyncresult.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 1ed209c..2240fa5 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -413,12 +413,19 @@ class AsyncResult(Future):
             # only one AsyncResult, nothing to join
             return first
 
-        return cls(
+        children = list(chain(*(ar._children for ar in async_results)))
+        if any(ar._targets is None for ar in async_results):
+            # load-balanced, don't know all targets
+            targets = None
+        else:
+            targets = list(chain(*(ar._targets for ar in async_results)))
+
+        return AsyncResult(
             client=first._client,
             fname=first._fname,
             return_exceptions=first._return_exceptions,
-            children=list(chain(*(ar._children for ar in async_results))),
-            targets=list(chain(*(ar._targets for ar in async_results))),
+            children=children,
+            targets=targets,
             owner=False,
         )
 
-- 
2.43.0


From 860ce143c8f55b262235eac84c933ccf9b98c0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:21 +0000
Subject: [PATCH 047/121] fix: abort with no outstanding jobs doesn't abort
 jobs of other clients

---
 ipyparallel/client/client.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 576fbba..e64881a 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -1772,6 +1772,11 @@ class Client(HasTraits):
                 msg_ids.append(j)
         content = dict(msg_ids=msg_ids)
 
+        if not msg_ids:
+            # nothing to abort
+            # engines would abort everything, including jobs of other clients
+            return None if block else multi_future([])
+
         return self._send_control_request(
             targets,
             msg_type='abort_request',
-- 
2.43.0


From 68bdf2f9a8cf40dae28635441b9bdc43b22d71e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:21 +0000
Subject: [PATCH 048/121] fix: kernel replies to abort requests without msg_ids

---
 ipyparallel/engine/kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/engine/kernel.py b/ipyparallel/engine/kernel.py
index f346371..90426cc 100644
--- a/ipyparallel/engine/kernel.py
+++ b/ipyparallel/engine/kernel.py
@@ -229,7 +229,7 @@ class IPythonParallelKernel(IPythonKernel):
             f = self._abort_queues()
             if inspect.isawaitable(f):
                 asyncio.ensure_future(f)
-        for mid in msg_ids:
+        for mid in msg_ids or []:
             self.aborted.add(str(mid))
 
         content = dict(status='ok')
-- 
2.43.0


From 2470d5b7e33242edf42342519c8854a4ee29274e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:32 +0000
Subject: [PATCH 049/121] fix: tasks whose engine died keep their label

---
 ipyparallel/client/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index e64881a..39b8d2a 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -828,8 +828,10 @@ class Client(HasTraits):
             'status': content['status'],
             'is_broadcast': msg_meta.get('is_broadcast', False),
             'is_coalescing': msg_meta.get('is_coalescing', False),
-            'label': msg_meta.get('label', None),
         }
+        if 'label' in msg_meta:
+            # errors from controllers don't have labels
+            md['label'] = msg_meta['label']
 
         if md['engine_uuid'] is not None:
             md['engine_id'] = self._engines.get(md['engine_uuid'], None)
-- 
2.43.0


From cb835ae54c86142241c9e1f7768d9b32e9e403e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:33 +0000
Subject: [PATCH 050/121] fix: blocking BroadcastView.map

---
 ipyparallel/client/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index e3a6590..0f4ee2d 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -1176,7 +1176,7 @@ class BroadcastView(DirectView):
             scatter_chunk_sizes = ar._scatter_lengths
 
         # submit the map tasks as an actual broadcast
-        ar = self.apply(self._broadcast_map, f, *seq_names)
+        ar = self.apply_async(self._broadcast_map, f, *seq_names)
         ar.owner = False
         # re-wrap messages in an AsyncMapResult to get map API
         # this is where the 'gather' reconstruction happens
-- 
2.43.0


From a81020f33f1e71039d6b8304acf185ba7a3ef200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:40 +0000
Subject: [PATCH 051/121] fix: async maps of empty sequences return
 AsyncMapResults, as documented

---
 ipyparallel/client/asyncresult.py    | 5 ++++-
 ipyparallel/client/remotefunction.py | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 2240fa5..449ef10 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -86,7 +86,7 @@ class AsyncResult(Future):
         self._return_exceptions = return_exceptions
         self._chunk_sizes = chunk_sizes or {}
 
-        if isinstance(children[0], str):
+        if children and isinstance(children[0], str):
             self.msg_ids = children
             self._children = []
         else:
@@ -1099,6 +1099,9 @@ class AsyncMapResult(AsyncResult):
 
     def _reconstruct_result(self, res):
         """Perform the gather on the actual results."""
+        if not res:
+            # map of an empty sequence
+            return []
         if any(isinstance(r, Exception) for r in res):
             # running with return_exceptions,
             # cannot reconstruct original
diff --git a/ipyparallel/client/remotefunction.py b/ipyparallel/client/remotefunction.py
index 2caf902..dd75628 100644
--- a/ipyparallel/client/remotefunction.py
+++ b/ipyparallel/client/remotefunction.py
@@ -233,7 +233,8 @@ class ParallelFunction(RemoteFunction):
                 minlen = n
             lens.append(n)
 
-        if maxlen == 0:
+        block = self.view.block if self.block is None else self.block
+        if maxlen == 0 and block:
             # nothing to iterate over
             return []
 
@@ -314,7 +315,6 @@ class ParallelFunction(RemoteFunction):
             chunk_sizes=chunk_sizes,
         )
 
-        block = self.view.block if self.block is None else self.block
         if block:
             try:
                 return r.get()
-- 
2.43.0


From 1caf2be3d2a33a23cec3292312fe0e0dccb23ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:26 +0000
Subject: [PATCH 052/121] fix: Executor.shutdown after an error in imap or an
 abandoned imap

---
 ipyparallel/client/view.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 0f4ee2d..5c75ffb 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -1716,10 +1716,15 @@ class LoadBalancedView(View):
         def iter_results():
             nonlocal outstanding
             with consumer_pool:
-                while not iterator_done:
-                    # yield results as they become ready
-                    for ready_ar in wait_for_ready():
-                        yield ready_ar.get(return_exceptions=return_exceptions)
+                try:
+                    while not iterator_done:
+                        # yield results as they become ready
+                        for ready_ar in wait_for_ready():
+                            yield ready_ar.get(return_exceptions=return_exceptions)
+                finally:
+                    # an error was raised or the iteration abandoned:
+                    # stop consuming inputs
+                    signal_done()
 
             # yield any remaining results
             if ordered:
-- 
2.43.0


From 65c5aea52efdb7d510dea9bcf30330d23991e07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:09 +0000
Subject: [PATCH 053/121] fix: shutdown of the executors of DirectViews

---
 ipyparallel/client/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 5c75ffb..e160cb1 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -1796,7 +1796,7 @@ class ViewExecutor(concurrent.futures.Executor):
         if wait:
             # wait for *submission* of outstanding maps,
             # otherwise view.wait won't know what to wait for
-            outstanding_maps = getattr(self.view, "_outstanding_maps")
+            outstanding_maps = getattr(self.view, "_outstanding_maps", None)
             if outstanding_maps:
                 while outstanding_maps:
                     time.sleep(0.1)
-- 
2.43.0


From 443652e9285d1a35c828ce014a51dbeb22ffcf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:37 +0000
Subject: [PATCH 054/121] fix: several concurrent calls to wait_for_engines

---
 ipyparallel/client/client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 39b8d2a..7f8042a 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -857,7 +857,8 @@ class Client(HasTraits):
         self._update_engines(d)
         event = {'event': 'register'}
         event.update(content)
-        for callback in self._registration_callbacks:
+        # copy: callbacks may remove themselves
+        for callback in list(self._registration_callbacks):
             callback(event)
 
     def _unregister_engine(self, msg):
@@ -875,7 +876,8 @@ class Client(HasTraits):
 
         event = {"event": "unregister"}
         event.update(content)
-        for callback in self._registration_callbacks:
+        # copy: callbacks may remove themselves
+        for callback in list(self._registration_callbacks):
             callback(event)
 
     def _handle_stranded_msgs(self, eid, uuid):
-- 
2.43.0


From b7fd99631ca73f35e4842663f72c6a57eb9b4f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:05 +0000
Subject: [PATCH 055/121] fix: dependencies given as dicts

---
 ipyparallel/client/view.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index e160cb1..0c9f2f7 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -1274,9 +1274,9 @@ class LoadBalancedView(View):
         elif isinstance(dep, dict):
             if set(dep.keys()) != set(Dependency().as_dict().keys()):
                 return False
-            if not isinstance(dep['msg_ids'], list):
+            if not isinstance(dep['dependencies'], list):
                 return False
-            for d in dep['msg_ids']:
+            for d in dep['dependencies']:
                 if not isinstance(d, str):
                     return False
         else:
@@ -1288,6 +1288,8 @@ class LoadBalancedView(View):
         """helper for building jsonable dependencies from various input forms."""
         if isinstance(dep, Dependency):
             return dep.as_dict()
+        elif isinstance(dep, dict):
+            return Dependency(dep).as_dict()
         elif isinstance(dep, AsyncResult):
             return dep.msg_ids
         elif dep is None:
-- 
2.43.0


From 5a17cce7676a77658c6bd651e39a90d225703413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:20 +0000
Subject: [PATCH 056/121] fix: invalid flags don't change a view

---
 ipyparallel/client/view.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 0c9f2f7..bf54ce4 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -182,9 +182,9 @@ class View(HasTraits):
         saved_flags = {}
         for f in self._flag_names:
             saved_flags[f] = getattr(self, f)
-        self.set_flags(**kwargs)
-        # yield to the with-statement block
         try:
+            self.set_flags(**kwargs)
+            # yield to the with-statement block
             yield
         finally:
             # postflight: restore saved flags
@@ -1334,13 +1334,11 @@ class LoadBalancedView(View):
             set an optional user-defined task identifier
         """
 
-        super().set_flags(**kwargs)
+        # validate before setting anything
         for name in ('follow', 'after'):
             if name in kwargs:
                 value = kwargs[name]
-                if self._validate_dependency(value):
-                    setattr(self, name, value)
-                else:
+                if not self._validate_dependency(value):
                     raise ValueError(f"Invalid dependency: {value!r}")
         if 'timeout' in kwargs:
             t = kwargs['timeout']
@@ -1350,8 +1348,7 @@ class LoadBalancedView(View):
                 if t < 0:
                     raise ValueError(f"Invalid timeout: {t}")
 
-            self.timeout = t
-
+        super().set_flags(**kwargs)
         return self  # returning self would allow direct calling of map/apply in one command (no context manager)
 
     @sync_results
-- 
2.43.0


From 72d87b2cedaae4f9fa2b4cdd60ffcabf8bf4d89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:34 +0000
Subject: [PATCH 057/121] fix: wait_for_engines misses engines that register
 during the call

---
 ipyparallel/client/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 7f8042a..86e51a6 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -1600,6 +1600,8 @@ class Client(HasTraits):
 
         self._registration_callbacks.append(notify)
         future.add_done_callback(lambda f: self._registration_callbacks.remove(notify))
+        # check again: engines may have registered before the callback was added
+        self._io_loop.add_callback(notify, {"event": "check"})
 
         def on_timeout():
             """Called when timeout is reached"""
-- 
2.43.0


From d18885986a69b5ffdfd8512c3bc7599c6af867f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:27 +0000
Subject: [PATCH 058/121] fix: waiting for the output of results from the Hub

There are no Futures that would set the events wait_for_output
and wait_for_send wait for, so both never returned.
---
 ipyparallel/client/asyncresult.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 449ef10..d6463f5 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -1176,7 +1176,14 @@ class AsyncHubResult(AsyncResult):
 
     def _init_futures(self):
         """disable Future-based resolution of Hub results"""
-        pass
+        # nothing to send
+        self._tracker = finished_tracker
+        self._sent_event.set()
+
+    def wait_for_output(self, timeout=-1):
+        """wait for result and output, which are retrieved together."""
+        self.wait(timeout)
+        return self._output_ready
 
     def wait(self, timeout=-1, return_when=None):
         """wait for result to complete."""
-- 
2.43.0


From 7a40f64a1a344c5c6fd29bc849a561625184b53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:27 +0000
Subject: [PATCH 059/121] fix: AsyncHubResult.get(return_exceptions=True) of
 failed results

The raw results were not kept, so it raised AttributeError.
---
 ipyparallel/client/asyncresult.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index d6463f5..7ec4f51 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -1215,6 +1215,7 @@ class AsyncHubResult(AsyncResult):
             self._output_ready = True
             try:
                 results = list(map(self._client.results.get, self.msg_ids))
+                self._raw_results = results
                 if self._single_result:
                     r = results[0]
                     if isinstance(r, Exception) and not self._return_exceptions:
-- 
2.43.0


From 9d4347451f32cf9e92a4ead2c675363f75caadea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:27 +0000
Subject: [PATCH 060/121] fix: getting a result from the Hub by a list that
 names it twice

The second attempt to drop it from the cache raised KeyError.
---
 ipyparallel/client/asyncresult.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 7ec4f51..5a715b7 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -1229,8 +1229,8 @@ class AsyncHubResult(AsyncResult):
                 self.set_exception(e)
             finally:
                 if self.owner:
-                    [self._client.metadata.pop(mid) for mid in self.msg_ids]
-                    [self._client.results.pop(mid) for mid in self.msg_ids]
+                    [self._client.metadata.pop(mid, None) for mid in self.msg_ids]
+                    [self._client.results.pop(mid, None) for mid in self.msg_ids]
 
         return self._ready
 
-- 
2.43.0


From 798b8f8f670d7a993ca707c77861beb70b253942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:24 +0000
Subject: [PATCH 061/121] fix: return_when of AsyncHubResults

wait() always returned a bool, on which get() and wait_interactive()
failed with a TypeError.
---
 ipyparallel/client/asyncresult.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 5a715b7..87bd9b7 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -1186,7 +1186,16 @@ class AsyncHubResult(AsyncResult):
         return self._output_ready
 
     def wait(self, timeout=-1, return_when=None):
-        """wait for result to complete."""
+        """wait for result to complete.
+
+        Results from the Hub are retrieved together,
+        so `return_when` only selects the form of the return value.
+        """
+        if return_when is not None:
+            if self.wait(timeout):
+                return {self}, set()
+            else:
+                return set(), {self}
         start = time.perf_counter()
         if timeout and timeout < 0:
             timeout = None
-- 
2.43.0


From 1465e11721c69bf8e79e26eb4155d9b59ab1907a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:24 +0000
Subject: [PATCH 062/121] fix: progress of AsyncHubResults

It only looked at the messages this client waits for,
so pending tasks of other clients counted as completed.
---
 ipyparallel/client/asyncresult.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 87bd9b7..3f93fa2 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -1243,6 +1243,14 @@ class AsyncHubResult(AsyncResult):
 
         return self._ready
 
+    @property
+    def progress(self):
+        """the number of tasks which have been completed at this point."""
+        if self.ready():
+            return len(self)
+        status, _ = self._client._get_result_status(self.msg_ids, True)
+        return len([m for m in self.msg_ids if m not in status['pending']])
+
     def __iter__(self):
         # there are no Futures to wait for one by one
         self.wait()
-- 
2.43.0


From ad33fe9e4a8c12ae01403b89494d399e51b50451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:15 +0000
Subject: [PATCH 063/121] fix: streaming the output of load-balanced tasks

stream_output raised TypeError when targets are not known in advance
---
 ipyparallel/client/asyncresult.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 3f93fa2..20634d1 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -144,6 +144,9 @@ class AsyncResult(Future):
     def _iopub_streaming_output_callback(self, eid, msg_future, msg):
         """Callback for iopub messages registered during AsyncResult.stream_output()"""
         msg_type = msg['header']['msg_type']
+        if eid is None:
+            # load-balanced: the engine is known when there is output
+            eid = msg_future.output.metadata.engine_id
         ip = get_ipython()
         if ip is not None:
             in_kernel = getattr(ip, 'kernel', None) is not None
@@ -229,7 +232,10 @@ class AsyncResult(Future):
         self._last_display_prefix = ""
         self._streamed_errors = 0
 
-        for eid, msg_future in zip(self._targets, self._children):
+        # targets of load-balanced tasks aren't known
+        targets = repeat(None) if self._targets is None else self._targets
+
+        for eid, msg_future in zip(targets, self._children):
             iopub_callback = partial(
                 self._iopub_streaming_output_callback, eid, msg_future
             )
-- 
2.43.0


From 2211ef57433d888fb9b35e41f0ac64140ced344b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:15 +0000
Subject: [PATCH 064/121] fix: already captured output in notebooks with
 stream_output

Output captured before streaming started had no parent, so that
all engines shared one display and overwrote each other's output.
---
 ipyparallel/client/asyncresult.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 20634d1..361a74c 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -158,8 +158,7 @@ class AsyncResult(Future):
             stream_name = msg_content['name']
 
             if in_kernel:
-                parent_msg_id = msg.get('parent_header', {}).get('msg_id', '')
-                display_id = f"{parent_msg_id}-{stream_name}"
+                display_id = f"{msg_future.msg_id}-{stream_name}"
                 md = msg_future.output.metadata
                 full_stream = md[stream_name]
                 if display_id in self._already_streamed:
-- 
2.43.0


From 402a0fd7d90c07e24e6dc62317b73b1d4ca9344e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:15 +0000
Subject: [PATCH 065/121] fix: stream_output shows errors that arrived before
 it started

%px assumes that streaming has displayed all errors and doesn't repeat them
---
 ipyparallel/client/asyncresult.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 361a74c..dcac9e5 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -182,16 +182,16 @@ class AsyncResult(Future):
                     file=stream,
                 )
         elif msg_type == "error":
-            content = msg['content']
-            if 'engine_info' not in content:
-                content['engine_info'] = {
+            # same message as msg['content'], already unwrapped
+            err = msg_future.output.metadata.error
+            if not err.engine_info:
+                err.engine_info = {
                     "engine_id": msg_future.output.metadata.engine_id,
                     "engine_uuid": msg_future.output.metadata.engine_uuid,
                     # always execute?
                     "method": msg_future.header["msg_type"].partition("_")[0],
                 }
 
-            err = self._client._unwrap_exception(msg['content'])
             self._streamed_errors += 1
             if self._streamed_errors <= error.CompositeError.tb_limit:
                 print("\n".join(err.render_traceback()), file=sys.stderr)
@@ -270,6 +270,8 @@ class AsyncResult(Future):
                         "content": md["execute_result"],
                     }
                 )
+            if md["error"]:
+                iopub_callback({"header": {"msg_type": "error"}})
 
         try:
             yield
-- 
2.43.0


From 483fe92a3569a28ac4d39830ffafac9107701c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:15 +0000
Subject: [PATCH 066/121] fix: %px shows errors that have not been streamed

When an engine died or the request was aborted, only the number of errors was shown.
---
 ipyparallel/client/magics.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/magics.py b/ipyparallel/client/magics.py
index 88af1aa..fdf3865 100644
--- a/ipyparallel/client/magics.py
+++ b/ipyparallel/client/magics.py
@@ -404,7 +404,16 @@ class ParallelMagics(Magics):
                     try:
                         result.get()
                     except error.CompositeError as e:
-                        if stream_output and result._output_ready:
+                        # errors without output, e.g. if an engine died
+                        # or the task was aborted, cannot be streamed
+                        streamed = sum(
+                            md['error'] is not None for md in result._metadata
+                        )
+                        if (
+                            stream_output
+                            and result._output_ready
+                            and streamed >= len(e.elist)
+                        ):
                             # already streamed, show an abbreviated result
                             raise error.AlreadyDisplayedError(e) from None
                         else:
-- 
2.43.0


From 71408a5ce1f5b6065c13b93983a567633e99d85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:06 +0000
Subject: [PATCH 067/121] fix: display_outputs(groupby='order') of several
 tasks on one engine

Only the outputs of the last one were displayed, once per task.
---
 ipyparallel/client/asyncresult.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index dcac9e5..32b7cf3 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -1042,13 +1042,9 @@ class AsyncResult(Future):
 
             if not result_only:
                 if groupby == 'order':
-                    output_dict = {
-                        eid: outputs for eid, outputs in zip(targets, output_lists)
-                    }
                     N = max(len(outputs) for outputs in output_lists)
                     for i in range(N):
-                        for eid in targets:
-                            outputs = output_dict[eid]
+                        for eid, outputs in zip(targets, output_lists):
                             if len(outputs) > i:
                                 _raw_text(f'[output:{eid}]')
                                 self._republish_displaypub(outputs[i], eid)
-- 
2.43.0


From 72eff00dfbf45a6109d4aaac2133033c8085d53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:06 +0000
Subject: [PATCH 068/121] fix: %px waits for the output it streams

Output arriving after the result was lost without a progress bar,
or if the result came just before the progress bar would have been shown.
---
 ipyparallel/client/magics.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/magics.py b/ipyparallel/client/magics.py
index fdf3865..be7083b 100644
--- a/ipyparallel/client/magics.py
+++ b/ipyparallel/client/magics.py
@@ -391,7 +391,8 @@ class ParallelMagics(Magics):
                         tic = time.perf_counter()
                         deadline = tic + progress_after
                         result.wait(timeout=progress_after)
-                        remaining = max(deadline - time.perf_counter(), 0)
+                        # output may arrive after the result
+                        remaining = max(deadline - time.perf_counter(), 1)
                         result.wait_for_output(timeout=remaining)
                         finished_waiting = result.done()
 
@@ -399,7 +400,9 @@ class ParallelMagics(Magics):
                         if progress_after >= 0:
                             # not an immediate result, start interactive progress
                             result.wait_interactive()
-                            result.wait_for_output(1)
+                        else:
+                            result.wait()
+                        result.wait_for_output(1)
 
                     try:
                         result.get()
-- 
2.43.0


From c0a5f3d6943e7de2901fd359ad1ec2426ad0e586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:53 +0000
Subject: [PATCH 069/121] fix: sending functions and classes that refer to
 arrays

Arrays as default arguments, in closures or as class attributes
raised 'cannot pickle memoryview objects'.
---
 ipyparallel/serialize/canning.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ipyparallel/serialize/canning.py b/ipyparallel/serialize/canning.py
index daadc65..a926761 100644
--- a/ipyparallel/serialize/canning.py
+++ b/ipyparallel/serialize/canning.py
@@ -126,6 +126,16 @@ class CannedObject:
 
         self.buffers = []
 
+    def __getstate__(self):
+        """memoryviews cannot be pickled, if they are not sent separately"""
+        state = self.__dict__.copy()
+        if state.get("buffers"):
+            state["buffers"] = [
+                buf.tobytes() if isinstance(buf, memoryview) else buf
+                for buf in state["buffers"]
+            ]
+        return state
+
     def get_object(self, g=None):
         if g is None:
             g = {}
-- 
2.43.0


From 961da9186fb41a1986a2063b6217af37e8ed65c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:53 +0000
Subject: [PATCH 070/121] fix: sending structured arrays

Nested object fields were sent as pointers, titles raised ValueError,
and aligned dtypes were changed.
---
 ipyparallel/serialize/canning.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/ipyparallel/serialize/canning.py b/ipyparallel/serialize/canning.py
index a926761..afa1b27 100644
--- a/ipyparallel/serialize/canning.py
+++ b/ipyparallel/serialize/canning.py
@@ -331,16 +331,12 @@ class CannedArray(CannedObject):
         from numpy import ascontiguousarray
 
         self.shape = obj.shape
-        self.dtype = obj.dtype.descr if obj.dtype.fields else obj.dtype.str
+        self.dtype = obj.dtype
         self.pickled = False
-        if sum(obj.shape) == 0:
+        if sum(obj.shape) == 0 or obj.nbytes == 0:
             self.pickled = True
-        elif obj.dtype == 'O':
-            # can't handle object dtype with buffer approach
-            self.pickled = True
-        elif obj.dtype.fields and any(
-            dt == 'O' for dt, sz in obj.dtype.fields.values()
-        ):
+        elif obj.dtype.hasobject:
+            # can't handle object dtype (at any level) with buffer approach
             self.pickled = True
         if self.pickled:
             # just pickle it
-- 
2.43.0


From ecfe6a88fc97ae43962546342473c8c8e4cb21d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:53 +0000
Subject: [PATCH 071/121] fix: sending datetime arrays

---
 ipyparallel/serialize/canning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/serialize/canning.py b/ipyparallel/serialize/canning.py
index afa1b27..f42f73d 100644
--- a/ipyparallel/serialize/canning.py
+++ b/ipyparallel/serialize/canning.py
@@ -346,7 +346,8 @@ class CannedArray(CannedObject):
         else:
             # ensure contiguous
             obj = ascontiguousarray(obj, dtype=None)
-            self.buffers = [memoryview(obj)]
+            # view as bytes: not all dtypes support the buffer interface
+            self.buffers = [memoryview(obj.reshape(-1).view('u1'))]
 
     def get_object(self, g=None):
         from numpy import frombuffer
-- 
2.43.0


From d121829b007565df1d77c07af726fad47c0af1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:53 +0000
Subject: [PATCH 072/121] fix: sending dicts with keys that cannot be sorted

Dicts keep their order when pickled, there is no need to sort.
---
 ipyparallel/serialize/serialize.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/serialize/serialize.py b/ipyparallel/serialize/serialize.py
index 327339b..754f662 100644
--- a/ipyparallel/serialize/serialize.py
+++ b/ipyparallel/serialize/serialize.py
@@ -102,7 +102,7 @@ def serialize_object(obj, buffer_threshold=MAX_BYTES, item_threshold=MAX_ITEMS):
             buffers.extend(_extract_buffers(c, buffer_threshold))
     elif istype(obj, dict) and len(obj) < item_threshold:
         cobj = {}
-        for k in sorted(obj):
+        for k in obj:
             c = can(obj[k])
             buffers.extend(_extract_buffers(c, buffer_threshold))
             cobj[k] = c
@@ -135,8 +135,8 @@ def deserialize_object(buffers, g=None):
         newobj = uncan_sequence(canned, g)
     elif istype(canned, dict) and len(canned) < MAX_ITEMS:
         newobj = {}
-        for k in sorted(canned):
-            c = canned[k]
+        # same order as in serialize_object
+        for k, c in canned.items():
             _restore_buffers(c, bufs)
             newobj[k] = uncan(c, g)
     else:
-- 
2.43.0


From e6156e64402144aab168caddae4548eee25809e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:53 +0000
Subject: [PATCH 073/121] fix: receiving containers sent with a larger
 item_threshold

They were left canned, with unused buffers.
---
 ipyparallel/serialize/serialize.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/serialize/serialize.py b/ipyparallel/serialize/serialize.py
index 754f662..61b296a 100644
--- a/ipyparallel/serialize/serialize.py
+++ b/ipyparallel/serialize/serialize.py
@@ -129,11 +129,17 @@ def deserialize_object(buffers, g=None):
     bufs = list(buffers)
     pobj = bufs.pop(0)
     canned = pickle.loads(pobj)
-    if istype(canned, sequence_types) and len(canned) < MAX_ITEMS:
+    # item_threshold of the sender may not be MAX_ITEMS
+    if istype(canned, sequence_types) and (
+        len(canned) < MAX_ITEMS or any(isinstance(c, CannedObject) for c in canned)
+    ):
         for c in canned:
             _restore_buffers(c, bufs)
         newobj = uncan_sequence(canned, g)
-    elif istype(canned, dict) and len(canned) < MAX_ITEMS:
+    elif istype(canned, dict) and (
+        len(canned) < MAX_ITEMS
+        or any(isinstance(c, CannedObject) for c in canned.values())
+    ):
         newobj = {}
         # same order as in serialize_object
         for k, c in canned.items():
-- 
2.43.0


From 350c344a44567ee292ab613db0f9b772f8cc8c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:53 +0000
Subject: [PATCH 074/121] fix: sending sets of several objects with buffers

The order of sets changes, buffers ended up in other elements.
---
 ipyparallel/serialize/serialize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipyparallel/serialize/serialize.py b/ipyparallel/serialize/serialize.py
index 61b296a..0e29596 100644
--- a/ipyparallel/serialize/serialize.py
+++ b/ipyparallel/serialize/serialize.py
@@ -3,6 +3,7 @@
 # Copyright (c) IPython Development Team.
 # Distributed under the terms of the Modified BSD License.
 
+import math
 import pickle
 
 try:
@@ -98,6 +99,9 @@ def serialize_object(obj, buffer_threshold=MAX_BYTES, item_threshold=MAX_ITEMS):
     buffers = []
     if istype(obj, sequence_types) and len(obj) < item_threshold:
         cobj = can_sequence(obj)
+        if istype(obj, set):
+            # sets have no order to match buffers with elements
+            buffer_threshold = math.inf
         for c in cobj:
             buffers.extend(_extract_buffers(c, buffer_threshold))
     elif istype(obj, dict) and len(obj) < item_threshold:
-- 
2.43.0


From fd8b75c963fd7c102987250cc1510188112b55f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:53 +0000
Subject: [PATCH 075/121] fix: globals of functions in keyword-only defaults
 and annotations

---
 ipyparallel/serialize/canning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/serialize/canning.py b/ipyparallel/serialize/canning.py
index f42f73d..17d5c2d 100644
--- a/ipyparallel/serialize/canning.py
+++ b/ipyparallel/serialize/canning.py
@@ -229,11 +229,11 @@ class CannedFunction(CannedObject):
             defaults = None
 
         if self.kwdefaults:
-            kwdefaults = uncan_dict(self.kwdefaults)
+            kwdefaults = uncan_dict(self.kwdefaults, g)
         else:
             kwdefaults = None
         if self.annotations:
-            annotations = uncan_dict(self.annotations)
+            annotations = uncan_dict(self.annotations, g)
         else:
             annotations = {}
 
-- 
2.43.0


From 2c70edb8b93ae9794a5ae6a69cab8195b2e464d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:54 +0000
Subject: [PATCH 076/121] fix: method resolution order of interactively defined
 classes

Bases inherited more than once were different classes on the engine,
so that methods of a base could take precedence over those overriding them.
---
 ipyparallel/serialize/canning.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/ipyparallel/serialize/canning.py b/ipyparallel/serialize/canning.py
index 17d5c2d..c591986 100644
--- a/ipyparallel/serialize/canning.py
+++ b/ipyparallel/serialize/canning.py
@@ -302,28 +302,34 @@ class CannedPartial(CannedObject):
 
 
 class CannedClass(CannedObject):
-    def __init__(self, cls):
+    _cls = None
+
+    def __init__(self, cls, memo=None):
         self._check_type(cls)
+        if memo is None:
+            memo = {}
+        memo[cls] = self
         self.name = cls.__name__
         self.old_style = not isinstance(cls, type)
         self._canned_dict = {}
         for k, v in cls.__dict__.items():
             if k not in ('__weakref__', '__dict__'):
                 self._canned_dict[k] = can(v)
-        if self.old_style:
-            mro = []
-        else:
-            mro = cls.mro()
-
-        self.parents = [can(c) for c in mro[1:]]
+        # bases that are inherited more than once must stay the same class,
+        # to preserve the method resolution order
+        self.parents = [
+            memo[c] if c in memo else can_class(c, memo) for c in cls.__bases__
+        ]
         self.buffers = []
 
     def _check_type(self, obj):
         assert isinstance(obj, type), "Not a class type"
 
     def get_object(self, g=None):
-        parents = tuple(uncan(p, g) for p in self.parents)
-        return type(self.name, parents, uncan_dict(self._canned_dict, g=g))
+        if self._cls is None:
+            parents = tuple(uncan(p, g) for p in self.parents)
+            self._cls = type(self.name, parents, uncan_dict(self._canned_dict, g=g))
+        return self._cls
 
 
 class CannedArray(CannedObject):
@@ -440,9 +446,9 @@ def can(obj):
     return obj
 
 
-def can_class(obj):
+def can_class(obj, memo=None):
     if isinstance(obj, type) and obj.__module__ == '__main__':
-        return CannedClass(obj)
+        return CannedClass(obj, memo)
     else:
         return obj
 
-- 
2.43.0


From 4a87add1a9474a47fa2eb3257b6bac4b68b7a6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:28 +0000
Subject: [PATCH 077/121] fix: reply to apply requests whose error has text
 that can't be encoded

---
 ipyparallel/engine/kernel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/engine/kernel.py b/ipyparallel/engine/kernel.py
index 90426cc..31f75b0 100644
--- a/ipyparallel/engine/kernel.py
+++ b/ipyparallel/engine/kernel.py
@@ -183,6 +183,8 @@ class IPythonParallelKernel(IPythonKernel):
                 str_evalue = str(e)
             except Exception as str_error:
                 str_evalue = f"Failed to cast exception to string: {str_error}"
+            # lone surrogates can't be sent
+            str_evalue = str_evalue.encode("utf8", "backslashreplace").decode("utf8")
             reply_content = {
                 'traceback': [],
                 'ename': str(type(e).__name__),
@@ -191,7 +193,10 @@ class IPythonParallelKernel(IPythonKernel):
             # get formatted traceback, which ipykernel recorded
             if hasattr(shell, '_last_traceback'):
                 # ipykernel 4.4
-                reply_content['traceback'] = shell._last_traceback or []
+                reply_content['traceback'] = [
+                    line.encode("utf8", "backslashreplace").decode("utf8")
+                    for line in shell._last_traceback or []
+                ]
             else:
                 self.log.warning("Didn't find a traceback where I expected to")
             shell._last_traceback = None
-- 
2.43.0


From f1152d439905e12d7e6840e044c8fe0a9296e730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:30 +0000
Subject: [PATCH 078/121] fix: reply to apply requests that close or replace
 sys.stdout

---
 ipyparallel/engine/kernel.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/engine/kernel.py b/ipyparallel/engine/kernel.py
index 31f75b0..2ec3538 100644
--- a/ipyparallel/engine/kernel.py
+++ b/ipyparallel/engine/kernel.py
@@ -122,8 +122,12 @@ class IPythonParallelKernel(IPythonKernel):
         md = self.finish_metadata(parent, md, reply_content)
 
         # flush i/o
-        sys.stdout.flush()
-        sys.stderr.flush()
+        for std_stream in (sys.stdout, sys.stderr):
+            try:
+                std_stream.flush()
+            except Exception:
+                # may have been closed or replaced by the function
+                self.log.warning("Failed to flush %s", std_stream, exc_info=True)
         self.log.debug(f'Sending apply_reply: {msg_id}')
         self.session.send(
             stream,
-- 
2.43.0


From 33b193c96466d25e657876c4d7dd362304162130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:35 +0000
Subject: [PATCH 079/121] fix: engines unregistering other engines with the
 same id

---
 ipyparallel/controller/hub.py | 14 ++++++++++++++
 ipyparallel/engine/app.py     |  8 ++++++--
 ipyparallel/engine/nanny.py   |  6 +++++-
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 6ff83d3..2df629c 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -959,11 +959,25 @@ class Hub(LoggingConfigurable):
         """Unregister an engine that explicitly requested to leave."""
         try:
             eid = msg['content']['id']
+            uuid = msg['content'].get('uuid')
         except Exception:
             self.log.error(
                 f"registration::bad request for engine for unregistration: {msg['content']}",
             )
             return
+        if uuid is not None:
+            # the id may belong to another engine by now,
+            # or not be known to the engine, yet
+            ident = uuid.encode("utf8", "replace")
+            if ident in self.by_ident:
+                eid = self.by_ident[ident]
+            elif ident in self.incoming_registrations:
+                eid = self.incoming_registrations[ident].id
+            else:
+                self.log.info(
+                    f"registration::unregister_engine({eid}:{uuid}) already unregistered"
+                )
+                return
         if eid not in self.engines:
             # engine not registered
             # first, check for still-pending registration
diff --git a/ipyparallel/engine/app.py b/ipyparallel/engine/app.py
index 64d100d..3636fc5 100755
--- a/ipyparallel/engine/app.py
+++ b/ipyparallel/engine/app.py
@@ -855,7 +855,9 @@ class IPEngine(BaseParallelApplication):
             """
             )
         self.session.send(
-            self.registrar, "unregistration_request", content=dict(id=self.id)
+            self.registrar,
+            "unregistration_request",
+            content=dict(id=self.id, uuid=self.ident),
         )
         time.sleep(1)
         sys.exit(255)
@@ -881,7 +883,9 @@ class IPEngine(BaseParallelApplication):
                 self.hb_check_period,
             )
             self.session.send(
-                self.registrar, "unregistration_request", content=dict(id=self.id)
+                self.registrar,
+                "unregistration_request",
+                content=dict(id=self.id, uuid=self.ident),
             )
             self.loop.stop()
 
diff --git a/ipyparallel/engine/nanny.py b/ipyparallel/engine/nanny.py
index deb8a24..e880374 100644
--- a/ipyparallel/engine/nanny.py
+++ b/ipyparallel/engine/nanny.py
@@ -123,7 +123,11 @@ class KernelNanny:
             curve_secretkey=self.curve_secretkey,
             curve_publickey=self.curve_publickey,
         )
-        self.session.send(s, "unregistration_request", content={"id": self.engine_id})
+        self.session.send(
+            s,
+            "unregistration_request",
+            content={"id": self.engine_id, "uuid": self.identity.decode("utf8")},
+        )
         s.close()
 
     def finish(self):
-- 
2.43.0


From 86d5d72f886f88eeee0e7ce67db3c8420baad8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:35 +0000
Subject: [PATCH 080/121] fix: save the engine state atomically

---
 ipyparallel/controller/hub.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 2df629c..0fdbdf0 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -1131,8 +1131,12 @@ class Hub(LoggingConfigurable):
 
         state['next_id'] = self._idcounter
 
-        with open(self.engine_state_file, 'w') as f:
+        # replace the file atomically:
+        # an incomplete state would prevent restarting the controller
+        tmp_file = self.engine_state_file + ".tmp"
+        with open(tmp_file, 'w') as f:
             json.dump(state, f)
+        os.replace(tmp_file, self.engine_state_file)
 
     def _load_engine_state(self):
         """load engine mapping from JSON file"""
-- 
2.43.0


From 7542b94747c9921cf68c7c6bb8dd2632942edbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:35 +0000
Subject: [PATCH 081/121] fix: type of replies from the nanny

---
 ipyparallel/engine/nanny.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/engine/nanny.py b/ipyparallel/engine/nanny.py
index e880374..aca6f1a 100644
--- a/ipyparallel/engine/nanny.py
+++ b/ipyparallel/engine/nanny.py
@@ -157,7 +157,7 @@ class KernelNanny:
 
         msg_type = msg['header']['msg_type']
         if msg_type.endswith("_request"):
-            reply_type = msg_type[-len("_request") :]
+            reply_type = msg_type[: -len("_request")] + "_reply"
         else:
             reply_type = "error"
         self.log.debug(f"Client {idents[-1]} requested {msg_type}")
-- 
2.43.0


From 91988b1683f66c359482008582abc24e281527cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:27 +0000
Subject: [PATCH 082/121] fix: ipc transport

The controller bound ipc://path-port,
but clients and engines connect to ipc://path:port.
---
 ipyparallel/controller/app.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/controller/app.py b/ipyparallel/controller/app.py
index 8de42a0..048e4db 100755
--- a/ipyparallel/controller/app.py
+++ b/ipyparallel/controller/app.py
@@ -632,15 +632,15 @@ class IPController(BaseParallelApplication):
             info = self.internal_info
         else:
             raise ValueError(
-                "kind must be 'engine', 'client', or 'internal', not {kind!r}"
+                f"kind must be 'engine', 'client', or 'internal', not {kind!r}"
             )
 
         interface = info['interface']
-        sep = '-' if interface.partition("://")[0] == 'ipc' else ':'
         port = info[channel]
         if index is not None:
             port = port[index]
-        return f"{interface}{sep}{port}"
+        # same form as Client and IPEngine, for all transports
+        return f"{interface}:{port}"
 
     def internal_url(self, channel, index=None):
         """return full zmq url for a named internal channel"""
-- 
2.43.0


From 676a88e5ff59d3cf500225b9395c2f73b5cc912f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:27 +0000
Subject: [PATCH 083/121] fix: pairs of ports for schedulers

The first port of each pair was used twice, so that the second bind failed.
---
 ipyparallel/controller/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/controller/app.py b/ipyparallel/controller/app.py
index 048e4db..77a6188 100755
--- a/ipyparallel/controller/app.py
+++ b/ipyparallel/controller/app.py
@@ -446,7 +446,7 @@ class IPController(BaseParallelApplication):
             " Use IPController.ports config instead."
         )
         self.client_ports.append(change.new[0])
-        self.engine_ports.append(change.new[0])
+        self.engine_ports.append(change.new[1])
 
     @observe("hb")
     def _hb_ports_assigned(self, change):
-- 
2.43.0


From 1d117c4ff6810b53ce44ab46cd21ea8d197fb68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:27 +0000
Subject: [PATCH 084/121] fix: registration on different interfaces

The registration socket is bound to the interfaces of clients and engines,
but binding failed if one of them includes the other (*),
and engines could not register if only the transports differ.
---
 ipyparallel/controller/app.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/ipyparallel/controller/app.py b/ipyparallel/controller/app.py
index 77a6188..ee031ce 100755
--- a/ipyparallel/controller/app.py
+++ b/ipyparallel/controller/app.py
@@ -843,15 +843,23 @@ class IPController(BaseParallelApplication):
         # Registrar socket
         query = ZMQStream(ctx.socket(zmq.ROUTER), loop)
         util.set_hwm(query, 0)
-        self.bind(query, self.client_url('registration'))
-        self.log.info(
-            "Hub listening on %s for registration.", self.client_url('registration')
-        )
-        if self.client_ip != self.engine_ip:
-            self.bind(query, self.engine_url('registration'))
-            self.log.info(
-                "Hub listening on %s for registration.", self.engine_url('registration')
-            )
+        # clients and engines use the same port,
+        # on interfaces which may differ
+        registration_urls = []
+        for url in (self.client_url('registration'), self.engine_url('registration')):
+            if url not in registration_urls:
+                registration_urls.append(url)
+        for wildcard in ('tcp://*:', 'tcp://0.0.0.0:'):
+            for url in registration_urls:
+                if url.startswith(wildcard):
+                    # includes all other tcp interfaces
+                    registration_urls = [url] + [
+                        u for u in registration_urls if not u.startswith('tcp://')
+                    ]
+                    break
+        for url in registration_urls:
+            self.bind(query, url)
+            self.log.info("Hub listening on %s for registration.", url)
 
         ### Engine connections ###
 
-- 
2.43.0


From e48ef961604b037a5d24637a5a181849395c1120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:27 +0000
Subject: [PATCH 085/121] fix: write connection files atomically

Clients and engines start when the files exist, and could read them while
they were incomplete. For a moment, others could read the key.
---
 ipyparallel/controller/app.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/controller/app.py b/ipyparallel/controller/app.py
index ee031ce..e0a4fcb 100755
--- a/ipyparallel/controller/app.py
+++ b/ipyparallel/controller/app.py
@@ -676,9 +676,20 @@ class IPController(BaseParallelApplication):
         """save a connection dict to json file."""
         fname = os.path.join(self.profile_dir.security_dir, fname)
         self.log.info("writing connection info to %s", fname)
-        with open(fname, 'w') as f:
+        # never let anyone read an incomplete file,
+        # or anyone else read the key
+        tmp_fname = fname + ".tmp"
+        try:
+            # opening an existing file would keep its permissions
+            os.remove(tmp_fname)
+        except FileNotFoundError:
+            pass
+        fd = os.open(
+            tmp_fname, os.O_WRONLY | os.O_CREAT | os.O_EXCL, stat.S_IRUSR | stat.S_IWUSR
+        )
+        with open(fd, 'w') as f:
             f.write(json.dumps(cdict, indent=2))
-        os.chmod(fname, stat.S_IRUSR | stat.S_IWUSR)
+        os.replace(tmp_fname, fname)
 
     def load_config_from_json(self):
         """load config from existing json connector files."""
-- 
2.43.0


From 95545019d31119f37a797a875fa4bb361c2c134f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:27 +0000
Subject: [PATCH 086/121] fix: start with unusable connection files to reuse

Incomplete files prevented the controller from starting.
---
 ipyparallel/controller/app.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/controller/app.py b/ipyparallel/controller/app.py
index e0a4fcb..74402a4 100755
--- a/ipyparallel/controller/app.py
+++ b/ipyparallel/controller/app.py
@@ -756,8 +756,9 @@ class IPController(BaseParallelApplication):
         if self.reuse_files:
             try:
                 self.load_config_from_json()
-            except (AssertionError, OSError) as e:
-                self.log.error(f"Could not load config from JSON: {e}")
+            except Exception as e:
+                # missing, incomplete or from another version
+                self.log.error(f"Could not load config from JSON: {e!r}")
             else:
                 # successfully loaded config from JSON, and reuse=True
                 # no need to write back the same file
-- 
2.43.0


From 0971367fc7cfb24af507bb30aacdc749e553bbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:27 +0000
Subject: [PATCH 087/121] fix: reuse connection files with another
 configuration

Reused files were left as they are when the configuration has changed, e.g.
with the key of another CURVE key pair, another number of broadcast
schedulers or another task scheme, and an empty key from a controller with
CURVE disabled signatures. Interfaces of the files were only used partially.
---
 ipyparallel/controller/app.py | 67 +++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 30 deletions(-)

diff --git a/ipyparallel/controller/app.py b/ipyparallel/controller/app.py
index 74402a4..90bb571 100755
--- a/ipyparallel/controller/app.py
+++ b/ipyparallel/controller/app.py
@@ -590,6 +590,9 @@ class IPController(BaseParallelApplication):
 
     _random_port_count = Integer(0)
 
+    # contents of reused connection files
+    _reused_info = Tuple()
+
     def next_port(self, pool_name='common'):
         """Consume a port from our port pools"""
         if pool_name == 'client':
@@ -704,12 +707,11 @@ class IPController(BaseParallelApplication):
             ecfg = json.loads(f.read())
 
         # json gives unicode, Session.key wants bytes
-        c.Session.key = ecfg['key'].encode('ascii')
-
-        xport, ip = ecfg['interface'].split('://')
+        # the key is empty if CURVE was enabled
+        if ecfg['key']:
+            c.Session.key = ecfg['key'].encode('ascii')
 
-        c.IPController.engine_ip = ip
-        c.IPController.engine_transport = xport
+        self.engine_transport, self.engine_ip = ecfg['interface'].split('://')
 
         self.location = ecfg['location']
         if not self.engine_ssh_server:
@@ -727,15 +729,13 @@ class IPController(BaseParallelApplication):
                 f"mismatch between engine and client info: {key!r}"
             )
 
-        xport, ip = ccfg['interface'].split('://')
-
-        c.IPController.client_transport = xport
-        c.IPController.client_ip = ip
+        self.client_transport, self.client_ip = ccfg['interface'].split('://')
         if not self.ssh_server:
             self.ssh_server = ccfg['ssh']
 
-        self.engine_info = ecfg
-        self.client_info = ccfg
+        self._reused_info = (ecfg, ccfg)
+        self.engine_info = dict(ecfg)
+        self.client_info = dict(ccfg)
 
     def cleanup_connection_files(self):
         if self.reuse_files:
@@ -802,6 +802,13 @@ class IPController(BaseParallelApplication):
                     for i in range(self.number_of_leaf_schedulers)
                 ],
             }
+        else:
+            # reused, the number of leaves may have changed
+            leaf_ports = self.engine_info[BroadcastScheduler.port_name]
+            self.engine_info[BroadcastScheduler.port_name] = [
+                leaf_ports[i] if i < len(leaf_ports) else self.next_port('engine')
+                for i in range(self.number_of_leaf_schedulers)
+            ]
 
         if not self.client_info:
             self.client_info = {
@@ -815,6 +822,9 @@ class IPController(BaseParallelApplication):
                 'notification': self.next_port('client'),
                 BroadcastScheduler.port_name: self.next_port('client'),
             }
+        else:
+            # reused, the scheme may have changed
+            self.client_info['task_scheme'] = scheme
         if self.engine_transport == 'tcp':
             internal_interface = "tcp://127.0.0.1"
         else:
@@ -940,27 +950,24 @@ class IPController(BaseParallelApplication):
             parent=self,
         )
 
-        if self.write_connection_files:
-            # save to new json config files
-            base = {
-                'key': self.session.key.decode('ascii'),
-                'curve_serverkey': (
-                    self.curve_publickey.decode("ascii") if self.enable_curve else None
-                ),
-                'location': self.location,
-                'pack': self.session.packer,
-                'unpack': self.session.unpacker,
-                'signature_scheme': self.session.signature_scheme,
-            }
+        base = {
+            'key': self.session.key.decode('ascii'),
+            'curve_serverkey': (
+                self.curve_publickey.decode("ascii") if self.enable_curve else None
+            ),
+            'location': self.location,
+            'pack': self.session.packer,
+            'unpack': self.session.unpacker,
+            'signature_scheme': self.session.signature_scheme,
+        }
+        cdict = dict(self.client_info, ssh=self.ssh_server)
+        cdict.update(base)
+        edict = dict(self.engine_info, ssh=self.engine_ssh_server)
+        edict.update(base)
 
-            cdict = {'ssh': self.ssh_server}
-            cdict.update(self.client_info)
-            cdict.update(base)
+        if self.write_connection_files or (edict, cdict) != self._reused_info:
+            # save to new json config files
             self.save_connection_dict(self.client_json_file, cdict)
-
-            edict = {'ssh': self.engine_ssh_server}
-            edict.update(self.engine_info)
-            edict.update(base)
             self.save_connection_dict(self.engine_json_file, edict)
 
         fname = f"engines{self.cluster_id}.json"
-- 
2.43.0


From 9a6553f7e438ca6969003b1b2999e6a7db414630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:27 +0000
Subject: [PATCH 088/121] fix: ports when reusing connection files

Ports of the files were used again for other sockets
if they come from a pool of ports.
---
 ipyparallel/controller/app.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/app.py b/ipyparallel/controller/app.py
index 90bb571..5c92d4c 100755
--- a/ipyparallel/controller/app.py
+++ b/ipyparallel/controller/app.py
@@ -594,7 +594,20 @@ class IPController(BaseParallelApplication):
     _reused_info = Tuple()
 
     def next_port(self, pool_name='common'):
-        """Consume a port from our port pools"""
+        """Consume a port from our port pools
+
+        skips ports of reused connection files
+        """
+        reused_ports = []
+        for info in self._reused_info:
+            for value in info.values():
+                reused_ports.extend(value if isinstance(value, list) else [value])
+        port = self._next_port(pool_name)
+        while port in reused_ports:
+            port = self._next_port(pool_name)
+        return port
+
+    def _next_port(self, pool_name):
         if pool_name == 'client':
             if len(self.client_ports) > self.client_port_index:
                 port = self.client_ports[self.client_port_index]
-- 
2.43.0


From bdeb3a08b9383d6404636cf91fe5fbbd3b652a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:57 +0000
Subject: [PATCH 089/121] fix: start a controller again when it failed to start

The controller was considered running, and saved in the cluster file.
---
 ipyparallel/cluster/cluster.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/cluster/cluster.py b/ipyparallel/cluster/cluster.py
index 1b30630..61a20a0 100644
--- a/ipyparallel/cluster/cluster.py
+++ b/ipyparallel/cluster/cluster.py
@@ -653,9 +653,16 @@ class Cluster(AsyncFirst, LoggingConfigurable):
             self.controller.controller_args = list(controller_args)
 
         self.controller.on_stop(self._controller_stopped)
-        r = self.controller.start()
-        if inspect.isawaitable(r):
-            await r
+        try:
+            r = self.controller.start()
+            if inspect.isawaitable(r):
+                await r
+        except BaseException:
+            if controller.state == 'before':
+                # nothing to stop, can start again
+                self.controller = None
+            self.update_cluster_file()
+            raise
 
         self.update_cluster_file()
 
-- 
2.43.0


From 12a4512c8f4cf360701802bc7d788fc417076743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:57 +0000
Subject: [PATCH 090/121] fix: stop engines of a set that failed to start

Sets that failed to start were considered running.
---
 ipyparallel/cluster/cluster.py | 48 ++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/ipyparallel/cluster/cluster.py b/ipyparallel/cluster/cluster.py
index 61a20a0..ffcc585 100644
--- a/ipyparallel/cluster/cluster.py
+++ b/ipyparallel/cluster/cluster.py
@@ -701,22 +701,38 @@ class Cluster(AsyncFirst, LoggingConfigurable):
             engine_set_id=engine_set_id,
             **kwargs,
         )
-        if self.send_engines_connection_env and self.controller:
-            self.log.debug("Setting $IPP_CONNECTION_INFO environment")
-            connection_info = await self.controller.get_connection_info()
-            connection_info_json = json.dumps(connection_info["engine"])
-            engine_set.environment["IPP_CONNECTION_INFO"] = connection_info_json
-
-        if n is None:
-            n = self.n
-        n = getattr(engine_set, 'engine_count', n)
-        if n is None:
-            n = cpu_count()
-        self.log.info(f"Starting {n or ''} engines with {self.engine_launcher_class}")
-        r = engine_set.start(n)
-        engine_set.on_stop(partial(self._engines_stopped, engine_set_id))
-        if inspect.isawaitable(r):
-            await r
+        try:
+            if self.send_engines_connection_env and self.controller:
+                self.log.debug("Setting $IPP_CONNECTION_INFO environment")
+                connection_info = await self.controller.get_connection_info()
+                connection_info_json = json.dumps(connection_info["engine"])
+                engine_set.environment["IPP_CONNECTION_INFO"] = connection_info_json
+
+            if n is None:
+                n = self.n
+            n = getattr(engine_set, 'engine_count', n)
+            if n is None:
+                n = cpu_count()
+            self.log.info(
+                f"Starting {n or ''} engines with {self.engine_launcher_class}"
+            )
+            r = engine_set.start(n)
+            engine_set.on_stop(partial(self._engines_stopped, engine_set_id))
+            if inspect.isawaitable(r):
+                await r
+        except BaseException:
+            # don't leave some of the engines running
+            try:
+                r = engine_set.stop()
+                if inspect.isawaitable(r):
+                    await r
+            except Exception as e:
+                self.log.warning(
+                    f"Error stopping engine(s) {engine_set_id}, which failed to start: {e}"
+                )
+            self.engines.pop(engine_set_id, None)
+            self.update_cluster_file()
+            raise
         self.update_cluster_file()
         return engine_set_id
 
-- 
2.43.0


From 7d5d33527eb3f69a72a22324155cf7a07184abe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:57 +0000
Subject: [PATCH 091/121] fix: output of processes that is not text

Such output prevented that anyone is notified when a process stops.
---
 ipyparallel/cluster/launcher.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index 325858e..e938d16 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -572,7 +572,7 @@ class LocalProcessLauncher(BaseLauncher):
 
     def _stream_file(self, path):
         """Stream one file"""
-        with open(path) as f:
+        with open(path, errors="replace") as f:
             while self.state == 'running' and not self._stop_waiting.is_set():
                 line = f.readline()
                 # log prefix?
@@ -597,7 +597,7 @@ class LocalProcessLauncher(BaseLauncher):
         if self._output is None:
             if self.output_file:
                 try:
-                    with open(self.output_file) as f:
+                    with open(self.output_file, errors="replace") as f:
                         self._output = f.read()
                 except FileNotFoundError:
                     self.log.debug(f"Missing output file: {self.output_file}")
@@ -1247,7 +1247,7 @@ class SSHLauncher(LocalProcessLauncher):
                             f"Removing {self.location}:{self.remote_output_file}"
                         )
                         self.ssh_sender.cmd_remove(self.remote_output_file)
-                    with open(output_file) as f:
+                    with open(output_file, errors="replace") as f:
                         self._output = f.read()
         return self._output
 
-- 
2.43.0


From 20d16d2a37e419f1db0a11fae35bc41f4198db2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:57 +0000
Subject: [PATCH 092/121] fix: signal engines when one of them has stopped

Other engines did not get the signal.
---
 ipyparallel/cluster/launcher.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index e938d16..bf30839 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -786,7 +786,11 @@ class LocalEngineSetLauncher(LocalEngineLauncher):
 
     def signal(self, sig):
         for el in list(self.launchers.values()):
-            el.signal(sig)
+            try:
+                el.signal(sig)
+            except psutil.NoSuchProcess:
+                # about to be notified
+                self.log.debug(f"Engine {el.identifier} has stopped")
 
     async def stop(self):
         futures = []
-- 
2.43.0


From e0997cb4e86f4e705baadd168888523bfaa9d55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:57 +0000
Subject: [PATCH 093/121] fix: write cluster files atomically

Incomplete files could be loaded, or remain.
---
 ipyparallel/cluster/cluster.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/cluster/cluster.py b/ipyparallel/cluster/cluster.py
index ffcc585..9b368cf 100644
--- a/ipyparallel/cluster/cluster.py
+++ b/ipyparallel/cluster/cluster.py
@@ -562,8 +562,16 @@ class Cluster(AsyncFirst, LoggingConfigurable):
         """Write cluster info to disk for later loading"""
         os.makedirs(os.path.dirname(self.cluster_file), exist_ok=True)
         self.log.debug(f"Updating {self.cluster_file}")
-        with open(self.cluster_file, "w") as f:
-            json.dump(self.to_dict(), f)
+        # nobody should load an incomplete file
+        tmp_file = f"{self.cluster_file}.{os.getpid()}.tmp"
+        try:
+            with open(tmp_file, "w") as f:
+                json.dump(self.to_dict(), f)
+            os.replace(tmp_file, self.cluster_file)
+        except BaseException:
+            if os.path.exists(tmp_file):
+                os.remove(tmp_file)
+            raise
 
     def remove_cluster_file(self):
         """Remove my cluster file."""
-- 
2.43.0


From 299d4e7f74bc10f3a19d7b52119a3e7fe9670c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:57 +0000
Subject: [PATCH 094/121] fix: clean up cluster files without a log

Files or directories that could not be removed stopped the clean up.
---
 ipyparallel/cluster/cluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/cluster/cluster.py b/ipyparallel/cluster/cluster.py
index 9b368cf..a365b79 100644
--- a/ipyparallel/cluster/cluster.py
+++ b/ipyparallel/cluster/cluster.py
@@ -1097,7 +1097,8 @@ def clean_cluster_files(profile_dirs=None, *, log=None, force=False):
         try:
             os.remove(f)
         except OSError as e:
-            log.error(f"Error removing {f}: {e}")
+            if log:
+                log.error(f"Error removing {f}: {e}")
 
     for profile_dir in profile_dirs:
         if log:
-- 
2.43.0


From 3ff34498b4a904fcf55afa69eea580bc625f56c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:21 +0000
Subject: [PATCH 095/121] fix: load running controllers started with mpiexec

Nobody was notified when they stopped.
---
 ipyparallel/cluster/launcher.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index bf30839..ac625e4 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -863,6 +863,7 @@ class MPILauncher(LocalProcessLauncher):
     mpi_args = List(
         [], config=True, help="The command line arguments to pass to mpiexec."
     )
+    n = Integer(1).tag(to_dict=True)
     program = List(['date'], help="The program to start via mpiexec.")
     program_args = List([], help="The command line argument to the program.")
 
-- 
2.43.0


From b9a684c8d03a555291f9cd0af6b7a93f4592966a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:08 +0000
Subject: [PATCH 096/121] fix: connect to each ssh host at its own port

The port of one host was also used for hosts after it.
---
 ipyparallel/cluster/launcher.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index ac625e4..f1e5daf 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -1309,12 +1309,11 @@ class SSHLauncher(LocalProcessLauncher):
         if user is not None:
             self.user = user
         if port is not None:
+            # don't modify lists that are shared with engines on other hosts
             if '-p' not in self.ssh_args:
-                self.ssh_args.append('-p')
-                self.ssh_args.append(str(port))
+                self.ssh_args = self.ssh_args + ['-p', str(port)]
             if '-P' not in self.scp_args:
-                self.scp_args.append('-P')
-                self.scp_args.append(str(port))
+                self.scp_args = self.scp_args + ['-P', str(port)]
 
         # do some checks that setting are correct
         shell_info = self.ssh_sender.get_shell_info()
-- 
2.43.0


From 1e48631dd4ca2211942c4a796e2278692c6adeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:08 +0000
Subject: [PATCH 097/121] fix: numbers of engines on ssh hosts

The number of engines that is configured for a host was lost after the
first set of engines, and (n, args) as documented did not work.
---
 ipyparallel/cluster/launcher.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index f1e5daf..3803716 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -1494,8 +1494,12 @@ class SSHEngineSetLauncher(LocalEngineSetLauncher, SSHLauncher):
         started_n = 0
         for host, n_or_config in self.engines.items():
             if isinstance(n_or_config, dict):
-                overrides = n_or_config
+                # copy, the next set of engines needs it, too
+                overrides = dict(n_or_config)
                 n = overrides.pop("n", 1)
+            elif isinstance(n_or_config, (list, tuple)):
+                n, engine_args = n_or_config
+                overrides = {"engine_args": list(engine_args)}
             else:
                 overrides = {}
                 n = n_or_config
-- 
2.43.0


From 412c4ebe38dc425fbb199a5c618b4a6d7ad8caa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:08 +0000
Subject: [PATCH 098/121] fix: mode of directories for files fetched with ssh

---
 ipyparallel/cluster/launcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index 3803716..038fa5a 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -1293,7 +1293,7 @@ class SSHLauncher(LocalProcessLauncher):
             else:
                 raise ValueError(f"cmd_exists expects bool, got {check!r}")
         local_dir = os.path.dirname(local)
-        ensure_dir_exists(local_dir, 700)
+        ensure_dir_exists(local_dir, 0o700)
         check_output(self.scp_cmd + self.scp_args + [full_remote, local])
 
     def fetch_files(self):
-- 
2.43.0


From 67e0859eb08689015c2737b3f99653e3d0b6617f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:08 +0000
Subject: [PATCH 099/121] fix: signal engines via ssh when one has stopped

The others got no signal.
---
 ipyparallel/cluster/launcher.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index 038fa5a..56f7d09 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -791,6 +791,9 @@ class LocalEngineSetLauncher(LocalEngineLauncher):
             except psutil.NoSuchProcess:
                 # about to be notified
                 self.log.debug(f"Engine {el.identifier} has stopped")
+            except Exception as e:
+                # e.g. has stopped on another host
+                self.log.warning(f"Failed to signal engine {el.identifier}: {e!r}")
 
     async def stop(self):
         futures = []
-- 
2.43.0


From 3c7397e43a99b89f8511cd5fa5806b1af8d83d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:08 +0000
Subject: [PATCH 100/121] fix: stop sets of engines that were started with ssh
 in part

Waiting for those that had not started failed.
---
 ipyparallel/cluster/launcher.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index 56f7d09..2437acb 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -1379,6 +1379,9 @@ class SSHLauncher(LocalProcessLauncher):
         return int(values.get("exit_code", -1))
 
     async def join(self, timeout=None):
+        if self.state == 'before':
+            # never started, nothing to wait for
+            return
         with ThreadPoolExecutor(1) as pool:
             wait = partial(self.wait_one, timeout=timeout)
             try:
-- 
2.43.0


From 53f50ede423a0c2bbf1d9a5acb3e2c358fb0b5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:08 +0000
Subject: [PATCH 101/121] fix: do not delete batch jobs that were not submitted

---
 ipyparallel/cluster/launcher.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index 2437acb..55845e0 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -1972,6 +1972,9 @@ class BatchSystemLauncher(BaseLauncher):
         return job_id
 
     def stop(self):
+        if not self.job_id:
+            # nothing was submitted
+            return
         command = self.delete_command + [self.job_id]
         output = self._run_command(command)
 
-- 
2.43.0


From 6546bc7cc2fff43fd77bb2907e4904cf10edeeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:08 +0000
Subject: [PATCH 102/121] fix: environment of LSF jobs

They did not know their cluster, nor how to connect.
---
 ipyparallel/cluster/launcher.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index 55845e0..5b1151c 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -2302,7 +2302,9 @@ class LSFLauncher(BatchSystemLauncher):
         self.write_batch_script(n)
         piped_cmd = self.args[0] + '<"' + self.args[1] + '"'
         self.log.debug("Starting %s: %s", self.__class__.__name__, piped_cmd)
-        p = Popen(piped_cmd, shell=True, env=os.environ, stdout=PIPE)
+        env = os.environ.copy()
+        env.update(self.get_env())
+        p = Popen(piped_cmd, shell=True, env=env, stdout=PIPE)
         output, err = p.communicate()
         output = output.decode("utf8", 'replace')
         job_id = self.parse_job_id(output)
-- 
2.43.0


From 0cc38ea9beac18739873a5c37774920823e0e302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:08 +0000
Subject: [PATCH 103/121] fix: output files of SGE jobs

Directives were those of PBS, which SGE does not know.
---
 ipyparallel/cluster/launcher.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index 5b1151c..bf32ea5 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -2232,6 +2232,8 @@ class SGELauncher(PBSLauncher):
     job_array_template = Unicode('#$ -t 1-{n}')
     queue_regexp = CRegExp(r'#\$\W+-q\W+\$?\w+')
     queue_template = Unicode('#$ -q {queue}')
+    output_regexp = CRegExp(r'#\$\W+(?:-o)\W+\$?\w+')
+    output_template = Unicode('#$ -j y\n#$ -o {output_file}')
 
 
 class SGEControllerLauncher(SGELauncher, BatchControllerLauncher):
-- 
2.43.0


From 2cdb8b2e324076a1d989917e1445c66726bd5f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:19 +0000
Subject: [PATCH 104/121] fix: kill remote processes without a signal

It failed with a TypeError.
---
 ipyparallel/cluster/shellcmd.py         | 2 +-
 ipyparallel/cluster/shellcmd_receive.py | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/cluster/shellcmd.py b/ipyparallel/cluster/shellcmd.py
index 02f2f9a..7491537 100644
--- a/ipyparallel/cluster/shellcmd.py
+++ b/ipyparallel/cluster/shellcmd.py
@@ -489,7 +489,7 @@ class ShellCommandSend:
     def cmd_kill(self, pid, sig=None):
         """kill (remote) process with the given pid"""
         assert self.shell_info  # make sure that initialize was called already
-        if sig:
+        if sig is not None:
             self._cmd_send("cmd_kill", pid=pid, sig=int(sig))
         else:
             self._cmd_send("cmd_kill", pid=pid)
diff --git a/ipyparallel/cluster/shellcmd_receive.py b/ipyparallel/cluster/shellcmd_receive.py
index 54848b6..f0e5c6b 100644
--- a/ipyparallel/cluster/shellcmd_receive.py
+++ b/ipyparallel/cluster/shellcmd_receive.py
@@ -12,6 +12,7 @@ packages. Hence, DO NOT USE ANY ipyparallel IMPORTS IN THIS FILE!
 import logging
 import os
 import shutil
+import signal
 import sys
 from abc import ABCMeta, abstractmethod
 from contextlib import contextmanager
@@ -239,6 +240,8 @@ class ShellCommandReceivePosix(ShellCommandReceiveBase):
             print('__running=0__')
 
     def cmd_kill(self, pid, sig=None):
+        if sig is None:
+            sig = signal.SIGTERM
         self._log(f"Kill pid {pid} (signal={sig})")
         os.kill(pid, sig)
 
-- 
2.43.0


From 67be4e92f796cad996567b8f982ebff55c2c7956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:42 +0000
Subject: [PATCH 105/121] fix: environment of HTCondor jobs

They did not know their cluster, nor how to connect.
---
 ipyparallel/cluster/launcher.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index bf32ea5..6262863 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -2423,6 +2423,8 @@ universe        = vanilla
 executable      = ipcontroller
 # by default we expect a shared file system
 transfer_executable = False
+# export environment variables, required
+getenv          = True
 arguments       = {program_args}
 """
     )
@@ -2440,6 +2442,8 @@ universe        = vanilla
 executable      = ipengine
 # by default we expect a shared file system
 transfer_executable = False
+# export environment variables, required
+getenv          = True
 arguments       = "{program_args}"
 """
     )
-- 
2.43.0


From 2b9492672ded136e312d8d728c48fc5917ef99e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:42 +0000
Subject: [PATCH 106/121] fix: show clusters that other processes start or
 change

---
 ipyparallel/cluster/cluster.py | 43 ++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/cluster/cluster.py b/ipyparallel/cluster/cluster.py
index a365b79..cc17d36 100644
--- a/ipyparallel/cluster/cluster.py
+++ b/ipyparallel/cluster/cluster.py
@@ -30,6 +30,7 @@ from traitlets import (
     Instance,
     Integer,
     List,
+    Set,
     Unicode,
     default,
     import_item,
@@ -956,6 +957,10 @@ class ClusterManager(LoggingConfigurable):
 
     clusters = Dict(help="My cluster objects")
 
+    # keys of clusters that were loaded from files,
+    # i.e. that are likely managed by other processes
+    _loaded = Set()
+
     @staticmethod
     def _cluster_key(cluster):
         """Return a unique cluster key for a cluster
@@ -1040,7 +1045,8 @@ class ClusterManager(LoggingConfigurable):
                     self.clusters[cluster_key] = cluster
 
             for cluster_file in cluster_files:
-                if cluster_file in by_cluster_file:
+                known = by_cluster_file.get(cluster_file)
+                if known is not None and not self._outdated(known):
                     # already loaded, skip it
                     continue
                 self.log.debug(f"Loading cluster file {cluster_file}")
@@ -1049,12 +1055,40 @@ class ClusterManager(LoggingConfigurable):
                 except Exception as e:
                     self.log.warning(f"Failed to load cluster from {cluster_file}: {e}")
                     continue
-                else:
-                    cluster_key = self._cluster_key(cluster)
-                    self.clusters[cluster_key] = cluster
+                if known is not None:
+                    if not cluster._is_running():
+                        # nothing has changed
+                        continue
+                    # don't let outdated state replace the file
+                    known.cluster_file = ""
+                cluster_key = self._cluster_key(cluster)
+                self.clusters[cluster_key] = cluster
+                self._loaded.add(cluster_key)
 
         return self.clusters
 
+    def _outdated(self, cluster):
+        """Whether another process has changed a cluster we know
+
+        i.e. the cluster file must be loaded again
+        """
+        if not cluster._is_running():
+            # not (or no longer) ours, somebody else started it
+            return True
+        if self._cluster_key(cluster) not in self._loaded:
+            # we started it
+            return False
+        parts = [cluster.controller, *cluster.engines.values()]
+        if any(part.state == "before" for part in parts if part):
+            # we are changing it
+            return False
+        try:
+            with open(cluster.cluster_file) as f:
+                state = json.load(f)
+        except (OSError, ValueError):
+            return False
+        return state != json.loads(json.dumps(cluster.to_dict()))
+
     def new_cluster(self, **kwargs):
         """Create a new cluster"""
         cluster = Cluster(parent=self, **kwargs)
@@ -1062,6 +1096,7 @@ class ClusterManager(LoggingConfigurable):
         if cluster_key in self.clusters:
             raise KeyError(f"Cluster {cluster_key} already exists!")
         self.clusters[cluster_key] = cluster
+        self._loaded.discard(cluster_key)
         return cluster_key, cluster
 
     def get_cluster(self, cluster_id):
-- 
2.43.0


From 1b72e1dc5a3f43b1da20be87926d85a03a4a8284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:42 +0000
Subject: [PATCH 107/121] fix: end ipcluster start if the cluster does not
 start

---
 ipyparallel/cluster/app.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/cluster/app.py b/ipyparallel/cluster/app.py
index 13c92b3..57d7ea8 100755
--- a/ipyparallel/cluster/app.py
+++ b/ipyparallel/cluster/app.py
@@ -566,7 +566,14 @@ class IPClusterStart(IPClusterEngines):
         pass
 
     async def start_cluster(self):
-        await self.cluster.start_cluster()
+        try:
+            await self.cluster.start_cluster()
+        except BaseException:
+            self.log.exception("Cluster start failed")
+            # don't leave part of a cluster running
+            await self.cluster.stop_cluster()
+            self.exit(1)
+
         if self.daemonize:
             print(
                 f"Leaving cluster running: {self.cluster.cluster_file}", file=sys.stderr
-- 
2.43.0


From 0d9192f45d0dc2df33fca64a9c3e365f06f3fb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:42 +0000
Subject: [PATCH 108/121] fix: start a cluster after one that has ended without
 removing its file

---
 ipyparallel/cluster/app.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/ipyparallel/cluster/app.py b/ipyparallel/cluster/app.py
index 57d7ea8..6f2299a 100755
--- a/ipyparallel/cluster/app.py
+++ b/ipyparallel/cluster/app.py
@@ -605,13 +605,15 @@ class IPClusterStart(IPClusterEngines):
                     f"Error loading cluster from file {cluster_file}: {e}. Assuming stopped cluster."
                 )
             else:
-                self.log.critical(
-                    f'Cluster is already running at {self.cluster.cluster_file}. '
-                    'use `ipcluster stop` to stop the cluster.'
-                )
-                # Here I exit with a unusual exit status that other processes
-                # can watch for to learn how I existed.
-                self.exit(ALREADY_STARTED)
+                # the file may be left over from a cluster that has ended
+                if cluster._is_running():
+                    self.log.critical(
+                        f'Cluster is already running at {self.cluster.cluster_file}. '
+                        'use `ipcluster stop` to stop the cluster.'
+                    )
+                    # Here I exit with a unusual exit status that other processes
+                    # can watch for to learn how I existed.
+                    self.exit(ALREADY_STARTED)
 
         # Now log and daemonize
         self.log.info(f'Starting ipcluster with [daemonize={self.daemonize!r}]')
-- 
2.43.0


From cff159f7956cbb7ca0742805027d700ce0261f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:09 +0000
Subject: [PATCH 109/121] fix: client: relay widget closes to engines, and
 ignore comms in terminals

The callback of a proxy comm took no argument, but is called with the close
message: the TypeError was logged, and the engine never learned that the comm
was closed.  In terminal IPython there is no `kernel` attribute at all, so comm
messages raised AttributeError in the IO thread.
---
 ipyparallel/client/client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 86e51a6..a4a67d8 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -1186,7 +1186,9 @@ class Client(HasTraits):
                 if future and not future.done():
                     # TODO: should probably store actual outputs on the Future
                     future.set_result(None)
-        elif msg_type.startswith("comm_") and ip is not None and ip.kernel is not None:
+        elif (
+            msg_type.startswith("comm_") and getattr(ip, "kernel", None) is not None
+        ):
             # only handle comm messages when we're in an IPython kernel
             if msg_type == "comm_open":
                 # create proxy comm
@@ -1215,7 +1217,7 @@ class Client(HasTraits):
 
                 comm.on_msg(relay_comm)
                 comm.on_close(
-                    lambda: send_to_engine(
+                    lambda msg: send_to_engine(
                         "comm_close",
                         content={
                             "comm_id": comm.comm_id,
-- 
2.43.0


From d68366aa69532e13bf10802d5120334ca88cdeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:09 +0000
Subject: [PATCH 110/121] fix: serial_time when some tasks never started

Tasks that are lost with their engine, or refused by the scheduler, have no
`started` time: serial_time raised AttributeError instead of summing up the
tasks that did run.
---
 ipyparallel/client/asyncresult.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 32b7cf3..33edc83 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -842,6 +842,9 @@ class AsyncResult(Future):
         t = 0
         self._parse_metadata_dates()
         for md in self._metadata:
+            if md['started'] is None or md['completed'] is None:
+                # never ran, e.g. lost with its engine or refused by the scheduler
+                continue
             t += compare_datetimes(md['completed'], md['started']).total_seconds()
         return t
 
-- 
2.43.0


From 89d8d0da6576499cdc177216534bcc8633632fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:42 +0000
Subject: [PATCH 111/121] fix: View.wait takes indices of the history of the
 view

Integers were looked up in the history of the client, so that view.wait(-1)
waited for the last request of any view instead of the last one of this view.
---
 ipyparallel/client/view.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index bf54ce4..9104e75 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -262,6 +262,10 @@ class View(HasTraits):
         """
         if jobs is None:
             jobs = self.history
+        elif isinstance(jobs, int):
+            jobs = self.history[jobs]
+        elif isinstance(jobs, (list, tuple, set)):
+            jobs = [self.history[job] if isinstance(job, int) else job for job in jobs]
         return self.client.wait(jobs, timeout)
 
     def abort(self, jobs=None, targets=None, block=None):
-- 
2.43.0


From 2b8ee2c68d58558f7cd6663b9ba03068cb725c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:46 +0000
Subject: [PATCH 112/121] fix: %%px --local: show the output when some engines
 fail

like %%px without --local, which always shows what the engines printed
before it raises the error.
---
 ipyparallel/client/magics.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/magics.py b/ipyparallel/client/magics.py
index be7083b..66079c2 100644
--- a/ipyparallel/client/magics.py
+++ b/ipyparallel/client/magics.py
@@ -504,8 +504,11 @@ class ParallelMagics(Magics):
             self.shell.run_cell(cell)
             # now apply blocking behavior to remote execution
             if block:
-                ar.get()
-                ar.display_outputs(args.groupby)
+                try:
+                    ar.get()
+                finally:
+                    # display outputs on both success and error
+                    ar.display_outputs(args.groupby)
         if not block:
             return ar
 
-- 
2.43.0


From 9c23b7aaeaefd7639a58ce5976b2574e73c603d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:46 +0000
Subject: [PATCH 113/121] fix: %autopx with a suffix can be switched off again

The magics of a view activated with a suffix are called %autopx_suffix,
which was sent to the engines while autopx was on.
---
 ipyparallel/client/magics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/client/magics.py b/ipyparallel/client/magics.py
index 66079c2..9270664 100644
--- a/ipyparallel/client/magics.py
+++ b/ipyparallel/client/magics.py
@@ -576,7 +576,7 @@ class ParallelMagics(Magics):
 
     def pxrun_nodes(self, *args, **kwargs):
         cell = self._px_cell
-        if re.search(r'^\s*%autopx\b', cell):
+        if re.search(rf'^\s*%autopx{re.escape(self.suffix)}\b', cell):
             self._disable_autopx()
             return False
         else:
-- 
2.43.0


From d8086dff73211fd832b4dcfb6c2a6bb24e91463c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:46 +0000
Subject: [PATCH 114/121] fix: stop clusters at exit if only engines were
 started

Only the start of a controller registered a cluster for shutdown_atexit.
---
 ipyparallel/cluster/cluster.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/cluster/cluster.py b/ipyparallel/cluster/cluster.py
index cc17d36..72ef565 100644
--- a/ipyparallel/cluster/cluster.py
+++ b/ipyparallel/cluster/cluster.py
@@ -606,6 +606,13 @@ class Cluster(AsyncFirst, LoggingConfigurable):
         else:
             self.write_cluster_file()
 
+    def _register_atexit(self):
+        """Make sure we are stopped at process exit, unless disabled"""
+        if self.shutdown_atexit:
+            _atexit_clusters.add(self)
+            if not _atexit_cleanup_clusters.registered:
+                atexit.register(_atexit_cleanup_clusters)
+
     async def start_controller(self, **kwargs):
         """Start the controller
 
@@ -619,10 +626,7 @@ class Cluster(AsyncFirst, LoggingConfigurable):
                 "controller is already running. Call stopcontroller() first."
             )
 
-        if self.shutdown_atexit:
-            _atexit_clusters.add(self)
-            if not _atexit_cleanup_clusters.registered:
-                atexit.register(_atexit_cleanup_clusters)
+        self._register_atexit()
 
         self.controller = controller = self.controller_launcher_class(
             work_dir='.',
@@ -699,6 +703,7 @@ class Cluster(AsyncFirst, LoggingConfigurable):
         Returns an engine set id which can be used in stop_engines
         """
         # TODO: send engines connection info
+        self._register_atexit()
         if engine_set_id is None:
             engine_set_id = self._new_engine_set_id()
         engine_set = self.engines[engine_set_id] = self.engine_launcher_class(
-- 
2.43.0


From d0062bde3952c35bb14d7742afbe98ba31b1bc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:47 +0000
Subject: [PATCH 115/121] fix: find the table of earlier sessions with sqlite
 >= 3.37

sqlite reports the standard types of columns in upper case,
so every start of a controller took its own table for an old one
and put its records into a new table.
---
 ipyparallel/controller/sqlitedb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/sqlitedb.py b/ipyparallel/controller/sqlitedb.py
index e151a7c..9df6fca 100644
--- a/ipyparallel/controller/sqlitedb.py
+++ b/ipyparallel/controller/sqlitedb.py
@@ -246,7 +246,8 @@ class SQLiteDB(BaseDB):
         keys = []
         for line in lines:
             keys.append(line[1])
-            types[line[1]] = line[2]
+            # sqlite >= 3.37 reports standard types in upper case
+            types[line[1]] = line[2].lower()
         if self._keys != keys:
             # key mismatch
             self.log.warning('keys mismatch')
-- 
2.43.0


From 8d803a6c018cd533d3a65458ebde58310a25395d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:47 +0000
Subject: [PATCH 116/121] fix: restore execute_result and error messages from
 SQLiteDB

They are stored as json in text columns, and came back as text,
so clients could not show results they got from the Hub:
AttributeError: 'str' object has no attribute 'get'.
---
 ipyparallel/controller/sqlitedb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipyparallel/controller/sqlitedb.py b/ipyparallel/controller/sqlitedb.py
index 9df6fca..bca2366 100644
--- a/ipyparallel/controller/sqlitedb.py
+++ b/ipyparallel/controller/sqlitedb.py
@@ -327,6 +327,9 @@ class SQLiteDB(BaseDB):
         keys = self._keys if keys is None else keys
         d = self._defaults(keys)
         for key, value in zip(keys, line):
+            if key in ('execute_result', 'error'):
+                # these messages are stored as json in text columns
+                value = _convert_dict(value)
             d[key] = value
 
         return d
-- 
2.43.0


From 68c7fdc1dd53ea4abdac3bfe39b3975739b9801c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:47 +0000
Subject: [PATCH 117/121] fix: sync_imports of submodules binds the package on
 engines

`import a.b` bound nothing usable there (the name 'a.b').
---
 ipyparallel/client/view.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 9104e75..0643b96 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -452,6 +452,8 @@ class DirectView(View):
                 for key in fromlist:
                     user_ns[key] = getattr(mod, key)
             else:
+                # `import a.b` binds a
+                name = name.partition('.')[0]
                 user_ns[name] = sys.modules[name]
 
         def view_import(name, globals={}, locals={}, fromlist=[], level=0):
-- 
2.43.0


From 43387803569133421fccba776a911429f5a342ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:47 +0000
Subject: [PATCH 118/121] fix: sync_imports goes on after imports that fail or
 are made elsewhere

An import that failed, or one in a function called in the block,
ended the override of import: those after it were not made on engines.
---
 ipyparallel/client/view.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 0643b96..1ea1eb5 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -463,12 +463,23 @@ class DirectView(View):
             # don't override nested imports
             save_import = builtins.__import__
             builtins.__import__ = local_import
+            try:
+                return _view_import(
+                    inspect.currentframe().f_back,
+                    name,
+                    globals,
+                    locals,
+                    fromlist,
+                    level,
+                )
+            finally:
+                # restore override
+                builtins.__import__ = save_import
 
-            import_frame = inspect.getouterframes(inspect.currentframe())[1].frame
+        def _view_import(import_frame, name, globals, locals, fromlist, level):
             if import_frame is not context_frame:
                 # only forward imports from the context frame,
                 # not secondary imports
-                # TODO: does this ever happen, or is the above `__import__` enough?
                 return local_import(name, globals, locals, fromlist, level)
 
             if local:
@@ -489,9 +500,6 @@ class DirectView(View):
                     else:
                         print(f"importing {name} on engine(s)")
                 results.append(self.apply_async(remote_import, name, fromlist, level))
-            # restore override
-            builtins.__import__ = save_import
-
             return mod
 
         # override __import__
-- 
2.43.0


From 6db2ece0b320f7c3bcb5ae0178c31a6f775b3e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:47 +0000
Subject: [PATCH 119/121] fix: BroadcastView.run and labels of
 BroadcastView.execute

run() failed with a TypeError, because execute() took no label.
---
 ipyparallel/client/view.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 1ea1eb5..56f03cc 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -1051,7 +1051,7 @@ class BroadcastView(DirectView):
     @sync_results
     @save_ids
     @_not_coalescing
-    def execute(self, code, silent=True, targets=None, block=None):
+    def execute(self, code, silent=True, targets=None, block=None, label=None):
         """Executes `code` on `targets` in blocking or nonblocking manner.
 
         ``execute`` is always `bound` (affects engine namespace)
@@ -1063,15 +1063,19 @@ class BroadcastView(DirectView):
         block : bool
             whether or not to wait until done to return
             default: self.block
+        label : str [default self.label]
+            set an optional user-defined task identifier
         """
         block = self.block if block is None else block
         targets = self.targets if targets is None else targets
+        label = self.label if label is None else label
 
         _idents, _targets = self.client._build_targets(targets)
         s_idents = [ident.decode("utf8") for ident in _idents]
         target_tuples = list(zip(s_idents, _targets))
 
         metadata = self._init_metadata(target_tuples)
+        metadata['label'] = label
 
         ar = None
 
-- 
2.43.0


From 6f115e2e03ab5301033dc14cfcad12494c737d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:47 +0000
Subject: [PATCH 120/121] fix: labels of BroadcastView.apply

The label of the view was not sent.
---
 ipyparallel/client/view.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 56f03cc..df29448 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -1022,6 +1022,7 @@ class BroadcastView(DirectView):
         target_tuples = list(zip(s_idents, _targets))
 
         metadata = self._init_metadata(target_tuples)
+        metadata['label'] = self.label
 
         ar = None
 
-- 
2.43.0


From 021168ee6e3482075f22f643d37831cb84e2e614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:09 +0000
Subject: [PATCH 121/121] fix: the end of an engine set is told to everybody
 who waits for it

---
 ipyparallel/cluster/launcher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index 6262863..42ff0ee 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -292,7 +292,8 @@ class BaseLauncher(LoggingConfigurable):
         self.stop_data = data
         self.state = 'after'
         self._log_output(data)
-        for f in self.stop_callbacks:
+        # callbacks may unregister themselves
+        for f in list(self.stop_callbacks):
             f(data)
         return data
 
-- 
2.43.0

