From d26f1eb102ba6e2cfcb3ca01b4c6cfa25a2c3311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 01/59] fix: two requests started at the same instant no longer
 share one process state

---
 prodsys/simulation/control.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index a69c5a5..b2eb660 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -280,9 +280,9 @@ class ProductionController(Controller):
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Waiting to retrieve product {product.product_data.ID} from queue"})
             yield events.AllOf(resource.env, product_retrieval_events)
 
-            production_state: state.State = yield self.env.process(self.wait_for_free_process(resource, process))
+            production_state: state.State = yield from self.wait_for_free_process(resource, process)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Starting process for {product.product_data.ID}"})
-            yield self.env.process(self.run_process(production_state, product, process))
+            yield from self.run_process(production_state, product, process)
             production_state.process = None
 
             product_put_events = self.put_product_to_output_queue(resource, [product])
@@ -789,18 +789,18 @@ class TransportController(Controller):
             if origin.data.ID != self._current_locatable.data.ID:
                 route_to_origin = self.find_route_to_origin(process_request)
                 logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Empty transport needed for {product.product_data.ID} from {origin.data.ID} to {target.data.ID}"})
-                transport_state: state.State = yield self.env.process(self.wait_for_free_process(resource, process))
+                transport_state: state.State = yield from self.wait_for_free_process(resource, process)
                 logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Starting transport to pick up {product.product_data.ID} for transport"})
-                yield self.env.process(self.run_transport(transport_state, product, route_to_origin, empty_transport=True))
+                yield from self.run_transport(transport_state, product, route_to_origin, empty_transport=True)
 
             product_retrieval_events = self.get_next_product_for_process(origin, product)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Waiting to retrieve product {product.product_data.ID} from queue"})
             yield events.AllOf(resource.env, product_retrieval_events)
             product.update_location(self.resource)
 
-            transport_state: state.State = yield self.env.process(self.wait_for_free_process(resource, process))
+            transport_state: state.State = yield from self.wait_for_free_process(resource, process)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Starting transport of {product.product_data.ID}"})
-            yield self.env.process(self.run_transport(transport_state, product, route_to_target, empty_transport=False))
+            yield from self.run_transport(transport_state, product, route_to_target, empty_transport=False)
 
             product_put_events = self.put_product_to_input_queue(target, product)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Waiting to put product {product.product_data.ID} to queue"})
@@ -835,7 +835,7 @@ class TransportController(Controller):
             else:
                 last_transport_step = False
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Moving from {location.data.ID} to {next_location.data.ID}", "empty_transport": True, "initial_transport_step": initial_transport_step, "last_transport_step": last_transport_step})
-            yield self.env.process(self.run_process(transport_state, product, target=next_location, empty_transport=empty_transport, initial_transport_step=initial_transport_step, last_transport_step=last_transport_step))
+            yield from self.run_process(transport_state, product, target=next_location, empty_transport=empty_transport, initial_transport_step=initial_transport_step, last_transport_step=last_transport_step)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Arrived at {next_location.data.ID}", "empty_transport": True, "initial_transport_step": initial_transport_step, "last_transport_step": last_transport_step})
             transport_state.process = None
 
-- 
2.43.0


From 9e2edf09999b5058653fb81f35a232c86d4830da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 02/59] fix: express systems with states can be converted (loop
 variable shadowed the state module)

---
 prodsys/express/production_system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/express/production_system.py b/prodsys/express/production_system.py
index 39084ea..d6400d1 100644
--- a/prodsys/express/production_system.py
+++ b/prodsys/express/production_system.py
@@ -109,7 +109,7 @@ class ProductionSystem(core.ExpressObject):
 
         time_models = (
             [process_instance.time_model for process_instance in processes if not isinstance(process_instance, process.RequiredCapabilityProcess)]
-            + [state.time_model for state in states]
+            + [s.time_model for s in states]
             + [source.time_model for source in self.sources]
         )
         time_models += [
@@ -138,7 +138,7 @@ class ProductionSystem(core.ExpressObject):
 
         time_model_data = [time_model.to_model() for time_model in time_models]
         process_data = [process.to_model() for process in processes]
-        state_data = [state.to_model() for state in states]
+        state_data = [s.to_model() for s in states]
         nodes_data = [node.to_model() for node in nodes]
         product_data = [product.to_model() for product in products]
         resource_data = [resource.to_model() for resource in self.resources]
-- 
2.43.0


From 8c43379699f4a6fc4a88ef8426262b3cdf1f7d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:20 +0000
Subject: [PATCH 03/59] fix: work no longer resumes while another breakdown of
 the resource or process is active

---
 prodsys/simulation/state.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/prodsys/simulation/state.py b/prodsys/simulation/state.py
index 7888c10..63c1fa9 100644
--- a/prodsys/simulation/state.py
+++ b/prodsys/simulation/state.py
@@ -251,6 +251,17 @@ class State(ABC, BaseModel):
         except:
             raise RuntimeError(f"state {self.state_data.ID} is allready succeded!!")
 
+    def wait_until_active(self) -> Generator:
+        """
+        Waits until the state and its resource are both active. A further breakdown that starts while waiting (or at the very instant the first one ends) replaces the event that was waited for, so the condition is checked again.
+
+        Yields:
+            Generator: Yields until neither the state nor the resource is deactivated.
+        """
+        yield events.AllOf(self.env, [self.active, self.resource.active])
+        while not (self.active.triggered and self.resource.active.triggered):
+            yield events.AllOf(self.env, [self.active, self.resource.active])
+
     @abstractmethod
     def process_state(self) -> Generator:
         """
@@ -334,7 +345,7 @@ class ProductionState(State):
                     )
                     self.update_done_in()
                     debug_logging(self, f"interrupted process that ends in {self.done_in}")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    yield from self.wait_until_active()
                     debug_logging(self, f"interrupt over for process that ends in {self.done_in}")
                     self.interrupted = False
                     self.state_info.log_end_interrupt_state(
@@ -446,7 +457,7 @@ class TransportState(State):
                     )
                     self.update_done_in()
                     debug_logging(self, f"interrupted process that ends in {self.done_in}")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    yield from self.wait_until_active()
                     debug_logging(self, f"interrupt over for process that ends in {self.done_in}")
                     self.interrupted = False
                     self.state_info.log_end_interrupt_state(
@@ -652,7 +663,7 @@ class SetupState(State):
                     )
                     self.update_done_in()
                     debug_logging(self, f"interrupted process that ends in {self.done_in}")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    yield from self.wait_until_active()
                     self.interrupted = False
                     debug_logging(self, f"interrupt over for process that ends in {self.done_in}")
                     self.state_info.log_end_interrupt_state(
@@ -745,7 +756,7 @@ class ChargingState(State):
                     )
                     self.update_done_in()
                     debug_logging(self, f"interrupted process that ends in {self.done_in}")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    yield from self.wait_until_active()
                     debug_logging(self, f"interrupt over for process that ends in {self.done_in}")
                     self.interrupted = False
                     self.state_info.log_end_interrupt_state(
-- 
2.43.0


From 5861aaf144b490650d0afbd16f83242172795d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:20 +0000
Subject: [PATCH 04/59] fix: a process breakdown no longer discards every other
 repair time for a debug message

---
 prodsys/simulation/state.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/prodsys/simulation/state.py b/prodsys/simulation/state.py
index 63c1fa9..a98a16a 100644
--- a/prodsys/simulation/state.py
+++ b/prodsys/simulation/state.py
@@ -580,7 +580,6 @@ class ProcessBreakDownState(State):
             yield events.AllOf(
                 self.env, [state.active for state in self.production_states]
             )
-            debug_logging(self, f"interrupted states, starting breakdown for {self.repair_time_model.get_next_time()}")
             for state in self.production_states + self.resource.setup_states:
                 state.deactivate()
             for state in self.production_states + self.resource.setup_states:
-- 
2.43.0


From 639bd520a38e6dae40178eb8c7aea15bd315df7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:26 +0000
Subject: [PATCH 05/59] fix: overlapping process breakdowns that share a setup
 state no longer crash the simulation

---
 prodsys/simulation/state.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/prodsys/simulation/state.py b/prodsys/simulation/state.py
index a98a16a..a210f71 100644
--- a/prodsys/simulation/state.py
+++ b/prodsys/simulation/state.py
@@ -217,6 +217,7 @@ class State(ABC, BaseModel):
     resource: resources.Resource = Field(init=False, default=None)
     process: Optional[events.Process] = Field(default=None)
     state_info: StateInfo = Field(None)
+    deactivations: int = 0
 
     model_config=ConfigDict(arbitrary_types_allowed=True)
 
@@ -237,15 +238,20 @@ class State(ABC, BaseModel):
         """
         Deactivates the state by setting the active event to a new event which is not yet triggered.
         """
-        self.active = events.Event(self.env)
+        if not self.deactivations:
+            self.active = events.Event(self.env)
+        self.deactivations += 1
 
     def activate(self):
         """
-        Activates the state by triggering the active event.
+        Activates the state by triggering the active event. If the state was deactivated several times (e.g. by overlapping process breakdowns), it gets active with the last activation.
 
         Raises:
             RuntimeError: If the state is allready active.
         """
+        self.deactivations -= 1
+        if self.deactivations > 0:
+            return
         try:
             self.active.succeed()
         except:
-- 
2.43.0


From f7958514644df09a9ea0e3de5ca9eee666c7d842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:05 +0000
Subject: [PATCH 06/59] fix: a transport resource with capacity above one no
 longer starts more transports than there are requests

---
 prodsys/simulation/control.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index b2eb660..579e68e 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -730,10 +730,11 @@ class TransportController(Controller):
             for process in self.running_processes:
                 if not process.is_alive:
                     self.running_processes.remove(process)
-            if self.resource.full or not self.requests:
+            if self.resource.full or not self.requests or self.reserved_requests_count == len(self.requests):
                 logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"No request ({len(self.requests)}) or resource full ({self.resource.full})"})
                 continue
             self.control_policy(self.requests)
+            self.reserved_requests_count += 1
             running_process = self.env.process(self.start_process())
             self.running_processes.append(running_process)
             if not self.resource.full:
@@ -774,6 +775,7 @@ class TransportController(Controller):
         """
         yield self.env.timeout(0)
         process_request = self.requests.pop(0)
+        self.reserved_requests_count -= 1
 
         resource = process_request.get_resource()
         process = process_request.get_process()
-- 
2.43.0


From 7577b180da0a0b60ebd7b4cbcb8a808ff256b656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 07/59] fix: a source waits for space in a finite output queue
 instead of crashing the simulation

---
 prodsys/simulation/source.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prodsys/simulation/source.py b/prodsys/simulation/source.py
index 8992630..1294c74 100644
--- a/prodsys/simulation/source.py
+++ b/prodsys/simulation/source.py
@@ -91,6 +91,8 @@ class Source(BaseModel):
             logger.debug({"ID": self.data.ID, "sim_time": self.env.now, "resource": self.data.ID, "product": product.product_data.ID, "event": f"Created product"})
             available_events_events = []
             for queue in self.output_queues:
+                while queue.full:
+                    yield queue.state_change
                 queue.reserve()
                 available_events_events.append(queue.put(product.product_data))
             yield events.AllOf(self.env, available_events_events)
-- 
2.43.0


From 622d50487d4dd91012025e20ba7c6ac66ab5f6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:14 +0000
Subject: [PATCH 08/59] fix: stores keep their location when a configuration is
 read or written

---
 prodsys/adapters/adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index 587bf58..023c1df 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -293,7 +293,7 @@ class ProductionSystemAdapter(ABC, BaseModel):
     time_model_data: List[time_model_data_module.TIME_MODEL_DATA] = []
     state_data: List[state_data_module.STATE_DATA_UNION] = []
     process_data: List[processes_data_module.PROCESS_DATA_UNION] = []
-    queue_data: List[queue_data_module.QueueData] = []
+    queue_data: List[queue_data_module.QUEUE_DATA_UNION] = []
     node_data: List[node_data_module.NodeData] = []
     resource_data: List[resource_data_module.RESOURCE_DATA_UNION] = []
     product_data: List[product_data_module.ProductData] = []
-- 
2.43.0


From e7c7e05f6739fa37a8144bc380e66fb620704a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:43 +0000
Subject: [PATCH 09/59] fix: LIFO policy no longer alternates between last-in
 and first-in

---
 prodsys/simulation/control.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index 579e68e..13f9273 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -947,12 +947,13 @@ def FIFO_control_policy(requests: List[request_module.Request]) -> None:
 
 def LIFO_control_policy(requests: List[request_module.Request]) -> None:
     """
-    Sort the requests according to the LIFO principle (reverse the list).
+    Move the request that came in last to the front. The other requests keep their arrival order, since the list is reordered in place every time a request is selected.
 
     Args:
         requests (List[Request]): The list of requests.
     """
-    requests.reverse()
+    if requests:
+        requests.insert(0, requests.pop())
 
 
 def SPT_control_policy(requests: List[request_module.Request]) -> None:
-- 
2.43.0


From eaf25ad876d0c8b995256c5dd2bf872811f953bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:43 +0000
Subject: [PATCH 10/59] fix: nearest-origin transport policies no longer raise
 a TypeError

---
 prodsys/simulation/control.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index 13f9273..2acbc6d 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -996,7 +996,7 @@ def nearest_origin_and_longest_target_queues_transport_control_policy(requests:
     requests.sort(
         key=lambda x: (
             x.process.get_expected_process_time(
-                get_location(x.resource), get_location(x.origin, mode="origin")),
+                x.resource.get_location(), get_location(x.origin, mode="origin")),
                 - x.target.get_output_queue_length()
                 )
     )
@@ -1012,7 +1012,7 @@ def nearest_origin_and_shortest_target_input_queues_transport_control_policy(req
     requests.sort(
         key=lambda x: (
             x.process.get_expected_process_time(
-                get_location(x.resource), get_location(x.origin, mode="origin")),
+                x.resource.get_location(), get_location(x.origin, mode="origin")),
             x.target.get_input_queue_length()
             )
     )
-- 
2.43.0


From e742db7715e86a8ba88a39dbdb47c4f848c3209b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:52 +0000
Subject: [PATCH 11/59] fix: a changeover without a declared setup still
 changes what the machine is set up for

---
 prodsys/simulation/resources.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prodsys/simulation/resources.py b/prodsys/simulation/resources.py
index 54c3a51..a52b91e 100644
--- a/prodsys/simulation/resources.py
+++ b/prodsys/simulation/resources.py
@@ -428,10 +428,13 @@ class Resource(BaseModel, ABC, resource.Resource):
                 input_state.process = None
                 self.current_setup = _process
                 self.unreserve_setup()
+                break
 
         else:
             yield self.env.process(self.get_free_of_setups())
             yield self.env.process(util.trivial_process(self.env))
+            if self.setup_states:
+                self.current_setup = _process
 
 
 class ProductionResource(Resource):
-- 
2.43.0


From 60a5c5d40981aab53b20f4841ad42a9b63843a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 12/59] fix: processes are looked up by their exact ID

---
 prodsys/factories/process_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/factories/process_factory.py b/prodsys/factories/process_factory.py
index 397e46d..c98cb98 100644
--- a/prodsys/factories/process_factory.py
+++ b/prodsys/factories/process_factory.py
@@ -126,7 +126,7 @@ class ProcessFactory(BaseModel):
         Returns:
             Optional[process.PROCESS_UNION]: Process object based on the given ID.
         """
-        pr = [pr for pr in self.processes if pr.process_data.ID in ID]
+        pr = [pr for pr in self.processes if pr.process_data.ID == ID]
         if not pr:
             raise ValueError(f"Process with ID {ID} not found")
         return pr.pop()
-- 
2.43.0


From d61a82860b9e32eceeb9c5e6027aaf53113b5c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 13/59] fix: a batch machine waits until all members of a batch
 have a free slot

---
 prodsys/simulation/control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index 2acbc6d..5ed1639 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -442,7 +442,7 @@ class BatchController(Controller):
         possible_states = resource.get_processes(process)
         while True:
             free_states = resource.get_free_processes(process)
-            if free_states:
+            if len(free_states) >= min(self.get_batch_size(resource), len(possible_states)):
                 return free_states
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": resource.data.ID, "event": "Waiting for free process"})
             yield events.AnyOf(
-- 
2.43.0


From ceb5a5c4575d150622d04e75af168a1ee10ec225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 14/59] fix: the euclidean distance metric can be configured
 (spelling differed from the simulation)

---
 prodsys/models/time_model_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/models/time_model_data.py b/prodsys/models/time_model_data.py
index e64bb12..c0ff4e1 100644
--- a/prodsys/models/time_model_data.py
+++ b/prodsys/models/time_model_data.py
@@ -299,7 +299,7 @@ class DistanceTimeModelData(CoreAsset):
         description (str): Description of the time model.
         speed (float): Speed of the transport.
         reaction_time (float): Reaction time of the transport.
-        metric (Literal["manhattan", "euclidian"]): Metric to calculate the distance. Default is "manhattan".
+        metric (Literal["manhattan", "euclidean"]): Metric to calculate the distance. Default is "manhattan".
 
     Examples:
         Distance time model with speed 180 m/min = 3 m/s and reaction time 0.15 minutes:
@@ -316,7 +316,7 @@ class DistanceTimeModelData(CoreAsset):
 
     speed: float
     reaction_time: float
-    metric: Literal["manhattan", "euclidian"] = "manhattan"
+    metric: Literal["manhattan", "euclidean"] = "manhattan"
 
     def hash(self) -> str:
         """
-- 
2.43.0


From df038be53bcd974bf0e972389a8983fa0c1d5d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:14 +0000
Subject: [PATCH 15/59] fix: a battery powered machine no longer charges while
 it works

---
 prodsys/simulation/control.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index 5ed1639..076e4fb 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -230,8 +230,6 @@ class ProductionController(Controller):
         """
         while True:
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": "Waiting for request or process to finish"})
-            if self.resource.requires_charging:
-                yield self.env.process(self.resource.charge())
             yield events.AnyOf(
                 env=self.env, events=self.running_processes + [self.requested]
             )
@@ -240,6 +238,10 @@ class ProductionController(Controller):
             for process in self.running_processes:
                 if not process.is_alive:
                     self.running_processes.remove(process)
+            if self.resource.requires_charging:
+                if self.running_processes:
+                    continue
+                yield self.env.process(self.resource.charge())
             if self.resource.full or not self.requests or self.reserved_requests_count == len(self.requests):
                 logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"No request ({len(self.requests)}) or resource full ({self.resource.full}) or all requests reserved ({self.reserved_requests_count == len(self.requests)})"})
                 continue
-- 
2.43.0


From 4300e7d7cc89581541b4582c5f1557f9475d6dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:44 +0000
Subject: [PATCH 16/59] fix: dynamic throughput time figures name the product
 (building them raised a ValidationError)

---
 prodsys/util/post_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index fd05ab1..91b193a 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -320,7 +320,7 @@ class PostProcessor:
                     name=performance_indicators.KPIEnum.DYNAMIC_THROUGHPUT_TIME,
                     context=context,
                     value=values["Throughput_time"],
-                    product=index,
+                    product=values["Product"],
                     product_type=values["Product_type"],
                     start_time=values["Start_time"],
                     end_time=values["End_time"],
-- 
2.43.0


From 9010ff44ffde366d4455f7358d1e912e456fc71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:59 +0000
Subject: [PATCH 17/59] fix: idle time after a resumed operation counts as
 standby, not as productive

---
 prodsys/util/post_processing.py | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index 91b193a..e4384f4 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -448,24 +448,14 @@ class PostProcessor:
             pd.DataFrame: Data frame with the machine states and the time spent in each state.
         """
         df = self.df_prepared.copy()
-        positive_condition = (
-            (df["State_type"] == "Process State")
-            & (df["Activity"] == "start state")
-            & (df["State Type"] != state.StateTypeEnum.setup)
-            & (df["State Type"] != state.StateTypeEnum.breakdown)
-            & (df["State Type"] != state.StateTypeEnum.charging)
-        )
-        negative_condition = (
-            (df["State_type"] == "Process State")
-            & (df["Activity"] == "end state")
-            & (df["State Type"] != state.StateTypeEnum.setup)
-            & (df["State Type"] != state.StateTypeEnum.breakdown)
-            & (df["State Type"] != state.StateTypeEnum.charging)
-        )
-
-        df["Increment"] = 0
-        df.loc[positive_condition, "Increment"] = 1
-        df.loc[negative_condition, "Increment"] = -1
+        # an operation that is interrupted by a breakdown logs another start when it
+        # is resumed, so count the operations that are running after each event
+        running = (
+            (df["State_type"] == "Process State") & (df["Activity"] == "start state")
+        ).astype(int)
+        df["Increment"] = running - running.groupby(
+            [df["Resource"], df["State"], df["Product"]], dropna=False
+        ).shift(fill_value=0)
 
         df["Used_Capacity"] = df.groupby(by="Resource")["Increment"].cumsum()
 
-- 
2.43.0


From 198b14a7164af5e9c977c525695f8d6b3d61fca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 18/59] fix: resource states count overlapping breakdowns and
 the time before the first event

---
 prodsys/util/post_processing.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index e4384f4..aebbe48 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -459,23 +459,24 @@ class PostProcessor:
 
         df["Used_Capacity"] = df.groupby(by="Resource")["Increment"].cumsum()
 
+        # breakdowns of different states can overlap
+        breakdown_change = (df["State Type"] == state.StateTypeEnum.breakdown) * (
+            (df["Activity"] == "start state").astype(int)
+            - (df["Activity"] == "end state").astype(int)
+        )
+        df["Active_Breakdowns"] = breakdown_change.groupby(df["Resource"]).cumsum()
+
         df_resource_types = df[["Resource", "State Type"]].drop_duplicates().copy()
         resource_types_dict = pd.Series(df_resource_types["State Type"].values, index=df_resource_types["Resource"].values).to_dict()
         for resource in df["Resource"].unique():
             if resource_types_dict[resource] in {state.StateTypeEnum.source, state.StateTypeEnum.sink}:
                 continue
-            example_row = (
-                df.loc[
-                    (df["Resource"] == resource)
-                    & (
-                        ((df["State_sorting_Index"] == 5) & (df["Used_Capacity"] == 0))
-                        | (df["State_sorting_Index"] == 3)
-                    )
-                ]
-                .copy()
-                .head(1)
-            )
+            # every resource is in standby until its first event
+            example_row = df.loc[df["Resource"] == resource].copy().head(1)
             example_row["Time"] = 0.0
+            example_row["Activity"] = "end state"
+            example_row["State_sorting_Index"] = 3
+            example_row[["Increment", "Used_Capacity", "Active_Breakdowns"]] = 0
             df = pd.concat([example_row, df]).reset_index(drop=True)
 
         df["next_Time"] = df.groupby("Resource")["Time"].shift(-1)
@@ -490,9 +491,7 @@ class PostProcessor:
             | (df["State_sorting_Index"] == 4)
             | ((df["State_sorting_Index"] == 5) & df["Used_Capacity"] != 0)
         )
-        DOWN_CONDITION = ((df["State_sorting_Index"] == 7) | (
-            df["State_sorting_Index"] == 8
-        )) & (df["State Type"] == state.StateTypeEnum.breakdown)
+        DOWN_CONDITION = df["Active_Breakdowns"] > 0
         SETUP_CONDITION = ((df["State_sorting_Index"] == 8)) & (
             df["State Type"] == state.StateTypeEnum.setup
         )
@@ -502,9 +501,9 @@ class PostProcessor:
 
         df.loc[STANDBY_CONDITION, "Time_type"] = "SB"
         df.loc[PRODUCTIVE_CONDITION, "Time_type"] = "PR"
-        df.loc[DOWN_CONDITION, "Time_type"] = "UD"
         df.loc[SETUP_CONDITION, "Time_type"] = "ST"
         df.loc[CHARGING_CONDITION, "Time_type"] = "CR"
+        df.loc[DOWN_CONDITION, "Time_type"] = "UD"
 
         return df
 
-- 
2.43.0


From 62afc3fee26ce4649a1ce504f0ea97999976f244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:58 +0000
Subject: [PATCH 19/59] fix: the course of the work in progress can be reported
 (it raised a KeyError)

---
 prodsys/util/post_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index aebbe48..934b214 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -1150,7 +1150,7 @@ class PostProcessor:
         df = df.loc[df["WIP_Increment"] != 0]
 
         KPIs = []
-        df["next_Time"] = df["Time"].groupby(by="Product_type").shift(-1)
+        df["next_Time"] = df.groupby(by="Product_type")["Time"].shift(-1)
         df["next_Time"] = df["next_Time"].fillna(df["Time"])
         for index, row in df.iterrows():
             if row["Product_type"] == "Total":
-- 
2.43.0


From 0cefbd6f099f2d5db3defc896ff87e767d0153c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:02 +0000
Subject: [PATCH 20/59] fix: the time a resource waits for the repair of a
 process is reported (it was dropped)

---
 prodsys/util/post_processing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index 934b214..043a90f 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -484,12 +484,13 @@ class PostProcessor:
         df["time_increment"] = df["next_Time"] - df["Time"]
 
         STANDBY_CONDITION = (
-            (df["State_sorting_Index"] == 5) & (df["Used_Capacity"] == 0)
+            df["State_sorting_Index"].isin([5, 7]) & (df["Used_Capacity"] == 0)
         ) | (df["State_sorting_Index"] == 3)
         PRODUCTIVE_CONDITION = (
             (df["State_sorting_Index"] == 6)
             | (df["State_sorting_Index"] == 4)
             | ((df["State_sorting_Index"] == 5) & df["Used_Capacity"] != 0)
+            | ((df["State_sorting_Index"] == 7) & (df["Used_Capacity"] > 0))
         )
         DOWN_CONDITION = df["Active_Breakdowns"] > 0
         SETUP_CONDITION = ((df["State_sorting_Index"] == 8)) & (
-- 
2.43.0


From 31425b6adf453dc495dde349249ece8bdbc320cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:43 +0000
Subject: [PATCH 21/59] fix: the availability counts resources without
 breakdowns

---
 prodsys/util/post_processing.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index 043a90f..2576d30 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -819,8 +819,11 @@ class PostProcessor:
         """
         df_resource_states = self.df_aggregated_resource_states.copy()
         df_resource_states = df_resource_states.reset_index()
-        average_kpis = df_resource_states.groupby("Time_type")["percentage"].mean()
-        unplanned_downtime = average_kpis.get('UD', 0)
+        # resources without a breakdown have no UD row, but count with a downtime of 0
+        unplanned_downtime = (
+            df_resource_states.loc[df_resource_states["Time_type"] == "UD", "percentage"].sum()
+            / df_resource_states["Resource"].nunique()
+        )
         availibility = (100 - unplanned_downtime) / 100
         # TODO: also calculate performance based on arrival rates, available time and output of the system
         # TODO: calculate scrap rate after merging scrap simulation from feature branch
-- 
2.43.0


From 8eaf8f009bc444cc702675a6b5cb9782a71b5df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:35 +0000
Subject: [PATCH 22/59] fix: a source goes on after an arrival gap of zero (it
 stopped for good)

---
 prodsys/simulation/source.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/prodsys/simulation/source.py b/prodsys/simulation/source.py
index 1294c74..eec5f0c 100644
--- a/prodsys/simulation/source.py
+++ b/prodsys/simulation/source.py
@@ -70,6 +70,22 @@ class Source(BaseModel):
         """
         return 0
 
+    def is_exhausted(self, inter_arrival_time: float) -> bool:
+        """
+        Determines whether the source stops. A time of 0 is a further product at the same time, unless the time model would return 0 forever.
+
+        Args:
+            inter_arrival_time (float): Time that the time model returned.
+
+        Returns:
+            bool: True if no further products are created.
+        """
+        if inter_arrival_time != 0:
+            return inter_arrival_time < 0
+        if isinstance(self.time_model, time_model.ScheduledTimeModel) and not self.time_model.time_model_data.cyclic:
+            return False
+        return self.time_model.get_expected_time() <= 0
+
     def create_product_loop(self) -> Generator:
         """
         Simpy process that creates products and puts them in the output queues.
@@ -79,8 +95,8 @@ class Source(BaseModel):
         """
         while True:
             inter_arrival_time = self.time_model.get_next_time()
-            if inter_arrival_time <= 0:
-                logger.debug({"ID": self.data.ID, "sim_time": self.env.now, "resource": self.data.ID, "event": f"Inter arrival time is less than or equal to 0. Stopping source."})
+            if self.is_exhausted(inter_arrival_time):
+                logger.debug({"ID": self.data.ID, "sim_time": self.env.now, "resource": self.data.ID, "event": f"No further inter arrival times. Stopping source."})
                 break
             yield self.env.timeout(
                 inter_arrival_time
-- 
2.43.0


From 473904c1788ecc6c218415b25e3b80715a436644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:35 +0000
Subject: [PATCH 23/59] fix: sources that share a schedule each follow it (they
 split its entries)

---
 prodsys/factories/source_factory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prodsys/factories/source_factory.py b/prodsys/factories/source_factory.py
index 52dd669..105ad22 100644
--- a/prodsys/factories/source_factory.py
+++ b/prodsys/factories/source_factory.py
@@ -7,6 +7,7 @@ from pydantic import BaseModel, ConfigDict, Field
 
 
 from prodsys.simulation import router, sim, source
+from prodsys.simulation.time_model import ScheduledTimeModel
 from prodsys.models.product_data import ProductData
 from prodsys.models.source_data import SourceData
 
@@ -77,6 +78,9 @@ class SourceFactory(BaseModel):
         router = self.get_router(source_data.routing_heuristic)
 
         time_model = self.time_model_factory.get_time_model(source_data.time_model_id)
+        if isinstance(time_model, ScheduledTimeModel):
+            # every source runs through the schedule on its own
+            time_model = ScheduledTimeModel(time_model_data=time_model.time_model_data)
 
         source_object = source.Source(
             env=self.env,
-- 
2.43.0


From 3689d88687b6b5adf639d3c4b25d6c9b2d36cfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 24/59] fix: a process model given by edges is reproducible
 (its processes were ordered by string hashes)

---
 prodsys/simulation/proces_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/simulation/proces_models.py b/prodsys/simulation/proces_models.py
index de71e67..1e96be7 100644
--- a/prodsys/simulation/proces_models.py
+++ b/prodsys/simulation/proces_models.py
@@ -135,7 +135,7 @@ def get_adjacency_matrix_from_edges(edges: List[List[str]]) -> Dict[str, List[st
     Returns:
         Dict[str, List[str]]: Adjacency matrix of the process model. The keys are the process IDs and the values are the IDs of the successor processes.
     """
-    nodes = list(set(flatten(edges)))
+    nodes = list(dict.fromkeys(flatten(edges)))
     adjacency_matrix = {}
     for node in nodes:
         successors = [edge[1] for edge in edges if edge[0] == node]
-- 
2.43.0


From e39475e2d81fecf8b9a06e6a2e37cd35caa99653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:17 +0000
Subject: [PATCH 25/59] fix: work that started at time zero and was interrupted
 keeps its progress (it was started anew)

---
 prodsys/simulation/state.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/prodsys/simulation/state.py b/prodsys/simulation/state.py
index a210f71..ad3950e 100644
--- a/prodsys/simulation/state.py
+++ b/prodsys/simulation/state.py
@@ -374,8 +374,6 @@ class ProductionState(State):
         self.finished_process.succeed()
 
     def update_done_in(self):
-        if self.start == 0:
-            return
         self.done_in -= (self.env.now - self.start)  # How much time left?
         if self.done_in < 0:
             self.done_in = 0
@@ -784,8 +782,6 @@ class ChargingState(State):
         self.finished_process.succeed()
 
     def update_done_in(self):
-        if self.start == 0:
-            return
         self.done_in -= (self.env.now - self.start)  # How much time left?
         if self.done_in < 0:
             self.done_in = 0
-- 
2.43.0


From df67bbf0dc286cb386cb976199692475f4b4c550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:02 +0000
Subject: [PATCH 26/59] fix: a partial crossover keeps every machine (it lost
 or shared those of the longer configuration)

---
 prodsys/optimization/adapter_manipulation.py | 24 ++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index 7479a20..6106233 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -25,6 +25,22 @@ from uuid import uuid1
 from prodsys.util.util import flatten
 
 
+def rename_machines_with_duplicate_ids(
+    machines: List[resource_data.ProductionResourceData],
+) -> None:
+    """
+    Function that gives machines a new ID, if their ID is already used by another machine of the list.
+
+    Args:
+        machines (List[resource_data.ProductionResourceData]): Machines of one production system.
+    """
+    used_ids = set()
+    for machine in machines:
+        if machine.ID in used_ids:
+            machine.ID = str(uuid1())
+        used_ids.add(machine.ID)
+
+
 def crossover(ind1, ind2):
     ind1[0].ID = str(uuid1())
     ind2[0].ID = str(uuid1())
@@ -42,8 +58,12 @@ def crossover(ind1, ind2):
         adapter2.resource_data = transport_resources_2
         if crossover_type == "partial_machine":
             min_length = min(len(machines_1), len(machines_2))
-            machines_1 = machines_1[:min_length] + machines_2[min_length:]
-            machines_2 = machines_2[:min_length] + machines_1[min_length:]
+            machines_1, machines_2 = (
+                machines_1[:min_length] + machines_2[min_length:],
+                machines_2[:min_length] + machines_1[min_length:],
+            )
+            rename_machines_with_duplicate_ids(machines_1)
+            rename_machines_with_duplicate_ids(machines_2)
         adapter1.resource_data += machines_2
         adapter2.resource_data += machines_1
 
-- 
2.43.0


From 5e341a5a7ad9cea8868723599460f51df003b067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:02 +0000
Subject: [PATCH 27/59] fix: modules are moved and removed where a machine has
 a part of them or has them already (they were duplicated or a ValueError was
 raised)

---
 prodsys/optimization/adapter_manipulation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index 6106233..87875cb 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -257,7 +257,8 @@ def remove_process_module(adapter_object: adapters.ProductionSystemAdapter) -> b
     process_module_to_delete = random.choice(process_modules)
 
     for process in process_module_to_delete:
-        machine.process_ids.remove(process)
+        if process in machine.process_ids:
+            machine.process_ids.remove(process)
     add_setup_states_to_machine(adapter_object, machine.ID)
     return True
 
@@ -287,8 +288,11 @@ def move_process_module(adapter_object: adapters.ProductionSystemAdapter) -> boo
         return False
     process_module_to_move = random.choice(grouped_process_module_IDs)
     for process_module in process_module_to_move:
+        if process_module not in from_machine.process_ids:
+            continue
         from_machine.process_ids.remove(process_module)
-        to_machine.process_ids.append(process_module)
+        if process_module not in to_machine.process_ids:
+            to_machine.process_ids.append(process_module)
     add_setup_states_to_machine(adapter_object, from_machine.ID)
     add_setup_states_to_machine(adapter_object, to_machine.ID)
     return True
-- 
2.43.0


From 6afaa367a073af80fcc5b5f064c782e24a3eab19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:02 +0000
Subject: [PATCH 28/59] fix: policies can be changed when the current one is
 not among the options (a ValueError was raised)

---
 prodsys/optimization/adapter_manipulation.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index 87875cb..7ed6e53 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -411,9 +411,13 @@ def change_control_policy(adapter_object: adapters.ProductionSystemAdapter) -> b
             adapter_object.scenario_data.options.transport_controllers
         )
 
-    if len(possible_control_policies) < 2:
+    possible_control_policies = [
+        policy
+        for policy in possible_control_policies
+        if policy != resource.control_policy
+    ]
+    if not possible_control_policies:
         return False
-    possible_control_policies.remove(resource.control_policy)
     new_control_policy = random.choice(possible_control_policies)
     resource.control_policy = new_control_policy
     return True
@@ -430,9 +434,13 @@ def change_routing_policy(adapter_object: adapters.ProductionSystemAdapter) -> N
     possible_routing_policies = deepcopy(
         adapter_object.scenario_data.options.routing_heuristics
     )
-    if len(possible_routing_policies) < 2:
+    possible_routing_policies = [
+        policy
+        for policy in possible_routing_policies
+        if policy != source.routing_heuristic
+    ]
+    if not possible_routing_policies:
         return False
-    possible_routing_policies.remove(source.routing_heuristic)
     source.routing_heuristic = random.choice(possible_routing_policies)
     return True
 
-- 
2.43.0


From 37700501973e0682649465dcfc8ea127771b1e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:02 +0000
Subject: [PATCH 29/59] fix: auxiliaries are added within the capacity of their
 storages (shared and unbounded storages were not considered, none required
 raised an IndexError)

---
 prodsys/optimization/adapter_manipulation.py | 49 ++++++++++++++++++--
 1 file changed, 46 insertions(+), 3 deletions(-)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index 7ed6e53..3ec9d80 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -346,6 +346,29 @@ def move_machine(adapter_object: adapters.ProductionSystemAdapter) -> bool:
     return True
 
 
+def get_quantity_in_storage(
+    adapter_object: adapters.ProductionSystemAdapter, storage_id: str
+) -> int:
+    """
+    Function that returns how many auxiliary components of all types are initially in a storage.
+
+    Args:
+        adapter_object (adapters.ProductionSystemAdapter): Production system configuration.
+        storage_id (str): ID of the storage.
+
+    Returns:
+        int: Number of auxiliary components in the storage.
+    """
+    return sum(
+        quantity
+        for auxiliary in adapter_object.auxiliary_data
+        for storage, quantity in zip(
+            auxiliary.storages, auxiliary.quantity_in_storages
+        )
+        if storage == storage_id
+    )
+
+
 def add_auxiliary(adapter_object: adapters.ProductionSystemAdapter) -> bool:
     """
     Function that adds a random auxiliary component to the production system.
@@ -357,6 +380,8 @@ def add_auxiliary(adapter_object: adapters.ProductionSystemAdapter) -> bool:
         bool: True if an auxiliary component was added, False otherwise (if adding is not possible due to constraint violations).
     """
     required_auxiliaries = get_required_auxiliaries(adapter_object)
+    if not required_auxiliaries:
+        return False
     auxiliary = random.choice(required_auxiliaries)
     storage_index = random.choice(range(len(auxiliary.storages)))
     queue = [
@@ -364,7 +389,10 @@ def add_auxiliary(adapter_object: adapters.ProductionSystemAdapter) -> bool:
         for queue in adapter_object.queue_data
         if queue.ID == auxiliary.storages[storage_index]
     ][0]
-    if queue.capacity == auxiliary.quantity_in_storages[storage_index]:
+    if (
+        queue.capacity
+        and get_quantity_in_storage(adapter_object, queue.ID) >= queue.capacity
+    ):
         return False
     auxiliary.quantity_in_storages[storage_index] += 1
     return True
@@ -381,6 +409,8 @@ def remove_auxiliary(adapter_object: adapters.ProductionSystemAdapter) -> bool:
         bool: True if an auxiliary component was removed, False otherwise (if removing is not possible due to constraint violations).
     """
     required_auxiliaries = get_required_auxiliaries(adapter_object)
+    if not required_auxiliaries:
+        return False
     auxiliary = random.choice(required_auxiliaries)
     storage_index = random.choice(range(len(auxiliary.storages)))
     if auxiliary.quantity_in_storages[storage_index] == 0:
@@ -546,11 +576,24 @@ def get_random_auxiliary_capacity(
 ) -> adapters.ProductionSystemAdapter:
     required_auxiliaries = get_required_auxiliaries(adapter_object)
     available_storage_capacities = {
-        queue.ID: queue.capacity for queue in adapter_object.queue_data
+        queue.ID: queue.capacity
+        for queue in adapter_object.queue_data
+        if queue.capacity
     }
+    for auxiliary in adapter_object.auxiliary_data:
+        if auxiliary in required_auxiliaries:
+            continue
+        for storage, quantity in zip(
+            auxiliary.storages, auxiliary.quantity_in_storages
+        ):
+            if storage in available_storage_capacities:
+                available_storage_capacities[storage] -= quantity
     for auxiliary in required_auxiliaries:
         for storage_index, storage in enumerate(auxiliary.storages):
-            if available_storage_capacities[storage] == 0:
+            if storage not in available_storage_capacities:
+                continue
+            if available_storage_capacities[storage] <= 0:
+                auxiliary.quantity_in_storages[storage_index] = 0
                 continue
             random_capacity = random.choice(
                 range(1, available_storage_capacities[storage] + 1)
-- 
2.43.0


From 0620ad4f6e50339e918a0295b95645b6ccf702a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:02 +0000
Subject: [PATCH 30/59] fix: resources keep their setup and charging states in
 an optimization with breakdowns (they were dropped)

---
 prodsys/optimization/util.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/prodsys/optimization/util.py b/prodsys/optimization/util.py
index 2d6a042..c107bfa 100644
--- a/prodsys/optimization/util.py
+++ b/prodsys/optimization/util.py
@@ -342,7 +342,20 @@ def create_default_breakdown_states(adapter_object: adapters.ProductionSystemAda
 def clean_out_breakdown_states_of_resources(
     adapter_object: adapters.ProductionSystemAdapter,
 ):
+    breakdown_state_ids = set(
+        state.ID
+        for state in adapter_object.state_data
+        if isinstance(
+            state,
+            (state_data.BreakDownStateData, state_data.ProcessBreakDownStateData),
+        )
+    )
     for resource in adapter_object.resource_data:
+        other_state_ids = [
+            state_id
+            for state_id in resource.state_ids
+            if state_id not in breakdown_state_ids
+        ]
         if isinstance(resource, resource_data.ProductionResourceData) and any(
             True
             for state in adapter_object.state_data
@@ -350,8 +363,11 @@ def clean_out_breakdown_states_of_resources(
             or BreakdownStateNamingConvention.PROCESS_MODULE_BREAKDOWN_STATE.value
             in state.ID
         ):
-            resource.state_ids = get_breakdown_state_ids_of_machine_with_processes(
-                resource.process_ids, adapter_object
+            resource.state_ids = (
+                other_state_ids
+                + get_breakdown_state_ids_of_machine_with_processes(
+                    resource.process_ids, adapter_object
+                )
             )
         elif isinstance(resource, resource_data.TransportResourceData) and any(
             True
@@ -359,7 +375,7 @@ def clean_out_breakdown_states_of_resources(
             if state.ID
             == BreakdownStateNamingConvention.TRANSPORT_RESOURCE_BREAKDOWN_STATE.value
         ):
-            resource.state_ids = [
+            resource.state_ids = other_state_ids + [
                 BreakdownStateNamingConvention.TRANSPORT_RESOURCE_BREAKDOWN_STATE.value
             ]
 
-- 
2.43.0


From 3b74a092c4c874a11b8374a35d6a21daf8397a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:03 +0000
Subject: [PATCH 31/59] fix: a resource whose process modules were all removed
 can be read back (max of an empty sequence was taken)

---
 prodsys/models/resource_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/models/resource_data.py b/prodsys/models/resource_data.py
index 22c35b6..8caf9b9 100644
--- a/prodsys/models/resource_data.py
+++ b/prodsys/models/resource_data.py
@@ -96,7 +96,7 @@ class ResourceData(CoreAsset, Locatable):
             raise ValueError(
                 f"process_capacities {values['process_capacities']} must have the same length as processes {values['process_ids']}"
             )
-        if max(values["process_capacities"]) > values["capacity"]:
+        if max(values["process_capacities"], default=0) > values["capacity"]:
             raise ValueError("process_capacities must be smaller than capacity")
         return values
     
-- 
2.43.0


From 6f8b7e73eeb87a9c8c94c45c945accc5319ce5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:52 +0000
Subject: [PATCH 32/59] fix: an object whose input and output side share a
 place does not collide with itself (its configuration was refused)

---
 prodsys/adapters/adapter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index 023c1df..2030f62 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -914,9 +914,9 @@ def remove_duplicate_locations(input_list: List[List[float]]) -> List[List[float
 
 def get_location_of_locatable(locatable: Union[resource_data_module.ProductionResourceData, source_data_module.SourceData, sink_data_module.SinkData, queue_data.StoreData]) -> List[List[float]]:
     locations = [locatable.location]
-    if hasattr(locatable, "input_location") and locatable.input_location != locatable.location:
+    if hasattr(locatable, "input_location") and locatable.input_location not in locations:
         locations.append(locatable.input_location)
-    if hasattr(locatable, "output_location") and locatable.output_location != locatable.location:
+    if hasattr(locatable, "output_location") and locatable.output_location not in locations:
         locations.append(locatable.output_location)
     return locations
 
-- 
2.43.0


From 2cce18ed9ddb4394eb6a5a5d139ccda1d76e70a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:52 +0000
Subject: [PATCH 33/59] fix: machines with an input side of their own can be
 valid (their input side was looked up in the positions for machines)

---
 prodsys/optimization/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/optimization/optimization.py b/prodsys/optimization/optimization.py
index 2223f7f..9be8902 100644
--- a/prodsys/optimization/optimization.py
+++ b/prodsys/optimization/optimization.py
@@ -143,7 +143,7 @@ def valid_positions(configuration: adapters.ProductionSystemAdapter) -> bool:
         return False
 
     positions = [
-        machine.input_location
+        machine.location
         for machine in adapters.get_production_resources(configuration)
     ]
     possible_positions = configuration.scenario_data.options.positions
-- 
2.43.0


From 6942c8eff6ca32fdd7c9aa2fd7271c2c3fbc4bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:52 +0000
Subject: [PATCH 34/59] fix: reconfiguration costs without declared module or
 auxiliary costs or without a baseline (a TypeError or AttributeError was
 raised)

---
 prodsys/optimization/optimization.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/prodsys/optimization/optimization.py b/prodsys/optimization/optimization.py
index 9be8902..3d18784 100644
--- a/prodsys/optimization/optimization.py
+++ b/prodsys/optimization/optimization.py
@@ -30,7 +30,7 @@ def get_process_module_cost(
         if isinstance(process_module_cost, dict):
             process_cost = process_module_cost.get(process, 0)
         else:
-            process_cost = process_module_cost
+            process_cost = process_module_cost or 0
         sum_process_module_cost += max(
             0,
             (
@@ -91,15 +91,24 @@ def get_auxiliary_cost(
     baseline: adapters.ProductionSystemAdapter,
 ) -> float:
     auxiliary_cost = 0
-    for new_auxiliary, auxiliary_before in zip(
-        adapter_object.auxiliary_data, baseline.auxiliary_data
+    cost_per_auxiliary = adapter_object.scenario_data.info.auxiliary_cost or 0
+    if baseline:
+        quantities_before = [
+            auxiliary.quantity_in_storages for auxiliary in baseline.auxiliary_data
+        ]
+    else:
+        quantities_before = [
+            [0] * len(auxiliary.quantity_in_storages)
+            for auxiliary in adapter_object.auxiliary_data
+        ]
+    for new_auxiliary, quantity_before in zip(
+        adapter_object.auxiliary_data, quantities_before
     ):
         for i, storage in enumerate(new_auxiliary.quantity_in_storages):
-            storage_before = auxiliary_before.quantity_in_storages[i]
+            storage_before = quantity_before[i]
             auxiliary_cost += max(
                 0,
-                (storage - storage_before)
-                * adapter_object.scenario_data.info.auxiliary_cost,
+                (storage - storage_before) * cost_per_auxiliary,
             )
     return auxiliary_cost
 
-- 
2.43.0


From d51ae6b4ab875cb3265263c38ad396fdeb352c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:52 +0000
Subject: [PATCH 35/59] fix: all processes of compound processes are checked
 for availability (only those of the last were, and a required compound
 process raised an IndexError)

---
 prodsys/adapters/adapter.py | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index 2030f62..334db94 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -1108,12 +1108,10 @@ def get_contained_production_processes_from_compound_processes(
     processes = []
     for compound_process in compound_processes:
         for process_id in compound_process.process_ids:
-            processes = get_production_processes_from_ids(adapter_object, [process_id])
-            if len(processes) > 1:
+            contained_processes = get_production_processes_from_ids(adapter_object, [process_id])
+            if len(contained_processes) > 1:
                 raise ValueError(f"Multiple processes with ID {process_id} found.")
-            if processes:
-                process = processes[0]
-                processes.append(process)
+            processes += contained_processes
     return processes
 
 def get_contained_capability_processes_from_compound_processes(
@@ -1122,12 +1120,10 @@ def get_contained_capability_processes_from_compound_processes(
     processes = []
     for compound_process in compound_processes:
         for process_id in compound_process.process_ids:
-            processes = get_capability_processes_from_ids(adapter_object, [process_id])
-            if len(processes) > 1:
+            contained_processes = get_capability_processes_from_ids(adapter_object, [process_id])
+            if len(contained_processes) > 1:
                 raise ValueError(f"Multiple processes with ID {process_id} found.")
-            if processes:
-                process = processes[0]
-                processes.append(process)
+            processes += contained_processes
     return processes
 
 def get_contained_transport_processes_from_compound_processes(
@@ -1136,12 +1132,10 @@ def get_contained_transport_processes_from_compound_processes(
     processes = []
     for compound_process in compound_processes:
         for process_id in compound_process.process_ids:
-            processes = get_transport_processes_from_ids(adapter_object, [process_id])
-            if len(processes) > 1:
+            contained_processes = get_transport_processes_from_ids(adapter_object, [process_id])
+            if len(contained_processes) > 1:
                 raise ValueError(f"Multiple processes with ID {process_id} found.")
-            if processes:
-                process = processes[0]
-                processes.append(process)
+            processes += contained_processes
     return processes
 
 
@@ -1151,11 +1145,10 @@ def get_contained_required_capability_processes_from_compound_processes(
     processes = []
     for compound_process in compound_processes:
         for process_id in compound_process.process_ids:
-            processes = get_required_capability_processes_from_ids(adapter_object, [process_id])
-            if len(processes) > 1:
+            contained_processes = get_required_capability_processes_from_ids(adapter_object, [process_id])
+            if len(contained_processes) > 1:
                 raise ValueError(f"Multiple processes with ID {process_id} found.")
-            process = processes[0]
-            processes.append(process)
+            processes += contained_processes
     return processes
 
 
-- 
2.43.0


From ab64a8df11e22af5e8ebb5a0c535a373f608240d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:41 +0000
Subject: [PATCH 36/59] fix: the fitness of a configuration is not taken from
 one with other control policies, processes or batch sizes (their hashes are
 the same)

---
 prodsys/optimization/optimization.py |  9 ++++----
 prodsys/optimization/util.py         | 31 ++++++++++++++++++++++++++--
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/prodsys/optimization/optimization.py b/prodsys/optimization/optimization.py
index 3d18784..0483f3f 100644
--- a/prodsys/optimization/optimization.py
+++ b/prodsys/optimization/optimization.py
@@ -7,6 +7,7 @@ from prodsys.adapters.adapter import (
 )
 from prodsys.models import performance_indicators
 from prodsys.optimization.util import (
+    get_configuration_key,
     get_grouped_processes_of_machine,
     get_num_of_process_modules,
     get_required_auxiliaries,
@@ -276,12 +277,12 @@ def evaluate(
     """
 
     adapter_object: adapters.ProductionSystemAdapter = individual[0]
-    adapter_object_hash = adapter_object.hash()
-    if adapter_object_hash in solution_dict["hashes"]:
-        evaluated_adapter_generation = solution_dict["hashes"][adapter_object_hash][
+    configuration_key = get_configuration_key(adapter_object)
+    if configuration_key in solution_dict["hashes"]:
+        evaluated_adapter_generation = solution_dict["hashes"][configuration_key][
             "generation"
         ]
-        evaluated_adapter_id = solution_dict["hashes"][adapter_object_hash]["ID"]
+        evaluated_adapter_id = solution_dict["hashes"][configuration_key]["ID"]
         return performances[evaluated_adapter_generation][evaluated_adapter_id][
             "fitness"
         ]
diff --git a/prodsys/optimization/util.py b/prodsys/optimization/util.py
index c107bfa..ceb595a 100644
--- a/prodsys/optimization/util.py
+++ b/prodsys/optimization/util.py
@@ -485,6 +485,32 @@ def adjust_process_capacities(
         resource.process_capacities = [resource.capacity] * len(resource.process_ids)
 
 
+def get_configuration_key(adapter_object: adapters.ProductionSystemAdapter) -> str:
+    """
+    Returns a key that is the same only for configurations whose simulations give the same results. In addition to the hash
+    of the configuration, it considers the settings of the resources that the hash does not distinguish, e.g. their control policies.
+
+    Args:
+        adapter_object (adapters.ProductionSystemAdapter): Production system configuration.
+
+    Returns:
+        str: Key of the configuration.
+    """
+    resource_keys = [
+        str(
+            (
+                resource.hash(adapter_object),
+                getattr(resource.control_policy, "value", resource.control_policy),
+                getattr(resource, "batch_size", None),
+                sorted(zip(resource.process_ids, resource.process_capacities)),
+                sorted(resource.state_ids),
+            )
+        )
+        for resource in adapter_object.resource_data
+    ]
+    return "".join([adapter_object.hash(), *sorted(resource_keys)])
+
+
 def document_individual(
     solution_dict: Dict[str, Union[list, str]],
     save_folder: str,
@@ -493,8 +519,9 @@ def document_individual(
     adapter_object: adapters.ProductionSystemAdapter = individual[0]
     current_generation = solution_dict["current_generation"]
 
-    if adapter_object.hash() not in solution_dict["hashes"]:
-        solution_dict["hashes"][adapter_object.hash()] = {
+    configuration_key = get_configuration_key(adapter_object)
+    if configuration_key not in solution_dict["hashes"]:
+        solution_dict["hashes"][configuration_key] = {
             "generation": current_generation,
             "ID": adapter_object.ID,
         }
-- 
2.43.0


From 998d57e458ba69ed01e850869b2650bc20facc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:11 +0000
Subject: [PATCH 37/59] fix: a tabu search without an initial solution starts
 from the base configuration (it raised an AttributeError)

---
 prodsys/optimization/tabu_search.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prodsys/optimization/tabu_search.py b/prodsys/optimization/tabu_search.py
index d0a346c..5b84307 100644
--- a/prodsys/optimization/tabu_search.py
+++ b/prodsys/optimization/tabu_search.py
@@ -233,6 +233,8 @@ def tabu_search_optimization(
         logger.warning("Both compound processes and normal processes are used. This may lead to unexpected results.")
     if not check_breakdown_states_available(base_configuration):
         create_default_breakdown_states(base_configuration)
+    if not initial_solution:
+        initial_solution = base_configuration.model_copy(deep=True)
 
     set_seed(hyper_parameters.seed)
 
-- 
2.43.0


From d641c236b03da4a666b45d0495fc71b8f623e0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:46 +0000
Subject: [PATCH 38/59] fix: the hash of a resource tells which process has
 which capacity (sorting the processes lost it)

---
 prodsys/models/resource_data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prodsys/models/resource_data.py b/prodsys/models/resource_data.py
index 8caf9b9..bd63fd9 100644
--- a/prodsys/models/resource_data.py
+++ b/prodsys/models/resource_data.py
@@ -135,14 +135,16 @@ class ResourceData(CoreAsset, Locatable):
             else:
                 raise ValueError(f"Process with ID {process_id} not found for resource {self.ID}.")
 
+        # each process keeps its own capacity when the processes are sorted
+        processes = sorted(zip(process_hashes, map(str, self.process_capacities)))
         return md5((
             "".join(
                 [
                     base_class_hash,
                     str(self.capacity), 
                     self.controller, 
-                    *sorted(process_hashes), 
-                    *map(str, self.process_capacities), 
+                    *[process_hash for process_hash, _ in processes], 
+                    *[process_capacity for _, process_capacity in processes], 
                     *sorted(state_hashes)
                 ]
             )
-- 
2.43.0


From 886257082fa7cf1eef5cd869e3ba122ab07efb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:42 +0000
Subject: [PATCH 39/59] fix: the hash of auxiliaries tells which storage has
 which quantity and does not depend on the order of queues and processes

---
 prodsys/models/auxiliary_data.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/prodsys/models/auxiliary_data.py b/prodsys/models/auxiliary_data.py
index aebe15e..4567b8d 100644
--- a/prodsys/models/auxiliary_data.py
+++ b/prodsys/models/auxiliary_data.py
@@ -55,9 +55,9 @@ class AuxiliaryData(CoreAsset):
         relevant_processes_hashes = []
         relevant_transport_processes_hashes = []
 
-        for queue in adapter.queue_data:
-            if queue.ID in self.storages:
-                storages_hashes.append(queue.hash())
+        # the storages are in the same order as their quantities
+        queue_hashes = {queue.ID: queue.hash() for queue in adapter.queue_data}
+        storages_hashes = [queue_hashes[storage] for storage in self.storages]
         for process in adapter.process_data:
             if process.ID in self.relevant_processes:
                 relevant_processes_hashes.append(process.hash(adapter))
@@ -66,4 +66,4 @@ class AuxiliaryData(CoreAsset):
             if process.ID == self.transport_process:
                 transport_processes_hash = process.hash(adapter)
         
-        return md5("".join([*map(str, [self.auxiliary_type, self.quantity_in_storages, transport_processes_hash, *storages_hashes, *self.quantity_in_storages, *relevant_processes_hashes, *relevant_transport_processes_hashes])]).encode("utf-8")).hexdigest()
\ No newline at end of file
+        return md5("".join([*map(str, [self.auxiliary_type, self.quantity_in_storages, transport_processes_hash, *storages_hashes, *self.quantity_in_storages, *sorted(relevant_processes_hashes), *sorted(relevant_transport_processes_hashes)])]).encode("utf-8")).hexdigest()
\ No newline at end of file
-- 
2.43.0


From 75209b7cb39eea6d9b7dd23af6361574acbca1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:56 +0000
Subject: [PATCH 40/59] fix: link transport processes without a capability have
 a hash (a TypeError was raised)

---
 prodsys/models/processes_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/models/processes_data.py b/prodsys/models/processes_data.py
index 17a4637..7c6a005 100644
--- a/prodsys/models/processes_data.py
+++ b/prodsys/models/processes_data.py
@@ -476,7 +476,7 @@ class LinkTransportProcessData(TransportProcessData):
 
         sorted_links = sorted(["-".join(link) for link in self.links])
 
-        input_data = base_class_hash + "".join(sorted_links) + self.capability
+        input_data = base_class_hash + "".join(sorted_links) + (self.capability or "")
 
         return md5(input_data.encode("utf-8")).hexdigest()
 
-- 
2.43.0


From 17b4019aed7a7e787801f6427aec7441fb69fa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:59 +0000
Subject: [PATCH 41/59] fix: a transport process that only unloads has not the
 hash of one that only loads

---
 prodsys/models/processes_data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prodsys/models/processes_data.py b/prodsys/models/processes_data.py
index 7c6a005..d8456de 100644
--- a/prodsys/models/processes_data.py
+++ b/prodsys/models/processes_data.py
@@ -269,6 +269,9 @@ class TransportProcessData(ProcessData):
                 if time_model.ID == self.unloading_time_model_id:
                     unloading_time_model_hash = time_model.hash()
                     break
+        if not loading_time_model_hash and unloading_time_model_hash:
+            # unloading alone is not the same as loading alone
+            unloading_time_model_hash = "unloading" + unloading_time_model_hash
         input_data = (
             base_class_hash + loading_time_model_hash + unloading_time_model_hash
         )
-- 
2.43.0


From a09a79b7b9dd8595da373b85f546eb815bcfd1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:28 +0000
Subject: [PATCH 42/59] fix: faulty data is refused with the reason (a KeyError
 of a dependent field or a TypeError hid it)

---
 prodsys/adapters/adapter.py | 43 ++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index 334db94..7e64c5b 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -59,6 +59,25 @@ def get_transport_resources(
     ]
 
 
+def get_checked_data(values: dict, field: str) -> List[Any]:
+    """
+    Returns the data of another field of the adapter that a validator needs.
+
+    Args:
+        values (dict): Fields of the adapter that were validated before
+        field (str): Name of the field
+
+    Raises:
+        ValueError: If the data of the field is not valid itself.
+
+    Returns:
+        List[Any]: Data of the field
+    """
+    if field not in values:
+        raise ValueError(f"The {field} is missing or faulty.")
+    return values[field]
+
+
 def get_set_of_IDs(list_of_objects: List[Any]) -> Set[str]:
     """
     Returns a set of all IDs of the objects in the list, by utilizing the ID attribute of the objects.
@@ -716,7 +735,7 @@ class ProductionSystemAdapter(ABC, BaseModel):
     def check_states(cls, states: List[state_data_module.STATE_DATA_UNION], info: ValidationInfo):
         values = info.data
         for state in states:
-            time_models = get_set_of_IDs(values["time_model_data"])
+            time_models = get_set_of_IDs(get_checked_data(values, "time_model_data"))
             if state.time_model_id not in time_models:
                 raise ValueError(
                     f"The time model {state.time_model_id} of state {state.ID} is not a valid time model of {time_models}."
@@ -729,7 +748,7 @@ class ProductionSystemAdapter(ABC, BaseModel):
         for process in processes:
             if isinstance(process, processes_data_module.CompoundProcessData) or isinstance(process, processes_data_module.RequiredCapabilityProcessData):
                 continue
-            time_models = get_set_of_IDs(values["time_model_data"])
+            time_models = get_set_of_IDs(get_checked_data(values, "time_model_data"))
             if process.time_model_id not in time_models:
                 raise ValueError(
                     f"The time model {process.time_model_id} of process {process.ID} is not a valid time model of {time_models}."
@@ -740,20 +759,20 @@ class ProductionSystemAdapter(ABC, BaseModel):
     def check_resources(cls, resources: List[resource_data_module.RESOURCE_DATA_UNION], info: ValidationInfo):
         values = info.data
         for resource in resources:
-            processes = get_set_of_IDs(values["process_data"])
+            processes = get_set_of_IDs(get_checked_data(values, "process_data"))
             for process in resource.process_ids:
                 if process not in processes:
                     raise ValueError(
                         f"The process {process} of resource {resource.ID} is not a valid process of {processes}."
                     )
-            states = get_set_of_IDs(values["state_data"])
+            states = get_set_of_IDs(get_checked_data(values, "state_data"))
             for state in resource.state_ids:
                 if state not in states:
                     raise ValueError(
                         f"The state {state} of resource {resource.ID} is not a valid state of {states}."
                     )
             if isinstance(resource, resource_data_module.ProductionResourceData):
-                queues = get_set_of_IDs(values["queue_data"])
+                queues = get_set_of_IDs(get_checked_data(values, "queue_data"))
                 if resource.input_queues and resource.output_queues:
                     for queue in resource.input_queues + resource.output_queues:
                         if queue not in queues:
@@ -772,9 +791,9 @@ class ProductionSystemAdapter(ABC, BaseModel):
     def check_products(cls, products: List[product_data_module.ProductData], info: ValidationInfo):
         values = info.data
         for product in products:
-            all_processes = get_set_of_IDs(values["process_data"])
+            all_processes = get_set_of_IDs(get_checked_data(values, "process_data"))
             if product.transport_process not in all_processes:
-                raise ValidationError(
+                raise ValueError(
                     f"The transport process {product.transport_process} of product {product.ID} is not a valid process of {all_processes}."
                 )
             required_processes = set()
@@ -810,9 +829,9 @@ class ProductionSystemAdapter(ABC, BaseModel):
             if not sink.input_queues:
                 input_queue = get_default_queue_for_sink(sink)
                 sink.input_queues = list(get_set_of_IDs([input_queue]))
-                values["queue_data"] += [input_queue]
+                get_checked_data(values, "queue_data").append(input_queue)
                 continue
-            queues = get_set_of_IDs(values["queue_data"])
+            queues = get_set_of_IDs(get_checked_data(values, "queue_data"))
             for q in sink.input_queues:
                 if q not in queues:
                     raise ValueError(
@@ -831,7 +850,7 @@ class ProductionSystemAdapter(ABC, BaseModel):
     def check_sources(cls, sources: List[source_data_module.SourceData], info: ValidationInfo):
         values = info.data
         for source in sources:
-            time_models = get_set_of_IDs(values["time_model_data"])
+            time_models = get_set_of_IDs(get_checked_data(values, "time_model_data"))
             if source.time_model_id not in time_models:
                 raise ValueError(
                     f"The time model {source.time_model_id} of source {source.ID} is not a valid time model of {time_models}."
@@ -847,9 +866,9 @@ class ProductionSystemAdapter(ABC, BaseModel):
             if not source.output_queues:
                 output_queue = get_default_queue_for_source(source)
                 source.output_queues = list(get_set_of_IDs([output_queue]))
-                values["queue_data"] += [output_queue]
+                get_checked_data(values, "queue_data").append(output_queue)
                 continue
-            queues = get_set_of_IDs(values["queue_data"])
+            queues = get_set_of_IDs(get_checked_data(values, "queue_data"))
             for q in source.output_queues:
                 if q not in queues:
                     raise ValueError(
-- 
2.43.0


From 3c735b7dcf92aac02a130d841d3d15649840cba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:28 +0000
Subject: [PATCH 43/59] fix: a machine with queues on one side only keeps them
 (both sides were replaced by default queues)

---
 prodsys/adapters/adapter.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index 7e64c5b..fe04b8e 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -773,17 +773,18 @@ class ProductionSystemAdapter(ABC, BaseModel):
                     )
             if isinstance(resource, resource_data_module.ProductionResourceData):
                 queues = get_set_of_IDs(get_checked_data(values, "queue_data"))
-                if resource.input_queues and resource.output_queues:
-                    for queue in resource.input_queues + resource.output_queues:
-                        if queue not in queues:
-                            raise ValueError(
-                                f"The queue {queue} of resource {resource.ID} is not a valid queue of {queues}."
-                            )
-                else:
-                    input_queues, output_queues = get_default_queues_for_resource(resource)
+                for queue in resource.input_queues + resource.output_queues:
+                    if queue not in queues:
+                        raise ValueError(
+                            f"The queue {queue} of resource {resource.ID} is not a valid queue of {queues}."
+                        )
+                input_queues, output_queues = get_default_queues_for_resource(resource)
+                if not resource.input_queues:
                     resource.input_queues = list(get_set_of_IDs(input_queues))
+                    values["queue_data"] += input_queues
+                if not resource.output_queues:
                     resource.output_queues = list(get_set_of_IDs(output_queues))
-                    values["queue_data"] += input_queues + output_queues
+                    values["queue_data"] += output_queues
 
         return resources
 
-- 
2.43.0


From 57e68acd8e7fdfa02a1333fd800e62ef5008a71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:28 +0000
Subject: [PATCH 44/59] fix: unknown repair, battery, loading and unloading
 time models are refused

---
 prodsys/adapters/adapter.py | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index fe04b8e..3b94c9e 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -78,6 +78,23 @@ def get_checked_data(values: dict, field: str) -> List[Any]:
     return values[field]
 
 
+def get_time_model_ids(data: Union[state_data_module.STATE_DATA_UNION, processes_data_module.PROCESS_DATA_UNION]) -> List[str]:
+    """
+    Returns the IDs of all time models a state or process refers to.
+
+    Args:
+        data (Union[state_data_module.STATE_DATA_UNION, processes_data_module.PROCESS_DATA_UNION]): State or process
+
+    Returns:
+        List[str]: IDs of the time models
+    """
+    time_model_ids = [data.time_model_id]
+    for field in ["repair_time_model_id", "battery_time_model_id", "loading_time_model_id", "unloading_time_model_id"]:
+        if getattr(data, field, None) is not None:
+            time_model_ids.append(getattr(data, field))
+    return time_model_ids
+
+
 def get_set_of_IDs(list_of_objects: List[Any]) -> Set[str]:
     """
     Returns a set of all IDs of the objects in the list, by utilizing the ID attribute of the objects.
@@ -736,10 +753,11 @@ class ProductionSystemAdapter(ABC, BaseModel):
         values = info.data
         for state in states:
             time_models = get_set_of_IDs(get_checked_data(values, "time_model_data"))
-            if state.time_model_id not in time_models:
-                raise ValueError(
-                    f"The time model {state.time_model_id} of state {state.ID} is not a valid time model of {time_models}."
-                )
+            for time_model_id in get_time_model_ids(state):
+                if time_model_id not in time_models:
+                    raise ValueError(
+                        f"The time model {time_model_id} of state {state.ID} is not a valid time model of {time_models}."
+                    )
         return states
 
     @field_validator("process_data")
@@ -749,10 +767,11 @@ class ProductionSystemAdapter(ABC, BaseModel):
             if isinstance(process, processes_data_module.CompoundProcessData) or isinstance(process, processes_data_module.RequiredCapabilityProcessData):
                 continue
             time_models = get_set_of_IDs(get_checked_data(values, "time_model_data"))
-            if process.time_model_id not in time_models:
-                raise ValueError(
-                    f"The time model {process.time_model_id} of process {process.ID} is not a valid time model of {time_models}."
-                )
+            for time_model_id in get_time_model_ids(process):
+                if time_model_id not in time_models:
+                    raise ValueError(
+                        f"The time model {time_model_id} of process {process.ID} is not a valid time model of {time_models}."
+                    )
         return processes
 
     @field_validator("resource_data")
-- 
2.43.0


From 4b5cc843fdba08757fe76711162dd586d14c8aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:28 +0000
Subject: [PATCH 45/59] fix: auxiliaries with unknown processes or storages are
 refused

---
 prodsys/adapters/adapter.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index 3b94c9e..295eaa0 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -896,6 +896,24 @@ class ProductionSystemAdapter(ABC, BaseModel):
                     )
         return sources
 
+    @field_validator("auxiliary_data")
+    def check_auxiliaries(cls, auxiliaries: Optional[List[auxiliary_data_module.AuxiliaryData]], info: ValidationInfo):
+        values = info.data
+        for auxiliary in auxiliaries or []:
+            processes = get_set_of_IDs(get_checked_data(values, "process_data"))
+            for process in [auxiliary.transport_process] + auxiliary.relevant_processes + auxiliary.relevant_transport_processes:
+                if process not in processes:
+                    raise ValueError(
+                        f"The process {process} of auxiliary {auxiliary.ID} is not a valid process of {processes}."
+                    )
+            queues = get_set_of_IDs(get_checked_data(values, "queue_data"))
+            for storage in auxiliary.storages:
+                if storage not in queues:
+                    raise ValueError(
+                        f"The storage {storage} of auxiliary {auxiliary.ID} is not a valid queue of {queues}."
+                    )
+        return auxiliaries
+
     @abstractmethod
     def read_data(self, file_path: str, scenario_file_path: Optional[str] = None):
         """
-- 
2.43.0


From 3f653ea9fdcf2596304358ab02c307fe0d488f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:31 +0000
Subject: [PATCH 46/59] fix: processes of a product that are only given as
 successors are checked and have their predecessors (they could start first)

---
 prodsys/adapters/adapter.py          | 4 ++--
 prodsys/factories/product_factory.py | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index 295eaa0..d0bca05 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -826,7 +826,7 @@ class ProductionSystemAdapter(ABC, BaseModel):
             ):
                 required_processes = set(util.flatten(product.processes))
             elif isinstance(product.processes, dict):
-                required_processes = set(product.processes.keys())
+                required_processes = set(product.processes.keys()).union(*product.processes.values())
             if required_processes - all_processes != set():
                 raise ValueError(
                     f"The processes {required_processes - all_processes} of product {product.ID} are not a valid processes of {all_processes}."
@@ -1269,7 +1269,7 @@ def assert_required_processes_in_resources_available(configuration: ProductionSy
     """
     available = set(list(util.flatten([resource.process_ids for resource in configuration.resource_data])))
     required = util.flatten([product.processes for product in configuration.product_data if not isinstance(product.processes, dict)])
-    required_dict_processes = util.flatten([list(product.processes.keys()) for product in configuration.product_data if isinstance(product.processes, dict)])
+    required_dict_processes = util.flatten([[process_id, *successors] for product in configuration.product_data if isinstance(product.processes, dict) for process_id, successors in product.processes.items()])
     required = set(list(required) + list(required_dict_processes) + [product.transport_process for product in configuration.product_data])
 
     required_production_processes = get_production_processes_from_ids(configuration, required)
diff --git a/prodsys/factories/product_factory.py b/prodsys/factories/product_factory.py
index 66bee8b..531d35e 100644
--- a/prodsys/factories/product_factory.py
+++ b/prodsys/factories/product_factory.py
@@ -81,6 +81,10 @@ class ProductFactory:
         self, id_adjacency_matrix: Dict[str, List[str]]
     ) -> proces_models.PrecedenceGraphProcessModel:
         precedence_graph = proces_models.PrecedenceGraphProcessModel()
+        # processes that are only given as successors have no successors themselves
+        id_adjacency_matrix = dict(id_adjacency_matrix)
+        for successor_id in [ID for successors in id_adjacency_matrix.values() for ID in successors]:
+            id_adjacency_matrix.setdefault(successor_id, [])
         id_predecessor_adjacency_matrix = (
             proces_models.get_predecessors_adjacency_matrix(id_adjacency_matrix)
         )
-- 
2.43.0


From e4ad6259c8e848d5579a336196bd44e866ae778b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:53 +0000
Subject: [PATCH 47/59] fix: a transport over links drives to its links first
 (it was there at once) and its start is no link of others

---
 prodsys/simulation/route_finder.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/prodsys/simulation/route_finder.py b/prodsys/simulation/route_finder.py
index f0295b9..9827113 100644
--- a/prodsys/simulation/route_finder.py
+++ b/prodsys/simulation/route_finder.py
@@ -59,8 +59,9 @@ class RouteFinder:
         origin, target = self.get_route_origin_and_target_locatables(
             request=request, route_to_origin=find_route_to_origin
         )
+        links = list(process.links)  # the link of the first drive belongs only to this route
         edges = self.process_links_to_graph_edges(
-            links=process.links,
+            links=links,
             origin=origin,
             target=target,
             empty_transport=find_route_to_origin,
@@ -75,10 +76,7 @@ class RouteFinder:
         graph_node_path = self.find_graphnode_path(origin_node, target_node, graph)
         if not graph_node_path:
             return []
-        route = self.convert_node_path_to_locatable_route(graph_node_path=graph_node_path, links=process.links)
-        from prodsys.simulation.resources import TransportResource
-        if isinstance(origin, TransportResource):
-            route = route[1:]
+        route = self.convert_node_path_to_locatable_route(graph_node_path=graph_node_path, links=links)
         return route
 
     def process_links_to_graph_edges(self, links: List[List[Locatable]], origin: Locatable, target: Locatable, empty_transport: bool) -> List[Tuple[GraphNode, GraphNode, int]]:
-- 
2.43.0


From f7b9612840c080ed8c191ac95df91ea8bc1feb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:43 +0000
Subject: [PATCH 48/59] fix: transports over links are matched by their
 capability if they have one (as the validation assumes)

---
 prodsys/simulation/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/simulation/process.py b/prodsys/simulation/process.py
index d998689..ee58d04 100644
--- a/prodsys/simulation/process.py
+++ b/prodsys/simulation/process.py
@@ -284,7 +284,7 @@ class LinkTransportProcess(TransportProcess):
             elif hasattr(request, "auxiliary") and requested_process.process_data.capability == self.process_data.capability:
                 return True
 
-        if isinstance(requested_process, LinkTransportProcess):
+        elif isinstance(requested_process, LinkTransportProcess):
             if not requested_process.process_data.ID == self.process_data.ID:
                 return False
             elif hasattr(request, "auxiliary") and requested_process.process_data.ID == self.process_data.ID:
-- 
2.43.0


From 70b73b9e52ed71ce991369e0878fdcf190bcc6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:47 +0000
Subject: [PATCH 49/59] fix: read_data reads the scenario and validity that
 write_data wrote and forgets what the file lacks

---
 prodsys/adapters/json_adapter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/prodsys/adapters/json_adapter.py b/prodsys/adapters/json_adapter.py
index 3a40af2..f3cd999 100644
--- a/prodsys/adapters/json_adapter.py
+++ b/prodsys/adapters/json_adapter.py
@@ -107,11 +107,12 @@ class JsonProductionSystemAdapter(adapter.ProductionSystemAdapter):
         self.resource_data = self.create_objects_from_configuration_data(data["resource_data"], resource_data.RESOURCE_DATA_UNION)
         self.product_data = self.create_objects_from_configuration_data(data["product_data"], product_data.ProductData)
         self.sink_data = self.create_objects_from_configuration_data(data["sink_data"], sink_data.SinkData)
-        if "node_data" in data:
-            self.node_data = self.create_objects_from_configuration_data(data["node_data"], node_data.NodeData)
-        if "auxiliary_data" in data:
-            self.auxiliary_data = self.create_objects_from_configuration_data(data["auxiliary_data"], auxiliary_data.AuxiliaryData)
+        self.node_data = self.create_objects_from_configuration_data(data.get("node_data") or [], node_data.NodeData)
+        self.auxiliary_data = self.create_objects_from_configuration_data(data.get("auxiliary_data") or [], auxiliary_data.AuxiliaryData)
         self.source_data = self.create_objects_from_configuration_data(data["source_data"], source_data.SourceData)
+        self.scenario_data = data.get("scenario_data")
+        self.valid_configuration = data.get("valid_configuration", True)
+        self.reconfiguration_cost = data.get("reconfiguration_cost", 0)
         if scenario_file_path:
             self.read_scenario(scenario_file_path)
     
-- 
2.43.0


From 18e0043b5046b01155cf6166d94f65490dc6298c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:47 +0000
Subject: [PATCH 50/59] fix: a store used by a machine and for auxiliaries is
 in the data of an express system once

---
 prodsys/express/production_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/express/production_system.py b/prodsys/express/production_system.py
index d6400d1..fef8f3b 100644
--- a/prodsys/express/production_system.py
+++ b/prodsys/express/production_system.py
@@ -177,7 +177,7 @@ class ProductionSystem(core.ExpressObject):
             resource_data=resource_data,
             source_data=source_data,
             sink_data=sink_data,
-            queue_data=queue_data + auxiliary_storage_data,
+            queue_data=remove_duplicate_items(queue_data + auxiliary_storage_data),
             auxiliary_data = auxiliary_data,
         )
 
-- 
2.43.0


From 2a9974ccfa4cacee7b18b9c2f58feba6e4eb1dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:22 +0000
Subject: [PATCH 51/59] fix: a product goes to one of its sinks that it can be
 brought to (any of them was taken and refused)

---
 prodsys/simulation/router.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/prodsys/simulation/router.py b/prodsys/simulation/router.py
index d2475eb..5149168 100644
--- a/prodsys/simulation/router.py
+++ b/prodsys/simulation/router.py
@@ -280,7 +280,7 @@ class Router:
         Returns:
             Generator[request.TransportResquest]: A generator that yields when the product is routed to the sink.
         """
-        sink = self.get_sink(product.product_data.product_type)
+        sink = self.get_sink(product)
         sink_request = request.ToTransportRequest(product=product, target=sink)
         potential_transport_requests = self.get_possible_transport_requests(
             [sink_request]
@@ -751,18 +751,27 @@ class Router:
                 possible_rework_processes.append(potential_rework_process)
         return possible_rework_processes
 
-    def get_sink(self, _product_type: str) -> sink.Sink:
+    def get_sink(self, product: product.Product) -> sink.Sink:
         """
-        Returns the sink for a product type.
+        Returns a sink for the type of a product that the product can be transported to.
 
         Args:
-            _product_type (str): The product type.
+            product (product.Product): The product.
 
         Returns:
-            sink.Sink: The sink for the product type.
+            sink.Sink: The sink for the product.
         """
-        possible_sinks = self.sink_factory.get_sinks_with_product_type(_product_type)
-        chosen_sink = random.choice(possible_sinks)
+        sinks = self.sink_factory.get_sinks_with_product_type(
+            product.product_data.product_type
+        )
+        possible_sinks = [
+            sink
+            for sink in sinks
+            if self.get_possible_transport_requests(
+                [request.ToTransportRequest(product=product, target=sink)]
+            )
+        ]
+        chosen_sink = random.choice(possible_sinks or sinks)
         return chosen_sink  # type: ignore False
 
 
-- 
2.43.0


From d9cef36e97e375e65219ade206c4fbeb465a0b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:28 +0000
Subject: [PATCH 52/59] fix: figures of auxiliaries count those of their type
 (similar names were mixed, the events got a further column)

---
 prodsys/util/post_processing.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index 2576d30..0f48eb4 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -930,14 +930,27 @@ class PostProcessor:
 
         return df
 
+    def get_auxiliary_type(self, df: pd.DataFrame) -> pd.Series:
+        """
+        Returns the type of the auxiliary (or product) of each row, i.e. its ID without the number at its end.
+
+        Args:
+            df (pd.DataFrame): Data frame with a column "Product".
+
+        Returns:
+            pd.Series: Type of the auxiliary of each row.
+        """
+        return df["Product"].str.rsplit("_", n=1).str[0]
+
     def get_auxiliary_WIP_KPI(self, df: pd.DataFrame) -> pd.DataFrame:
+        df = df.copy()
+        df["Auxiliary_type"] = self.get_auxiliary_type(df)
+        auxiliary_types = self.get_auxiliary_types()
+        df = df.loc[df["Auxiliary_type"].isin(auxiliary_types)].copy()
+
         START_USAGE_CONDITION = df["Activity"] == "started auxiliary usage"
         FINISHED_USAGE_CONDITION = df["Activity"] == "finished auxiliary usage"
 
-        df["Auxiliary_type"] = df["Product"].apply(lambda x: x.split("_")[0])
-        auxiliary_types = self.get_auxiliary_types()
-        df = df.loc[df["Auxiliary_type"].isin(auxiliary_types)]
-
         df["auxiliary_WIP_Increment"] = 0
         df.loc[START_USAGE_CONDITION, "auxiliary_WIP_Increment"] = 1
         df.loc[FINISHED_USAGE_CONDITION, "auxiliary_WIP_Increment"] = -1
@@ -968,7 +981,7 @@ class PostProcessor:
         df = pd.DataFrame()
         auxiliary_types = self.get_auxiliary_types()
         for auxiliary_type in auxiliary_types:
-            df_temp = self.df_raw.loc[self.df_raw["Product"].str.contains(auxiliary_type)].copy()
+            df_temp = self.df_raw.loc[self.get_auxiliary_type(self.df_raw) == auxiliary_type]
             df_temp = self.get_auxiliary_WIP_KPI(df_temp)
             df = df.combine_first(df_temp)
 
@@ -1070,7 +1083,7 @@ class PostProcessor:
             pd.DataFrame: Data frame with the auxiliary types of the resources.
         """
         df = self.df_raw.loc[self.df_raw["Activity"] == "created auxiliary"]
-        auxiliary_types = df["Product"].drop_duplicates().apply(lambda x: x.split("_")[0]).drop_duplicates().to_list()
+        auxiliary_types = self.get_auxiliary_type(df).drop_duplicates().to_list()
         return auxiliary_types
 
     @cached_property
-- 
2.43.0


From 5b186976dc455e8a139bbe83b4a4220c6ed4fbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:45 +0000
Subject: [PATCH 53/59] fix: products at a station are counted right with
 interrupted and instant transports (could be negative or grow for ever)

---
 prodsys/util/post_processing.py | 70 +++++++++++++++++----------------
 1 file changed, 36 insertions(+), 34 deletions(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index 0f48eb4..d8304fa 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -1028,23 +1028,10 @@ class PostProcessor:
         Returns:
             pd.DataFrame: A DataFrame containing the mean WIP per station.
         """
-        df = self.df_resource_states.copy()
-        created_condition = df["Activity"] == state.StateEnum.created_product
-        finished_condition = df["Activity"] == state.StateEnum.finished_product
+        df = self.get_df_with_WIP_changes()
 
-        df["wip_increment"] = 0
-        df.loc[created_condition, "wip_increment"] = 1
-        df.loc[finished_condition, "wip_increment"] = -1
-        df.loc[created_condition | finished_condition, "wip_resource"] = df.loc[created_condition | finished_condition, "Resource"]
-        move_away_condition = (df["Empty Transport"] == False) & (df["Activity"] == "start state")
-        move_in_condition = (df["Empty Transport"] == False) & (df["Activity"] == "end state")
-
-        df.loc[move_away_condition, "wip_increment"] = -1
-        df.loc[move_away_condition, "wip_resource"] = df.loc[move_away_condition, "Origin location"]
-        df.loc[move_in_condition, "wip_increment"] = 1
-        df.loc[move_in_condition, "wip_resource"] = df.loc[move_in_condition, "Target location"]
-
-        df["wip"] = df.groupby(by="wip_resource")["wip_increment"].cumsum()
+        df["wip"] = df.groupby(by="WIP_resource")["WIP_Increment"].cumsum()
+        df = df.rename(columns={"WIP_resource": "wip_resource", "WIP_Increment": "wip_increment"})
 
         df_temp = df[["State", "State Type"]].drop_duplicates()
         sinks = df_temp.loc[df_temp["State Type"] == state.StateTypeEnum.sink, "State"].unique()
@@ -1107,29 +1094,45 @@ class PostProcessor:
 
         return df
 
-    def get_WIP_per_resource_KPI(self, df: pd.DataFrame) -> pd.DataFrame:
-        df = df.loc[df["Time"] != 0]
-
-        valid_resources = df["Resource"].unique()
+    def get_df_with_WIP_changes(self) -> pd.DataFrame:
+        """
+        Returns a prepared data frame (df_prepared) with the columns "WIP_Increment" and "WIP_resource" that state the change of the number of products at a resource.
 
-        CREATED_CONDITION = df["Activity"] == state.StateEnum.created_product
-        FINISHED_CONDITION = df["Activity"] == state.StateEnum.finished_product
+        A product leaves the origin when its transport starts and is at the target when the transport ends. A transport that is interrupted
+        starts again without leaving the origin again and a transport without a duration has only an end.
 
+        Returns:
+            pd.DataFrame: Data frame with the changes of the number of products at the resources.
+        """
+        df = self.df_prepared.reset_index(drop=True)
         df["WIP_Increment"] = 0
-        df.loc[CREATED_CONDITION, "WIP_Increment"] = 1
-        df.loc[FINISHED_CONDITION, "WIP_Increment"] = -1
-        df.loc[CREATED_CONDITION | FINISHED_CONDITION, "WIP_resource"] = df.loc[CREATED_CONDITION | FINISHED_CONDITION, "Resource"]
-        MOVE_AWAY_CONDITION = (df["Empty Transport"] == False) & (df["Activity"] == "start state")
-        MOVE_IN_CONDITION = (df["Empty Transport"] == False) & (df["Activity"] == "end state")
 
-        df.loc[MOVE_AWAY_CONDITION, "WIP_Increment"] = -1
-        df.loc[MOVE_AWAY_CONDITION, "WIP_resource"] = df.loc[MOVE_AWAY_CONDITION, "Origin location"]
-        df.loc[MOVE_IN_CONDITION, "WIP_Increment"] = 1
-        df.loc[MOVE_IN_CONDITION, "WIP_resource"] = df.loc[MOVE_IN_CONDITION, "Target location"]
+        created_condition = df["Activity"] == state.StateEnum.created_product
+        finished_condition = df["Activity"] == state.StateEnum.finished_product
+        df.loc[created_condition, "WIP_Increment"] = 1
+        df.loc[finished_condition, "WIP_Increment"] = -1
+        df.loc[created_condition | finished_condition, "WIP_resource"] = df.loc[created_condition | finished_condition, "Resource"]
+
+        transports = df.loc[
+            (df["Empty Transport"] == False)
+            & df["Activity"].isin([state.StateEnum.start_state, state.StateEnum.end_state])
+        ]
+        previous_activity = transports.groupby(by=["Resource", "State", "Product"])["Activity"].shift()
+        departures = transports.loc[previous_activity != state.StateEnum.start_state].copy()
+        departures["WIP_Increment"] = -1
+        departures["WIP_resource"] = departures["Origin location"]
+        arrivals = transports.loc[transports["Activity"] == state.StateEnum.end_state].copy()
+        arrivals["WIP_Increment"] = 1
+        arrivals["WIP_resource"] = arrivals["Target location"]
+
+        df = pd.concat([departures, df.drop(index=transports.index), arrivals])
+        return df.sort_index(kind="stable").reset_index(drop=True)
+
+    def get_WIP_per_resource_KPI(self, df: pd.DataFrame) -> pd.DataFrame:
+        valid_resources = df["Resource"].unique()
 
         df["WIP"] = df.groupby(by="WIP_resource")["WIP_Increment"].cumsum()
 
-        # FIXME: remove bug that negative WIP is possible
         df_temp = df[["State", "State Type"]].drop_duplicates()
         exclude_types = [state.StateTypeEnum.sink, state.StateTypeEnum.source]
         exclude_states = df_temp.loc[df_temp["State Type"].isin(exclude_types), "State"].unique()
@@ -1146,8 +1149,7 @@ class PostProcessor:
         Returns:
             pd.DataFrame: Data frame with the WIP over time for each resource.
         """
-        df = self.df_resource_states.copy()
-        # df = self.get_df_with_product_entries(df).copy()
+        df = self.get_df_with_WIP_changes()
         df = self.get_WIP_per_resource_KPI(df)
 
         return df
-- 
2.43.0


From 13e3fde3676c2763496ccd14d6a1a32f8b4e772b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:32 +0000
Subject: [PATCH 54/59] fix: a loaded transport starts where its product is,
 also on a resource that does several at once (another's place was logged)

---
 prodsys/simulation/control.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index 076e4fb..9d5a008 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -839,7 +839,9 @@ class TransportController(Controller):
             else:
                 last_transport_step = False
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Moving from {location.data.ID} to {next_location.data.ID}", "empty_transport": True, "initial_transport_step": initial_transport_step, "last_transport_step": last_transport_step})
-            yield from self.run_process(transport_state, product, target=next_location, empty_transport=empty_transport, initial_transport_step=initial_transport_step, last_transport_step=last_transport_step)
+            # a loaded transport starts where the product is, also if the resource does other transports at the same time
+            origin = self._current_locatable if empty_transport else location
+            yield from self.run_process(transport_state, product, origin=origin, target=next_location, empty_transport=empty_transport, initial_transport_step=initial_transport_step, last_transport_step=last_transport_step)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Arrived at {next_location.data.ID}", "empty_transport": True, "initial_transport_step": initial_transport_step, "last_transport_step": last_transport_step})
             transport_state.process = None
 
@@ -867,6 +869,7 @@ class TransportController(Controller):
         self,
         input_state: state.TransportState,
         product: product.Product,
+        origin: product.Locatable,
         target: product.Locatable,
         empty_transport: bool,
         initial_transport_step: bool,
@@ -878,6 +881,7 @@ class TransportController(Controller):
         Args:
             input_state (state.State): The transport state of the process.
             product (product.Product): The product that is transported.
+            origin (product.Locatable): The origin of the transport.
             target (product.Locatable): The target of the transport.
             empty_transport (bool): If the transport is empty.
             initial_transport_step (bool): If this is the initial transport step.
@@ -888,10 +892,8 @@ class TransportController(Controller):
             input_state.state_info.log_auxiliary(product, state.StateTypeEnum.transport)
         else:
             input_state.state_info.log_product(product, state.StateTypeEnum.transport)
-        if self._current_locatable.data.ID is self.resource.data.ID:
+        if origin.data.ID is self.resource.data.ID:
             origin = None
-        else:
-            origin = self._current_locatable
         input_state.state_info.log_transport(
             origin,
             target, state.StateTypeEnum.transport,
-- 
2.43.0


From 30c1f4a17f4d2182e129cc723264ccae26d12de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:30 +0000
Subject: [PATCH 55/59] fix: charging that goes on after a breakdown is
 charging time

---
 prodsys/util/post_processing.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index d8304fa..1dc544f 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -466,6 +466,13 @@ class PostProcessor:
         )
         df["Active_Breakdowns"] = breakdown_change.groupby(df["Resource"]).cumsum()
 
+        # charging goes on during a breakdown and after it
+        charging_change = (df["State Type"] == state.StateTypeEnum.charging) * (
+            (df["Activity"] == "start state").astype(int)
+            - (df["Activity"] == "end state").astype(int)
+        )
+        df["Active_Charging"] = charging_change.groupby(df["Resource"]).cumsum()
+
         df_resource_types = df[["Resource", "State Type"]].drop_duplicates().copy()
         resource_types_dict = pd.Series(df_resource_types["State Type"].values, index=df_resource_types["Resource"].values).to_dict()
         for resource in df["Resource"].unique():
@@ -476,7 +483,9 @@ class PostProcessor:
             example_row["Time"] = 0.0
             example_row["Activity"] = "end state"
             example_row["State_sorting_Index"] = 3
-            example_row[["Increment", "Used_Capacity", "Active_Breakdowns"]] = 0
+            example_row[
+                ["Increment", "Used_Capacity", "Active_Breakdowns", "Active_Charging"]
+            ] = 0
             df = pd.concat([example_row, df]).reset_index(drop=True)
 
         df["next_Time"] = df.groupby("Resource")["Time"].shift(-1)
@@ -496,8 +505,8 @@ class PostProcessor:
         SETUP_CONDITION = ((df["State_sorting_Index"] == 8)) & (
             df["State Type"] == state.StateTypeEnum.setup
         )
-        CHARGING_CONDITION = ((df["State_sorting_Index"] == 8)) & (
-            df["State Type"] == state.StateTypeEnum.charging
+        CHARGING_CONDITION = (df["Active_Charging"] > 0) & df["State Type"].isin(
+            [state.StateTypeEnum.charging, state.StateTypeEnum.breakdown]
         )
 
         df.loc[STANDBY_CONDITION, "Time_type"] = "SB"
-- 
2.43.0


From 8c9568ba9da2927c0109b51f5de4e09273dd39ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:17 +0000
Subject: [PATCH 56/59] fix: machines and sources with several queues on one
 side (products got stuck or the run crashed)

---
 prodsys/simulation/control.py   |  7 +++++--
 prodsys/simulation/resources.py | 14 ++++++--------
 prodsys/simulation/source.py    | 12 +++++-------
 3 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index 9d5a008..a4c4ff5 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -290,7 +290,7 @@ class ProductionController(Controller):
             product_put_events = self.put_product_to_output_queue(resource, [product])
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Waiting to put product {product.product_data.ID} to queue"})
             yield events.AllOf(resource.env, product_put_events)
-            resource.adjust_pending_put_of_output_queues() # output queues do not get reserved, so the pending put has to be adjusted manually
+            resource.adjust_pending_put_of_output_queues(product_put_events) # output queues do not get reserved, so the pending put has to be adjusted manually
 
             for next_product in [product]:
                 if not resource.got_free.triggered:
@@ -541,7 +541,7 @@ class BatchController(Controller):
             product_put_events = self.put_product_to_output_queue(resource, products)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Waiting to put products to queue"})
             yield events.AllOf(resource.env, product_put_events)
-            resource.adjust_pending_put_of_output_queues(batch_size) # output queues do not get reserved, so the pending put has to be adjusted manually
+            resource.adjust_pending_put_of_output_queues(product_put_events) # output queues do not get reserved, so the pending put has to be adjusted manually
 
             for product in products:
                 for next_product in [product]:
@@ -632,6 +632,9 @@ class TransportController(Controller):
         events = []
         if (isinstance(resource, resources.ProductionResource) or isinstance(resource, source.Source)):
             internal_queues = [queue for queue in resource.output_queues if not isinstance(queue, store.Store)]
+            if len(internal_queues) > 1:
+                # the product waits in one of the queues
+                internal_queues = [queue for queue in internal_queues if any(item is product.product_data for item in queue.items)]
             for queue in internal_queues:
                 events.append(queue.get(filter=lambda x: x is product.product_data))
             if not events:
diff --git a/prodsys/simulation/resources.py b/prodsys/simulation/resources.py
index a52b91e..4c93ba1 100644
--- a/prodsys/simulation/resources.py
+++ b/prodsys/simulation/resources.py
@@ -491,14 +491,12 @@ class ProductionResource(Resource):
 
     def reserve_internal_input_queues(self):
         internal_queues = [q for q in self.input_queues if not isinstance(q, store.Store)]
-        for internal_queue in internal_queues:
-            internal_queue.reserve()
-
-    def adjust_pending_put_of_output_queues(self, batch_size: int = 1):
-        internal_queues = [q for q in self.output_queues if not isinstance(q, store.Store)]
-        for output_queue in internal_queues:
-            for i in range(batch_size):
-                output_queue.reserve()
+        # only the first internal queue is used to put products into
+        internal_queues[0].reserve()
+
+    def adjust_pending_put_of_output_queues(self, product_put_events: List[events.Event]):
+        for put_event in product_put_events:
+            put_event.resource.reserve()
 
 class TransportResource(Resource):
     """
diff --git a/prodsys/simulation/source.py b/prodsys/simulation/source.py
index eec5f0c..d0784de 100644
--- a/prodsys/simulation/source.py
+++ b/prodsys/simulation/source.py
@@ -105,13 +105,11 @@ class Source(BaseModel):
                 self.product_data, self.router
             )
             logger.debug({"ID": self.data.ID, "sim_time": self.env.now, "resource": self.data.ID, "product": product.product_data.ID, "event": f"Created product"})
-            available_events_events = []
-            for queue in self.output_queues:
-                while queue.full:
-                    yield queue.state_change
-                queue.reserve()
-                available_events_events.append(queue.put(product.product_data))
-            yield events.AllOf(self.env, available_events_events)
+            while all(queue.full for queue in self.output_queues):
+                yield events.AnyOf(self.env, [queue.state_change for queue in self.output_queues])
+            queue = next(queue for queue in self.output_queues if not queue.full)
+            queue.reserve()
+            yield events.AllOf(self.env, [queue.put(product.product_data)])
             logger.debug({"ID": self.data.ID, "sim_time": self.env.now, "resource": self.data.ID, "product": product.product_data.ID, "event": f"Put product in output queue"})
             product.update_location(self)
             product.process = self.env.process(product.process_product())
-- 
2.43.0


From ea6d0baeff9ddbe8dd806c76f13f439232422378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:35 +0000
Subject: [PATCH 57/59] fix: a batch machine works on complete batches of one
 kind (a complete batch of another product type was never worked on)

---
 prodsys/simulation/control.py | 70 ++++++++++++++++++++++-------------
 1 file changed, 44 insertions(+), 26 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index a4c4ff5..53050da 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -361,34 +361,30 @@ class BatchController(Controller):
             raise ValueError("Resource is not a ProductionResource")
 
     def get_next_product_for_process(
-        self, resource: resources.Resource, process_request: request_module.Request
+        self, resource: resources.Resource, batch_requests: List[request_module.Request]
     ) -> List[events.Event]:
         """
         Get the next batch of products for a process. The products are removed (get) from the input queues of the resource.
 
         Args:
             resource (resources.Resource): The resource to take the products from.
-            process_request (request_module.Request): The request that is requesting the products.
+            batch_requests (List[request_module.Request]): The requests of the products in the batch.
 
         Returns:
             List[events.Event]: The events that are triggered when the products are taken from the queue.
         """
         events = []
         if isinstance(resource, resources.ProductionResource):
-            batch_size = self.get_batch_size(resource)
             internal_input_queues = [
                 queue
                 for queue in resource.input_queues
                 if not isinstance(queue, store.Store)
             ]
             for queue in internal_input_queues:
-                while len(events) < batch_size:
-                    event = queue.get(
-                        filter=lambda item: item.product_type == process_request.get_product().product_data.product_type
-                    )
-                    if not event:
-                        break
-                    events.append(event)
+                for batch_request in batch_requests:
+                    product_data = batch_request.get_product().product_data
+                    if any(item is product_data for item in queue.items):
+                        events.append(queue.get(filter=lambda item, product_data=product_data: item is product_data))
             if not events:
                 raise ValueError("No products available in the queue to fulfill the batch size requirement")
             return events
@@ -441,20 +437,20 @@ class BatchController(Controller):
         Yields:
             Generator: The generator yields lists of free states.
         """
+        batch_size = self.get_batch_size(resource)
         possible_states = resource.get_processes(process)
         while True:
             free_states = resource.get_free_processes(process)
-            if len(free_states) >= min(self.get_batch_size(resource), len(possible_states)):
+            running = [
+                production_state.process
+                for production_state in resource.production_states
+                if production_state.process is not None and production_state.process.is_alive
+            ]
+            fits = not running or len(running) + batch_size <= resource.data.capacity
+            if fits and len(free_states) >= min(batch_size, len(possible_states)):
                 return free_states
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": resource.data.ID, "event": "Waiting for free process"})
-            yield events.AnyOf(
-                self.env,
-                [
-                    state.process
-                    for state in possible_states
-                    if state.process is not None and state.process.is_alive
-                ],
-            )
+            yield events.AnyOf(self.env, running)
 
     def control_loop(self) -> Generator:
         """
@@ -483,18 +479,41 @@ class BatchController(Controller):
             for process in self.running_processes:
                 if not process.is_alive:
                     self.running_processes.remove(process)
-            if self.resource.full or (len(self.requests) < batch_size and len(self.requests) > 0):
+            if self.resource.full or len(self.requests) < batch_size:
                 logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Not enough requests ({len(self.requests)}) or resource full ({self.resource.full})"})
                 continue
             self.control_policy(self.requests)
-            self.reserved_requests_count += 1
-            running_process = self.env.process(self.start_process())
+            batch_requests = self.get_batch_requests(batch_size)
+            if not batch_requests:
+                logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": "Not enough requests of one kind for a batch"})
+                continue
+            self.requests = [request for request in self.requests if request not in batch_requests]
+            running_process = self.env.process(self.start_process(batch_requests))
             self.running_processes.append(running_process)
             if not self.resource.full:
                 logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": "Triggered requested event after process"})
                 self.requested.succeed()
 
-    def start_process(self) -> Generator:
+    def get_batch_requests(self, batch_size: int) -> List[request_module.Request]:
+        """
+        Get the requests of the next batch: the first requests that need the same process for products of the same type.
+
+        Args:
+            batch_size (int): The number of products in a batch.
+
+        Returns:
+            List[request_module.Request]: The requests of the batch. Empty if there are not enough requests for a batch.
+        """
+        kinds = {}
+        for request in self.requests:
+            kind = (request.get_process().process_data.ID, request.get_product().product_data.product_type)
+            kinds.setdefault(kind, []).append(request)
+        for requests in kinds.values():
+            if len(requests) >= batch_size:
+                return requests[:batch_size]
+        return []
+
+    def start_process(self, batch_requests: List[request_module.Request]) -> Generator:
         """
         Start the next process with the following logic:
 
@@ -510,8 +529,7 @@ class BatchController(Controller):
         batch_size = self.get_batch_size(self.resource)
         logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Starting batch process"})
         yield self.env.timeout(0)
-        process_request = self.requests.pop(0)
-        self.reserved_requests_count -= 1
+        process_request = batch_requests[0]
         resource = process_request.get_resource()
         process = process_request.get_process()
         product = process_request.get_product()
@@ -522,7 +540,7 @@ class BatchController(Controller):
         yield self.env.process(resource.setup(process))
         with resource.request() as req:
             yield req
-            product_retrieval_events = self.get_next_product_for_process(resource, process_request)
+            product_retrieval_events = self.get_next_product_for_process(resource, batch_requests)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Waiting to retrieve products for batch from queue"})
             product_data_list = yield events.AllOf(resource.env, product_retrieval_events)
 
-- 
2.43.0


From d39919aa6bff0e4b163448c3e1b76e6f2ab4ccfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:52 +0000
Subject: [PATCH 58/59] fix: the production flow ratio after a warm-up cut-off
 mixed in parts of discarded products

---
 prodsys/util/post_processing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index 1dc544f..a74b9da 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -862,7 +862,11 @@ class PostProcessor:
         df_finished_product = self.df_finished_product.copy()
 
         if self.warm_up_cutoff:
-            df_finished_product = df_finished_product.loc[df_finished_product["Time"] >= self.warm_up_cutoff_time]
+            df_finished_product = df_finished_product.loc[
+                df_finished_product["Product"].isin(
+                    self.df_throughput_with_warum_up_cutoff["Product"]
+                )
+            ]
 
 
         # Production
-- 
2.43.0


From cb6926b7d2890879fce3619488f93f5d76ee8c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:11 +0000
Subject: [PATCH 59/59] fix: resource states after a warm-up cut-off lost the
 state that began before the cut-off

---
 prodsys/util/post_processing.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index a74b9da..6e20fec 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -796,7 +796,15 @@ class PostProcessor:
         df = df.loc[df["Time_type"] != "na"]
 
         if self.warm_up_cutoff:
-            df = df.loc[df["Time"] >= self.warm_up_cutoff_time]
+            # a state that began before the cut-off counts from the cut-off on
+            cutoff_time = self.warm_up_cutoff_time
+            df = df.loc[
+                (df["Time"] >= cutoff_time)
+                | (df["Time"] + df["time_increment"] > cutoff_time)
+            ].copy()
+            df.loc[df["Time"] < cutoff_time, "time_increment"] -= (
+                cutoff_time - df["Time"]
+            )
 
         df_time_per_state = df.groupby(["Resource", "Time_type"])[
             "time_increment"
-- 
2.43.0

