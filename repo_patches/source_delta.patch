From 5d9d7a1376c62b72db7d317c15b0c19edae37575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 01/33] fix: IMGA final population is a list, so that a stored
 checkpoint is not an exhausted iterator

finalized_population() returned a one-shot itertools.chain; the budget and time
workers iterate over it to compute objectives before storing it, so the stored
result could not be pickled and every island-model run failed.
---
 algorithms/IMGA/IMGA.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/algorithms/IMGA/IMGA.py b/algorithms/IMGA/IMGA.py
index 9dfb665..f03a2c3 100644
--- a/algorithms/IMGA/IMGA.py
+++ b/algorithms/IMGA/IMGA.py
@@ -60,8 +60,10 @@ class IMGA(ComplexDriver):
                 island.driver.max_budget = self.max_budget
 
     def finalized_population(self):
-        return itertools.chain(
-            *(island.driver.finalized_population() for island in self.islands)
+        return list(
+            itertools.chain(
+                *(island.driver.finalized_population() for island in self.islands)
+            )
         )
 
     def step(self):
-- 
2.43.0


From 34e9fc85f6c86dd3107b5ebf61393bb8e17ad979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 02/33] fix: IBEA charges each candidate once

The guard charged every individual of the population again at every evaluation
(and whenever the final population was read), and the evaluation cache was not
consulted for the initial population.
---
 algorithms/IBEA/IBEA.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/algorithms/IBEA/IBEA.py b/algorithms/IBEA/IBEA.py
index ff27292..3148781 100644
--- a/algorithms/IBEA/IBEA.py
+++ b/algorithms/IBEA/IBEA.py
@@ -43,12 +43,11 @@ class IBEA(Driver):
         self.k = kappa
         self.mating_size_c = mating_population_size
         self.trim_function = trim_function
+        self.fitness_archive = fitness_archive
         self.population = [self.trim_function(x) for x in population]
 
         self._scale_objectives()
 
-        self.fitness_archive = fitness_archive
-
     def finalized_population(self):
         return self.finish()
 
@@ -76,7 +75,7 @@ class IBEA(Driver):
     def _scale_objectives(self):
         min_max = lambda x: (min(x), max(x))
         for ind in self.individuals:
-            if not ind.known_objectives or not (
+            if not ind.known_objectives and not (
                 (self.fitness_archive is not None) and (ind.v in self.fitness_archive)
             ):
                 self.cost += 1
-- 
2.43.0


From 4fec66f3ef73ffdfa1d752e39beb7a6424367fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:46 +0000
Subject: [PATCH 03/33] fix: a driver that extends next_step() through super()
 counts each step once

---
 algorithms/base/driver.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/algorithms/base/driver.py b/algorithms/base/driver.py
index 0d9d58c..7e29a10 100644
--- a/algorithms/base/driver.py
+++ b/algorithms/base/driver.py
@@ -19,8 +19,11 @@ class StepCountingDriver(type):
         if step_function in clsdict:
 
             def counting_step(self):
+                # an extended next_step() reaches the counted one it extends
+                # through super(): together they are still a single step
+                step_no = self.step_no
                 proxy = clsdict[step_function](self)
-                self.step_no += 1
+                self.step_no = step_no + 1
                 return proxy
 
             setattr(cls, step_function, counting_step)
-- 
2.43.0


From def54aca2be50a031e7b55cf543b304a234ebd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:44 +0000
Subject: [PATCH 04/33] fix: SPEA2, SMSEMOA and OMOPSO charge one per evaluated
 candidate, cached candidates being free

---
 algorithms/OMOPSO/OMOPSO.py   | 3 +--
 algorithms/SMSEMOA/SMSEMOA.py | 3 +--
 algorithms/SPEA2/SPEA2.py     | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/algorithms/OMOPSO/OMOPSO.py b/algorithms/OMOPSO/OMOPSO.py
index bcdbdba..7f4a593 100644
--- a/algorithms/OMOPSO/OMOPSO.py
+++ b/algorithms/OMOPSO/OMOPSO.py
@@ -117,10 +117,9 @@ class OMOPSO(Driver):
         for p in self.individuals:
             if (self.fitness_archive is not None) and (p.value in self.fitness_archive):
                 p.objectives = self.fitness_archive[p.value]
-                objectives_cost = 0
             else:
                 p.objectives = [o(p.value) for o in self.fitnesses]
-                objectives_cost = len(self.individuals)
+                objectives_cost += 1
         return objectives_cost
 
     def move(self):
diff --git a/algorithms/SMSEMOA/SMSEMOA.py b/algorithms/SMSEMOA/SMSEMOA.py
index 4e09ec3..b91a479 100644
--- a/algorithms/SMSEMOA/SMSEMOA.py
+++ b/algorithms/SMSEMOA/SMSEMOA.py
@@ -66,10 +66,9 @@ class SMSEMOA(Driver):
         for p in pop:
             if (self.fitness_archive is not None) and (p.value in self.fitness_archive):
                 p.objectives = self.fitness_archive[p.value]
-                objectives_cost = 0
             else:
                 p.objectives = [o(p.value) for o in self.fitnesses]
-                objectives_cost = len(self.population)
+                objectives_cost += 1
         return objectives_cost
 
     def generate(self, pop):
diff --git a/algorithms/SPEA2/SPEA2.py b/algorithms/SPEA2/SPEA2.py
index 5cb88c3..f90c7e5 100644
--- a/algorithms/SPEA2/SPEA2.py
+++ b/algorithms/SPEA2/SPEA2.py
@@ -117,10 +117,9 @@ class SPEA2(Driver):
                 p["value"] in self.fitness_archive
             ):
                 p["objectives"] = self.fitness_archive[p["value"]]
-                objectives_cost = 0
             else:
                 p["objectives"] = [o(p["value"]) for o in self.fitnesses]
-                objectives_cost = len(self.population)
+                objectives_cost += 1
         return objectives_cost
 
     def calculate_dominated(self, pop):
-- 
2.43.0


From 525a8a22a2fa67abb69f218afe3941beda50731a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:36 +0000
Subject: [PATCH 05/33] fix: OMOPSO works on copies of the initial individuals
 instead of moving them in place

---
 algorithms/OMOPSO/OMOPSO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithms/OMOPSO/OMOPSO.py b/algorithms/OMOPSO/OMOPSO.py
index 7f4a593..c560f33 100644
--- a/algorithms/OMOPSO/OMOPSO.py
+++ b/algorithms/OMOPSO/OMOPSO.py
@@ -27,7 +27,7 @@ class OMOPSO(Driver):
         super().__init__(*args, **kwargs)
         self.fitnesses = fitnesses
         self.dims = dims
-        self.individuals = [Individual(trim_function(x)) for x in population]
+        self.individuals = [Individual(list(trim_function(x))) for x in population]
         self.mutation_probability = mutation_probability
 
         self.leaders_size = len(population)  # parameter?
-- 
2.43.0


From 03335469ab10ab5eb2c8d5209181500d4d04f7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:56 +0000
Subject: [PATCH 06/33] fix: JGBL's decoded genes never exceed the upper bound
 by rounding

---
 algorithms/JGBL/JGBL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algorithms/JGBL/JGBL.py b/algorithms/JGBL/JGBL.py
index 415c8c2..903c17c 100644
--- a/algorithms/JGBL/JGBL.py
+++ b/algorithms/JGBL/JGBL.py
@@ -134,8 +134,8 @@ class JGBL(NSGAII):
 
     def decode_ratio(self, ratio):
         return [
-            self.dims[i][0] + ratio[i] * (self.dims[i][1] - self.dims[i][0])
-            for i in range(len(ratio))
+            min(lb + ratio[i] * (ub - lb), ub)
+            for i, (lb, ub) in enumerate(self.dims)
         ]
 
     def prepare_transposon(self, x):
-- 
2.43.0


From 37fc102abb26457da334d8d7fe57d968d186687c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:34 +0000
Subject: [PATCH 07/33] fix: NSLS does not loop forever when the local search
 improves no individual

---
 algorithms/NSLS/NSLS.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algorithms/NSLS/NSLS.py b/algorithms/NSLS/NSLS.py
index 3384929..79f8cc9 100644
--- a/algorithms/NSLS/NSLS.py
+++ b/algorithms/NSLS/NSLS.py
@@ -164,7 +164,8 @@ class NSLS(Driver):
 
         front_no = 1
         while (
-            len(next_gen_individuals) + len(self.front[front_no])
+            self.front[front_no]
+            and len(next_gen_individuals) + len(self.front[front_no])
             <= self.population_size
         ):
             next_gen_individuals.extend(self.front[front_no])
-- 
2.43.0


From 58b5215937dc911583bb6b17dcb15ebafb8bcfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:08 +0000
Subject: [PATCH 08/33] fix: OMOPSO archives evict every member a newcomer
 dominates, adjacent ones too

---
 algorithms/OMOPSO/OMOPSO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithms/OMOPSO/OMOPSO.py b/algorithms/OMOPSO/OMOPSO.py
index c560f33..1f4054d 100644
--- a/algorithms/OMOPSO/OMOPSO.py
+++ b/algorithms/OMOPSO/OMOPSO.py
@@ -276,7 +276,7 @@ class Archive(object):
 
     def add(self, p):
 
-        for l in self.archive:
+        for l in list(self.archive):
             if l.dominates(p, self.eta):
                 return False
             elif p.dominates(l, self.eta):
-- 
2.43.0


From a969ed022d0591cb5aac194f7103b27106bed89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 09/33] fix: torus topologies with a single full row have no
 self-neighbours and connect their last row

---
 algorithms/IMGA/topology.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/algorithms/IMGA/topology.py b/algorithms/IMGA/topology.py
index e9d7f18..3350efa 100644
--- a/algorithms/IMGA/topology.py
+++ b/algorithms/IMGA/topology.py
@@ -41,7 +41,7 @@ class TorusTopology(Topology):
 
                 neighbors = set()
 
-                if len(t) > self.width:
+                if len(t) >= self.width:
                     last = i - self.width
                     last_neighbors = t[last]
 
@@ -65,4 +65,5 @@ class TorusTopology(Topology):
             if last_width == 1:
                 t[N].remove(N)
 
-        return [set(neighbors) for neighbors in t]
+        # a single row (or column) wraps around onto itself
+        return [set(neighbors) - {i} for i, neighbors in enumerate(t)]
-- 
2.43.0


From 2c6a80180a35ab7517efe8f69a9476914a87b420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:10 +0000
Subject: [PATCH 10/33] fix: hierarchical demes see negative objective values
 with their sign

---
 algorithms/HGS/classic/ClassicHGS.py | 5 +++--
 algorithms/HGS/tools.py              | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/algorithms/HGS/classic/ClassicHGS.py b/algorithms/HGS/classic/ClassicHGS.py
index 7541a7d..03a1ae0 100644
--- a/algorithms/HGS/classic/ClassicHGS.py
+++ b/algorithms/HGS/classic/ClassicHGS.py
@@ -213,8 +213,9 @@ class ClassicHGS(ComplexDriver):
         def blurred(f):
             def blurred_f(*args, **kwargs):
                 f_val = f(*args, **kwargs)
-                x = math.fabs(
-                    random.gauss(f_val, self.fitness_errors[level] * f_val / 3.0)
+                x = math.copysign(
+                    random.gauss(f_val, self.fitness_errors[level] * f_val / 3.0),
+                    f_val,
                 )
 
                 # print("level: {}, normal: {} blurred: {}, diff: {}".format(level, f_val, x, math.fabs(f_val - x)/f_val))
diff --git a/algorithms/HGS/tools.py b/algorithms/HGS/tools.py
index 09be1de..3c2d7ac 100644
--- a/algorithms/HGS/tools.py
+++ b/algorithms/HGS/tools.py
@@ -37,8 +37,8 @@ def blurred_fitnesses(level, fitnesses, fitness_errors):
     def blurred(f):
         def blurred_f(*args, **kwargs):
             f_val = f(*args, **kwargs)
-            x = np.math.fabs(
-                random.gauss(f_val, fitness_errors[level] * f_val / 3.0)
+            x = np.math.copysign(
+                random.gauss(f_val, fitness_errors[level] * f_val / 3.0), f_val
             )
 
             # print("level: {}, normal: {} blurred: {}, diff: {}".format(level, f_val, x, math.fabs(f_val - x)/f_val))
-- 
2.43.0


From 3ff530f21b88e6ec855ec1006c115b992383e6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:37 +0000
Subject: [PATCH 11/33] fix: distributed hierarchical strategy kills redundant
 demes

---
 algorithms/HGS/distributed/actors.py     |  5 +++--
 algorithms/HGS/distributed/hgs_tasks.py  |  7 ++++---
 algorithms/HGS/distributed/node_tasks.py | 11 +++++++++++
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/algorithms/HGS/distributed/actors.py b/algorithms/HGS/distributed/actors.py
index 0e4168a..64091b2 100644
--- a/algorithms/HGS/distributed/actors.py
+++ b/algorithms/HGS/distributed/actors.py
@@ -18,7 +18,7 @@ from algorithms.HGS.distributed.node_tasks import (
     GetPopulationNodeTask,
     NewMetaepochNodeTask,
     TrimNotProgressingNodeTask,
-    ReleaseSproutsNodeTask, ReviveNodeTask)
+    ReleaseSproutsNodeTask, ReviveNodeTask, KillNodeTask)
 from algorithms.HGS.distributed.hgs_tasks import (
     HgsOperationTask,
     MetaepochHgsTask,
@@ -206,7 +206,8 @@ class Node(TaskActor):
             NodeOperation.NEW_METAEPOCH: NewMetaepochNodeTask,
             NodeOperation.TRIM_NOT_PROGRESSING: TrimNotProgressingNodeTask,
             NodeOperation.RELEASE_SPROUTS: ReleaseSproutsNodeTask,
-            NodeOperation.REVIVE: ReviveNodeTask
+            NodeOperation.REVIVE: ReviveNodeTask,
+            NodeOperation.KILL: KillNodeTask
         }
 
     def get_task_owner_name(self):
diff --git a/algorithms/HGS/distributed/hgs_tasks.py b/algorithms/HGS/distributed/hgs_tasks.py
index 292b7b6..af8ebf7 100644
--- a/algorithms/HGS/distributed/hgs_tasks.py
+++ b/algorithms/HGS/distributed/hgs_tasks.py
@@ -248,8 +248,9 @@ class TrimRedundantHgsTask(HgsOperationTask):
             for level, lvl_infos in itertools.groupby(
                 self.trim_infos, key=lambda info: info.level
             ):
-                self.log(f"trim lvl infos: {list(lvl_infos)} for lvl={level}")
-                self.trim_redundant(list(lvl_infos))
+                lvl_infos = list(lvl_infos)
+                self.log(f"trim lvl infos: {lvl_infos} for lvl={level}")
+                self.trim_redundant(lvl_infos)
             self.hgs.send(
                 self.sender,
                 HgsMessage(HgsOperation.TRIM_REDUNDANT_END, self.sender_task_id, True),
@@ -270,7 +271,7 @@ class TrimRedundantHgsTask(HgsOperationTask):
                 ) and tools.redundant(
                     [another_sprout.center],
                     [sprout.center],
-                    self.hgs.min_dists[sprout.level],
+                    self.hgs.config.min_dists[sprout.level],
                 ):
                     self.hgs.send(sprout.node, NodeMessage(NodeOperation.KILL, self.id))
                     sprout.alive = False
diff --git a/algorithms/HGS/distributed/node_tasks.py b/algorithms/HGS/distributed/node_tasks.py
index c8223de..248c403 100644
--- a/algorithms/HGS/distributed/node_tasks.py
+++ b/algorithms/HGS/distributed/node_tasks.py
@@ -72,6 +72,17 @@ class ReviveNodeTask(NodeOperationTask):
         self.node.send(sender, NodeMessage(NodeOperation.REVIVE, msg.id))
 
 
+class KillNodeTask(NodeOperationTask):
+    def __init__(self, node):
+        super().__init__(node)
+
+    def configure_steps(self, steps: Dict[OperationType, Callable]):
+        steps[NodeOperation.KILL] = self.kill
+
+    def kill(self, msg: NodeMessage, sender: Actor):
+        self.node.alive = False
+
+
 class GetPopulationNodeTask(NodeOperationTask):
     def __init__(self, node):
         super().__init__(node)
-- 
2.43.0


From 2084190b0dbb06c933b204244e034352fba0fd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:37 +0000
Subject: [PATCH 12/33] fix: distributed demes count the sprouts released in
 this step against the limit

---
 algorithms/HGS/distributed/node_tasks.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/algorithms/HGS/distributed/node_tasks.py b/algorithms/HGS/distributed/node_tasks.py
index 248c403..ac4af5c 100644
--- a/algorithms/HGS/distributed/node_tasks.py
+++ b/algorithms/HGS/distributed/node_tasks.py
@@ -335,5 +335,6 @@ class ReleaseSproutsNodeTask(NodeOperationTask):
         self.log("new sprout registered")
         self.node.sprouts.append(msg.data)
         self.released_sprouts += 1
+        self.alive_sprouts_count += 1
 
         self.try_relase_next_sprout()
-- 
2.43.0


From 3e7405a6d4677f0e05888aea0e0aac2a83fdf450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:56 +0000
Subject: [PATCH 13/33] fix: reviving a hierarchical strategy relaxes its own
 thresholds, not the shared configuration

---
 algorithms/HGS/classic/ClassicHGS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithms/HGS/classic/ClassicHGS.py b/algorithms/HGS/classic/ClassicHGS.py
index 03a1ae0..9475955 100644
--- a/algorithms/HGS/classic/ClassicHGS.py
+++ b/algorithms/HGS/classic/ClassicHGS.py
@@ -62,7 +62,7 @@ class ClassicHGS(ComplexDriver):
         self.max_level = max_level
         self.max_sprouts_no = max_sprouts_no
         self.sproutiveness = sproutiveness
-        self.min_progress_ratio = min_progress_ratio
+        self.min_progress_ratio = list(min_progress_ratio)
 
         self.mutation_etas = mutation_etas
         self.mutation_rates = mutation_rates
-- 
2.43.0


From 4fde3964b795ed0ed15d07f63e461e391df4d97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 14/33] fix: a checkpoint is written aside and moved into
 place, so that dying while storing leaves no torn file

---
 simulation/serializer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simulation/serializer.py b/simulation/serializer.py
index 5942d40..f07c4e3 100644
--- a/simulation/serializer.py
+++ b/simulation/serializer.py
@@ -1,3 +1,4 @@
+import os
 import pickle
 from contextlib import suppress
 from pathlib import Path
@@ -30,8 +31,10 @@ def load_file(path: Path):
 
 
 def save_file(path: Path, obj: Any):
-    with path.open(mode="wb") as fh:
+    temp_path = path.with_name(f"{path.name}.{os.getpid()}.tmp")
+    with temp_path.open(mode="wb") as fh:
         pickle.dump(obj, fh)
+    os.replace(temp_path, path)
 
 
 class Serializer:
-- 
2.43.0


From 58c689bb873d686949067ec4a996cb48446b238d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 15/33] fix: a simulation without a result no longer stops the
 whole queue

---
 simulation/run_parallel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simulation/run_parallel.py b/simulation/run_parallel.py
index c756c82..6c49782 100644
--- a/simulation/run_parallel.py
+++ b/simulation/run_parallel.py
@@ -39,7 +39,9 @@ def run_parallel(args):
 
         def process_result(subres):
             results.append(subres)
-            log_simulation_stats(start_time, subres[-1], len(simulation_cases))
+            # a simulation that failed has no result, it is reported in the summary
+            if subres is not None:
+                log_simulation_stats(start_time, subres[-1], len(simulation_cases))
 
         rx.from_iterable(range(len(simulation_cases))).pipe(
             ops.map(lambda i: worker_factory(simulation_cases[i], i)),
-- 
2.43.0


From b01a4a2fe8ca0f06e8d514d1db115b29e7e61d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 16/33] fix: without --algo all algorithms are selected

---
 simulation/factory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simulation/factory.py b/simulation/factory.py
index 366dc6f..c2a896c 100644
--- a/simulation/factory.py
+++ b/simulation/factory.py
@@ -96,6 +96,8 @@ def parse_algorithms(args):
             algo for algo in run_config.algorithms if algo.lower() in algorithms_filter
         ]
         logger.debug("Selected: %s", algorithms)
+    else:
+        algorithms = run_config.algorithms
     return algorithms
 
 
-- 
2.43.0


From 94c9e6b8def706a030a76ee8eb0f4493bbec492c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 17/33] fix: an error inside an initialisation function is no
 longer taken for its absence

---
 simulation/factory.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/simulation/factory.py b/simulation/factory.py
index c2a896c..28d76a7 100644
--- a/simulation/factory.py
+++ b/simulation/factory.py
@@ -238,14 +238,14 @@ def custom_init(
         example fun: init_alg___HGS__SPEA2____ackley
         example fun: init_alg___IMGA__HGS_SPEA2____zdt1
     """
-    with suppress(AttributeError):
-        key = "init_alg___" + algo
-        if all_drivers:
-            key += "__" + "_".join(all_drivers[driver_pos + 1 :])
-        if problem:
-            key += "____" + problem
-        logger.debug("Try %s(…)", key)
-        updater = getattr(run_config, key)
+    key = "init_alg___" + algo
+    if all_drivers:
+        key += "__" + "_".join(all_drivers[driver_pos + 1 :])
+    if problem:
+        key += "____" + problem
+    logger.debug("Try %s(…)", key)
+    updater = getattr(run_config, key, None)
+    if updater is not None:
         logger.debug(
             "Custom initialization: %s: %s: %s", "| by algo fun:", key, updater
         )
-- 
2.43.0


From 6f53e3cb312286c55823fbbabc5488edd962a724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:11 +0000
Subject: [PATCH 18/33] fix: hypervolume of four and more objectives with equal
 coordinates

---
 algorithms/base/hv.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/algorithms/base/hv.py b/algorithms/base/hv.py
index 26f2526..6ba9c43 100644
--- a/algorithms/base/hv.py
+++ b/algorithms/base/hv.py
@@ -126,9 +126,8 @@ class HyperVolume:
                 )
             else:
                 qArea[0] = 1
-                qArea[1 : dimIndex + 1] = [
-                    qArea[i] * -qCargo[i] for i in range(dimIndex)
-                ]
+                for i in range(dimIndex):
+                    qArea[i + 1] = qArea[i] * -qCargo[i]
             q.volume[dimIndex] = hvol
             if q.ignore >= dimIndex:
                 qArea[dimIndex] = qPrevDimIndex.area[dimIndex]
@@ -166,13 +165,15 @@ class HyperVolume:
 
     def sortByDimension(self, nodes, i):
         """Sorts the list of nodes by the i-th value of the contained points."""
-        # build a list of tuples of (point[i], node)
-        decorated = [(node.cargo[i], node) for node in nodes]
+        # build a list of tuples of (point[i], point, node): ties are broken in
+        # the same way in all dimensions, otherwise two points could be ignored
+        # on account of each other
+        decorated = [(node.cargo[i], tuple(node.cargo), node) for node in nodes]
 
         # sort by this value
         decorated.sort()
         # write back to original list
-        nodes[:] = [node for (_, node) in decorated]
+        nodes[:] = [node for (_, _, node) in decorated]
 
 
 class MultiList:
-- 
2.43.0


From 2d24fa2e3aa945ad8bb0bbffe23b2ad7a43ce7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:11 +0000
Subject: [PATCH 19/33] fix: pareto dominance indicator counts a point of the
 result once

---
 metrics/metrics_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metrics/metrics_utils.py b/metrics/metrics_utils.py
index ab62d15..0efe1e8 100644
--- a/metrics/metrics_utils.py
+++ b/metrics/metrics_utils.py
@@ -92,9 +92,9 @@ def distance(from_set, to_set):
 
 
 def pareto_dominance_indicator(solution, not_dominated_solution, all_solutions):
-    non_dominated_intersection = [
-        s for s in not_dominated_solution if tuple(s) in all_solutions
-    ]
+    non_dominated_intersection = {
+        tuple(s) for s in not_dominated_solution if tuple(s) in all_solutions
+    }
     return len(non_dominated_intersection) / len(all_solutions)
 
 
-- 
2.43.0


From 2728700a610d7d3bc3537c4bb75a64f72cda6dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 20/33] fix: indicators are computed for the runs as they are
 numbered when loaded

---
 simulation/metrics_processor.py | 8 +++++++-
 simulation/model.py             | 6 ++++++
 simulation/serialization.py     | 5 +----
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/simulation/metrics_processor.py b/simulation/metrics_processor.py
index ea342a0..4625aa3 100644
--- a/simulation/metrics_processor.py
+++ b/simulation/metrics_processor.py
@@ -12,6 +12,7 @@ from typing import List
 
 from metrics import metrics
 from simulation import serializer
+from simulation.model import RUN_DIR_PATTERN
 from simulation.serializer import ResultWithMetadata
 
 
@@ -191,7 +192,12 @@ def preload_results_for_problem(cache, problem_path: Path):
     logger.debug("Loading for problem : {}".format(problem_name))
     for algo_path in problem_path.iterdir():
         if algo_path.is_dir():
-            runs = [run for run in algo_path.iterdir() if run.is_dir()]
+            # numbered as when the results are loaded
+            runs = sorted(
+                run
+                for run in algo_path.iterdir()
+                if run.is_dir() and re.fullmatch(RUN_DIR_PATTERN, run.name)
+            )
             for run_no in range(len(runs)):
                 for result_file in runs[run_no].iterdir():
                     try:
diff --git a/simulation/model.py b/simulation/model.py
index 4edf626..b331069 100644
--- a/simulation/model.py
+++ b/simulation/model.py
@@ -3,6 +3,12 @@ from datetime import datetime
 from typing import List
 
 
+# folders that hold the results of a run are named by get_simulation_id
+RUN_DIR_PATTERN = (
+    r"(?P<rundate>\d{4}-\d{2}-\d{2}\.\d{2}\d{2}\d{2}\.\d{6})__(?P<runid>\d{7})"
+)
+
+
 def get_simulation_id(run_id, run_date=None):
     run_date = run_date if run_date else datetime.today().strftime("%Y-%m-%d.%H%M%S.%f")
     if not run_id:
diff --git a/simulation/serialization.py b/simulation/serialization.py
index 3d0c2df..0a4c326 100644
--- a/simulation/serialization.py
+++ b/simulation/serialization.py
@@ -24,10 +24,7 @@ class ResultsExtractor:
         run_no = 0
         for candidate in sorted(rootpath.iterdir()):
             try:
-                match = re.fullmatch(
-                    "(?P<rundate>\d{4}-\d{2}-\d{2}\.\d{2}\d{2}\d{2}\.\d{6})__(?P<runid>\d{7})",
-                    candidate.name,
-                )
+                match = re.fullmatch(model.RUN_DIR_PATTERN, candidate.name)
                 matchdict = match.groupdict()
                 run_id = matchdict["runid"]
                 run_date = matchdict["rundate"]
-- 
2.43.0


From 168346fcd2d95aff151307a85bc676eb94a22941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 21/33] fix: cached non-dominated sets are recomputed exactly
 when results changed

---
 simulation/metrics_processor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simulation/metrics_processor.py b/simulation/metrics_processor.py
index 4625aa3..2da75a0 100644
--- a/simulation/metrics_processor.py
+++ b/simulation/metrics_processor.py
@@ -226,14 +226,13 @@ def filter_non_dominated_in_cache(problem_path: Path, cache):
     logger = logging.getLogger(__name__)
     problem_name = problem_path.name
     problem_keys = sorted(filter(lambda run_key: run_key[0] == problem_name, cache))
-    problem_solutions = [cache[key] for key in problem_keys]
+    problem_solutions = {key: cache[key] for key in problem_keys}
 
     problem_cache_file = problem_path / f"{problem_name}_nondominated"
     try:
         solutions, problem_nondominated = serializer.load_file(problem_cache_file)
     except IOError:
-        problem_nondominated = {}
-        solutions = None
+        solutions, problem_nondominated = None, None
 
     if solutions and solutions == problem_solutions:
         pass
@@ -243,6 +242,7 @@ def filter_non_dominated_in_cache(problem_path: Path, cache):
     else:
         logger.debug("Cache for problem {} changed, calculating new nondominated... ")
         clear_old_pdi_metrics(problem_path)
+        problem_nondominated = {}
         for key in problem_keys:
             logger.debug("Filtering non dominated for: " + str(key))
             solutions = cache[key]
-- 
2.43.0


From 3ac07d0810a21e77d1fe6d675dd508f2ceb02f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:21 +0000
Subject: [PATCH 22/33] fix: a run folder without results is skipped by the
 ranking instead of aborting it

---
 statistic/stats_bootstrap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/statistic/stats_bootstrap.py b/statistic/stats_bootstrap.py
index 5d81eaf..3fa752b 100644
--- a/statistic/stats_bootstrap.py
+++ b/statistic/stats_bootstrap.py
@@ -15,6 +15,8 @@ def validate_cost(result, boot_size, delta=500):
 
 
 def find_acceptable_result_for_budget(results, boot_size):
+    if not results:
+        return None
     delta = 500
     prev_budget = results[-1]["budget"]
     for result in reversed(results):
-- 
2.43.0


From 58d5c0123a396936f95ffbd72f84699c6f62db6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:21 +0000
Subject: [PATCH 23/33] fix: bootstrap a single run from a sample of at least
 one value

---
 statistic/stats_bootstrap.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/statistic/stats_bootstrap.py b/statistic/stats_bootstrap.py
index 3fa752b..e91a85c 100644
--- a/statistic/stats_bootstrap.py
+++ b/statistic/stats_bootstrap.py
@@ -95,7 +95,11 @@ def yield_analysis(data_process, boot_size):
         mean_nooutliers = float("inf")
 
     btstrpd = bootstrap(
-        data_process, average, boot_size, int(len(data_process) * 0.66), 0.025
+        data_process,
+        average,
+        boot_size,
+        max(1, int(len(data_process) * 0.66)),
+        0.025,
     )
 
     goodbench = "✓"
-- 
2.43.0


From 295e3f79576b0cb7ddf76706d2d0f755a3a7354f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:21 +0000
Subject: [PATCH 24/33] fix: an empty selection ends the queue instead of
 failing and leaving the actor system running

---
 simulation/run_parallel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simulation/run_parallel.py b/simulation/run_parallel.py
index 6c49782..dfea6cc 100644
--- a/simulation/run_parallel.py
+++ b/simulation/run_parallel.py
@@ -48,7 +48,9 @@ def run_parallel(args):
             # ops.map(lambda w: rxtools.from_process(w.run)),
             ops.map(lambda w : w.run()),
             # ops.merge(max_concurrent=1)
-            ops.do_action(on_next=process_result)
+            ops.do_action(on_next=process_result),
+            # run() waits for a last element, which an empty queue does not have
+            ops.count()
         ).run()
     log_summary(args, results, simulation_cases, wall_time)
     rxtools.shutdown_default_executor()
-- 
2.43.0


From 20f86612eaa90211f33a9c0497b22eea25d37841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:34 +0000
Subject: [PATCH 25/33] fix: stats reports on the directory given with --dir

---
 statistic/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/statistic/stats.py b/statistic/stats.py
index 62a450c..cace502 100644
--- a/statistic/stats.py
+++ b/statistic/stats.py
@@ -83,7 +83,7 @@ def statistics(args):
 
     with close_and_join(multiprocessing.Pool(min(int(args["-j"]), 8))) as p:
         for problem_name, problem_mod, algorithms in serialization.each_result(
-            BudgetResultsExtractor()
+            BudgetResultsExtractor(), args["--dir"]
         ):
             for algo_name, budgets in algorithms:
                 header_just_printed = print_header()
-- 
2.43.0


From dc10fd80c88a3d4a07b75d72c3bf01fe86e75473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:34 +0000
Subject: [PATCH 26/33] fix: pictures skips algorithms without a plot style
 instead of aborting

---
 plots/pictures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plots/pictures.py b/plots/pictures.py
index aaf71b1..942d6b7 100644
--- a/plots/pictures.py
+++ b/plots/pictures.py
@@ -554,7 +554,7 @@ def pictures_time(args):
 
                             keys = [
                                 (problem_name, algo_name, metric_name, group)
-                                for group in algos_groups[algo_name]
+                                for group in algos_groups.get(algo_name, ())
                             ]
                             value = (time, 0, score, score_err)
                             for key in keys:
-- 
2.43.0


From 9a2d4cb63fb677e6fcaa89eac627d71a2753b18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:34 +0000
Subject: [PATCH 27/33] fix: pictures scales the time axis to all series and
 accepts an empty store

---
 plots/pictures.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plots/pictures.py b/plots/pictures.py
index 942d6b7..35a6474 100644
--- a/plots/pictures.py
+++ b/plots/pictures.py
@@ -559,7 +559,9 @@ def pictures_time(args):
                             value = (time, 0, score, score_err)
                             for key in keys:
                                 plot_data[key].append(value)
-    max_time = max(list(plot_data.values())[0])[0]
+    max_time = max(
+        (value[0] for values in plot_data.values() for value in values), default=0
+    )
     plot_results(plot_data, plots_dir, (0, max_time))
 
 
-- 
2.43.0


From e57218efdccca285e952743c33a7198b12b2181b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:34 +0000
Subject: [PATCH 28/33] fix: pictures_summary accepts a problem without
 acceptable results

---
 plots/pictures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plots/pictures.py b/plots/pictures.py
index 35a6474..18c9c8c 100644
--- a/plots/pictures.py
+++ b/plots/pictures.py
@@ -661,7 +661,8 @@ def pictures_summary(args):
                 if metric_name != "pdi":
 
                     max_score = (
-                        max(x for algo, x in problem_score[metric_name]) + 0.0001
+                        max((x for algo, x in problem_score[metric_name]), default=0.0)
+                        + 0.0001
                     )
                     for algo_name, _ in algos:
                         if (
-- 
2.43.0


From ddb819cb601cbc0631078b88d9e888960e3a4f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:34 +0000
Subject: [PATCH 29/33] fix: pictures_summary shows problems missing from the
 fixed order instead of aborting

---
 plots/pictures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plots/pictures.py b/plots/pictures.py
index 18c9c8c..261385d 100644
--- a/plots/pictures.py
+++ b/plots/pictures.py
@@ -573,6 +573,7 @@ def plot_results_summary(problems, scoring, selected, plots_dir):
         plt.title(metric_name)
         x_axis = range(len(problems))
         problem_labels = [p for p in problems_order if p in problems]
+        problem_labels.extend(sorted(problems.difference(problems_order)))
         plt.xticks(x_axis, problem_labels)
 
         if metric_name == "hypervolume":
-- 
2.43.0


From f187f593c03b12be265d87c2cfe026191d9bc458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:07 +0000
Subject: [PATCH 30/33] fix: fronts of UF8 and UF10 lie on the unit sphere
 (square root, not cube root)

---
 problems/UF10/problem.py | 2 +-
 problems/UF8/problem.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/problems/UF10/problem.py b/problems/UF10/problem.py
index 3c3e39a..450154d 100644
--- a/problems/UF10/problem.py
+++ b/problems/UF10/problem.py
@@ -10,7 +10,7 @@ x_points = [i / (xy_series_no - 1) for i in range(xy_series_no)]
 y_points = [i / (xy_series_no - 1) for i in range(xy_series_no)]
 
 pareto_front = [
-    [x, y, math.pow(-x ** 2 - y ** 2 + 1, 1 / 3)]
+    [x, y, math.sqrt(1 - x ** 2 - y ** 2)]
     for x, y in itertools.product(x_points, y_points)
     if x ** 2 + y ** 2 <= 1
 ]
diff --git a/problems/UF8/problem.py b/problems/UF8/problem.py
index 830f97b..06e1ee4 100644
--- a/problems/UF8/problem.py
+++ b/problems/UF8/problem.py
@@ -9,7 +9,7 @@ x_points = [i / (xy_series_no - 1) for i in range(xy_series_no)]
 y_points = [i / (xy_series_no - 1) for i in range(xy_series_no)]
 
 pareto_front = [
-    [x, y, math.pow(-x ** 2 - y ** 2 + 1, 1 / 3)]
+    [x, y, math.sqrt(1 - x ** 2 - y ** 2)]
     for x, y in itertools.product(x_points, y_points)
     if x ** 2 + y ** 2 <= 1
 ]
-- 
2.43.0


From 3ea31a6b03d3a7c11d91c7e0c0c487ba9a3c2c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:07 +0000
Subject: [PATCH 31/33] fix: front of UF9 leaves out points with a negative
 second objective

---
 problems/UF9/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/problems/UF9/problem.py b/problems/UF9/problem.py
index 044dbf0..6cfe4f8 100644
--- a/problems/UF9/problem.py
+++ b/problems/UF9/problem.py
@@ -12,7 +12,7 @@ z_points = [i / (xy_series_no - 1) for i in range(xy_series_no)]
 pareto_front = [
     [x, 1 - x - z, z]
     for x, z in itertools.product(x_points, z_points)
-    if x <= 0.25 * (1 - z) or x >= 0.75 * (1 - z)
+    if x + z <= 1 and (x <= 0.25 * (1 - z) or x >= 0.75 * (1 - z))
 ]
 
 J1 = [j for j in range(3, n + 1) if (j - 1) % 3]
-- 
2.43.0


From 7e8e8ab6c5d0fccb1c44cbdade802804e1e43122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:07 +0000
Subject: [PATCH 32/33] fix: front of UF6 stays within its segments

---
 problems/UF6/problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/problems/UF6/problem.py b/problems/UF6/problem.py
index aa28d5d..0d0b0cf 100644
--- a/problems/UF6/problem.py
+++ b/problems/UF6/problem.py
@@ -5,12 +5,12 @@ import numpy
 
 n = 30
 eps = 0.1
-p_step = (1 - 1 / (2 * n)) / 150
+p_no = 4
 
 emoa_points = [
     x
     for i in range(1, n + 1)
-    for x in numpy.arange((2 * i - 1) / (2 * n), (2 * i) / (2 * n) + p_step, p_step)
+    for x in numpy.linspace((2 * i - 1) / (2 * n), (2 * i) / (2 * n), p_no)
 ]
 pareto_front = [[0, 1]] + [[x, 1 - x] for x in emoa_points]
 pareto_set = []
-- 
2.43.0


From 7916632f70c9091b6f6889d60bfc7877de95424c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:37 +0000
Subject: [PATCH 33/33] fix: SPEA2 truncation breaks ties by all further
 distances

---
 algorithms/SPEA2/SPEA2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithms/SPEA2/SPEA2.py b/algorithms/SPEA2/SPEA2.py
index f90c7e5..424a8ef 100644
--- a/algorithms/SPEA2/SPEA2.py
+++ b/algorithms/SPEA2/SPEA2.py
@@ -185,7 +185,7 @@ class SPEA2(Driver):
         return self.get_min(distances, 0)[0]
 
     def get_min(self, distances, level):
-        if level >= len(distances):
+        if level >= len(distances[0][1]):
             return distances[0]
 
         sorted_distances = sorted(distances, key=lambda dist: dist[1][level][1])
-- 
2.43.0

