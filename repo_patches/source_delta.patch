From 598a002663828ed5bac367b34fb6b083c7426369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:30 +0000
Subject: [PATCH 01/33] fix: clear a stale exception when an evaluation
 succeeds

clone() copies ancillary state, so the offspring of a non-viable individual
kept its parent's exception even after being evaluated successfully.
---
 leap_ec/individual.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/leap_ec/individual.py b/leap_ec/individual.py
index b734ada..4aeee89 100644
--- a/leap_ec/individual.py
+++ b/leap_ec/individual.py
@@ -293,6 +293,7 @@ class RobustIndividual(Individual):
         try:
             self.fitness = self.evaluate_imp()
             self.is_viable = True  # we were able to evaluate
+            self.exception = None  # drop any exception inherited via clone()
         except Exception as e:
             self.fitness = nan
             self.exception = e
-- 
2.43.0


From 50e0dca0082958a73be3212c30d6b12ba9831cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:30 +0000
Subject: [PATCH 02/33] fix: count non-viable individuals where their
 evaluations are collected

evaluate() runs on the dask workers and incremented a pickled copy of the
context, so context['leap']['distrib']['non_viable'] stayed 0 on the client.
---
 leap_ec/distrib/asynchronous.py |  3 ++-
 leap_ec/distrib/evaluate.py     | 24 ++++++++++++++++++------
 leap_ec/distrib/synchronous.py  |  3 ++-
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/leap_ec/distrib/asynchronous.py b/leap_ec/distrib/asynchronous.py
index afb9853..9a27715 100644
--- a/leap_ec/distrib/asynchronous.py
+++ b/leap_ec/distrib/asynchronous.py
@@ -16,7 +16,7 @@ import distributed
 from leap_ec.global_vars import context
 from leap_ec import util
 
-from .evaluate import evaluate, is_viable
+from .evaluate import evaluate, is_viable, count_non_viable
 from .individual import DistributedIndividual
 
 # Create unique logger for this namespace
@@ -184,6 +184,7 @@ def steady_state(client, max_births, init_pop_size, pop_size,
     for i, evaluated_future in enumerate(as_completed_iter):
 
         evaluated = evaluated_future.result()
+        count_non_viable([evaluated], context)
 
         if evaluated_probe is not None:
             # Give a chance to do something extra with the newly evaluated
diff --git a/leap_ec/distrib/evaluate.py b/leap_ec/distrib/evaluate.py
index 0d33a38..319b26c 100644
--- a/leap_ec/distrib/evaluate.py
+++ b/leap_ec/distrib/evaluate.py
@@ -21,8 +21,8 @@ def evaluate(individual, context=context):
     We log the start and end times for evaluation.
 
     An individual is viable if an exception is NOT thrown, else it is NOT a
-    viable individual.  If not viable, we increment the context['leap'][
-    'distrib']['non_viable'] count to track such instances.
+    viable individual.  Non-viable individuals are counted by the client (see
+    count_non_viable()) because the worker only ever has a copy of `context`.
 
     This function sets:
 
@@ -51,10 +51,6 @@ def evaluate(individual, context=context):
 
     if hasattr(individual, 'is_viable') and not individual.is_viable:
         # is_viable will be False if an exception was thrown during evaluation.
-        # We track the number of such failures on the off chance that this
-        # might be useful.
-        context['leap']['distrib']['non_viable'] += 1
-
         if hasattr(worker, 'logger'):
             worker.logger.warning(
                 f'Worker {worker.id}: {individual.exception!s} raised for {individual!s}')
@@ -86,3 +82,19 @@ def is_viable(individual):
         return individual.is_viable
     else:
         return True
+
+
+def count_non_viable(individuals, context=context):
+    """ Add the number of non-viable individuals among the given, evaluated
+    individuals to context['leap']['distrib']['non_viable'].
+
+    This has to happen where the evaluated individuals are collected since
+    evaluate() runs on the workers, which have their own copy of `context`.
+
+    :param individuals: newly evaluated individuals
+    :param context: for storing count of non-viable individuals
+    :return: None
+    """
+    distrib = context['leap'].setdefault('distrib', {})
+    distrib['non_viable'] = distrib.get('non_viable', 0) + \
+        sum(1 for individual in individuals if not is_viable(individual))
diff --git a/leap_ec/distrib/synchronous.py b/leap_ec/distrib/synchronous.py
index 0f5aee8..ee99c50 100644
--- a/leap_ec/distrib/synchronous.py
+++ b/leap_ec/distrib/synchronous.py
@@ -8,7 +8,7 @@ from leap_ec import leap_logger_name
 from leap_ec.global_vars import context
 from leap_ec.util import wrap_curry
 
-from .evaluate import evaluate
+from .evaluate import evaluate, count_non_viable
 from leap_ec import ops
 
 logger = logging.getLogger(leap_logger_name)
@@ -44,6 +44,7 @@ def eval_population(population, client, context=context):
     # evaluated.  If this is a problem, please consider using async_eval_pool,
     # instead.
     evaluated_individuals = client.gather(worker_futures)
+    count_non_viable(evaluated_individuals, context)
 
     return evaluated_individuals
 
-- 
2.43.0


From 210e9f2ce397cb36028390e1362683074a03b3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:32 +0000
Subject: [PATCH 03/33] fix: accept the individuals grouped_evaluate passes to
 evaluate_multiple

---
 leap_ec/problem.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/leap_ec/problem.py b/leap_ec/problem.py
index 71adc50..af2e332 100644
--- a/leap_ec/problem.py
+++ b/leap_ec/problem.py
@@ -55,12 +55,15 @@ class Problem(ABC):
         """
         raise NotImplementedError
 
-    def evaluate_multiple(self, phenomes):
+    def evaluate_multiple(self, phenomes, *args, **kwargs):
         """Evaluate multiple phenomes all at once, returning a list of fitness
         values.
 
         By default this just calls `self.evaluate()` multiple times.  Override this
-        if you need to, say, send a group of individuals off to parallel """
+        if you need to, say, send a group of individuals off to parallel
+
+        `ops.grouped_evaluate()` also passes the corresponding `individuals` as
+        a keyword argument, which is ignored here."""
         return [ self.evaluate(p) for p in phenomes ]
 
     @abstractmethod
@@ -344,7 +347,7 @@ class AverageFitnessProblem(Problem):
         fitnesses = [ self.wrapped_problem.evaluate(phenome) for _ in range(self.n) ]
         return np.mean(fitnesses)
 
-    def evaluate_multiple(self, phenomes: list):
+    def evaluate_multiple(self, phenomes: list, *args, **kwargs):
         """
         Evaluate a collections of phenomes by creating n jobs for each phenome,
         sending all the jobs to the wrapped evaluate_multiple() function, and then
@@ -362,7 +365,10 @@ class AverageFitnessProblem(Problem):
         expanded_phenomes = [ p for p in phenomes for _ in range(self.n) ]
 
         # Evaluate them
-        fitnesses = self.wrapped_problem.evaluate_multiple(expanded_phenomes)
+        if 'individuals' in kwargs:
+            # These correspond to the phenomes, so they need to be copied, too
+            kwargs['individuals'] = [ i for i in kwargs['individuals'] for _ in range(self.n) ]
+        fitnesses = self.wrapped_problem.evaluate_multiple(expanded_phenomes, *args, **kwargs)
 
         # Average the copies back together
         contracted_phenomes = mean_by_chunk(fitnesses)
-- 
2.43.0


From f2c62aed6234389fff4807c5f97d9f3b082c20b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:32 +0000
Subject: [PATCH 04/33] fix: copy_segment copies the segment instead of
 aliasing it

---
 leap_ec/segmented_rep/ops.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/leap_ec/segmented_rep/ops.py b/leap_ec/segmented_rep/ops.py
index daa8b6e..523aa66 100644
--- a/leap_ec/segmented_rep/ops.py
+++ b/leap_ec/segmented_rep/ops.py
@@ -2,6 +2,7 @@
 """
     Segmented representation specific pipeline operators.
 """
+from copy import deepcopy
 from typing import Iterator, Callable
 import random
 
@@ -203,8 +204,9 @@ def copy_segment(next_individual: Iterator,
         individual = next(next_individual)
 
         if random.random() < probability:
-            copied_segment = \
-                individual.genome[random.randrange(len(individual.genome))]
+            # A true copy, so that mutating one does not also change the other
+            copied_segment = deepcopy(
+                individual.genome[random.randrange(len(individual.genome))])
 
             if append:
                 individual.genome.append(copied_segment)
-- 
2.43.0


From b298726e7ceca85ccd36ef086cce08d02b97e569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:59 +0000
Subject: [PATCH 05/33] fix: grouped_evaluate decodes the current genome

---
 leap_ec/ops.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/leap_ec/ops.py b/leap_ec/ops.py
index 4a098de..2c76763 100644
--- a/leap_ec/ops.py
+++ b/leap_ec/ops.py
@@ -290,7 +290,9 @@ def grouped_evaluate(population: list, max_individuals_per_chunk: int = None) ->
     for chunk in chunks(population, max_individuals_per_chunk):
         # XXX Always passing individuals along to the problem.
         #     Does this create problems with dask, even when we aren't using individuals?
-        fit = problem.evaluate_multiple([c.phenome for c in chunk], individuals=chunk)
+        # Always decode, as evaluate() does: a previously decoded phenome may
+        # belong to the parent or to an earlier version of the genome.
+        fit = problem.evaluate_multiple([c.decode() for c in chunk], individuals=chunk)
         fitnesses.extend(fit)
 
     for fit, ind in zip(fitnesses, population):
-- 
2.43.0


From b57ed291492642fdc3b96075a4d23c1cb2b7caf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:48 +0000
Subject: [PATCH 06/33] fix: insertion_selection considers every offspring, not
 just the first

---
 leap_ec/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/ops.py b/leap_ec/ops.py
index 2c76763..f815ed2 100644
--- a/leap_ec/ops.py
+++ b/leap_ec/ops.py
@@ -992,7 +992,7 @@ def insertion_selection(offspring: List, parents: List, key = None) -> List:
                                                         copied_parents[
                                                             selected_parent_index])
 
-        return copied_parents
+    return copied_parents
 
 
 ##############################
-- 
2.43.0


From e98a64148b035f428b2561602d2f0227e2cc9ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:10 +0000
Subject: [PATCH 07/33] fix: islands without neighbours do not emigrate

---
 leap_ec/ops.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/leap_ec/ops.py b/leap_ec/ops.py
index f815ed2..455d970 100644
--- a/leap_ec/ops.py
+++ b/leap_ec/ops.py
@@ -1229,7 +1229,9 @@ def migrate(topology, emigrant_selector,
         immigrants[current_subpop] = []
 
         # Emigration
-        if generation % migration_gap == 0:
+        # An island that has no neighbors has nowhere to send an emigrant
+        neighbors = list(topology.neighbors(current_subpop))
+        if generation % migration_gap == 0 and neighbors:
             logger.debug(f"migration_gap reached: doing emigration on subpop {current_subpop}.")
             # Choose an emigrant individual
             sponsor = next(emigrant_selector(population))
@@ -1238,10 +1240,8 @@ def migrate(topology, emigrant_selector,
             emi = sponsor.clone()
             emi.fitness = sponsor.fitness
             logger.debug(f"Emigrant individual (copy of sponsor): {emi}")
-            neighbors = topology.neighbors(
-                current_subpop)  # Get neighboring islands
             # Randomly select a neighboring island
-            dest = random.choice(list(neighbors))
+            dest = random.choice(neighbors)
             logger.debug(f"Destination island: {dest}")
             # Add the emigrant to its immigration list
             immigrants[dest].append(emi)
-- 
2.43.0


From 813dac0c8b9ffb47078761e9fcb8143aff8e8721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:26 +0000
Subject: [PATCH 08/33] fix: a layer moves down as a whole only if all of it is
 really dominated

---
 leap_ec/multiobjective/asynchronous.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leap_ec/multiobjective/asynchronous.py b/leap_ec/multiobjective/asynchronous.py
index b208aff..f4d1ba2 100644
--- a/leap_ec/multiobjective/asynchronous.py
+++ b/leap_ec/multiobjective/asynchronous.py
@@ -90,8 +90,8 @@ def enlu_inds_rank(start_point, layer_pops):
         # Further check if those individuals are properly dominated
         true_dominated = _set_domination(moving_points, dominated)
 
-        # CASE III: If nondominated is empty, insert moving points as a layer and re-update all ranks
-        if not nondominated:
+        # CASE III: If the whole layer is dominated, insert moving points as a layer and re-update all ranks
+        if not nondominated and all(true_dominated):
             layer_pops.insert(depth, moving_points)
             for i, lp in enumerate(layer_pops[depth:]):
                 for ind in lp:
-- 
2.43.0


From 20e59277f50d1624cdcb02c9b32a74ec9c564f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:26 +0000
Subject: [PATCH 09/33] fix: crowding_distance_calc keeps fronts whose
 fitnesses are all equal

---
 leap_ec/multiobjective/ops.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/leap_ec/multiobjective/ops.py b/leap_ec/multiobjective/ops.py
index 3f9749c..088fe43 100644
--- a/leap_ec/multiobjective/ops.py
+++ b/leap_ec/multiobjective/ops.py
@@ -209,7 +209,8 @@ def per_rank_crowding_calc(ranked_population: list, is_maximizing) -> list:
 
     objective_ranges = f_max - f_min
 
-    sorted_pop = []
+    # Also what is returned if no objective tells the individuals apart
+    sorted_pop = list(ranked_population)
 
     for objective in range(num_objectives):
         if objective_ranges[objective] == 0:
-- 
2.43.0


From 61163cde2a7746e2b17773d96841d701d2c291ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:51 +0000
Subject: [PATCH 10/33] fix: failed evaluations rank below all others in
 multiobjective populations

---
 leap_ec/multiobjective/asynchronous.py |  4 ++--
 leap_ec/multiobjective/ops.py          | 11 +++++++++--
 leap_ec/multiobjective/problems.py     | 20 ++++++++++++++++++++
 3 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/leap_ec/multiobjective/asynchronous.py b/leap_ec/multiobjective/asynchronous.py
index f4d1ba2..f48835b 100644
--- a/leap_ec/multiobjective/asynchronous.py
+++ b/leap_ec/multiobjective/asynchronous.py
@@ -31,14 +31,14 @@ def _split_dominated(moving_points, layer):
     objective versus ENLU, so this is zenith / max vs nadir / min
     """
     zenith = np.max([
-        ind.fitness * ind.problem.maximize
+        ind.problem.maximized(ind.fitness)
         for ind in moving_points
     ], axis=0)
     
     dominated = []
     nondominated = []
     for ind in layer:
-        ord_fitness = ind.fitness * ind.problem.maximize
+        ord_fitness = ind.problem.maximized(ind.fitness)
         if all(zenith >= ord_fitness) and any(zenith > ord_fitness):
             dominated.append(ind)
         else:
diff --git a/leap_ec/multiobjective/ops.py b/leap_ec/multiobjective/ops.py
index 088fe43..e7ebd7d 100644
--- a/leap_ec/multiobjective/ops.py
+++ b/leap_ec/multiobjective/ops.py
@@ -130,7 +130,7 @@ def rank_ordinal_sort(population: list, parents: list = None) -> list:
 
     # De-duplicate indentical fitness values, using the returned fitnesses for the sorting
     unique_fitnesses, orig_inv_idx = np.unique([
-        ind.fitness * ind.problem.maximize
+        ind.problem.maximized(ind.fitness)
         for ind in population
     ], return_inverse=True, axis=0)
 
@@ -178,7 +178,14 @@ def per_rank_crowding_calc(ranked_population: list, is_maximizing) -> list:
     # Presuming this is a population with homogeneous objectives, then the size of
     # the optimization directions array should be equal to the number of objectives.
     num_objectives = is_maximizing.shape[0]
-    
+
+    # Failed evaluations have no fitnesses to measure distances with; they
+    # are dominated by all others, and so always share a rank of their own.
+    if any(np.any(np.isnan(i.fitness)) for i in ranked_population):
+        for i in ranked_population:
+            i.distance = 0
+        return list(ranked_population)
+
     # minimum and maximum fitnesses by objective, so we initialize to the
     # infinities. At first we assume maximization for all of the objectives,
     # but then we fine-tune for minimization in the next step.
diff --git a/leap_ec/multiobjective/problems.py b/leap_ec/multiobjective/problems.py
index 20ccbe6..9767a33 100644
--- a/leap_ec/multiobjective/problems.py
+++ b/leap_ec/multiobjective/problems.py
@@ -90,6 +90,13 @@ class MultiObjectiveProblem(Problem):
         # assert(len(first_fitnesses) == len(self.maximize))
         # assert(len(second_fitnesses) == len(self.maximize))
 
+        # As for scalar fitnesses, NaN (i.e., a failed evaluation) is always
+        # worse than a proper fitness, and two NaNs do not dominate one another
+        if np.any(np.isnan(second_fitnesses)):
+            return False
+        if np.any(np.isnan(first_fitnesses)):
+            return True
+
         # Negate the minimization problems, so we can treat all objectives as
         # maximization
         first_max = first_fitnesses * self.maximize
@@ -99,6 +106,19 @@ class MultiObjectiveProblem(Problem):
         return all (second_max >= first_max) \
                 and any (second_max > first_max)
 
+    def maximized(self, fitnesses):
+        """Return the given fitnesses with every objective to be maximized.
+
+        NaN (i.e., a failed evaluation) becomes the worst possible vector, in
+        line with `worse_than()`.
+
+        :param fitnesses: a np array with a fitness for each objective, or NaN
+        """
+        maximized = fitnesses * self.maximize
+        if np.any(np.isnan(maximized)):
+            return np.full(len(self.maximize), -np.inf)
+        return maximized
+
     def equivalent(self, first_fitnesses, second_fitnesses):
         """Return true if first_fitness and second_fitness are mutually
         Pareto non-dominating.
-- 
2.43.0


From 8af684358002fb050d30dc994246173130e77db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:29 +0000
Subject: [PATCH 11/33] fix: AttributesCSVProbe keeps the genomes it recorded

---
 leap_ec/probe.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/leap_ec/probe.py b/leap_ec/probe.py
index bd58cd1..01962b2 100644
--- a/leap_ec/probe.py
+++ b/leap_ec/probe.py
@@ -1,6 +1,7 @@
 """ Probes are pipeline operators to instrument state that passes through the
 pipeline such as populations or individuals.
 """
+import copy
 import csv
 import sys
 import json
@@ -567,6 +568,9 @@ class AttributesCSVProbe(op.Operator):
                     self.writer.writerow(row)
 
                 if self.do_dataframe:
+                    if self.do_genome:
+                        # Later operators may change the genome in place
+                        row['genome'] = copy.deepcopy(row['genome'])
                     self.data.append(row)
 
         return population
-- 
2.43.0


From aa3010334a1d26a3610424e61fa2ab651fb42fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:29 +0000
Subject: [PATCH 12/33] fix: best-so-far probes remember the individual as it
 was

---
 leap_ec/probe.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/leap_ec/probe.py b/leap_ec/probe.py
index 01962b2..a14f720 100644
--- a/leap_ec/probe.py
+++ b/leap_ec/probe.py
@@ -70,6 +70,15 @@ def print_individual(next_individual: Iterator, prefix='',
         yield individual
 
 
+def _snapshot(ind):
+    """ Copy an individual, so that operators that change `ind` in place later
+    on do not affect what a probe remembers of it.
+    """
+    snapshot = copy.copy(ind)
+    snapshot.genome = copy.deepcopy(ind.genome)
+    return snapshot
+
+
 ##############################
 # Class BestSoFarProbe
 ##############################
@@ -129,7 +138,7 @@ class BestSoFarProbe(op.Operator):
         ind = max(population)
         assert(ind.fitness is not None), f"Probe expects individuals to have fitness values, but found one that doesn't."
         if self.bsf is None or (ind > self.bsf):
-            self.bsf = ind
+            self.bsf = _snapshot(ind)
 
         self.writer.writerow({'step': self.context['leap']['generation'],
                             'bsf' : self.bsf.fitness
@@ -200,7 +209,7 @@ class BestSoFarIterProbe(op.Operator):
             ind = next(next_individual)
             assert(ind.fitness is not None), f"Probe expects individuals to have fitness values, but found one that doesn't."
             if self.bsf is None or (ind > self.bsf):
-                self.bsf = ind
+                self.bsf = _snapshot(ind)
 
             self.writer.writerow({'step': self.context['leap']['generation'],
                                 'bsf' : self.bsf.fitness
@@ -371,7 +380,7 @@ class FitnessStatsCSVProbe(op.Operator):
             # Always update the best-so-far variable
             best_ind = best_of_gen(population)
             if self.bsf_ind is None or (best_ind > self.bsf_ind):
-                self.bsf_ind = best_ind
+                self.bsf_ind = _snapshot(best_ind)
 
             # Check if we've reached a measurement interval
             generation = self.context['leap']['generation']
-- 
2.43.0


From 2643045fbac7883673bf9632986db148a40a14c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:43 +0000
Subject: [PATCH 13/33] fix: CooperativeProblem can log its trials

---
 leap_ec/problem.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/leap_ec/problem.py b/leap_ec/problem.py
index af2e332..0c9a1bb 100644
--- a/leap_ec/problem.py
+++ b/leap_ec/problem.py
@@ -470,8 +470,6 @@ class CooperativeProblem(Problem):
         assert('individual' in kwargs), "CooperativeProblem.evaluate() requires an 'individual' to be passed in via kwargs, but none was found.  Are you using an evaluation operator that supports passing individuals to problems (rather than just phenomes)?"
         individual = kwargs['individual']
 
-        current_genome = individual.genome
-
         # Pull references to all subpopulations from the context object
         subpopulations = self.context['leap']['subpopulations']
         current_subpop_index = self.context['leap']['current_subpopulation']
@@ -479,8 +477,8 @@ class CooperativeProblem(Problem):
         # Choose collaborators and evaulate
         fitnesses = []
         for i in range(self.num_trials):
-            all_collaborators = self._choose_collaborators(current_genome, current_subpop_index, subpopulations)
-            combined_genome = self.combine_genomes(all_collaborators)
+            all_collaborators = self._choose_collaborators(individual, current_subpop_index, subpopulations)
+            combined_genome = self.combine_genomes([ind.genome for ind in all_collaborators])
             combined_ind = Individual(combined_genome, decoder=self.combined_decoder, problem=self.wrapped_problem)
             fitness = combined_ind.evaluate()
 
@@ -505,10 +503,10 @@ class CooperativeProblem(Problem):
         if you need to, say, send a group of individuals off to parallel """
         return [ self.evaluate(p, individual=i) for p, i in zip(phenomes, individuals) ]
 
-    def _choose_collaborators(self, current_genome, current_subpop_index, subpopulations):
+    def _choose_collaborators(self, current_ind, current_subpop_index, subpopulations):
         """Choose collaborators from the subpopulations, returning a list that contains
-        the genome for the current individual and all of the genomes for collaborators,
-        in the order that they will be combined."""
+        the current individual and all of its collaborators, in the order that they will
+        be combined."""
 
         # Create iterators that select individuals from each subpopulation
         selection_iterators = [self.collaborator_selector(subpop) for subpop in subpopulations]
@@ -520,10 +518,10 @@ class CooperativeProblem(Problem):
                 ind = next(selection_iterators[i])
                 # Make sure we actually got something with a genome back
                 assert (hasattr(ind, 'genome'))
-                all_collaborators.append(ind.genome)
+                all_collaborators.append(ind)
             else:
                 # Stick this subpop's individual in as-is
-                all_collaborators.append(current_genome)
+                all_collaborators.append(current_ind)
 
         assert (len(all_collaborators) == len(subpopulations))
 
-- 
2.43.0


From 08ff5dce2bb8fe8285354f0a26c6a4cba84ad4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:18 +0000
Subject: [PATCH 14/33] fix: crossover keeps the second children of interleaved
 pipelines apart

---
 leap_ec/ops.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/leap_ec/ops.py b/leap_ec/ops.py
index 455d970..46c0b34 100644
--- a/leap_ec/ops.py
+++ b/leap_ec/ops.py
@@ -361,7 +361,7 @@ class Crossover(Operator):
 
     def __init__(self, persist_children, p_xover):
         self.persist_children = persist_children
-        self.second_child = None
+        self.second_children = []  # not yet yielded, only if persist_children
         self.p_xover = p_xover
 
     @abc.abstractmethod
@@ -381,35 +381,42 @@ class Crossover(Operator):
         # There has to be an inner function so we can properly use @iteriter_op
         @iteriter_op
         def _call(next_individual):
-            if self.persist_children and self.second_child is not None:
+            while self.persist_children and self.second_children:
                 # Return a child left from another run
-                # Swap with None has to happen before the yield to be certain its executed
-                ret_child, self.second_child = self.second_child, None
-                yield ret_child
+                # Removal has to happen before the yield to be certain its executed
+                yield self.second_children.pop(0)
 
             while True:
                 parent_a = next(next_individual)
                 parent_b = next(next_individual)
 
                 if np.random.uniform() > self.p_xover:
-                    first_child, self.second_child = parent_a, parent_b
+                    first_child, second_child = parent_a, parent_b
                 else:
-                    first_child, self.second_child = self.recombine(parent_a, parent_b)
+                    first_child, second_child = self.recombine(parent_a, parent_b)
                     
-                    first_child.parents |= self.second_child.parents
-                    self.second_child.parents |= first_child.parents
+                    first_child.parents |= second_child.parents
+                    second_child.parents |= first_child.parents
 
-                    first_child.fitness = self.second_child.fitness = None
+                    first_child.fitness = second_child.fitness = None
 
                 # Generators only execute code if necessary, so children will only be generated
                 # if the first child needs to be yielded. That's why it doesn't need to be stored
                 # in the class as well.
+                if self.persist_children:
+                    self.second_children.append(second_child)
                 yield first_child
 
                 # Remove the second child from the class and yield it if the generator does
-                # get requested for it
-                ret_child, self.second_child = self.second_child, None
-                yield ret_child
+                # get requested for it, unless another run has already yielded it
+                if self.persist_children:
+                    for i, child in enumerate(self.second_children):
+                        if child is second_child:
+                            del self.second_children[i]
+                            break
+                    else:
+                        continue
+                yield second_child
 
         return _call(next_individual)
 
-- 
2.43.0


From 2dbdd238b1b5c9e2fff0936df40f8901d09e6522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:18 +0000
Subject: [PATCH 15/33] fix: random_search counts in the context it is given

---
 leap_ec/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/algorithm.py b/leap_ec/algorithm.py
index 380207d..de59985 100644
--- a/leap_ec/algorithm.py
+++ b/leap_ec/algorithm.py
@@ -355,7 +355,7 @@ def random_search(evaluations, problem, representation, pipeline,
 
     # Set up an evaluation counter that records the current generation to
     # context; start at 1 to account for individual we already created.
-    evaluation_counter = util.inc_generation(start_generation=1)
+    evaluation_counter = util.inc_generation(start_generation=1, context=context)
 
     while evaluation_counter.generation() < evaluations:
         # Apply the provided reproductive operators to create a new individual.
-- 
2.43.0


From 62720754aa54d982538374dbe64ed91a7133aafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:18 +0000
Subject: [PATCH 16/33] fix: EnvironmentProblem returns its numbers of inputs
 and outputs

---
 leap_ec/executable_rep/problems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leap_ec/executable_rep/problems.py b/leap_ec/executable_rep/problems.py
index 008312b..7bb67a7 100644
--- a/leap_ec/executable_rep/problems.py
+++ b/leap_ec/executable_rep/problems.py
@@ -41,12 +41,12 @@ class EnvironmentProblem(ScalarProblem):
     @property
     def num_inputs(self):
         """Return the number of dimensions in the environment's input space."""
-        self.space_dimensions(self.environment.observation_space)
+        return self.space_dimensions(self.environment.observation_space)
 
     @property
     def num_outputs(self):
         """Return the number of dimensions in the environment's action space."""
-        self.space_dimensions(self.environment.action_space)
+        return self.space_dimensions(self.environment.action_space)
 
     @classmethod
     def _reward_fitness(cls, observations, rewards):
-- 
2.43.0


From 780928a641fdde19e15dfc9e836b5e9849eca191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:27 +0000
Subject: [PATCH 17/33] fix: ea_solve returns the best of all it evaluated

---
 leap_ec/simple.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/leap_ec/simple.py b/leap_ec/simple.py
index 350d4dd..4f5073b 100644
--- a/leap_ec/simple.py
+++ b/leap_ec/simple.py
@@ -122,5 +122,6 @@ def ea_solve(function, bounds, generations=100, pop_size=cpu_count(),
 
                          pipeline=pipeline)
 
-    # Return the genome of the best-found individual
-    return bsf_probe.bsf.genome
+    # Return the genome of the best-found individual (which elitism keeps in
+    # the population, also if it was already in the initial one)
+    return max(final_pop).genome
-- 
2.43.0


From 55c3b5d5315c59aea90b9364d3010e304b949537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:18 +0000
Subject: [PATCH 18/33] fix: crossover never recombines with probability zero

---
 leap_ec/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/ops.py b/leap_ec/ops.py
index 46c0b34..ef28ff0 100644
--- a/leap_ec/ops.py
+++ b/leap_ec/ops.py
@@ -390,7 +390,7 @@ class Crossover(Operator):
                 parent_a = next(next_individual)
                 parent_b = next(next_individual)
 
-                if np.random.uniform() > self.p_xover:
+                if np.random.uniform() >= self.p_xover:
                     first_child, second_child = parent_a, parent_b
                 else:
                     first_child, second_child = self.recombine(parent_a, parent_b)
-- 
2.43.0


From f0f272db6f8a1e588eef54c0530c290eec8fc828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:18 +0000
Subject: [PATCH 19/33] fix: sus_selection stays on members with a share for
 every random start

---
 leap_ec/ops.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/leap_ec/ops.py b/leap_ec/ops.py
index ef28ff0..b43610c 100644
--- a/leap_ec/ops.py
+++ b/leap_ec/ops.py
@@ -751,6 +751,8 @@ def sus_selection(population: List, n=None, shuffle: bool = True,
         raise ValueError('negative value found after applying offset.')
 
     population_total = np.sum(values)
+    # rounding can put the last point past everybody who has a share
+    end = np.flatnonzero(values)[-1] + 1 if population_total > 0 else len(population)
     even_spacing = population_total / n
     random_start = np.random.uniform(low=0.0, high=even_spacing)
     selection_points = [random_start + i*even_spacing for i in range(0, n)]
@@ -771,7 +773,7 @@ def sus_selection(population: List, n=None, shuffle: bool = True,
 
         current_point = selection_points[selection_idx]
         # continue until the running sum is greater than the point
-        while running_sum < current_point:
+        while running_sum <= current_point and population_idx < end:
             running_sum += values[population_idx]
             population_idx += 1
         selection_idx += 1
-- 
2.43.0


From 8ce62c9530057edbf142a3f042afca22e5f3d5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:44 +0000
Subject: [PATCH 20/33] fix: a repertoire keeps copies of the genomes it
 remembers

---
 leap_ec/contrib/transfer/sequential.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/leap_ec/contrib/transfer/sequential.py b/leap_ec/contrib/transfer/sequential.py
index fdf0315..76bd079 100644
--- a/leap_ec/contrib/transfer/sequential.py
+++ b/leap_ec/contrib/transfer/sequential.py
@@ -8,6 +8,7 @@ on future problems.
 
 import abc
 import csv
+from copy import deepcopy
 
 
 class Repertoire(abc.ABC):
@@ -87,7 +88,7 @@ class PopulationSeedingRepertoire:
         assert(len(results) == len(problems))
         for r in results:
             last_step, last_ind = r[-1]
-            self.repertoire.append(last_ind.genome)
+            self.repertoire.append(deepcopy(last_ind.genome))
 
     def export(self, path):
         """Write the repertoire of saved individuals out to a CSV file."""
@@ -122,7 +123,8 @@ def initialize_seeded(initialize, seed_pop):
     def create():
         nonlocal i
         if i < len(seed_pop):
-            ind = seed_pop[i]
+            # A copy, because operators may change genomes in place
+            ind = deepcopy(seed_pop[i])
             i += 1
             return ind
         else:
-- 
2.43.0


From 68a32623f587fc80f33d277bce2fa33e54c600f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:44 +0000
Subject: [PATCH 21/33] fix: an exported repertoire can be imported and applied
 again

---
 leap_ec/contrib/transfer/sequential.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/leap_ec/contrib/transfer/sequential.py b/leap_ec/contrib/transfer/sequential.py
index 76bd079..622dab6 100644
--- a/leap_ec/contrib/transfer/sequential.py
+++ b/leap_ec/contrib/transfer/sequential.py
@@ -10,6 +10,8 @@ import abc
 import csv
 from copy import deepcopy
 
+import numpy as np
+
 
 class Repertoire(abc.ABC):
     """Abstract definition of a 'repertoire' algorithm for evolutionary transfer.
@@ -60,8 +62,9 @@ class PopulationSeedingRepertoire:
         assert(algorithm is not None)
         if repfile:
             with open(repfile, 'r') as f:
-                self.repertoire = list(csv.reader(
-                    f, quoting=csv.QUOTE_NONNUMERIC))
+                # Operators expect genomes to be numpy arrays
+                self.repertoire = [np.array(row) for row in csv.reader(
+                    f, quoting=csv.QUOTE_NONNUMERIC)]
         else:
             self.repertoire = []
         self.initialize = initialize
@@ -93,7 +96,8 @@ class PopulationSeedingRepertoire:
     def export(self, path):
         """Write the repertoire of saved individuals out to a CSV file."""
         with open(path, 'w') as f:
-            csv.writer(f).writerows(self.repertoire)
+            # Adding zero turns Booleans into numbers, which can be read back
+            csv.writer(f).writerows(np.asarray(g) + 0 for g in self.repertoire)
 
     def apply(self, problem, **kwargs):
         """Solve a new problem by injecting the all the individuals from the
-- 
2.43.0


From e92db465f89b2e5fdc77b6304be05cb2b7938605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:45 +0000
Subject: [PATCH 22/33] fix: initial rules respect the bounds of every input of
 a multi-dimensional space

---
 leap_ec/executable_rep/rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/executable_rep/rules.py b/leap_ec/executable_rep/rules.py
index 5a915ec..6dcb548 100644
--- a/leap_ec/executable_rep/rules.py
+++ b/leap_ec/executable_rep/rules.py
@@ -229,7 +229,7 @@ class PittRulesDecoder(Decoder):
                 # Sample values uniformly within each variable's range
                 low = self.input_space.sample()
                 high = self.input_space.sample()
-                condition_pairs = list(zip(low, high))
+                condition_pairs = list(zip(low.flatten(), high.flatten()))
                 condition_genes = np.array(condition_pairs).flatten()
 
 
-- 
2.43.0


From f6aab0d4586d6cbf95fa63f21c320c7a9bccf864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:45 +0000
Subject: [PATCH 23/33] fix: birth branding numbers every individual of a
 pipeline or population

---
 leap_ec/util.py | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/leap_ec/util.py b/leap_ec/util.py
index e45e889..0c633a8 100644
--- a/leap_ec/util.py
+++ b/leap_ec/util.py
@@ -326,10 +326,6 @@ def birth_brander():
     # incremented with each birth
     num_births = itertools.count()
 
-    # sometimes next_thing is a population, so we need this to track that
-    # the next individual in the population
-    iterator = None
-
     def brand(individual):
         """ brand the given individual
         :param individual: to be branded
@@ -358,22 +354,8 @@ def birth_brander():
         :param next_thing: either the next individual in the pipeline or a population of individuals to be branded
         :return: branded individual
         """
-        nonlocal num_births
-        nonlocal iterator
-
-        while True:
-            if is_iterable(next_thing):
-                # We're being passed in a single individual in a pipeline
-                next_thing = next(next_thing)
-            else:
-                # We're being passed a test_sequence/population
-                if iterator is None:
-                    iterator = iter(next_thing)
-                next_thing = next(iterator)
-
-            next_thing = brand(next_thing)
-
-            yield next_thing
+        for individual in next_thing:
+            yield brand(individual)
 
     do_birth_branding.brand_population = brand_population
 
-- 
2.43.0


From abec51657da7c12ea20f469981bf47521b9b974b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:45 +0000
Subject: [PATCH 24/33] fix: island runs publish generation 0 before the
 initial populations are evaluated

---
 leap_ec/algorithm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/leap_ec/algorithm.py b/leap_ec/algorithm.py
index de59985..34063c7 100644
--- a/leap_ec/algorithm.py
+++ b/leap_ec/algorithm.py
@@ -258,6 +258,10 @@ def multi_population_ea(max_generations, num_populations, pop_size, problem,
 
     assert (len(representation) == len(problem))
 
+    # Set up a generation counter that records the current generation to the
+    # context
+    generation_counter = util.inc_generation(context=context)
+
     # Initialize & evaluate the initial subpopulations
     pops = [r.create_population(pop_size, problem=p) for r, p in
             zip(representation, problem)]
@@ -267,10 +271,6 @@ def multi_population_ea(max_generations, num_populations, pop_size, problem,
     # This allows operators to see all the subpopulations.
     context['leap']['subpopulations'] = pops
 
-    # Set up a generation counter that records the current generation to the
-    # context
-    generation_counter = util.inc_generation(context=context)
-
     while (generation_counter.generation() < max_generations) and not stop(
             pops):
         # Execute each population serially
-- 
2.43.0


From 4503f4f585f817de0fa41d50e9cbfe8940323903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:05 +0000
Subject: [PATCH 25/33] fix: failed evaluations are worst under parsimony
 pressure

---
 leap_ec/parsimony.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/leap_ec/parsimony.py b/leap_ec/parsimony.py
index dc3abae..976c848 100644
--- a/leap_ec/parsimony.py
+++ b/leap_ec/parsimony.py
@@ -7,9 +7,17 @@
     Provided are Koza-style parsimony pressure and lexicographic parsimony
     key functions.
 """
+import numpy as np
+
 from leap_ec.util import wrap_curry
 
 
+def _worst_if_failed(fitness):
+    """ :return: the given fitness, or minus infinity for the NaN of a failed
+        evaluation, which otherwise would compare arbitrarily """
+    return -np.inf if np.isnan(fitness) else fitness
+
+
 def lexical_parsimony(ind):
     """ If two fitnesses are the same, break the tie with the smallest genome
 
@@ -40,12 +48,12 @@ def lexical_parsimony(ind):
     :return: altered comparison criteria
     """
     if ind.problem.maximize:
-        return (ind.fitness, -len(ind.genome))
+        return (_worst_if_failed(ind.fitness), -len(ind.genome))
     else:
         # Because we are using a key function we are bypassing the
         # ScalarProblem.worse_than() that would invert the fitnesses, so we
         # have to do this here by flipping the sign.
-        return (-ind.fitness, -len(ind.genome))
+        return (_worst_if_failed(-ind.fitness), -len(ind.genome))
 
 
 @wrap_curry
@@ -90,4 +98,4 @@ def koza_parsimony(ind, *, penalty):
         # have to do this here by flipping the sign.
         biased_fitness = - ind.fitness - penalty * len(ind.genome)
 
-    return biased_fitness
+    return _worst_if_failed(biased_fitness)
-- 
2.43.0


From 6323ad18280d77bbea18506c2dd2fcf4bd64e006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:48 +0000
Subject: [PATCH 26/33] fix: the Pareto plot creates its own axes when none are
 given

---
 leap_ec/multiobjective/probe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/multiobjective/probe.py b/leap_ec/multiobjective/probe.py
index 23e1de5..04668b6 100644
--- a/leap_ec/multiobjective/probe.py
+++ b/leap_ec/multiobjective/probe.py
@@ -41,7 +41,7 @@ class ParetoPlotProbe2D(PopulationMetricsPlotProbe):
                          title=title, modulo=step,
                          context=context)
 
-        self.scatterplot = ax.scatter([], []) # scatterplot for fitnesses
+        self.scatterplot = self.ax.scatter([], []) # scatterplot for fitnesses
 
     def __call__(self, population):
         assert (population is not None)
-- 
2.43.0


From b6a73df34909c7b8bf8e6ff2ee3d2c69f96f0cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:24 +0000
Subject: [PATCH 27/33] fix: the default keymap of KeyboardExecutable ignored
 the key '9'

---
 leap_ec/executable_rep/executable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/executable_rep/executable.py b/leap_ec/executable_rep/executable.py
index 63e88a0..99b0e81 100644
--- a/leap_ec/executable_rep/executable.py
+++ b/leap_ec/executable_rep/executable.py
@@ -84,7 +84,7 @@ class KeyboardExecutable(Executable):
 
     def __init__(self, input_space, output_space,
                  keymap=lambda x: int(x - ord('0')) if x in range(ord('0'), ord(
-                     '9')) else 0):
+                     '9') + 1) else 0):
         assert (output_space is not None)
         if np.prod(output_space.shape) > 1:
             raise ValueError(
-- 
2.43.0


From 0ce731aded1b1a95c48867b99bd3161cb9dcad16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:24 +0000
Subject: [PATCH 28/33] fix: PlotPittRuleProbe with a modulo above 1 raised a
 NameError (and had the test inverted)

---
 leap_ec/executable_rep/rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/executable_rep/rules.py b/leap_ec/executable_rep/rules.py
index 6dcb548..41914db 100644
--- a/leap_ec/executable_rep/rules.py
+++ b/leap_ec/executable_rep/rules.py
@@ -847,7 +847,7 @@ class PlotPittRuleProbe:
         if self.modulo > 1:
             assert ('generation' in self.context['leap'])
             step = self.context['leap']['generation']
-            if step % modulo == 0:
+            if step % self.modulo != 0:
                 return population
 
         # Otherwise, do our thang!
-- 
2.43.0


From d2e59a76b2f231c3da3c731abb8135fa36a0885c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:24 +0000
Subject: [PATCH 29/33] fix: PlotPittRuleProbe ignored plot_dimensions and
 always drew the first two conditions

---
 leap_ec/executable_rep/rules.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/leap_ec/executable_rep/rules.py b/leap_ec/executable_rep/rules.py
index 41914db..fa59341 100644
--- a/leap_ec/executable_rep/rules.py
+++ b/leap_ec/executable_rep/rules.py
@@ -778,7 +778,7 @@ class PlotPittRuleProbe:
         assert(len(plot_dimensions) == 2)
         self.decoder = decoder
         if self.decoder.num_inputs > 2:
-            logging.warn(f"The given rule system specification has more than 2 dimensions per rule, but {PlotPittRuleProbe.__name__} will only visualize the first two conditions on each rule.")
+            logging.warn(f"The given rule system specification has more than 2 dimensions per rule, but {PlotPittRuleProbe.__name__} will only visualize conditions {plot_dimensions} of each rule.")
         if self.decoder.num_outputs > 1:
             logging.warn(f"The given rule system specification has more than 1 output action per rule, but {PlotPittRuleProbe.__name__} will only use the first action to determine box color.")
 
@@ -816,9 +816,10 @@ class PlotPittRuleProbe:
             if len(rule.conditions) < 2:
                 raise ValueError(f"Found a rule with less than two input dimensions when trying to run {PlotPittRuleProbe.__name__}.  We need at least two conditions to plot a rule box!")
                 
-            # Get bounds for the first two conditions
-            x_low, x_high = rule.conditions[0]
-            y_low, y_high = rule.conditions[1]
+            # Get bounds for the two conditions we were asked to plot
+            x_dim, y_dim = self.plot_dimensions
+            x_low, x_high = rule.conditions[x_dim]
+            y_low, y_high = rule.conditions[y_dim]
 
             # Visualize wildcard rules as covering the whole range
             if x_low > x_high:
-- 
2.43.0


From de854fc373dfd5e0c1820ed734e228d3ad417868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:24 +0000
Subject: [PATCH 30/33] fix: one CSV file without rows turned the numbers of
 all combined files into objects

---
 leap_ec/contrib/analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/leap_ec/contrib/analysis.py b/leap_ec/contrib/analysis.py
index c659ad6..23795cf 100644
--- a/leap_ec/contrib/analysis.py
+++ b/leap_ec/contrib/analysis.py
@@ -452,7 +452,9 @@ def cat_csv_files(files: list):
         f_df = pd.read_csv(fname, skipinitialspace=True, comment='#')
         dataframes.append(f_df)
 
-    return pd.concat(dataframes)
+    # A file without rows has no column types, and would otherwise turn everyone
+    # else's numbers into objects (which, e.g., get plotted at the wrong positions)
+    return pd.concat(dataframes).infer_objects()
         # with open(fname, 'r') as f:
         #     reader = csv.reader(f)
 
-- 
2.43.0


From f893153a681ee108bdda5bb69d5c06486b1e45e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:39 +0000
Subject: [PATCH 31/33] fix: a clone decodes its own genome

---
 leap_ec/individual.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/leap_ec/individual.py b/leap_ec/individual.py
index 4aeee89..b4ebdf3 100644
--- a/leap_ec/individual.py
+++ b/leap_ec/individual.py
@@ -144,6 +144,7 @@ class Individual:
         cloned = copy(self)
         cloned.genome = deepcopy(self.genome)
         cloned.fitness = None
+        cloned._phenome = None  # decoded anew, from the clone's own genome
 
         cloned.uuid = uuid.uuid4()
         cloned.parents = {self.uuid}
-- 
2.43.0


From 366866e8362c0c53c93331d6ccd8ab290e018234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:55 +0000
Subject: [PATCH 32/33] fix: a metrics plot draws into its own lines, not those
 already in its axes

---
 leap_ec/probe.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/leap_ec/probe.py b/leap_ec/probe.py
index a14f720..668167b 100644
--- a/leap_ec/probe.py
+++ b/leap_ec/probe.py
@@ -663,7 +663,7 @@ class PopulationMetricsPlotProbe:
 
             for i, m in enumerate(self.metrics):
                 self.y[i] = np.append(self.y[i], m(population))
-                line = self.ax.lines[i]
+                line = self.lines[i]
                 line.set_xdata(self.x)
                 line.set_ydata(self.y[i])
 
@@ -677,8 +677,9 @@ class PopulationMetricsPlotProbe:
         # Create an empty line for each metric
         self.x = np.array([])
         self.y = [ np.array([]) for _ in range(len(self.metrics)) ]
-        for _ in range(len(self.metrics)):
-            self.ax.plot([], [])
+        for line in getattr(self, 'lines', []):
+            line.remove()
+        self.lines = [ self.ax.plot([], [])[0] for _ in range(len(self.metrics)) ]
 
     def _rescale_ax(self):
         l = np.min(self.x)
-- 
2.43.0


From df6fb1741af7f8c40d6ee0d2e781305fe47bedd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:55 +0000
Subject: [PATCH 33/33] fix: a training that reports no solution leaves the
 repertoire as it was

---
 leap_ec/contrib/transfer/sequential.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/leap_ec/contrib/transfer/sequential.py b/leap_ec/contrib/transfer/sequential.py
index 622dab6..fb52957 100644
--- a/leap_ec/contrib/transfer/sequential.py
+++ b/leap_ec/contrib/transfer/sequential.py
@@ -89,9 +89,12 @@ class PopulationSeedingRepertoire:
         # Execute each algorithm sequentially
         results = [list(ea) for ea in results]
         assert(len(results) == len(problems))
+        # Nothing is remembered unless every run has reported a solution
+        learnt = []
         for r in results:
             last_step, last_ind = r[-1]
-            self.repertoire.append(deepcopy(last_ind.genome))
+            learnt.append(deepcopy(last_ind.genome))
+        self.repertoire.extend(learnt)
 
     def export(self, path):
         """Write the repertoire of saved individuals out to a CSV file."""
-- 
2.43.0

