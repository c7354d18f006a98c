From cbde2e17d0c4433fd7a3ae01e952451a71300ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 01/13] fix: seed the model's random generator with the seed
 that is reported in the output

---
 logic/sim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/logic/sim.py b/logic/sim.py
index f39d5af..c0566f2 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -44,6 +44,9 @@ class Simulation(Model):
         if seed is None:
             seed = random.randint(0, 9999999)
         super().__init__(seed=seed)
+        # make sure that the model's random generator uses the seed that gets reported in the output (mesa only considers
+        # seeds that are passed as keyword arguments upon creation of the object, and keeps one generator per class)
+        self.random = random.Random(seed)
 
         seq_id = args['seq_id']
         if seq_id == -1:
-- 
2.43.0


From 2aa64a74e38dac021d8ddbf9859f140fe2236170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 02/13] fix: do not allocate the inactive stake to the last
 agent during normalization

---
 logic/sim.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/logic/sim.py b/logic/sim.py
index c0566f2..a3f17a0 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -125,7 +125,7 @@ class Simulation(Model):
 
         if total_stake != 1:
             # normalize stake values so that they are expressed as relative stakes
-            total_stake = self.normalize_agent_stake(total_stake)
+            total_stake = self.normalize_agent_stake(total_stake, args['inactive_stake_fraction'])
         self.total_stake = total_stake
         self.perceived_active_stake = total_stake
 
@@ -178,22 +178,24 @@ class Simulation(Model):
             self.schedule.add(agent)
         return total_stake
 
-    def normalize_agent_stake(self, total_stake):
+    def normalize_agent_stake(self, total_stake, inactive_stake_fraction=0):
         """
         Normalize agent stakes so that the total stake of the system is equal to 1.
         @param total_stake: the total stake of the system prior to normalization (including agent stake and inactive stake)
+        @param inactive_stake_fraction: the fraction of the total stake that does not belong to any of the agents
         """
+        active_stake = 1 - inactive_stake_fraction
         norm_total_stake = 0
         for agent in self.schedule.agents:
             agent.stake /= total_stake
             norm_total_stake += agent.stake
-        if norm_total_stake != 1:
+        if norm_total_stake != active_stake:
             # add (or subtract) tiny value from the last agent's stake to account for floating point errors and make
-            # sure that the sum of all agent stakes is equal to 1
-            flt_error = 1 - norm_total_stake
+            # sure that the sum of all agent stakes is equal to the active stake (i.e. 1 if there is no inactive stake)
+            flt_error = active_stake - norm_total_stake
             agent.stake += flt_error
             norm_total_stake += flt_error
-        return norm_total_stake
+        return norm_total_stake + inactive_stake_fraction
 
     def initialize_pool_id_seq(self):
         self.id_seq = 0
-- 
2.43.0


From 73738cb3cc4f286e058c52561cccd3c3e513585b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 03/13] fix: make the curve pledge benefit reward scheme
 selectable (default values from CIP-7)

---
 logic/reward_schemes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/reward_schemes.py b/logic/reward_schemes.py
index b23274b..d1156be 100644
--- a/logic/reward_schemes.py
+++ b/logic/reward_schemes.py
@@ -76,7 +76,7 @@ class FlatPledgeBenefitRSS(RSS):
 
 
 class CurvePledgeBenefitRSS(RSS):  # CIP-7
-    def __init__(self, k, a0, crossover_factor, curve_root):
+    def __init__(self, k, a0, crossover_factor=8, curve_root=3):
         super().__init__(k=k, a0=a0)
         self.crossover_factor = crossover_factor
         self.curve_root = curve_root
-- 
2.43.0


From 468a668ca428ada58a2ff863e4766d2a2c2272bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 04/13] fix: accept all documented reward schemes in batch runs

---
 batch-run.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/batch-run.py b/batch-run.py
index 7420c83..dd06053 100644
--- a/batch-run.py
+++ b/batch-run.py
@@ -9,6 +9,7 @@ import numpy as np
 import logic.sim as sim
 import logic.helper as hlp
 from logic.model_reporters import ALL_MODEL_REPORTEERS
+from logic.reward_schemes import RSS_MAPPING
 
 if __name__ == "__main__":
     #multiprocessing.freeze_support()  # needed for multiprocessing to work on windows systems (comment out line to run on linux or mac / uncomment for windows) #todo is that still needed? if yes, detect os and act accordingly
@@ -44,7 +45,7 @@ if __name__ == "__main__":
                              'the original cost value of the stakeholder. Default is 40%%.')
     parser.add_argument('--stake_distr_source', nargs="?", type=str, default='Pareto',
                         help='The distribution type to use for the initial allocation of stake to the agents.')
-    parser.add_argument('--reward_scheme', nargs="?", type=int, default=0, choices=range(4),
+    parser.add_argument('--reward_scheme', nargs="?", type=int, default=0, choices=range(len(RSS_MAPPING)),
                         help='The reward scheme to use in the simulation. 0 for the original reward scheme of Cardano, '
                              '1 for a simplified version of it, 2 for a reward scheme with flat pledge benefit, 3 for '
                              'a reward scheme with curved pledge benefit (CIP-7) and 4 for the reward scheme of CIP-50.')
-- 
2.43.0


From a1b0f1aacb4b7e37202379e4b2c7fc46fb325a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 05/13] fix: restart the count of idle steps when a new phase
 begins

---
 logic/sim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/logic/sim.py b/logic/sim.py
index a3f17a0..1736ce9 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -416,6 +416,7 @@ class Simulation(Model):
 
     def change_phase(self):
         self.current_phase += 1
+        self.consecutive_idle_steps = 0  # convergence has to be established anew under the new parameters
         change_occured = False
         for pool in self.pools.values():
             self.pool_rankings.remove(pool)
-- 
2.43.0


From 6b8fb8c2e3e7e0904cb333b10245881691807ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 06/13] fix: extend the pool rankings when k increases in a new
 phase

---
 logic/sim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/logic/sim.py b/logic/sim.py
index 1736ce9..fddc069 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -428,6 +428,10 @@ class Simulation(Model):
                     instance = self.reward_scheme
                 setattr(instance, key, values[self.current_phase])
                 change_occured = True
+        while self.pool_rankings.count(None) < self.reward_scheme.k + 1:
+            # k has increased, so the rankings need more empty places
+            self.pool_rankings.add(None)
+            self.pool_rankings_myopic.add(None)
         for pool in self.pools.values():
             pool.set_profit(reward_scheme=self.reward_scheme)
             pool.set_desirability()
-- 
2.43.0


From b11f0b6f1d3b5f2347ed5afc38e45e4d72743657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 07/13] fix: account for known inactive stake in the k values
 of all phases

---
 logic/sim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/logic/sim.py b/logic/sim.py
index fddc069..28e936a 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -97,6 +97,8 @@ class Simulation(Model):
             # The system is aware of the system's inactive stake fraction, so it inflates k (and subsequently lowers global_saturation_threshold)
             # to make it possible to end up with the original desired number of pools
             self.reward_scheme.k = self.reward_scheme.k / (1 - args['inactive_stake_fraction'])
+            if 'k' in multi_phase_params:
+                multi_phase_params['k'] = [k / (1 - args['inactive_stake_fraction']) for k in multi_phase_params['k']]
 
         self.running = True  # for batch running and visualisation purposes
         agent_activation_orders = {
-- 
2.43.0


From c101deabe5d3e2e40633509bcdb91cd7caf9c500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 08/13] fix: skip empty ranking places when a pool with
 negative potential profit ranks below them

---
 logic/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index 878818c..c02ef06 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -205,7 +205,7 @@ def calculate_non_myopic_pool_stake(pool, pool_rankings, reward_scheme, total_st
     """
     rank = pool_rankings.index(pool)
     better_pools_stake_at_saturation = fsum(
-        [reward_scheme.get_pool_saturation_threshold(p.pledge) for p in pool_rankings[:rank]])
+        [reward_scheme.get_pool_saturation_threshold(p.pledge) for p in pool_rankings[:rank] if p is not None])
     # check whether the higher-ranked pools suffice to cover the system's total stake without getting over-saturated
     rank_in_top_pools = better_pools_stake_at_saturation + MIN_STAKE_UNIT < total_stake
     return calculate_non_myopic_pool_stake_from_rank(
-- 
2.43.0


From 18f3831f8190db4e41bae815fd6eaa4808b28997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 09/13] fix: keep delegations made between drafting and
 executing an operator's move

---
 logic/stakeholder.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/logic/stakeholder.py b/logic/stakeholder.py
index 549cfe7..cf9d0fa 100644
--- a/logic/stakeholder.py
+++ b/logic/stakeholder.py
@@ -351,6 +351,11 @@ class Stakeholder(Agent):
 
     def update_pool(self, pool_id):
         updated_pool = self.new_strategy.owned_pools[pool_id]
+        # the updated pool is based on a copy, so carry over the delegations that changed after the copy was made
+        # (in case of (semi)simultaneous activation)
+        current_pool = self.model.pools[pool_id]
+        updated_pool.stake = current_pool.stake - (current_pool.pledge - updated_pool.pledge)
+        updated_pool.delegators = current_pool.delegators.copy()
         if updated_pool.is_private and updated_pool.stake > updated_pool.pledge:
             # undelegate stake in case the pool turned from public to private
             self.remove_delegations(updated_pool)
-- 
2.43.0


From 608d2581bf0ff138131ca7fbaccd14c6ea222add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 10/13] fix: cancel upcoming delegations to a pool that turns
 private

---
 logic/stakeholder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/logic/stakeholder.py b/logic/stakeholder.py
index cf9d0fa..baedd81 100644
--- a/logic/stakeholder.py
+++ b/logic/stakeholder.py
@@ -356,8 +356,8 @@ class Stakeholder(Agent):
         current_pool = self.model.pools[pool_id]
         updated_pool.stake = current_pool.stake - (current_pool.pledge - updated_pool.pledge)
         updated_pool.delegators = current_pool.delegators.copy()
-        if updated_pool.is_private and updated_pool.stake > updated_pool.pledge:
-            # undelegate stake in case the pool turned from public to private
+        if updated_pool.is_private:
+            # undelegate stake (current and upcoming) in case the pool turned from public to private
             self.remove_delegations(updated_pool)
         self.model.pools[pool_id] = updated_pool
         # update pool rankings
-- 
2.43.0


From 00bd96769c187ce006059ee46033c11811da8be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 11/13] fix: define the constant and track the metrics that the
 visualisation needs

---
 interactiveViz/runViz.py | 3 ++-
 logic/helper.py          | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/interactiveViz/runViz.py b/interactiveViz/runViz.py
index 56d6056..4bd8344 100644
--- a/interactiveViz/runViz.py
+++ b/interactiveViz/runViz.py
@@ -53,7 +53,8 @@ model_params = {
     ),
     "extra_pool_cost_fraction": UserSettableParameter(
         "slider", "Cost factor", 0.4, 0.0, 1, 0.01
-    )
+    ),
+    "metrics": [1, 3, 21, 27]  # the metrics that are used in the charts
 }
 
 # todo add option for different distributions
diff --git a/logic/helper.py b/logic/helper.py
index c02ef06..793c700 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -19,7 +19,7 @@ from logic.reward_schemes import TOTAL_EPOCH_REWARDS_R
 
 sns.set_theme()
 
-# MAX_NUM_POOLS = 1000 # potentially needed for run_viz
+MAX_NUM_POOLS = 1000  # needed for run_viz
 MIN_STAKE_UNIT = 2.2e-17
 
 
-- 
2.43.0


From 99283d45bc2775f8b04310bd98c7be846a65bd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 12/13] fix: only accept natural numbers for
 iterations_after_convergence

---
 logic/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index 793c700..4374844 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -581,7 +581,7 @@ def add_script_arguments(parser):
     parser.add_argument('--inactive_stake_fraction_known', type=bool, default=False,
                         action=argparse.BooleanOptionalAction,
                         help='Is the inactive stake fraction of the system known beforehand? Default is no.')
-    parser.add_argument('--iterations_after_convergence', nargs="?", type=int, default=10,  # todo maybe make constant
+    parser.add_argument('--iterations_after_convergence', nargs="?", type=positive_int, default=10,  # todo maybe make constant
                         help='The minimum consecutive idle iterations that are required before terminations. '
                              'Default is 10.')
     parser.add_argument('--max_iterations', nargs="?", type=positive_int, default=2000,
-- 
2.43.0


From 9d22f6d924dcf9951ef1a40345adc8d52d389717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:12 +0000
Subject: [PATCH 13/13] fix: report the last recorded metrics of a run in the
 aggregate results of a batch

---
 custom_batchrunner.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/custom_batchrunner.py b/custom_batchrunner.py
index 4bb3f75..1400ab6 100644
--- a/custom_batchrunner.py
+++ b/custom_batchrunner.py
@@ -181,9 +181,12 @@ def _model_run_func(
 
     data = []
 
-    steps = list(range(0, model.schedule.steps, data_collection_period))
-    if not steps or steps[-1] != model.schedule.steps - 1:
-        steps.append(model.schedule.steps - 1)
+    # the model collects data before each step (and once more if it stops because it reached its iteration limit)
+    collected_steps = max((len(values) for values in model.datacollector.model_vars.values()), default=model.schedule.steps)
+    last_step = collected_steps - 1
+    steps = list(range(0, collected_steps, data_collection_period))
+    if not steps or steps[-1] != last_step:
+        steps.append(last_step)
 
     for step in steps:
         model_data, all_agents_data = _collect_data(model, step)
@@ -198,7 +201,7 @@ def _model_run_func(
         else:
             stepdata = [{**{"Step": step}, **kwargs, **model_data}]
 
-            if step == model.schedule.steps - 1:
+            if step == last_step:
                 # write end-of-run results to file
                 header = [key for key in stepdata[0].keys() if key not in fixed_params]
                 row = [value for key, value in stepdata[0].items() if key not in fixed_params]
-- 
2.43.0

