From c5ecef40382cd9f375bb1a86f75928bf14418153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:13 +0000
Subject: [PATCH 01/19] fix: joining a pool could hang when the time limit
 expired between two checks for work

---
 include/thts.h |  3 +++
 src/thts.cpp   | 12 ++++++------
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/thts.h b/include/thts.h
index faa88bb..b32faff 100644
--- a/include/thts.h
+++ b/include/thts.h
@@ -29,6 +29,8 @@ namespace thts {
      *          A vector of threads (thread pool) that run the worker_fn routine.
      *      work_left_cv: 
      *          A condition variable used to coordinate when workers are working.
+     *      work_done_cv: 
+     *          A condition variable used to signal threads waiting (in 'join') that a worker ran out of work.
      *      work_left_lock: 
      *          A mutex for 'work_left_lock', protecting variables used to decide when there is work.
      *      logging_lock: 
@@ -59,6 +61,7 @@ namespace thts {
             // multithreading variables (also protected by can_work_lock)
             std::vector<std::thread> workers;
             std::condition_variable_any work_left_cv;
+            std::condition_variable_any work_done_cv;
             std::mutex work_left_lock;
             std::mutex logging_lock;
             bool thread_pool_alive;
diff --git a/src/thts.cpp b/src/thts.cpp
index e6cb9c9..e57745e 100644
--- a/src/thts.cpp
+++ b/src/thts.cpp
@@ -29,6 +29,7 @@ namespace thts {
         shared_ptr<ThtsLogger> logger) :
             workers(num_threads),
             work_left_cv(),
+            work_done_cv(),
             work_left_lock(),
             logging_lock(),
             thread_pool_alive(true),
@@ -286,8 +287,9 @@ namespace thts {
      * 
      * while this thts pool is 'alive' work threads perform the following (description of code from top to bottom):
      * - indicate that they have completed a trial/unit of work, by decrementing num_threads_working
-     * - if can't work (run a trial): 
-     *      - notify work_left_cv to try to signal any threads waiting on workers completing
+     * - while can't work (run a trial): 
+     *      - notify work_done_cv to signal any threads waiting on workers completing (every time that no work is found, 
+     *          as the time limit may expire between any two checks)
      *      - wait on work_left_cv until notified
      * - if just woken up from waiting on work_left_cv: 
      *      -check if thread_pool is still alive, and if not, exit
@@ -304,10 +306,8 @@ namespace thts {
         while (thread_pool_alive) {
             num_threads_working--;
 
-            if (!work_left()) {
-                work_left_cv.notify_all();
-            }
             while (!work_left()) {
+                work_done_cv.notify_all();
                 work_left_cv.wait(work_left_lock);
                 if (!thread_pool_alive) return;
             }
@@ -328,7 +328,7 @@ namespace thts {
     void ThtsPool::join() {
         lock_guard<mutex> lg(work_left_lock);
         while (work_left() || num_threads_working > 0) {
-            work_left_cv.wait(work_left_lock);
+            work_done_cv.wait(work_left_lock);
         }
     }
 
-- 
2.43.0


From 4bffba71b1130e006232d804199cda7ca8a9d671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:13 +0000
Subject: [PATCH 02/19] fix: set_new_env raced with running trials and could
 replace the environment under them

---
 include/thts.h |  2 +-
 src/thts.cpp   | 11 ++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/thts.h b/include/thts.h
index b32faff..b16889b 100644
--- a/include/thts.h
+++ b/include/thts.h
@@ -48,7 +48,7 @@ namespace thts {
      *      trials_remaining: 
      *          The number of trials the workers pool needs to run to have completed 'num_trials' trials.
      *      num_threads_working: 
-     *          The number of threads currently working
+     *          The number of threads currently working (running a trial)
      *      trials_completed: 
      *          The number of trials completed for 
      *      thts_manager: 
diff --git a/src/thts.cpp b/src/thts.cpp
index e57745e..0be9026 100644
--- a/src/thts.cpp
+++ b/src/thts.cpp
@@ -38,7 +38,7 @@ namespace thts {
             start_time(std::chrono::system_clock::now()),
             max_run_time(0.0),
             trials_remaining(0),
-            num_threads_working(num_threads),
+            num_threads_working(0),
             trials_completed(0),
             logger(logger),
             thts_manager(thts_manager),
@@ -79,7 +79,8 @@ namespace thts {
         shared_ptr<ThtsDNode> new_root_node,
         shared_ptr<ThtsLogger> new_logger) 
     {
-        if (work_left()) {
+        lock_guard<mutex> lg(work_left_lock);
+        if (work_left() || num_threads_working > 0) {
             throw runtime_error("Tried to change root node in thts pool while it was working.");
         }
         thts_manager = new_thts_manager;
@@ -286,7 +287,6 @@ namespace thts {
      * The worker thread function.
      * 
      * while this thts pool is 'alive' work threads perform the following (description of code from top to bottom):
-     * - indicate that they have completed a trial/unit of work, by decrementing num_threads_working
      * - while can't work (run a trial): 
      *      - notify work_done_cv to signal any threads waiting on workers completing (every time that no work is found, 
      *          as the time limit may expire between any two checks)
@@ -297,6 +297,7 @@ namespace thts {
      *      - decrement trials remaining to indicate we're going to run a trial
      *      - increment num_threads_working to indicate we're starting some work
      *      - run trial
+     *      - indicate that they have completed a trial/unit of work, by decrementing num_threads_working
      * 
      * A lock_guard is used to make sure that the work_left_lock is locked throughout the routine, except while waiting 
      * on work_left_cv, and when unlocked around running a trial.
@@ -304,8 +305,6 @@ namespace thts {
     void ThtsPool::worker_fn() {
         lock_guard<mutex> lg(work_left_lock);
         while (thread_pool_alive) {
-            num_threads_working--;
-
             while (!work_left()) {
                 work_done_cv.notify_all();
                 work_left_cv.wait(work_left_lock);
@@ -319,6 +318,8 @@ namespace thts {
             work_left_lock.unlock();
             run_thts_trial(trials_remaining_copy);
             work_left_lock.lock();
+
+            num_threads_working--;
         }
     }
 
-- 
2.43.0


From f0d69b03256ceffb711e3191ac8fbbde7c1ca354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:44 +0000
Subject: [PATCH 03/19] fix: transposition table accessed concurrently under
 different mutexes

---
 include/thts_manager.h   | 13 +++++++------
 src/thts_chance_node.cpp |  6 +++---
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/thts_manager.h b/include/thts_manager.h
index f791a73..4c41bc3 100644
--- a/include/thts_manager.h
+++ b/include/thts_manager.h
@@ -164,13 +164,14 @@ namespace thts {
      *      is_two_player_game:
      *          If we are planning for a two player game, rather than a reward maximisation environment
      * Member variables (transposition table):
-     *      dmap:
-     *          A transposition table for decision nodes. Note that a transposition table for chance nodes is 
+     *      dmaps:
+     *          A transposition table for decision nodes, split into one table per mutex in 'dmap_mutexes', so that 
+     *          each table is only ever accessed while holding a single mutex. Note that a transposition table for chance nodes is 
      *          unnecessary, as an chance nodes that are transpositions, will be children of decision nodes that are 
      *          transpositions.
      *      dmap_mutexes:
-     *          A vector of mutexes to use for protection around the dmap. Accessing 'dmap[dnode_id]', should be 
-     *          protected by the 'dmap_mutexes[hash(dnode_id) % dmap_mutexes.size()]'.
+     *          A vector of mutexes to use for protection around the dmaps. The entry for 'dnode_id' is stored in the 
+     *          table 'dmaps[indx]', protected by 'dmap_mutexes[indx]', where 'indx = hash(dnode_id) % dmaps.size()'.
      */
     class ThtsManager : public RandManager {
         public:
@@ -183,7 +184,7 @@ namespace thts {
             bool use_transposition_table;
             bool is_two_player_game;
 
-            DNodeTable dmap;
+            std::vector<DNodeTable> dmaps;
             std::vector<std::mutex> dmap_mutexes;
 
             /**
@@ -201,7 +202,7 @@ namespace thts {
                 mcts_mode(args.mcts_mode), 
                 use_transposition_table(args.use_transposition_table), 
                 is_two_player_game(args.is_two_player_game),
-                dmap(),
+                dmaps(args.num_transposition_table_mutexes),
                 dmap_mutexes(args.num_transposition_table_mutexes)
             {
             }
diff --git a/src/thts_chance_node.cpp b/src/thts_chance_node.cpp
index 2fc2c1b..9ec953d 100644
--- a/src/thts_chance_node.cpp
+++ b/src/thts_chance_node.cpp
@@ -91,8 +91,8 @@ namespace thts {
      * If using a transposition table, we first check the transposition table to try get it from there. If it's not in 
      * the table, we make the child and insert it in children and the transposition table.
      * 
-     * Additionally, we protect accessing 'dmap[dnode_id]' with the mutex 'thts_manager->dmap_mutexes[mutex_indx]' 
-     * where 'mutex_indx = hash(dnode_id) % thts_manager->dmap_mutexes.size()', by locking it using a lock_guard.
+     * Additionally, we protect accessing 'dmaps[mutex_indx][dnode_id]' with the mutex 
+     * 'thts_manager->dmap_mutexes[mutex_indx]' where 'mutex_indx = hash(dnode_id) % thts_manager->dmap_mutexes.size()', by locking it using a lock_guard.
      */
     shared_ptr<ThtsDNode> ThtsCNode::create_child_node_itfc(
         shared_ptr<const Observation> observation, shared_ptr<const State> next_state) 
@@ -105,7 +105,6 @@ namespace thts {
             return child_node;
         }
 
-        DNodeTable& dmap = thts_manager->dmap;
         DNodeIdTuple dnode_id = make_tuple(decision_timestep, observation);
 
         int mutex_indx = 0;
@@ -115,6 +114,7 @@ namespace thts {
         }
 
         lock_guard<mutex> lg(thts_manager->dmap_mutexes[mutex_indx]);
+        DNodeTable& dmap = thts_manager->dmaps[mutex_indx];
 
         auto iter = dmap.find(dnode_id);
         if (iter != dmap.end()) {
-- 
2.43.0


From d7cc76e88023801393214dca1b827ec95f4a9d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:44 +0000
Subject: [PATCH 04/19] fix: transposition table threw bad_weak_ptr for nodes
 of a released tree

---
 src/thts_chance_node.cpp | 11 +++++++----
 src/thts_types.cpp       |  1 +
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/thts_chance_node.cpp b/src/thts_chance_node.cpp
index 9ec953d..d8b1dee 100644
--- a/src/thts_chance_node.cpp
+++ b/src/thts_chance_node.cpp
@@ -89,7 +89,8 @@ namespace thts {
      * 
      * If not using a transposition table, we call the helper and put the child in our children map. 
      * If using a transposition table, we first check the transposition table to try get it from there. If it's not in 
-     * the table, we make the child and insert it in children and the transposition table.
+     * the table (or the node in the table has already been destroyed), we make the child and insert it in children and 
+     * the transposition table.
      * 
      * Additionally, we protect accessing 'dmaps[mutex_indx][dnode_id]' with the mutex 
      * 'thts_manager->dmap_mutexes[mutex_indx]' where 'mutex_indx = hash(dnode_id) % thts_manager->dmap_mutexes.size()', by locking it using a lock_guard.
@@ -118,9 +119,11 @@ namespace thts {
 
         auto iter = dmap.find(dnode_id);
         if (iter != dmap.end()) {
-            shared_ptr<ThtsDNode> child_node = shared_ptr<ThtsDNode>(dmap[dnode_id]);
-            children[observation] = child_node;
-            return child_node;
+            shared_ptr<ThtsDNode> child_node = iter->second.lock();
+            if (child_node != nullptr) {
+                children[observation] = child_node;
+                return child_node;
+            }
         }
 
         shared_ptr<ThtsDNode> child_node = create_child_node_helper_itfc(observation, next_state);
diff --git a/src/thts_types.cpp b/src/thts_types.cpp
index 7af0801..25906e7 100644
--- a/src/thts_types.cpp
+++ b/src/thts_types.cpp
@@ -511,6 +511,7 @@ namespace std {
     ostream& operator<<(ostream& os, const DNodeTable& tbl) {
         unordered_map<DNodeIdTuple,shared_ptr<ThtsDNode>> shared_tbl_for_print;
         for (auto pr : tbl) {
+            if (pr.second.expired()) continue;
             shared_tbl_for_print.insert_or_assign(pr.first, shared_ptr<ThtsDNode>(pr.second));
         }
         os << helper::unordered_map_pretty_print_string(shared_tbl_for_print);
-- 
2.43.0


From e024a887039c6071af8e2bbc5f9dcac7ba75bb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:01 +0000
Subject: [PATCH 05/19] fix: chance nodes sharing children through the
 transposition table could deadlock

---
 include/algorithms/common/dp_chance_node.h  |  2 +-
 include/algorithms/common/ent_chance_node.h |  2 +-
 include/thts_chance_node.h                  |  8 ++++++++
 src/thts_chance_node.cpp                    | 20 +++++++++++++++++---
 4 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/include/algorithms/common/dp_chance_node.h b/include/algorithms/common/dp_chance_node.h
index 4d59ccb..8ff1c6d 100644
--- a/include/algorithms/common/dp_chance_node.h
+++ b/include/algorithms/common/dp_chance_node.h
@@ -97,7 +97,7 @@ namespace thts {
             template <typename T>
             void backup_dp(DNodeChildMap& children, double local_reward, bool is_opponent=false) {
                 std::shared_ptr<DPDNodeChildMap> dp_children = convert_child_map<T>(children);
-                for (auto pr : children) pr.second->lock();
+                ThtsCNode::lock_decision_nodes(children);
                 backup_dp_impl(*dp_children, local_reward, is_opponent);
                 for (auto pr : children) pr.second->unlock();
             }
diff --git a/include/algorithms/common/ent_chance_node.h b/include/algorithms/common/ent_chance_node.h
index a92a5d5..c6ba74a 100644
--- a/include/algorithms/common/ent_chance_node.h
+++ b/include/algorithms/common/ent_chance_node.h
@@ -94,7 +94,7 @@ namespace thts {
             template <typename T>
             void backup_ent(DNodeChildMap& children) {
                 std::shared_ptr<EntDNodeChildMap> ent_children = convert_child_map<T>(children);
-                for (auto pr : children) pr.second->lock();
+                ThtsCNode::lock_decision_nodes(children);
                 backup_ent_impl(*ent_children);
                 for (auto pr : children) pr.second->unlock();
             }
diff --git a/include/thts_chance_node.h b/include/thts_chance_node.h
index 0cc1540..168997b 100644
--- a/include/thts_chance_node.h
+++ b/include/thts_chance_node.h
@@ -97,6 +97,14 @@ namespace thts {
              */
             std::mutex& get_lock();
 
+            /**
+             * Helper function to lock all decision nodes in a child map.
+             * 
+             * With a transposition table decision nodes can be the children of many chance nodes, so multiple decision 
+             * nodes always have to be locked in the same order (by address), to avoid deadlocks.
+             */
+            static void lock_decision_nodes(const DNodeChildMap& nodes);
+
             /**
              * Helper function to lock all children nodes.
              */
diff --git a/src/thts_chance_node.cpp b/src/thts_chance_node.cpp
index d8b1dee..26460fc 100644
--- a/src/thts_chance_node.cpp
+++ b/src/thts_chance_node.cpp
@@ -4,11 +4,13 @@
 #include "thts_manager.h"
 #include "thts_types.h"
 
+#include <algorithm>
 #include <cstddef>
 #include <functional>
 #include <mutex>
 #include <tuple>
 #include <utility>
+#include <vector>
 
 using namespace std;
 using namespace thts;
@@ -57,13 +59,25 @@ namespace thts {
         return node_lock; 
     }
 
+    /**
+     * Helper function to lock all decision nodes in a child map, in the order of their addresses.
+     */
+    void ThtsCNode::lock_decision_nodes(const DNodeChildMap& nodes) {
+        vector<ThtsDNode*> ordered_nodes;
+        for (const auto& observation_child_pair : nodes) {
+            ordered_nodes.push_back(observation_child_pair.second.get());
+        }
+        sort(ordered_nodes.begin(), ordered_nodes.end(), less<ThtsDNode*>());
+        for (ThtsDNode* node : ordered_nodes) {
+            node->lock();
+        }
+    }
+
     /**
      * Helper function to lock all children nodes.
      */
     void ThtsCNode::lock_all_children() const {
-        for (auto action_child_pair : children) {
-            action_child_pair.second->lock();
-        }
+        lock_decision_nodes(children);
     }
 
     /**
-- 
2.43.0


From 123a3ec1e01609d4f6288d7754b4b4e3de97ff23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:41 +0000
Subject: [PATCH 06/19] fix: Monte-Carlo evaluation used a destroyed context

---
 src/mc_eval.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mc_eval.cpp b/src/mc_eval.cpp
index 0433d40..489dd73 100644
--- a/src/mc_eval.cpp
+++ b/src/mc_eval.cpp
@@ -87,7 +87,8 @@ namespace thts {
         int num_actions_taken = 0;
         double sample_return = 0.0;
         shared_ptr<const State> state = thts_env->get_initial_state_itfc();
-        ThtsEnvContext& context = *thts_env->sample_context_itfc(state);
+        shared_ptr<ThtsEnvContext> context_ptr = thts_env->sample_context_itfc(state);
+        ThtsEnvContext& context = *context_ptr;
 
         // Run trial
         while (num_actions_taken < max_trial_length && !thts_env->is_sink_state_itfc(state)) {
-- 
2.43.0


From 7710b01db2b466b1696ad37ee2ebff844b52d0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:41 +0000
Subject: [PATCH 07/19] fix: Monte-Carlo evaluation ignored the maximum trial
 length

---
 src/mc_eval.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mc_eval.cpp b/src/mc_eval.cpp
index 489dd73..0624d9d 100644
--- a/src/mc_eval.cpp
+++ b/src/mc_eval.cpp
@@ -102,6 +102,7 @@ namespace thts {
 
             thread_policy.update_step(action, obsv);
             state = next_state;
+            num_actions_taken++;
         }
 
         // store
-- 
2.43.0


From 3ef2cf7416223cb39aef7155105070a0e9e18c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:41 +0000
Subject: [PATCH 08/19] fix: Monte-Carlo evaluation reported the variance as
 standard deviation

---
 src/mc_eval.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mc_eval.cpp b/src/mc_eval.cpp
index 0624d9d..d230c7b 100644
--- a/src/mc_eval.cpp
+++ b/src/mc_eval.cpp
@@ -166,10 +166,10 @@ namespace thts {
     double MCEvaluator::get_stddev_return() {
         double mean = get_mean_return();
         double weight = 1.0 / (sampled_returns.size() - 1.0);
-        double stddev = 0.0;
+        double variance = 0.0;
         for (double val : sampled_returns) {
-            stddev += weight * pow(val - mean, 2.0);
+            variance += weight * pow(val - mean, 2.0);
         }
-        return stddev;
+        return sqrt(variance);
     }
 }
\ No newline at end of file
-- 
2.43.0


From 07ce26aff00f74a8802a3be588ffbf1892bc8479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:41 +0000
Subject: [PATCH 09/19] fix: shifted pseudo q-values used the last log weight
 instead of the mean

---
 src/algorithms/ments/ments_decision_node.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/algorithms/ments/ments_decision_node.cpp b/src/algorithms/ments/ments_decision_node.cpp
index dad6d88..8310ab2 100644
--- a/src/algorithms/ments/ments_decision_node.cpp
+++ b/src/algorithms/ments/ments_decision_node.cpp
@@ -55,6 +55,7 @@ namespace thts {
                     }
                     mean_log_weight *= (i-1.0) / i;
                     mean_log_weight += log_weight / i;
+                    i += 1.0;
                 }
                 psuedo_q_value_offset = thts_manager->psuedo_q_value_offset - mean_log_weight;
             }
-- 
2.43.0


From eb5c8d9a297cecada1d6889d6eeea8b0581f9ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:41 +0000
Subject: [PATCH 10/19] fix: DENTS with epsilon zero initialised entropies with
 NaN

---
 src/algorithms/ments/ments_decision_node.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/ments/ments_decision_node.cpp b/src/algorithms/ments/ments_decision_node.cpp
index 8310ab2..14eebbd 100644
--- a/src/algorithms/ments/ments_decision_node.cpp
+++ b/src/algorithms/ments/ments_decision_node.cpp
@@ -203,7 +203,8 @@ namespace thts {
         MentsManager& manager = (MentsManager&) *thts_manager;
         double epsilon = manager.epsilon;
         if (is_root_node() && manager.root_node_epsilon > 0.0) epsilon = manager.root_node_epsilon;
-        double lambda = epsilon / log(num_visits+1);
+        double lambda = 0.0;
+        if (epsilon > 0.0) lambda = epsilon / log(num_visits+1);
         if (lambda > manager.max_explore_prob) {
             lambda = manager.max_explore_prob;
         }
-- 
2.43.0


From 5c183eca21463e898ef05a4b466efa9c7e944c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:53 +0000
Subject: [PATCH 11/19] fix: DENTS weighted the entropy of leaf nodes as if
 they were only reached once

---
 include/algorithms/ments/dents/dents_decision_node.h | 8 ++++++++
 src/algorithms/ments/dents/dents_decision_node.cpp   | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/algorithms/ments/dents/dents_decision_node.h b/include/algorithms/ments/dents/dents_decision_node.h
index 83aca30..4e51ba6 100644
--- a/include/algorithms/ments/dents/dents_decision_node.h
+++ b/include/algorithms/ments/dents/dents_decision_node.h
@@ -46,6 +46,14 @@ namespace thts {
 
             virtual ~DentsDNode() = default;
             
+            /**
+             * Visit calls dbmentsdnode's and entdnode's visit functions
+             * 
+             * Args:
+             *      ctx: A context provided to all thts functions throughout a trial to pass intermediate/transient info
+             */
+            virtual void visit(ThtsEnvContext& ctx);
+            
             /**
              * Helper to get the temperature that should be used for computing the soft value to use in ments functions.
              * I.e. The 'value_temp' refers to the temperature coefficient of entropy when computing (soft) values
diff --git a/src/algorithms/ments/dents/dents_decision_node.cpp b/src/algorithms/ments/dents/dents_decision_node.cpp
index 89db0f1..50f35de 100644
--- a/src/algorithms/ments/dents/dents_decision_node.cpp
+++ b/src/algorithms/ments/dents/dents_decision_node.cpp
@@ -27,6 +27,14 @@ namespace thts {
         backup_ent<DentsCNode>(children, action_distr, is_opponent());
     }
 
+    /**
+     * Calls both the visit implementations
+     */
+    void DentsDNode::visit(ThtsEnvContext& ctx) {
+        DBMentsDNode::visit(ctx);
+        EntDNode::visit_ent(is_leaf());
+    }
+
     /**
      * Get decayed temp
      */
-- 
2.43.0


From a6ff7d8f2b008aadf6f58d55d965561e9cf8596f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:53 +0000
Subject: [PATCH 12/19] fix: arg-max over values that are all -infinity divided
 by zero

---
 src/helper_templates.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/helper_templates.cc b/src/helper_templates.cc
index 7e7a759..1d94b90 100644
--- a/src/helper_templates.cc
+++ b/src/helper_templates.cc
@@ -34,6 +34,7 @@ namespace thts::helper {
         vector<T> best_keys;
         for (pair<const T,NumericT>& pr : map) {
             NumericT val = pr.second;
+            if (best_keys.size() == 0) best_val = val;
             if (val < best_val) continue;
             if (val > best_val) {
                 best_keys = vector<T>();
-- 
2.43.0


From 4c4fdc0ea36452a8fa65e39b76e193db8bee4c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:53 +0000
Subject: [PATCH 13/19] fix: sampling failed for unnormalised weights, weights
 of (almost) zero and draws close to one

---
 src/helper_templates.cc | 65 +++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 35 deletions(-)

diff --git a/src/helper_templates.cc b/src/helper_templates.cc
index 1d94b90..577679a 100644
--- a/src/helper_templates.cc
+++ b/src/helper_templates.cc
@@ -52,61 +52,56 @@ namespace thts::helper {
     /**
      * Sampling from distribution
      * 
-     * Implementation includes useful (probabilistic) error checking on distributions (which should only occur when 
-     * normalised=true):
-     * - Firstly, if probability masses reach a sum of 1.0 or greater too quickly then we throw an exception. Consider 
-     *      if a distribution {s1: 1.0, s2: 0.5, s3: 0.5} is passed in. This exception will often catch these cases, 
-     *      but can also be extremely unlikely to be thrown (when we would want it to be) in edge cases: consider the
-     *      distribution {s1: 0.99999, s2: 0.00001, s3: 0.5}. 
+     * Implementation includes useful error checking on distributions (which should only occur when normalised=true):
+     * - Firstly, if probability masses sum to more than 1.0 then we throw an exception. 
      * - Secondly, if we get to the end of the routine without returning a sampled object, then the probability masses 
-     *      must have summed to less than 1.0. This exception thrown with probability (1.0-sum_weights).
+     *      summed to less than 1.0. If the sum is less than 1.0 by more than rounding errors, then we throw an 
+     *      exception (with probability (1.0-sum_weights)), and otherwise return the last object with any mass.
      */
     template <typename T>
     T sample_from_distribution(unordered_map<T,double>& distribution, RandManager& rand_manager, bool normalised) {
-        double sum_weights = 1.0;
-        if (!normalised) {
-            sum_weights = 0.0;
-            for (auto pr : distribution) {
-                sum_weights += pr.second;
-            }
+        double sum_weights = 0.0;
+        for (const pair<const T,double>& pr : distribution) {
+            sum_weights += pr.second;
         }
         
-        int i = 0;
-        int distr_size = distribution.size();
         double rand_val = rand_manager.get_rand_uniform();
+
+        // error checking
+        if (normalised && sum_weights > 1.0 + EPS) {
+            stringstream error_msg_ss;
+            error_msg_ss 
+                << "Probability masses sum to greater than 1.0, have you forgotten to set normalised=false? "
+                << "Distribution was: "<< unordered_map_pretty_print_string(distribution);
+            throw runtime_error(error_msg_ss.str());
+        }
+
+        double normalisation = normalised ? 1.0 : sum_weights;
         double running_prob_mass = 0.0;
+        auto last_iter = distribution.end();
+
+        for (auto iter = distribution.begin(); iter != distribution.end(); iter++) {
+            if (iter->second <= 0.0) continue;
+            last_iter = iter;
 
-        for (pair<T,double> pr : distribution) {
             // update mass considered
-            running_prob_mass += pr.second / sum_weights;
-
-            // error checking
-            i++;
-            bool too_much_mass = running_prob_mass > sum_weights + EPS;
-            bool complete_mass_too_early = running_prob_mass >= sum_weights && i < distr_size;
-            if (too_much_mass || complete_mass_too_early) {
-                stringstream error_msg_ss;
-                error_msg_ss 
-                    << "Probability masses sum to greater than 1.0, have you forgotten to set normalised=false? "
-                    << "Distribution was: "<< unordered_map_pretty_print_string(distribution);
-                throw runtime_error(error_msg_ss.str());
-            }
+            running_prob_mass += iter->second / normalisation;
             
             // return if its time
             if (rand_val < running_prob_mass) {
-                return pr.first;
+                return iter->first;
             }
         }
 
+        // got to end because of rounding errors in the sum of masses
+        if (last_iter != distribution.end() && sum_weights >= normalisation - EPS) {
+            return last_iter->first;
+        }
+
         stringstream error_msg_ss;
         error_msg_ss << "Probability masses sum to less than 1.0, have you forgotten to set normalised=false? "
             << "Distribution was: "
             << unordered_map_pretty_print_string(distribution);
-        double sum = 0.0;
-        for (pair<T,double> pr : distribution) { 
-            sum += pr.second;
-        }
-        cout << sum << endl;
         throw runtime_error(error_msg_ss.str());
     }
 
-- 
2.43.0


From f214bed112af29086de7254e4a0a1f7dffe337d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:53 +0000
Subject: [PATCH 14/19] fix: alias table was read out of bounds after an update
 changed the number of keys

---
 src/distributions/categorical_distribution.cc | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/distributions/categorical_distribution.cc b/src/distributions/categorical_distribution.cc
index bbe572b..fcec399 100644
--- a/src/distributions/categorical_distribution.cc
+++ b/src/distributions/categorical_distribution.cc
@@ -37,7 +37,7 @@ namespace thts {
             return helper::sample_from_distribution(*distr, rand_manager, false);
         }
 
-        int rng = rand_manager.get_rand_int(0, distr->size());
+        int rng = rand_manager.get_rand_int(0, alias_table.size());
         AliasTableEntry& alias_entry = alias_table[rng];
         if (1.0 > alias_entry.threshold && alias_entry.threshold > rand_manager.get_rand_uniform()) {
             return alias_entry.first;
@@ -57,20 +57,13 @@ namespace thts {
 
     /**
      * If using alias table, then should reconstruct it
-     * If size(distr) == size(new_distr), then call reconstruct_alias_table, which assumes size(distr) hasn't changed
-     * If distirubtion has changes in size (num outcomes), then clear alias table and construct from scratch
     */
     template <typename T>
     void CategoricalDistribution<T>::update(shared_ptr<unordered_map<T,double>> new_distr) {
         distr = new_distr;
         num_updates = 0;
         if (use_alias_method) {
-            if (new_distr->size() == distr->size()) {
-                reconstruct_alias_table(false);
-            } else {
-                alias_table.clear();
-                construct_alias_table();
-            }
+            reconstruct_alias_table(false);
         }
     }
     
@@ -96,7 +89,9 @@ namespace thts {
     }
 
     /**
-     * Firstly resets all of the entries in the table. Let n be the number of items in the distribution. 
+     * If the number of items in the distribution has changed, then the table is constructed from scratch.
+     * 
+     * Otherwise, firstly resets all of the entries in the table. Let n be the number of items in the distribution. 
      * For each t,p in the distribtuion, set an entry e to have the values:
      * e.threshold = p*n
      * e.first = t,
@@ -122,6 +117,12 @@ namespace thts {
     */
     template <typename T>
     void CategoricalDistribution<T>::reconstruct_alias_table(bool just_constructed) {
+        if (alias_table.size() != distr->size()) {
+            alias_table.clear();
+            construct_alias_table();
+            return;
+        }
+
         double sum_weights = 0.0;
         for (pair<const T,double>& kv_pair : *distr) {
             sum_weights += kv_pair.second;
-- 
2.43.0


From 3a4ab80f22f54c103d8b1372862f4974f341880a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:29 +0000
Subject: [PATCH 15/19] fix: TENTS mixed q-values divided by temperatures of
 different visits

The maps of q-values held Q/temp for the temperature at the time an action was
last selected. With a decaying temperature the sparse action set and the sparse
max were then computed from values at different scales. Store the q-values and
divide by the current temperature when they are used.
---
 .../algorithms/ments/tents/tents_decision_node.h  | 13 +++++++------
 .../ments/tents/tents_decision_node.cpp           | 15 +++++++++------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/include/algorithms/ments/tents/tents_decision_node.h b/include/algorithms/ments/tents/tents_decision_node.h
index 9743771..f752fa1 100644
--- a/include/algorithms/ments/tents/tents_decision_node.h
+++ b/include/algorithms/ments/tents/tents_decision_node.h
@@ -23,9 +23,10 @@ namespace thts {
      * 
      * Paper: http://proceedings.mlr.press/v139/dam21a/dam21a.pdf
      * 
-     * Maps are maintained to map between the values of 'soft_q_value/temp' (where soft_q_value is the soft value of 
-     * a child) to prevent having to sort everytime the node is visited. So action selection may use slightly outdated 
-     * q values in a multi-threaded setting, but many threads probably outweighs this consistency cost.
+     * Maps are maintained to map between the values of 'soft_q_value' (where soft_q_value is the soft value of 
+     * a child, not divided by the temperature, which may change between visits) to prevent having to sort everytime 
+     * the node is visited. So action selection may use slightly outdated q values in a multi-threaded setting, but 
+     * many threads probably outweighs this consistency cost.
      * 
      * N.B. For convenience the code for tents frequently uses 'q_value' to mean the value of Q(s,a)/temp, trying to 
      * avoid being verbose.
@@ -35,10 +36,10 @@ namespace thts {
      * 
      * Member variables:
      *      qval_to_act: 
-     *          A multi-map from qvalue/temp values to actions (note that this is sorted from smallest to largest, so 
+     *          A multi-map from qvalues to actions (note that this is sorted from smallest to largest, so 
      *          the reverse iterator will iterate from largest to smallest)
      *      act_to_qval:
-     *          An unordered_map from action to qvalue/temp values, which is used for tents computations, and useful 
+     *          An unordered_map from action to qvalues, which is used for tents computations, and useful 
      *          for looking up items in the qval_to_act multimap.
      *      _selected_action_key:
      *          A key to use for storing the selected action in ThtsEnvContexts 
@@ -76,7 +77,7 @@ namespace thts {
              * 
              * Args:
              *      action: The action to be updated in the maps
-             *      new_q_value: The new q_value (over temp) to be updated in the maps
+             *      new_q_value: The new q_value to be updated in the maps
             */
             void update_maps(std::shared_ptr<const Action> action, double new_q_value);
 
diff --git a/src/algorithms/ments/tents/tents_decision_node.cpp b/src/algorithms/ments/tents/tents_decision_node.cpp
index ddb5703..b80ab62 100644
--- a/src/algorithms/ments/tents/tents_decision_node.cpp
+++ b/src/algorithms/ments/tents/tents_decision_node.cpp
@@ -31,7 +31,7 @@ namespace thts {
                 static_pointer_cast<const MentsCNode>(parent))
     {
         for (shared_ptr<const Action> action : *actions) {
-            double qval = get_soft_q_value_over_temp(action);
+            double qval = get_soft_q_value(action, is_opponent() ? -1.0 : 1.0);
             qval_to_act.insert(make_pair(qval, action));
             act_to_qval.insert_or_assign(action, qval);
         }
@@ -77,10 +77,11 @@ namespace thts {
     */
     unique_ptr<ActionVector> TentsDNode::get_sparse_action_set() const {
         unique_ptr<ActionVector> sparse_action_set = make_unique<ActionVector>();
+        double temp = get_temp();
         double i = 0;
         double sum_values = 0.0;
         for (auto it=qval_to_act.rbegin(); it != qval_to_act.rend(); it++) {
-            double value = it->first;
+            double value = it->first / temp;
             shared_ptr<const Action> action = it->second;
             sum_values += value;
             if (1.0 + (i+1.0)*value > sum_values) {
@@ -99,15 +100,16 @@ namespace thts {
     double TentsDNode::spmax() const {
         unique_ptr<ActionVector> sparse_action_set = get_sparse_action_set();
 
+        double temp = get_temp();
         double sum_sparse_values = 0.0;
         for (shared_ptr<const Action> action : *sparse_action_set) {
-            sum_sparse_values += act_to_qval.at(action);
+            sum_sparse_values += act_to_qval.at(action) / temp;
         }
 
         double spmax_common_term = 0.5 * pow(sum_sparse_values-1.0, 2.0) / pow(sparse_action_set->size(), 2.0);
         double spmax = 0.5;
         for (shared_ptr<const Action> action : *sparse_action_set) {
-            double action_val = act_to_qval.at(action);
+            double action_val = act_to_qval.at(action) / temp;
             spmax += pow(action_val, 2.0) / 2.0 - spmax_common_term;
         }
 
@@ -174,15 +176,16 @@ namespace thts {
     */
    void TentsDNode::backup_update_map(ThtsEnvContext& ctx) {
         shared_ptr<const Action> selected_action = ctx.get_value_ptr_const<Action>(_selected_action_key);
+        double opp_coeff = is_opponent() ? -1.0 : 1.0;
         double new_q_value;
 
         if (has_child_node(selected_action)) {
             ThtsCNode& child_node = *get_child_node(selected_action);
             child_node.lock();
-            new_q_value = get_soft_q_value_over_temp(selected_action);
+            new_q_value = get_soft_q_value(selected_action, opp_coeff);
             child_node.unlock();
         } else {
-            new_q_value = get_soft_q_value_over_temp(selected_action);
+            new_q_value = get_soft_q_value(selected_action, opp_coeff);
         }
 
         update_maps(selected_action, new_q_value);
-- 
2.43.0


From 2fee5ec74b5a1b11c90b101cb644e0d8190fd05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:29 +0000
Subject: [PATCH 16/19] fix: loggers decided when to log from uninitialised
 counters

trials_completed was never initialised, and the comparison with the default
trials delta (INT_MAX) overflowed once an entry had been logged.
---
 src/thts_logger.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/thts_logger.cpp b/src/thts_logger.cpp
index 5ec046f..54c3e6f 100644
--- a/src/thts_logger.cpp
+++ b/src/thts_logger.cpp
@@ -27,8 +27,12 @@ namespace thts {
 
     ThtsLogger::ThtsLogger() : 
         prior_runtime(chrono::duration<double>::zero()), 
+        start_time(chrono::system_clock::now()),
+        trials_completed(0),
         trials_delta(numeric_limits<int>::max()), 
-        runtime_delta(numeric_limits<double>::max()) {}
+        last_log_num_trials(0),
+        runtime_delta(numeric_limits<double>::max()),
+        next_log_runtime_threshold(numeric_limits<double>::max()) {}
 
     void ThtsLogger::set_trials_delta(int delta) {
         trials_delta = delta;
@@ -65,7 +69,7 @@ namespace thts {
     
     bool ThtsLogger::should_log() {
         bool result = false;
-        if (trials_completed >= last_log_num_trials + trials_delta) {
+        if (trials_completed - last_log_num_trials >= trials_delta) {
             last_log_num_trials = trials_completed;
             result = true;
         }
-- 
2.43.0


From 18f904dd443854ce43f7e2a55bba875536e534c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:29 +0000
Subject: [PATCH 17/19] fix: loggers sliced their entries

Entries were stored by value as LoggerEntry, so the values that the UCT, MENTS
and DB-MENTS loggers add were lost and never written.
---
 include/thts_logger.h                   |  4 ++--
 src/algorithms/ments/dbments_logger.cpp |  4 ++--
 src/algorithms/ments/ments_logger.cpp   |  4 ++--
 src/algorithms/uct/uct_logger.cpp       |  4 ++--
 src/thts_logger.cpp                     | 10 +++++-----
 5 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/thts_logger.h b/include/thts_logger.h
index c9e714b..0dfda69 100644
--- a/include/thts_logger.h
+++ b/include/thts_logger.h
@@ -51,7 +51,7 @@ namespace thts {
      * 
      * Member variables:
      *      entries: 
-     *          A vector of LoggerEntry objects, each representing a datatype
+     *          A vector of (pointers to) LoggerEntry objects, each representing a datatype
      *      prior_runtime: 
      *          The amount of runtime logger from previous calls to ThtsPool run_trials
      *      start_time: 
@@ -70,7 +70,7 @@ namespace thts {
      */
     class ThtsLogger {
         protected:
-            std::vector<LoggerEntry> entries;
+            std::vector<std::shared_ptr<LoggerEntry>> entries;
             std::chrono::duration<double> prior_runtime;
             std::chrono::time_point<std::chrono::system_clock> start_time;
 
diff --git a/src/algorithms/ments/dbments_logger.cpp b/src/algorithms/ments/dbments_logger.cpp
index 0370a0a..c2d6b43 100644
--- a/src/algorithms/ments/dbments_logger.cpp
+++ b/src/algorithms/ments/dbments_logger.cpp
@@ -36,7 +36,7 @@ namespace thts {
         MentsLogger() {}
     
     void DBMentsLogger::add_origin_entry() {
-        entries.push_back(DBMentsLoggerEntry(
+        entries.push_back(make_shared<DBMentsLoggerEntry>(
             chrono::duration<double>::zero(), 
             0,
             0,
@@ -46,7 +46,7 @@ namespace thts {
     
     void DBMentsLogger::log(shared_ptr<ThtsDNode> node) {
         DBMentsDNode& dbments_node = (DBMentsDNode&) *node;
-        entries.push_back(DBMentsLoggerEntry(
+        entries.push_back(make_shared<DBMentsLoggerEntry>(
             get_current_total_runtime(), 
             dbments_node.num_visits,
             dbments_node.MentsDNode::num_backups,
diff --git a/src/algorithms/ments/ments_logger.cpp b/src/algorithms/ments/ments_logger.cpp
index 675489e..208c3f1 100644
--- a/src/algorithms/ments/ments_logger.cpp
+++ b/src/algorithms/ments/ments_logger.cpp
@@ -34,7 +34,7 @@ namespace thts {
         ThtsLogger() {}
     
     void MentsLogger::add_origin_entry() {
-        entries.push_back(MentsLoggerEntry(
+        entries.push_back(make_shared<MentsLoggerEntry>(
             chrono::duration<double>::zero(), 
             0,
             0,
@@ -43,7 +43,7 @@ namespace thts {
     
     void MentsLogger::log(shared_ptr<ThtsDNode> node) {
         MentsDNode& ments_node = (MentsDNode&) *node;
-        entries.push_back(MentsLoggerEntry(
+        entries.push_back(make_shared<MentsLoggerEntry>(
             get_current_total_runtime(), 
             ments_node.num_visits,
             ments_node.num_backups,
diff --git a/src/algorithms/uct/uct_logger.cpp b/src/algorithms/uct/uct_logger.cpp
index 5e9d747..b57ea7b 100644
--- a/src/algorithms/uct/uct_logger.cpp
+++ b/src/algorithms/uct/uct_logger.cpp
@@ -34,7 +34,7 @@ namespace thts {
         ThtsLogger() {}
     
     void UctLogger::add_origin_entry() {
-        entries.push_back(UctLoggerEntry(
+        entries.push_back(make_shared<UctLoggerEntry>(
             chrono::duration<double>::zero(), 
             0,
             0,
@@ -43,7 +43,7 @@ namespace thts {
     
     void UctLogger::log(shared_ptr<ThtsDNode> node) {
         UctDNode& uct_node = (UctDNode&) *node;
-        entries.push_back(UctLoggerEntry(
+        entries.push_back(make_shared<UctLoggerEntry>(
             get_current_total_runtime(), 
             uct_node.num_visits,
             uct_node.num_backups,
diff --git a/src/thts_logger.cpp b/src/thts_logger.cpp
index 54c3e6f..509205a 100644
--- a/src/thts_logger.cpp
+++ b/src/thts_logger.cpp
@@ -47,7 +47,7 @@ namespace thts {
     }
     
     void ThtsLogger::add_origin_entry() {
-        entries.push_back(LoggerEntry(
+        entries.push_back(make_shared<LoggerEntry>(
             chrono::duration<double>::zero(), 
             0));
     }
@@ -81,7 +81,7 @@ namespace thts {
     }
     
     void ThtsLogger::log(shared_ptr<ThtsDNode> node) {
-        entries.push_back(LoggerEntry(
+        entries.push_back(make_shared<LoggerEntry>(
             get_current_total_runtime(), 
             node->num_visits));
     }
@@ -94,12 +94,12 @@ namespace thts {
     void ThtsLogger::write_to_ostream(ostream& os) {
         if (entries.size() == 0) return;
         
-        LoggerEntry& first_entry = entries[0];
+        LoggerEntry& first_entry = *entries[0];
         first_entry.write_header_to_ostream(os);
         os << "\n";
 
-        for (LoggerEntry& logger_entry : entries) {
-            logger_entry.write_to_ostream(os);
+        for (shared_ptr<LoggerEntry>& logger_entry : entries) {
+            logger_entry->write_to_ostream(os);
             os << "\n";
         }
 
-- 
2.43.0


From bb7e2f24f659c03727f5198693ad9e98e8389c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:50 +0000
Subject: [PATCH 18/19] fix: loggers logged too often after the first run and
 lost the runtime of timed runs

The thresholds for when to log were reset for every run_trials call although
trial count and runtime accumulate over calls, and the runtime of a call was only
added to the total if exactly num_trials trials completed.
---
 include/thts_logger.h | 6 +++---
 src/thts.cpp          | 9 +++------
 src/thts_logger.cpp   | 8 ++++----
 3 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/include/thts_logger.h b/include/thts_logger.h
index 0dfda69..60bda61 100644
--- a/include/thts_logger.h
+++ b/include/thts_logger.h
@@ -53,9 +53,9 @@ namespace thts {
      *      entries: 
      *          A vector of (pointers to) LoggerEntry objects, each representing a datatype
      *      prior_runtime: 
-     *          The amount of runtime logger from previous calls to ThtsPool run_trials
+     *          The amount of runtime used up to 'start_time', in this and previous calls to ThtsPool run_trials
      *      start_time: 
-     *          The time at the start of the last run_trials call in ThtsPool
+     *          The time that 'prior_runtime' was last updated, or the start of the last run_trials call in ThtsPool
      *      trials_completed: 
      *          The number of trials completed (number of times 'trial_completed' called)
      *      trials_delta: 
@@ -147,7 +147,7 @@ namespace thts {
             virtual void log(std::shared_ptr<ThtsDNode> node);
 
             /**
-             * Call this when all trials have been run
+             * Call this when a trial has been run, to add the runtime since 'start_time' to 'prior_runtime'
              */
             void update_prior_runtime();
 
diff --git a/src/thts.cpp b/src/thts.cpp
index 0be9026..19fc59b 100644
--- a/src/thts.cpp
+++ b/src/thts.cpp
@@ -261,9 +261,8 @@ namespace thts {
     
     /**
     * If logging, grabs logging lock, checks if it is time to log and calls 'log' if it is, making sure to grab the
-    * lock for the root node as 'log' doesn't do that but needs to access the root node. When all trials are completed
-    * (trials_completed == num_trials), then call 'update_prior_runtime' for logger as it should be called after all
-    * trials are finished.
+    * lock for the root node as 'log' doesn't do that but needs to access the root node. Any trial may be the last one 
+    * (when running out of time), so 'update_prior_runtime' is called for logger after every trial.
     */
     void ThtsPool::try_log() {
         if (logger != nullptr) {
@@ -276,9 +275,7 @@ namespace thts {
                 logger->log(root_node);
             }
 
-            if (trials_completed == num_trials) {
-                logger->update_prior_runtime();
-            }
+            logger->update_prior_runtime();
         }
     }
 
diff --git a/src/thts_logger.cpp b/src/thts_logger.cpp
index 509205a..74fcf0d 100644
--- a/src/thts_logger.cpp
+++ b/src/thts_logger.cpp
@@ -40,6 +40,7 @@ namespace thts {
     
     void ThtsLogger::set_runtime_delta(double delta) {
         runtime_delta = chrono::duration<double>(delta);
+        next_log_runtime_threshold = prior_runtime + runtime_delta;
     }
     
     int ThtsLogger::size() const {
@@ -54,8 +55,6 @@ namespace thts {
     
     void ThtsLogger::reset_start_time() {
         start_time = chrono::system_clock::now();
-        last_log_num_trials = 0;
-        next_log_runtime_threshold = runtime_delta;
     }
     
     chrono::duration<double> ThtsLogger::get_current_total_runtime() {
@@ -87,8 +86,9 @@ namespace thts {
     }
     
     void ThtsLogger::update_prior_runtime() {
-        chrono::duration<double> runtime = chrono::system_clock::now() - start_time;
-        prior_runtime += runtime;
+        chrono::time_point<chrono::system_clock> cur_time = chrono::system_clock::now();
+        prior_runtime += cur_time - start_time;
+        start_time = cur_time;
     }
 
     void ThtsLogger::write_to_ostream(ostream& os) {
-- 
2.43.0


From 2e1788e38725a58929ad8f0e2ee6d99333d60dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:34 +0000
Subject: [PATCH 19/19] fix: printing a StringAction did not link (declared and
 defined with different signatures)

---
 src/thts_types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thts_types.cpp b/src/thts_types.cpp
index 25906e7..1dbc095 100644
--- a/src/thts_types.cpp
+++ b/src/thts_types.cpp
@@ -429,7 +429,7 @@ namespace std {
         return os;
     }
 
-    ostream& operator<<(ostream& os, const StringAction action) {
+    ostream& operator<<(ostream& os, const StringAction& action) {
         os << action.get_pretty_print_string();
         return os;
     }
-- 
2.43.0

