#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

p("C01", "A run performs exactly the requested number of trials",
  "Asking a thread pool to run N trials without a binding time limit runs exactly max(N,0) trials, whatever the number of worker threads, and repeated calls on the same pool each run their own N, including calls made after a non-blocking call has been waited for. No trial is lost, duplicated or carried over to a later call.",
  ["schedules", "configurations", "histories"], "all interleavings of 1-3 workers and the calling thread, N in 0..4, sequences of 1-3 blocking/non-blocking calls, spurious wake-ups",
  "The pool tests run one N on one OS schedule; the count depends on every interleaving of claiming a trial and of waking workers, and on histories of several calls.",
  ["src/thts.cpp", "include/thts.h"], [("claim a trial under the work lock before running it", "ThtsPool::worker_fn"), ("reset of the counters per call", "ThtsPool::run_trials")],
  ["number of executions of a trial", "root visit count"], [("trials_remaining", "trials not yet claimed", "include/thts.h")])
p("C02", "Every wait on the pool terminates",
  "Constructing a pool, running trials (blocking or not), waiting for them and destroying the pool always terminate once the trials in progress end: for every schedule, every moment at which the time limit may expire, and every spurious wake-up. No wake-up is lost and no thread is left blocked or running after destruction.",
  ["schedules", "configurations", "histories"], "all interleavings of 1-3 workers plus caller, deadline expiring at any clock reading, at most 1-2 spurious wake-ups, destruction while trials are pending",
  "A lost wake-up needs the deadline to expire between two particular clock readings or a notification to hit a particular window; tests run without adversarial timing.",
  ["src/thts.cpp"], [("condition-variable hand-shake between workers and waiters", "ThtsPool::worker_fn / join / run_trials / ~ThtsPool")],
  ["return of run_trials, join and the destructor"], [("work_left_cv", "wakes workers and waiters", "include/thts.h")])
p("C03", "When a wait returns the pool is idle, and deadlines stop new trials",
  "When a blocking run or an explicit wait returns, every trial of that call has completed (its effects are visible to the caller) and none is started until the next call; no trial starts once the time limit is known to have expired. Replacing the environment of a pool is refused while a trial is pending or running, and after an accepted replacement all later trials run on the new environment only.",
  ["schedules", "histories"], "all interleavings of 1-3 workers and the caller; deadline at any clock reading; replacement attempted at any time",
  "Premature return shows only when a worker is between claiming and finishing a trial; tests check only the final state on one schedule.",
  ["src/thts.cpp"], [("waiters wait for no work left and no worker busy", "ThtsPool::join"), ("busy check before swapping", "ThtsPool::set_new_env")],
  ["order of trial begin/end events relative to returns"], [("num_threads_working", "workers inside a trial", "include/thts.h")])
p("C04", "Concurrent search is free of data races",
  "While several worker threads search one tree - with any shipped algorithm, with or without transposition table (any number of table mutexes), logging and decaying temperatures - every pair of conflicting accesses to shared memory is ordered by synchronisation. The same holds for multi-threaded Monte-Carlo evaluation of a finished tree.",
  ["schedules", "configurations"], "all happens-before classes of 2 worker threads x 2-3 trials on small stochastic MDPs for each algorithm, preemption-bounded for longer runs",
  "A race corrupts values or crashes only on rare schedules; the test suite has no race detector and runs searches on one thread.",
  ["src/thts.cpp", "src/thts_chance_node.cpp", "src/thts_decision_node.cpp", "src/algorithms/*", "src/mc_eval.cpp"],
  [("per-node locks", "ThtsPool::run_selection_phase / run_backup_phase"), ("children locked before reading their values", "lock_all_children"), ("table mutexes", "ThtsCNode::create_child_node_itfc")],
  ["every memory access of the library (instrumented)"])
p("C05", "Concurrent search never deadlocks",
  "Worker threads searching one tree or one graph of shared nodes always make progress until their trials are done: no schedule makes them block each other forever, with any shipped algorithm, with transposition tables (where two parents share children) and with logging.",
  ["schedules", "configurations"], "all interleavings of lock acquisitions for 2-3 threads on MDPs with shared successor states",
  "A lock-order inversion needs two threads at specific nodes at the same time; tests never search concurrently with a transposition table.",
  ["src/thts_chance_node.cpp", "src/thts_decision_node.cpp", "include/algorithms/common/*.h", "src/thts.cpp"],
  [("parents are locked before children, children in one global order", "lock_all_children and the backup helpers")], ["completion of every explored execution"])
p("C06", "Visit counts are conserved through the tree",
  "After any number of completed trials, sequential or concurrent, the root has been visited once per trial, every chance node's visits equal the visits of its successors (summed over parents when nodes are shared), and every decision node's visits equal the visits of its chance children plus the trials that ended there. Only nodes on a trial's path are visited.",
  ["schedules", "histories"], "all schedules of 2 threads x 2-3 trials and all sequential histories of up to 4-6 trials over all random outcomes",
  "Conservation must survive every interleaving and every outcome sequence; tests check single nodes with mocks.",
  ["src/thts.cpp", "src/thts_decision_node.cpp", "src/thts_chance_node.cpp"], [("one visit per node and trial under the node lock", "run_selection_phase")], ["printed tree with visit counts"])
p("C07", "The transposition table keeps one node per state and time",
  "With the transposition table on, all paths that reach the same observation at the same time step share a single decision node, under every schedule, any number of table mutexes and for as long as that node is alive; different observations or time steps never share one. Searching again after an earlier tree on the same manager was released works and never revives or touches released nodes. With the table off nodes are never shared between different parents.",
  ["schedules", "histories", "configurations"], "2 threads racing to create the same successor, all orders; histories search/release/search on one manager; 1-3 table mutexes",
  "Duplicates appear only if two threads create the same node at once; expiry only if a tree is released between searches; tests use one thread and one tree.",
  ["src/thts_chance_node.cpp", "src/thts_types.cpp", "include/thts_manager.h"], [("look-up and insertion under a table mutex", "ThtsCNode::create_child_node_itfc")], ["identity of child nodes"],
  [("dmap", "weak references to live decision nodes by (time, observation)", "include/thts_manager.h")])
p("C08", "Backups receive exactly the rewards of their own trial",
  "After a trial s0,a0,r0,...,sn,an,rn ending at a frontier node with heuristic value h, each decision and chance node on the path is backed up exactly once, leaf to root and chance node before its decision node, with return-to-go ri+...+rn+h, total return r0+...+rn+h, the earlier rewards in order and the later rewards (h first, most recent last). No other node is backed up, under any schedule.",
  ["schedules", "histories"], "all trial lengths 0-4 over all outcome histories and concurrent interleavings of two trials",
  "The test fixes one mocked path; wrong sums at other lengths, the heuristic term or cross-talk between concurrent trials go unseen.",
  ["src/thts.cpp"], [("reward bookkeeping", "ThtsPool::run_selection_phase / run_backup_phase")], ["arguments of each backup call on a recording node type"])
p("C09", "UCT and PUCT values are exact running averages",
  "At every moment the value of each UCT/PUCT chance node is the mean of the returns-to-go of the trials backed up through it, and that of each decision node is the mean of the same over its backups together with the configured number of pseudo-trials at its heuristic value (a node's value is its heuristic before any backup). This holds for every history of trials, single- or multi-threaded.",
  ["histories", "configurations", "schedules"], "all histories of up to 5 trials over all action ties and outcomes in small MDPs; heuristic and pseudo-trial settings; 2-thread schedules",
  "Unit tests call one backup with fixed numbers; the running mean has to be exact along every history and interleaving.",
  ["src/algorithms/uct/uct_decision_node.cpp", "src/algorithms/uct/uct_chance_node.cpp"], [("incremental mean", "backup_average_return")], ["printed node values"])
p("C10", "UCT and PUCT select actions by upper confidence bound",
  "Without a prior, UCT and PUCT try every action of a node (uniformly at random among the untried) before repeating any; afterwards, or always when a prior is given, the selected action maximises the child's value (negated for the opponent) plus bias times prior (1 without one) times the exploration term computed from parent and child visits, with ties broken uniformly; the automatic bias is the largest absolute child value but at least its minimum. With epsilon exploration an action is instead drawn uniformly with exactly that probability.",
  ["histories", "inputs", "configurations"], "all histories of up to 5-6 trials, biases incl. automatic, priors, PUCT powers, epsilon in {0,0.5,1}, two players",
  "Tests check a few hand-made value maps; the arg-max has to hold in every reachable node state.",
  ["src/algorithms/uct/uct_decision_node.cpp", "src/algorithms/uct/puct_decision_node.cpp"], [("ucb values and arg-max", "fill_ucb_values / select_action_ucb")], ["selected action against a reference computed from the tree"])
p("C11", "Maximum-entropy soft values follow their Bellman backup and stay finite",
  "After every backup a MENTS, RENTS or DBMENTS decision node's soft value is temperature * log of the sum over all legal actions of (RENTS: parent-policy-weighted) exp(Q/temperature) and a TENTS node's is temperature times the sparse maximum, with Q taken from the child if it exists (TENTS: as it was when the node was last backed up through that child) and otherwise from the prior (shifted to the configured mean when requested) or the default Q value; each chance node's soft value is its immediate reward plus the backup-count weighted mean of its successors' values. Successors that were never backed up do not contribute. Q-values up to a million times the temperature in magnitude give finite values, never NaN, infinity or a crash.",
  ["histories", "inputs", "configurations"], "all histories of up to 4-5 trials; temperatures 1e-3..1e3, rewards up to 1e6 in magnitude, priors incl. 0, heuristics",
  "Tests evaluate isolated nodes with a few values; overflow, missing children, priors of zero and stale bookkeeping arise only along histories.",
  ["src/algorithms/ments/ments_decision_node.cpp", "src/algorithms/ments/ments_chance_node.cpp", "src/algorithms/ments/rents/rents_decision_node.cpp", "src/algorithms/ments/tents/tents_decision_node.cpp"],
  [("normalised log-sum-exp", "compute_action_weights / backup_soft"), ("spmax over the sparse action set", "TentsDNode")], ["printed node values"])
p("C12", "Search policies have the documented probabilities and can always be sampled",
  "When a MENTS-family node (MENTS, RENTS, TENTS, DBMENTS, DENTS, EST) selects an action, each legal action has exactly the documented probability: (1-lambda) times the algorithm's policy (mixed with the prior policy when configured) plus lambda/number of actions, with lambda = min(maximum, epsilon/log(1+visits)) and the root-specific epsilon at the root when set. For every reachable node state, parameter setting (epsilon 0 included) and random draw in [0,1) the selection succeeds and returns a legal action.",
  ["histories", "inputs", "configurations"], "node states after all histories of up to 3-4 trials; epsilon {0,0.1,1}, temperatures, priors, mixes; the draw swept over [0,1) and its boundaries",
  "Probability of each action is a measure over all draws; tests sample a few draws at a few states, and failures hide at boundary draws.",
  ["src/algorithms/ments/*", "src/helper_templates.cc"], [("lambda mixture", "MentsDNode::compute_action_distribution"), ("inverse-CDF sampling", "sample_from_distribution")], ["selected action as a function of the draw"])
p("C13", "Dynamic-programming values follow the Bellman optimality backup",
  "In DBMENTS, and in DENTS and EST when set to dynamic-programming values, each chance node's value is the immediate reward plus the backup-count weighted mean of its backed-up successors' values, and each decision node's value is the best (for the opponent the worst) value among its backed-up children; frontier and leaf nodes keep their heuristic value (the count of a decision node includes its creation and its visits as a leaf). With empirical values instead, DENTS and EST nodes hold the running mean of returns, decision nodes counting their heuristic once. Unvisited or never backed-up children never influence a value.",
  ["histories", "configurations", "schedules"], "all histories of up to 5 trials, heuristics, negative rewards, two players, 2-thread schedules",
  "Tests back up single nodes; skipping un-backed-up children and leaf weighting matter only along histories and interleavings.",
  ["src/algorithms/common/dp_decision_node.cpp", "src/algorithms/common/dp_chance_node.cpp", "src/algorithms/common/emp_node.cpp", "src/algorithms/ments/dbments_decision_node.cpp", "src/algorithms/est/*", "src/algorithms/ments/dents/*"],
  [("backup_dp / backup_emp", "src/algorithms/common")], ["printed node values"])
p("C14", "DENTS entropy terms and all decayed temperatures are exact",
  "A DENTS decision node's entropy is its current search policy's entropy (counted negatively for the opponent) plus the policy-weighted entropy of its children, a chance node's is the mean of its successors' entropies weighted by how often each was reached or backed up (creation included), and the value used for search is the value estimate plus the value temperature times that entropy. Every temperature in use (search and value) is max(minimum, initial * decay(scale * visits)) with the root-specific scale when set, constant without a decay function, positive and never increasing with visits.",
  ["histories", "inputs", "configurations"], "all histories of up to 4-5 trials incl. leaves reached repeatedly; all shipped decay functions, visits 0..10^6, scales, minima",
  "Tests compute entropies for one fixed configuration; leaf weighting and decays at all visit counts are not covered.",
  ["src/algorithms/common/ent_decision_node.cpp", "src/algorithms/common/ent_chance_node.cpp", "src/algorithms/common/decaying_temp.cpp", "src/algorithms/ments/dents/*"],
  [("backup_ent", "src/algorithms/common"), ("compute_decayed_temp", "src/algorithms/common/decaying_temp.cpp")], ["printed entropies and temperatures"])
p("C15", "Two-player search is the sign mirror of itself",
  "For two-player games decision nodes at odd time steps belong to the minimising opponent: negating every reward, heuristic and default value and swapping whose turn comes first gives, for the same random choices, the same selections and recommendations and exactly negated values at every node, for every shipped algorithm. With the two-player setting off no node ever acts for the opponent.",
  ["histories", "configurations"], "all histories of up to 4 trials for each algorithm on a game tree and its mirror image",
  "A relation between two complete searches cannot be stated by example tests of one node.",
  ["src/thts_decision_node.cpp", "src/thts_chance_node.cpp", "src/algorithms/*"], [("opponent sign", "is_opponent and opp_coeff uses")], ["selected actions, recommendations and node values of both searches"])
p("C16", "Recommendations are legal and optimal for the configured criterion",
  "The recommended action is always legal; it is the most visited child when so configured, otherwise the action with the best (for the opponent the lowest) value of the algorithm's criterion - empirical mean, soft value or DP value - preferring children that reached the configured visit threshold and ignoring the others unless none did (for the soft-value criterion untried actions count with their prior or default value). Ties, and a node without children, are resolved uniformly at random, and recommending never changes the tree.",
  ["histories", "inputs", "configurations"], "all trees reached by histories of up to 5 trials for each algorithm; thresholds 0..3; both criteria",
  "Tests recommend from a few hand-built nodes; thresholds, ties and missing children interact only along histories.",
  ["src/algorithms/uct/uct_decision_node.cpp", "src/algorithms/ments/ments_decision_node.cpp", "src/algorithms/common/dp_decision_node.cpp", "src/algorithms/common/emp_node.cpp"],
  [("recommend_action variants", "src/algorithms")], ["recommended action against a reference computed from the tree"])
p("C17", "Distributions are sampled with exactly their weights",
  "For any non-negative weights with a finite positive sum (for mixed distributions: component probabilities that sum to one), drawing from a distribution returns each key with probability equal to its share of the total weight - keys of weight zero never - for the direct method, the alias method, uniform and mixed distributions alike, for every random draw and without errors; weights declared as probabilities that sum to more than one are reported as an error. After any sequence of updates (changing, adding or replacing weights) later draws follow the updated weights, for the alias method at the latest after the configured number of updates.",
  ["inputs", "histories"], "all weight vectors over a grid for 1-5 keys, all update sequences up to length 3, draws swept over [0,1) and boundaries",
  "Exact probabilities are a statement about all draws; tests sample frequencies for a few weight vectors and no size-changing updates.",
  ["src/helper_templates.cc", "src/distributions/*.cc"], [("inverse CDF", "sample_from_distribution"), ("alias table", "CategoricalDistribution")], ["drawn key as a function of the random draws"])
p("C18", "Arg-max breaks ties uniformly and handles every value",
  "Choosing the key with the largest value returns a key whose value is the maximum, for every non-empty map and all values (other than NaN) including infinities and the lowest representable numbers, and each maximising key is returned for an equal share of the random draws.",
  ["inputs"], "all maps of 1-4 keys over a value set with infinities, extremes and ties; all tie-break draws",
  "Tests use a couple of ordinary maps.",
  ["src/helper_templates.cc"], [("single pass maximum with tie list", "get_max_key_break_ties_randomly")], ["returned key as a function of the draw"])
p("C19", "Monte-Carlo evaluation measures the tree's recommendation policy",
  "Evaluating a policy with R rollouts on T threads performs exactly R independent rollouts, each starting in the initial state with its own policy position and context, following the tree's recommendations while inside the tree and uniformly random legal actions outside it, and stopping at a sink state or after the maximum number of steps. The reported mean is the average of the sampled returns and the reported standard deviation, for at least two rollouts, their sample standard deviation, under every schedule.",
  ["schedules", "histories", "configurations"], "T in 1..3, R in 0..4, all schedules and outcome sequences on small MDPs, lengths 0..4",
  "No test covers the evaluator; correctness depends on schedules and on every outcome sequence.",
  ["src/mc_eval.cpp", "include/mc_eval.h"], [("per-thread policy copy and locked result list", "MCEvaluator")], ["environment calls per rollout, reported statistics"])
p("C20", "Search logs are complete, ordered and carry their algorithm's columns",
  "With a trial interval D the log contains an origin entry and then one entry at each further D completed trials, cumulative over all calls on the logger; with a time interval one entry per elapsed interval; each with the root statistics at that moment, non-decreasing visits and non-decreasing cumulative running time. The written table has the header and columns of the logger's algorithm in every row, under every schedule of the workers.",
  ["schedules", "histories", "configurations"], "1-2 workers, 1-3 calls, D in 1..3, clock scripts; all logger types",
  "No test covers logging; counts must be right for every interleaving and across calls.",
  ["src/thts_logger.cpp", "src/algorithms/*/*_logger.cpp", "src/thts.cpp"], [("try_log under the logging lock", "ThtsPool::try_log")], ["written log table"])
p("C21", "States, observations and actions are values",
  "Equality of the shipped state and action types - compared as State, Observation or Action, through references or shared pointers to these base types, and within (time, observation) keys - is an equivalence that holds exactly when type and contents agree; equal values have equal hashes, and containers keyed by them therefore find a value stored under any equal key. Equal values print the same text and different values of one type different texts.",
  ["inputs"], "all pairs and triples over small domains of each type incl. negative and extreme integers, all container insert/find sequences of length 3",
  "Tests compare a handful of values; equivalence and hash consistency quantify over all pairs.",
  ["src/thts_types.cpp", "include/thts_types.h"], [("hash and equals overrides, std::hash/equal_to specialisations", "src/thts_types.cpp")], ["==, std::hash, unordered_map behaviour"])
p("C22", "A fixed seed reproduces the whole search",
  "With a non-zero seed and one worker thread, two searches with the same settings make identical choices and build identical trees, statistics and recommendations, whatever else the process did before. Random integers always lie in the requested half-open range, each of its values being drawn eventually, and random reals in [0,1), and managers created with the same seed produce the same sequence while calls from several threads are serialised.",
  ["histories", "inputs", "configurations", "schedules"], "all algorithms, seeds 1..K, search lengths up to 30; ranges incl. negative bounds; 2-thread draws under all schedules",
  "Tests never compare two runs; hidden dependence on addresses, time or global state is invisible in one run.",
  ["include/thts_manager.h", "src/algorithms/*"], [("seeded generators behind a lock", "RandManager")], ["printed trees of two searches, drawn numbers"])
p("C23", "Search memory is released completely and never used after release",
  "When pool, manager, root and environment are dropped, in any order the ownership rules allow and after any schedule, every node, context and log entry they created is destroyed exactly once and no released memory is accessed. Trees, transposition tables and parents never keep each other alive in a cycle, and a released tree can be followed by a new one on the same manager and pool.",
  ["schedules", "histories", "configurations"], "all algorithms, with/without transposition table, 1-2 threads, search/replace/release histories, all release orders",
  "Leaks and use-after-release do not fail a test; they depend on release order and schedule.",
  ["src/thts.cpp", "src/thts_chance_node.cpp", "include/thts_decision_node.h", "include/thts_chance_node.h"], [("shared ownership downwards, weak upwards and in the table", "node classes")], ["live allocations and accesses to released memory"])
p("C24", "Every trial has its own context, passed to each of its callbacks",
  "Each trial samples exactly one context from the environment for the root state and passes that very object to every visit, selection, sampling and backup of the trial and to no other trial, under every schedule; a value stored in a context is returned unchanged under its key until overwritten or erased, mutable and constant entries do not interfere, and unknown keys are reported as an error.",
  ["schedules", "histories"], "all interleavings of 2 threads x 2 trials with recording nodes; all put/get/erase sequences up to length 4 over 2 keys",
  "Cross-talk between concurrently running trials needs a particular interleaving; tests run one trial.",
  ["src/thts.cpp", "src/thts_env_context.cpp", "include/thts_env_context.h", "src/thts_env.cpp"], [("context owned by run_thts_trial", "ThtsPool::run_thts_trial")], ["context identity in node callbacks"])
p("C25", "Trees grow as configured: one node per trial, bounded depth, nothing past sinks",
  "In MCTS mode a trial adds at most one decision node and ends at it, otherwise it runs until a sink or the maximum depth; no decision node lies deeper than the maximum depth, sink states and nodes at the maximum depth are never expanded, every edge is a legal action and a possible outcome of the environment, and each child carries the successor's state with depth and time step one greater. The heuristic is evaluated once per created node and never for sink states.",
  ["histories", "schedules", "configurations"], "all histories of up to 5 trials and 2-thread schedules; maximum depth 0..4; both modes; all algorithms",
  "Tests mock the loop condition; the structural guarantees quantify over all trees that searches can build.",
  ["src/thts.cpp", "src/thts_decision_node.cpp", "src/thts_chance_node.cpp"], [("stop condition", "should_continue_selection_phase"), ("leaf test", "ThtsDNode::is_leaf")], ["tree shape, environment and heuristic calls"])
p("C26", "Outcomes are sampled from the environment's transition model",
  "Every successor that search or evaluation follows is drawn from the environment's transition distribution for that state and action with exactly the stated probability (observations likewise; in fully observable environments the observation is the next state), for every algorithm and every random draw, and the reward credited is that of the same state, action and outcome.",
  ["inputs", "histories"], "all algorithms' chance nodes over transition distributions on a probability grid, the draw swept over [0,1) and its boundaries",
  "The probability of an outcome is a measure over draws; tests sample a few.",
  ["src/algorithms/uct/uct_chance_node.cpp", "src/algorithms/ments/ments_chance_node.cpp", "src/thts_env.cpp", "src/thts.cpp"], [("sample_observation", "chance nodes")], ["sampled observation as a function of the draw"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
