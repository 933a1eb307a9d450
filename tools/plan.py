"""Which harness decides which property, and the texts of MANIFEST.json."""

HARNESS = {            # harness -> kind of build
    "h_pool": "race",
    "h_tree": "race",
    "h_rec": "race",
    "h_eval": "race",
    "h_log": "race",
    "h_rand": "race",
    "h_lin": "race",
    "h_alg": "seq",
    "h_dist": "seq",
}

T_SCHED = "stateless model checking of the real code: exhaustive schedule enumeration (iterative preemption bounding, happens-before state caching) with vector-clock race, deadlock and lifetime monitors"

T_HIST = "explicit-state model checking: exhaustive enumeration of all search histories (every sequence of random draws, i.e. of action choices and outcomes) up to a number of trials on the real code, with an executable reference model of the algorithms replayed in lock-step and compared after every trial"
T_PROB = T_HIST + "; in every reached state the exact probability of every choice is measured by partitioning the space of random draws into intervals of equal behaviour"

T_ENUM = "bounded exhaustive enumeration on the real code: all inputs over a small value domain, all operation sequences up to a depth, and all random draws (integer draws enumerated, the unit interval partitioned exactly into intervals of equal behaviour, plus boundary draws), compared with a reference after every step"

A_MC = [
    "sequentially consistent interleavings at synchronisation operations; data races are detected separately on every explored schedule, which makes this sound for race-free programs",
    "bounded threads, trials, clock expiries, spurious wake-ups and preemptions, as listed per configuration",
    "libstdc++'s own thread primitives are replaced by the model checker's at the pthread interface",
]
A_HIST = [
    "random draws are the only nondeterminism of a single-threaded search; they are chosen by the explorer through the public RandManager interface",
    "histories that took the same paths are merged (the reference model's state is a function of the sequence of paths)",
    "the environments, trial numbers and parameter settings of the listed configurations; small-scope hypothesis beyond them",
    "values are read from the printed tree (six significant digits) and compared with a tolerance of that precision",
]
A_ENUM = [
    "value domains, sizes and sequence lengths as listed per configuration; small-scope hypothesis beyond them",
    "as a function of one uniform draw the code's behaviour changes only at points that separate two of the tried draws (grid of 16, all subset sums of the weights, the ends of the interval)",
]
N_ENUM = "Exhaustive over the listed value domains, operation sequences and random draws, executed on the real code with address and undefined-behaviour sanitizers."
N_HIST = "Exhaustive over all draws and outcomes of the listed configurations up to the listed number of trials; every execution runs the real library (address and undefined-behaviour sanitizers) and is compared with an independent reference model (harness/ref.h). Trusts the reference model and the small-scope hypothesis."

N_MC = "Exhaustive over all schedules (and clock-expiry points and spurious wake-ups) of the listed small configurations up to the reported preemption bound, executed on the real code. Trusts the scheduler runtime mc/mcrt.cpp and the small-scope hypothesis."

N_BOTH = N_HIST + " Concurrent part: exhaustive over all schedules of small configurations up to the reported preemption bound, on the real code under mc/mcrt.cpp."
T_BOTH = T_HIST + "; concurrent searches: " + T_SCHED
A_BOTH = A_HIST + A_MC
MC = dict(level="model_checking")

PROPS = {
    "C01": dict(harness=["h_pool"], technique=T_SCHED, note=N_MC, **MC),
    "C02": dict(harness=["h_pool"], technique=T_SCHED, note=N_MC, **MC),
    "C03": dict(harness=["h_pool"], technique=T_SCHED, note=N_MC, **MC),
    "C04": dict(harness=["h_tree", "h_rec", "h_pool", "h_eval", "h_log", "h_rand"], technique=T_SCHED, note=N_MC, **MC),
    "C05": dict(harness=["h_tree", "h_rec", "h_log"], technique=T_SCHED, note=N_MC, **MC),
    "C06": dict(harness=["h_alg", "h_tree", "h_rec"], technique=T_BOTH, note=N_BOTH, assume=A_BOTH, **MC),
    "C07": dict(harness=["h_tree"], technique=T_SCHED, note=N_MC, **MC),
    "C08": dict(harness=["h_rec"], technique=T_SCHED, note=N_MC, **MC),
    "C09": dict(harness=["h_alg", "h_tree", "h_lin"], technique=T_BOTH, note=N_BOTH, assume=A_BOTH, **MC),
    "C11": dict(harness=["h_alg", "h_tree", "h_lin"], technique=T_BOTH, note=N_BOTH, assume=A_BOTH, **MC),
    "C13": dict(harness=["h_alg", "h_tree", "h_lin"], technique=T_BOTH, note=N_BOTH, assume=A_BOTH, **MC),
    "C14": dict(harness=["h_alg"], technique=T_HIST, note=N_HIST, assume=A_HIST, **MC),
    "C25": dict(harness=["h_alg", "h_tree", "h_rec"], technique=T_BOTH, note=N_BOTH, assume=A_BOTH, **MC),
    "C10": dict(harness=["h_alg"], technique=T_PROB, note=N_HIST, assume=A_HIST, **MC),
    "C12": dict(harness=["h_alg"], technique=T_PROB, note=N_HIST, assume=A_HIST, **MC),
    "C15": dict(harness=["h_alg"], technique=T_PROB, note=N_HIST, assume=A_HIST, **MC),
    "C16": dict(harness=["h_alg"], technique=T_PROB, note=N_HIST, assume=A_HIST, **MC),
    "C19": dict(harness=["h_alg", "h_eval"], technique=T_PROB + "; multi-threaded evaluation: " + T_SCHED, note=N_BOTH, assume=A_BOTH, **MC),
    "C20": dict(harness=["h_log"], technique=T_SCHED + "; all histories of trial durations on a virtual clock", note=N_MC, **MC),
    "C22": dict(harness=["h_alg", "h_dist", "h_rand"], technique=T_ENUM + "; reproducibility: all sequences of preceding activities up to a depth, for all algorithms and a set of seeds; draws of several threads: " + T_SCHED, note=N_ENUM + " Draws of several threads: all schedules. The set of seeds is a bound.", assume=A_ENUM + A_MC, **MC),
    "C26": dict(harness=["h_alg", "h_dist"], technique=T_PROB, note=N_HIST, assume=A_HIST, **MC),
    "C17": dict(harness=["h_dist"], technique=T_ENUM, note=N_ENUM, assume=A_ENUM, **MC),
    "C18": dict(harness=["h_dist"], technique=T_ENUM, note=N_ENUM, assume=A_ENUM, **MC),
    "C21": dict(harness=["h_dist"], technique=T_ENUM, note=N_ENUM, assume=A_ENUM, **MC),
    "C23": dict(harness=["h_tree", "h_rec", "h_pool", "h_eval", "h_log"], technique=T_SCHED, note=N_MC, **MC),
    "C24": dict(harness=["h_rec", "h_dist"], technique=T_SCHED + "; context values: " + T_ENUM, note=N_MC + " Context values: " + N_ENUM, assume=A_MC + A_ENUM, **MC),
}
