"""What each check runs: scenario libraries (how the real code is compiled) and, per property, (library, scenario, weight, weak)."""

import os

O1 = ["-O1", "-foptimize-sibling-calls"]
O2N = ["-O2", "-DNDEBUG"]
VAR = ["-include", os.path.join(os.path.dirname(os.path.abspath(__file__)), "scenarios", "variant.hpp")]

LIBS = {
    "tree": {"src": "tree.cpp", "flags": O1},                                       # internal assertions on
    "tree_nd": {"src": "tree.cpp", "flags": O2N},                                   # optimised, assertions off
    "tree_cl": {"src": "tree.cpp", "flags": ["-O2"], "clang": True},                # built by clang
    "prims_cl": {"src": "prims.cpp", "flags": ["-O2"], "clang": True},
    "sched_cl": {"src": "sched.cpp", "flags": ["-O2"], "clang": True},
    "types_cl": {"src": "types.cpp", "flags": ["-O2"], "clang": True},
    "algo_each_cl": {"src": "algo_each.cpp", "flags": ["-O2"], "clang": True},
    "algo_fold_cl": {"src": "algo_fold.cpp", "flags": ["-O2"], "clang": True},
    "algo_scan_cl": {"src": "algo_scan.cpp", "flags": ["-O2"], "clang": True},
    "workers_cl": {"src": "workers.cpp", "flags": ["-O2"], "clang": True},
    "numa_cl": {"src": "numa.cpp", "flags": ["-O2"], "clang": True},
    "deep_cl": {"src": "deep.cpp", "flags": ["-O2"], "clang": True},
    "tree_v": {"src": "tree.cpp", "flags": O2N + VAR},                              # the library's switches set the other way
    "tree_v1": {"src": "tree.cpp", "flags": O1 + VAR},
    "types_v": {"src": "types.cpp", "flags": O1 + VAR},
    "tree_sh": {"src": "tree.cpp", "flags": O1, "single": True},                    # single header distribution
    "prims": {"src": "prims.cpp", "flags": O1},
    "prims_nd": {"src": "prims.cpp", "flags": O2N},
    "sched": {"src": "sched.cpp", "flags": O1},
    "sched_nd": {"src": "sched.cpp", "flags": O2N},
    "sched_sh": {"src": "sched.cpp", "flags": O1, "single": True},
    "prims_sh": {"src": "prims.cpp", "flags": O1, "single": True},
    "algo_each": {"src": "algo_each.cpp", "flags": O1},
    "algo_each_nd": {"src": "algo_each.cpp", "flags": O2N},
    "algo_fold": {"src": "algo_fold.cpp", "flags": O1},
    "algo_fold_nd": {"src": "algo_fold.cpp", "flags": O2N},
    "algo_scan": {"src": "algo_scan.cpp", "flags": O1},
    "algo_scan_nd": {"src": "algo_scan.cpp", "flags": O2N},
    "algo_each_sh": {"src": "algo_each.cpp", "flags": O1, "single": True},
    "algo_scan_sh": {"src": "algo_scan.cpp", "flags": O1, "single": True},
    "algo_fold_sh": {"src": "algo_fold.cpp", "flags": O1, "single": True},
    "types": {"src": "types.cpp", "flags": O1},
    "types_nd": {"src": "types.cpp", "flags": O2N},
    "types_sh": {"src": "types.cpp", "flags": O1, "single": True},
    "deep": {"src": "deep.cpp", "flags": O1},
    "deep_nd": {"src": "deep.cpp", "flags": O2N},
    "numa": {"src": "numa.cpp", "flags": O1},
    "numa_nd": {"src": "numa.cpp", "flags": O2N},
    "numa_sh": {"src": "numa.cpp", "flags": O1, "single": True},
    "numa_nh": {"src": "numa.cpp", "flags": O1 + ["-ULF_USE_HWLOC"]},               # the library without hwloc
    "sched_nh": {"src": "sched.cpp", "flags": O1 + ["-ULF_USE_HWLOC"]},
    "workers": {"src": "workers.cpp", "flags": O1},
    "workers_nd": {"src": "workers.cpp", "flags": O2N},
    "memory": {"src": "memory.cpp", "flags": O1},
    "memory_nd": {"src": "memory.cpp", "flags": O2N},
    "memory_cl": {"src": "memory.cpp", "flags": ["-O2"], "clang": True},
    "workers_sh": {"src": "workers.cpp", "flags": O1, "single": True},
    "deep_sh": {"src": "deep.cpp", "flags": O1, "single": True},
    "memory_sh": {"src": "memory.cpp", "flags": O1, "single": True},
}

W = 2  # memory model: 0 sequentially consistent, 1 weak, 2 chosen by the seed


def J(lib, *scns, w=1.0):
    return [(lib, s, w, W) for s in scns]


CHECKS = {
    "C01": {"jobs": J("tree", "plain", "wide") + J("tree_nd", "plain", "wide") + J("types", "types") + J("types_nd", "types") +
            J("deep_nd", "deep", w=0.5) + J("tree_cl", "plain", w=0.7), "thorough_jobs": J("tree_v1", "plain", "wide") + J("types_v", "types"),
            "oracle": "a serial evaluation of the same generated program",
            "rule": "Random strict fork-join programs (up to 30 tasks, several roots, mixed fork/call/discard/just) on lazy, busy "
                    "and unit pools of 1-4 (sometimes up to 8) workers on machines with one to three memories, compared with a serial evaluation; non-trivial: a continuation was stolen."},
    "C02": {"quick_s": 45, "jobs": J("tree", "plain", "wide", "exc", "mod") + J("tree_nd", "plain", "exc") + J("deep_nd", "steals", w=0.4) +
            J("tree_cl", "plain", "exc", w=0.7), "thorough_jobs": J("tree_v", "plain", "wide", "exc", "mod"),
            "oracle": "exactly-once counters, completion at every join and happens-before race detection of children's writes",
            "rule": "Random fork-join programs; every task body and every code piece after a join counts its executions, the code "
                    "after a join checks that each child has finished and reads the children's plain writes under the simulated "
                    "C++ memory model (a missing synchronises-with is reported as a race); non-trivial: a continuation was stolen."},
    "C03": {"jobs": J("tree", "exc", w=2) + J("tree", "mod") + J("tree_nd", "exc", w=2) + J("types", "types") +
            J("tree_cl", "exc") + J("tree_v", "exc"), "thorough_jobs": J("tree_v1", "exc", "mod") + J("types_v", "types"),
            "oracle": "the set of exceptions the generated program raises, scope by scope",
            "rule": "Random fork-join programs whose tasks throw before, between and after forks, stash exceptions, return into "
                    "try_eventually objects; at every join the surfaced exception must be one of those raised below it, none may "
                    "surface if none was raised and no exception object may leak; non-trivial: an exception crossed a stolen scope."},
    "C04": {"jobs": J("tree", "mod", w=2) + J("tree_nd", "mod", w=2) + J("tree_cl", "mod"), "thorough_jobs": J("tree_v", "mod"),
            "oracle": "the completion and failure state of the child recorded by the child itself",
            "rule": "Random programs forking with every dispatch modifier, in and outside of scopes, children finishing or throwing "
                    "before or after the continuation is stolen; non-trivial: a modifier took its stolen or its exceptional path."},
    "C05": {"jobs": J("tree", "mem") + J("tree_cl", "mem", "alloc") + J("tree_nd", "mem") + J("types", "types", w=0.5) +
            J("deep", "deep", w=0.5) + J("tree_v", "mem"), "thorough_jobs": J("tree_v1", "mem", "alloc"),
            "oracle": "byte canaries in frames and co_new blocks, a shadow heap with poisoning and quarantine, and a leak check",
            "rule": "Random programs with frames of 0 to several kB, co_new of objects and arrays of several alignments, moves between "
                    "workers, sizes chosen so that stacks keep growing and shrinking across block borders; non-trivial: a continuation was stolen while "
                    "co_new memory was alive."},
    "C06": {"quick_s": 45, "jobs": J("tree", "alloc", w=2) + J("tree_cl", "alloc", w=2) + J("tree_nd", "alloc") + J("prims", "deque_alloc") +
            J("sched", "refuse") + J("sched", "setup", w=0.7) + J("deep", "deep", w=0.5) + J("workers", "workers", w=0.5) +
            J("algo_each", "for_each", w=0.6) + J("algo_fold", "fold", w=0.4), "thorough_jobs": J("tree_v1", "alloc"),
            "oracle": "the serial result of the program with exactly the failed dispatches removed, and a leak check",
            "rule": "Random programs in which any heap allocation made inside a task expression, a schedule or a queue growth may "
                    "fail; the program catches bad_alloc where it is documented to surface and goes on; "
                    "algorithms whose internal tasks outgrow their stack while allocations fail; pools set up while an allocation before or after "
                    "the start of their threads, or a unit_pool's thread, fails; non-trivial: an allocation "
                    "failed inside the library."},
    "C07": {"jobs": J("tree", "switch", "hand") + J("tree_nd", "switch", "hand") + J("tree_cl", "switch", "hand", w=0.7),
            "thorough_jobs": J("tree_v", "switch", "hand"),
            "oracle": "the requested worker, exactly-once counters and the serial result",
            "rule": "Random programs that call resume_on for random workers and use hand-written context switchers between forks, "
                    "inside and outside of scopes; non-trivial: a task moved to another worker."},
    "C08": {"jobs": J("sched", "future", w=3) + J("sched", "refuse") + J("sched_nd", "future", w=2) + J("sched_nd", "refuse") +
            J("sched_cl", "future") + J("types", "types", w=0.5),
            "oracle": "a model of each future's life cycle and the log each root task keeps",
            "rule": "Several client threads schedule root tasks of seven result kinds on a pool and apply random sequences of "
                    "wait/get/detach/move/destroy to the futures, gates decide whether the task can have finished; schedulers that "
                    "throw; non-trivial: an operation was applied before the task finished."},
    "C09": {"jobs": J("prims", "deque", w=2) + J("prims", "deque_big", "deque_alloc") + J("prims_nd", "deque", w=2) +
            J("prims_nd", "deque_big") + J("prims_cl", "deque", "deque_big"),
            "oracle": "a linearizability search against a sequential double-ended queue",
            "rule": "One owner and 1-4 thieves execute random operation sequences on a deque of initial capacity 1 and up, growing it "
                    "repeatedly; the recorded history must have a linearization; items carry unsynchronised payloads checked for "
                    "races; non-trivial: a steal overlapped a pop of the last items or a growth."},
    "C10": {"jobs": J("prims", "list", "list_resubmit") + J("prims_nd", "list", "list_resubmit") + J("prims_cl", "list", w=0.7),
            "oracle": "per-item delivery counters and per-producer order",
            "rule": "1-4 producers push nodes with plain payloads, the consumer takes all and recycles each node as soon as it is "
                    "visited, also pushing it again from another thread; non-trivial: a push raced with a take."},
    "C11": {"jobs": J("prims", "ec_tokens", "ec_all", "ec_flag") + J("prims_nd", "ec_tokens", "ec_all", "ec_flag") +
            J("prims_cl", "ec_tokens", "ec_flag", w=0.7),
            "oracle": "liveness (no waiter sleeps with its condition true) and happens-before",
            "rule": "Waiters follow the announce/re-check/commit-or-cancel protocol against notifiers using notify_one and notify_all; "
                    "a run in which every thread sleeps is a violation; non-trivial: a waiter went to sleep in the kernel futex."},
    "C12": {"jobs": J("sched", "lazy", w=2) + J("sched", "lazy_thief", "life_lazy") + J("sched_nd", "lazy", "lazy_thief") +
            J("sched_cl", "lazy"), "thorough_jobs": J("sched_nh", "lazy", "lazy_thief"),
            "oracle": "progress within a bounded number of fair steps, quiescence of idle pools and exactly-once counters",
            "rule": "External and worker-side submissions, switching, forking tasks and pauses on lazy pools of 1-4 workers in one or "
                    "two NUMA nodes; all work must finish, idle pools must block every worker, and a task that only another worker "
                    "can unblock by stealing must be unblocked; non-trivial: a worker slept and was woken."},
    "C13": {"jobs": J("sched", "busy", w=2) + J("sched", "life_busy") + J("sched_nd", "busy", w=2) + J("sched_cl", "busy"), "thorough_jobs": J("sched_nh", "busy"),
            "oracle": "progress within a bounded number of fair steps and exactly-once counters",
            "rule": "External and worker-side submissions, switching and forking tasks on busy pools of 1-4 workers with workers "
                    "stalled arbitrarily long; everything must finish; non-trivial: more than one worker executed work."},
    "C14": {"jobs": J("sched", "unit", w=2) + J("sched_nd", "unit", w=2) + J("sched_cl", "unit", w=0.7),
            "oracle": "submission order per client, the executing thread and exactly-once counters",
            "rule": "1-3 client threads submit attached and detached tasks to a unit_pool that is destroyed right afterwards; "
                    "non-trivial: detached work was pending at destruction."},
    "C15": {"jobs": J("sched", "life_lazy", "life_busy", "churn") + J("sched_nd", "life_lazy", "life_busy", "churn") +
            J("sched_cl", "life_lazy", "churn", w=0.7), "thorough_jobs": J("sched_nh", "life_lazy", "life_busy"),
            "oracle": "thread accounting, the shadow heap and leak check, and progress of the destructor",
            "rule": "Pools of 1-4 workers constructed, used, moved (also while working), move-assigned, swapped and destroyed at any "
                    "point relative to their workers' start-up and to completion of their work; non-trivial: destruction or a move "
                    "overlapped with running workers."},
    "C16": {"jobs": J("algo_each", "for_each") + J("algo_each_nd", "for_each"), "thorough_jobs": J("algo_each_cl", "for_each"),
            "oracle": "a per-element application count and the set of injected throws",
            "rule": "for_each over vectors, arrays, iterator pairs, views and projected ranges of 0-40 elements (sometimes up to 740) with grain sizes from 1 "
                    "to beyond the length, regular and async functions, throwing at random elements, allocations "
                    "failing in tasks that outgrow their stack, on all pools; non-trivial: a continuation inside the algorithm was "
                    "stolen or an element threw."},
    "C17": {"jobs": J("algo_each", "map") + J("algo_each_nd", "map"), "thorough_jobs": J("algo_each_cl", "map"),
            "oracle": "a serial map, guard elements around the output and the set of injected throws",
            "rule": "map over inputs of 0-40 elements (sometimes up to 740) into distinct or identical outputs with grain sizes from 1 to beyond the length, "
                    "regular and async functions, projections, throwing at random elements, on all pools; non-trivial: a continuation "
                    "inside the algorithm was stolen or an element threw."},
    "C18": {"jobs": J("algo_fold", "fold") + J("algo_fold_nd", "fold"), "thorough_jobs": J("algo_fold_cl", "fold"),
            "oracle": "the serial left fold and the set of injected throws",
            "rule": "fold with commutative and non-commutative associative operations (string concatenation, affine maps, move-only "
                    "values), regular and async, grain sizes from 1 to beyond the length, 0-40 elements (sometimes up to 740), throwing at random operands, "
                    "on all pools; non-trivial: a continuation inside the algorithm was stolen or an operand threw."},
    "C19": {"jobs": J("algo_scan", "scan") + J("algo_scan_nd", "scan"), "thorough_jobs": J("algo_scan_cl", "scan"),
            "oracle": "the serial inclusive scan, guard elements around the output and the set of injected throws",
            "rule": "scan with commutative and non-commutative associative operations, regular and async, grain sizes from 1 to beyond "
                    "the length, 0-40 elements (sometimes up to 740), in place and out of place, throwing at random operands, on all pools; non-trivial: a "
                    "continuation inside the algorithm was stolen or an operand threw."},
    "C20": {"jobs": J("workers", "workers", w=2) + J("workers", "pools") + J("workers_nd", "workers", w=2) + J("workers_nd", "pools") +
            J("workers_cl", "workers"),
            "oracle": "notification and execution counters, the executing thread, the serial result and the documented exceptions",
            "rule": "1-3 threads register as workers (with failing allocations and misuse), run a polling, sleeping or mixed "
                    "submit/steal/resume loop, unregister, act as clients and register again, while tasks travel between them and "
                    "unit, lazy and busy pools; non-trivial: tasks travelled."},
    "C21": {"quick_s": 60, "jobs": J("tree", "all") + J("tree_nd", "all") + J("tree_cl", "mem") + J("sched", "future", "lazy", "busy", "unit", "life_lazy") +
            J("sched_nd", "lazy", "life_busy") + J("prims", "deque_big", "list_resubmit", "ec_tokens") + J("algo_scan", "scan") +
            J("algo_each", "map") + J("workers", "pools") + J("types", "types") + J("sched_cl", "life_busy", "lazy") +
            J("prims_cl", "list_resubmit", "ec_all", w=0.5),
            "oracle": "vector-clock race detection under the simulated C++ memory model, a shadow heap with poisoning and quarantine, "
                      "bounds of simulated stacks, and the library's own assertions",
            "rule": "A mix of every other scenario (fork-join programs with all features, algorithms, futures, every pool, switching, "
                    "the queues) in builds with internal assertions on and optimised builds; non-trivial: as in those scenarios."},
    "C22": {"jobs": J("numa", "distribute", w=0.6) + J("numa", "meet", w=2) + J("numa_nd", "distribute", w=0.4) + J("numa_nd", "meet") +
            J("numa_nh", "distribute", w=0.2) + J("numa_nh", "meet", w=0.6), "thorough_jobs": J("numa_cl", "meet"),
            "oracle": "a model of the generated machine: distances, memories and packages of every processing unit",
            "rule": "Machines of 1-48 processing units (packages, L3 domains, cores, threads, memory attached at three levels), whole or with "
                    "random units and memories missing (as a container sees them), and builds without hwloc, with 1 to "
                    "more workers than units and both strategies, in half of the runs after an attempt in which hwloc calls or "
                    "allocations fail; on smaller machines pools are built and each worker must manage to "
                    "steal a task that waits for all the others; non-trivial: more than one worker."},
    "C23": {"quick_s": 100, "jobs": J("tree_sh", "all", w=2) + J("tree_sh", "exc", "mod", "mem", "alloc", "switch", w=0.7) +
            J("sched_sh", "future", "lazy", "busy", "unit", "life_lazy", "life_busy") + J("sched_sh", "refuse", "setup", "lazy_thief", "churn", w=0.6) +
            J("prims_sh", "deque", "list", "ec_tokens") + J("prims_sh", "deque_big", "deque_alloc", "list_resubmit", "ec_all", "ec_flag", w=0.6) +
            J("algo_each_sh", "for_each", "map") + J("algo_scan_sh", "scan") + J("algo_fold_sh", "fold") + J("workers_sh", "workers") +
            J("numa_sh", "meet") + J("numa_sh", "distribute", w=0.3) + J("types_sh", "types") + J("deep_sh", "deep", w=0.5) +
            J("memory_sh", "memory", w=0.7),
            "oracle": "the oracles of the other checks",
            "rule": "The scenarios of the other checks compiled against single_header/libfork.hpp only; non-trivial: as in those "
                    "scenarios."},
    "C25": {"jobs": J("memory", "memory", w=2) + J("memory_nd", "memory", w=2), "thorough_jobs": J("memory_cl", "memory"),
            "oracle": "bytes held by the heap compared with the frames and blocks of the tasks alive, and the number of tasks begun and "
                      "not finished",
            "rule": "Wide scopes, loops of up to 250 scopes or calls, chains of up to 90 tasks, trees and single blocks of 64 kB-4 MB with "
                    "frames of 0-30 kB, 1-3 roots at a time, 1-50 rounds on one pool; the heap is compared with the live tasks whenever "
                    "a task begins, between forks, and when the pool is idle; non-trivial: more tasks were alive than one path holds."},
}

KNOWN_SCENARIOS = {}

NOT_APPLICABLE = {
    "C24": "xoshiro is a pure sequential function of its seed: no scheduling, clock, I/O or fault can influence it, so simulation has "
           "nothing to decide here",
}
