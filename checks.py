"""Which harnesses decide which property, and with what budget (seconds of search per tier)."""

SIM = ("interleavings are explored at the granularity of the library's atomic, blocking and allocation operations; "
       "weak-memory behaviours are those of the engine's release/acquire + seq_cst model (stale reads of "
       "coherence-ordered stores, happens-before race detection), so out-of-thin-air and load-buffering results "
       "are not produced")
SIMNOTE = ("Randomised search, not exhaustive: finds violations with high probability within the generated program "
           "sizes and up to 6 simulated worker threads; every failure is replayable and shrunk. Trusts the simulator's "
           "model of atomics/mutexes/threads and clang's instrumentation. ")
SIMTECH = ("property-based testing: generated {} executed under a randomised deterministic scheduler with a weak-memory "
           "model, checked against {}, with shrinking")


def fj(profile, **kw):
    return {"name": f"fj{profile}", "src": "sim/fj.cpp", "defs": [f"VF_PROFILE={profile}"], **kw}


def pool(profile, name, hwloc=False, hook=True, **kw):
    d = [f"VF_PROFILE={profile}"]
    if hwloc:
        d.append("VF_HWLOC")
        kw["libs"] = ["-lhwloc"]
    if hook:
        d.append("LF_VERIF_STEAL_ATTEMPTS=1")
    return {"name": name, "src": "sim/pool.cpp", "defs": d, **kw}


def algo(profile):
    """Every overload x iterator family in the simulator, and natively on the bundled pools."""
    it = ["vec", "rev", "iota"]
    return [{"name": f"algo_{it[i]}", "src": "sim/algo.cpp", "defs": [f"VF_PROFILE={profile}", f"VF_ITER={i}"],
             "weight": 4 if i == 0 else 1} for i in range(3)] + [
            {"name": "algo_native", "src": "sim/algo.cpp", "kind": "plain", "opt": "-O1", "threads": True, "weight": 2,
             "defs": [f"VF_PROFILE={profile}", "VF_NATIVE_RUN"]}]


ALGTECH = ("property-based testing: generated calls of every overload (lengths, grains, sync/async callables, projections, "
           "aliasing, exceptions), executed under a randomised deterministic scheduler and natively on the bundled pools, "
           "against the serial algorithm over an adjacency-checking non-commutative operator")

CHECKS = {
    "C01": {"jobs": [fj(1)], "assumptions": [SIM],
            "technique": SIMTECH.format("fork-join programs", "serial elision"), "note": SIMNOTE},
    "C02": {"jobs": [fj(2, weight=5), {"name": "burst", "src": "native/burst.cpp", "kind": "plain", "threads": True,
                                       "weight": 2}], "assumptions": [SIM],
            "technique": SIMTECH.format("fork-join programs", "per-task execution histories and happens-before") +
            "; scopes with very many stolen children natively",
            "note": SIMNOTE},
    "C03": {"jobs": [fj(3)], "assumptions": [SIM],
            "technique": SIMTECH.format("throwing fork-join programs", "an exception-propagation model"),
            "note": SIMNOTE},
    "C04": {"jobs": [fj(4)], "assumptions": [SIM],
            "technique": SIMTECH.format("fork-join programs using every dispatch modifier",
                                        "completion/exception histories"), "note": SIMNOTE},
    "C05": {"jobs": [fj(5)], "assumptions": [SIM],
            "technique": SIMTECH.format("programs allocating with co_new", "overlap/pattern/lifetime invariants"),
            "note": SIMNOTE},
    "C10": {"jobs": [fj(10)], "assumptions": [SIM],
            "technique": SIMTECH.format("programs with context switches", "serial elision and resume histories"),
            "note": SIMNOTE},
    "C06": {"jobs": [{"name": "deque", "src": "sim/deque.cpp", "weight": 6},
                     {"name": "deque_x86", "src": "native/deque_stress.cpp", "kind": "plain", "cxx": "clang", "threads": True,
                      "weight": 1}], "assumptions": [SIM],
            "technique": SIMTECH.format("owner/thief operation histories", "a linearizability oracle"),
            "note": SIMNOTE},
    "C07": {"jobs": [{"name": "list", "src": "sim/list.cpp"}], "assumptions": [SIM],
            "technique": SIMTECH.format("producer/consumer histories", "an exactly-once/ordering/visibility oracle"),
            "note": SIMNOTE},
    "C08": {"jobs": [{"name": "evc", "src": "sim/evc.cpp"}], "assumptions": [SIM],
            "technique": SIMTECH.format("waiter/notifier programs", "deadlock, predicate and visibility oracles"),
            "note": SIMNOTE},
    "C11": {"jobs": [{"name": "future", "src": "sim/future.cpp"}], "assumptions": [SIM],
            "technique": SIMTECH.format("future operation sequences", "a future state machine"),
            "note": SIMNOTE},
    "C16": {"jobs": [{"name": "worker", "src": "sim/worker.cpp"}], "assumptions": [SIM],
            "technique": SIMTECH.format("registration/submission sequences with allocation failures",
                                        "a registration model"),
            "note": SIMNOTE},
    "C09": {"jobs": [pool(9, "pool", weight=4), pool(9, "pool_hwloc", hwloc=True, weight=3),
                     pool(9, "pool_long", hook=False, weight=1)], "assumptions": [SIM],
            "technique": SIMTECH.format("submission and shut-down sequences on the three pools",
                                        "an every-job-runs-once model and a deadlock/livelock detector"),
            "note": SIMNOTE},
    "C23": {"jobs": [pool(23, "move")], "assumptions": [SIM],
            "technique": SIMTECH.format("submission/move sequences on pools", "an every-job-runs-once model"),
            "note": SIMNOTE},
    "C15": {"jobs": [{"name": "eventually", "src": "native/eventually.cpp", "kind": "asan", "opt": "-O0"}], "assumptions": [
                "one thread uses an eventually at a time (as in the fork-join model)"],
            "technique": "property-based testing: random operation sequences over a family of contained types against a "
                         "three-state model with counted objects, under ASan/UBSan, with shrinking",
            "note": "Randomised model-based testing over 15 value/reference/void instantiations with and without exceptions. "
                    "Trusts g++'s sanitizers. "},
    "C19": {"jobs": [{"name": "prng", "src": "native/prng.cpp", "kind": "asan"}],
            "assumptions": ["the reference recurrence is transcribed correctly from prng.di.unimi.it/xoshiro256starstar.c"],
            "technique": "property-based testing: generated states and operation sequences against a reference generator; jumps "
                         "against powers of its transition matrix over GF(2)",
            "note": "Randomised differential testing; the jump oracle is algebraic and independent of the jump polynomials. "},
    "C20": {"jobs": [{"name": "numa", "src": "native/numa.cpp", "kind": "asan", "defs": ["LF_USE_HWLOC"], "libs": ["-lhwloc"],
                      "weight": 6},
                     {"name": "numa_none", "src": "native/numa.cpp", "kind": "asan", "single": True}],
            "assumptions": ["hwloc itself (synthetic topologies, XML import, CPU set queries) is correct"],
            "technique": "property-based testing: generated hwloc topologies (symmetric and restricted), worker counts and "
                         "strategies against an oracle computed from CPU sets alone",
            "note": "Randomised; topologies of up to 48 PUs with up to seven levels. "},
    "C22": {"jobs": [{"name": "header", "src": "native/header.cpp", "kind": "asan", "weight": 4,
                      "aux": [("make_single_header", "{REPO}/tools/make_single_header.cpp")]},
                     fj(1, name="fj1_single", inc=["{HERE}/sim/single", "{REPO}/single_header"], weight=4)],
            "assumptions": ["include directives of library headers start in column one, outside comments and literals",
                            SIM],
            "technique": "property-based testing: the generator run on generated include graphs and on the library, against an "
                         "oracle over the lines; generated fork-join programs compiled against the committed single header",
            "note": "Randomised; graphs of up to 14 headers. "},
    "C21": {"jobs": [{"name": "misc", "src": "sim/misc.cpp"}], "assumptions": [SIM],
            "technique": SIMTECH.format("sequences of just/lift/higher-order/extern/defer operations beside other children",
                                        "in-line evaluation"), "note": SIMNOTE},
    "C17": {"jobs": [{"name": "life", "src": "sim/life.cpp"}], "assumptions": [SIM],
            "technique": SIMTECH.format("invocation/scheduling sequences over counted objects",
                                        "a registry of live objects and a leak detector"), "note": SIMNOTE},
    "C18": {"jobs": [{"name": "oom", "src": "sim/oom.cpp", "weight": 2}] +
            [{"name": f"oom_{a}", "src": "sim/algo.cpp", "defs": [f"VF_PROFILE={p}", "VF_ITER=1", "VF_OOM"], "weight": 1}
             for a, p in (("each", 12), ("fold", 13), ("scan", 14))] +
            [{"name": "oom_deque", "src": "sim/deque.cpp", "defs": ["VF_OOM"], "weight": 1}], "assumptions": [SIM],
            "technique": SIMTECH.format("programs and fault schedules (which allocation of which operation fails)",
                                        "a model in which a failing operation has no effect"), "note": SIMNOTE},
    "C24": {"jobs": [{"name": "static", "src": "native/static.cpp", "kind": "plain", "opt": "-O1", "weight": 8}],
            "assumptions": ["clang's diagnostics name the uses they are about"],
            "technique": "property-based testing: generated uses of the interface, well- and ill-typed, given to the compiler "
                         "against a model of which must be rejected",
            "note": "Randomised; clang only. "},
    "C12": {"jobs": algo(12), "assumptions": [SIM], "technique": ALGTECH, "note": SIMNOTE},
    "C13": {"jobs": algo(13), "assumptions": [SIM], "technique": ALGTECH, "note": SIMNOTE},
    "C14": {"jobs": algo(14), "assumptions": [SIM], "technique": ALGTECH, "note": SIMNOTE},
}
NOT_APPLICABLE = {}
