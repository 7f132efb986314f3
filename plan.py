"""Which builds and workloads decide which property (read by check.py and tools/gen_manifest.py)."""
from dataclasses import dataclass, field

_N = ["cargo", "+nightly"]
_T = "x86_64-unknown-linux-gnu"
BUILDS = {
    # optimised, with debug assertions and overflow checks; parking_lot, ahash, stats
    "checked": dict(cmd=["cargo", "build", "--offline", "--profile", "checked", "--features", "pl,ah,stats"], bin="checked/qcmon"),
    # what users ship: no debug assertions, no stats
    "rel": dict(cmd=["cargo", "build", "--offline", "--release", "--features", "pl,ah"], bin="release/qcmon"),
    # no default features: std locks (poisoning) and std hasher
    "shuttle": dict(cmd=["cargo", "build", "--offline", "--profile", "checked", "--features", "shuttle,stats"], bin="checked/qcmon"),
    "std": dict(cmd=["cargo", "build", "--offline", "--profile", "checked", "--features", "stats"], bin="checked/qcmon"),
    # AddressSanitizer, without debug assertions (what users ship) and LeakSanitizer left out: programs leak on purpose
    "asan": dict(cmd=_N + ["build", "--offline", "--release", "--target", _T, "--features", "pl,ah,stats"], bin=f"{_T}/release/qcmon",
                 env=dict(RUSTFLAGS="-Zsanitizer=address -Awarnings"), run_env=dict(ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=1")),
    # ThreadSanitizer over an instrumented std; the harness' own synchronisation is relaxed so that it hides no race
    "tsan": dict(cmd=_N + ["build", "--offline", "--release", "-Zbuild-std", "--target", _T, "--features", "pl,ah,stats"], bin=f"{_T}/release/qcmon",
                 env=dict(RUSTFLAGS="-Zsanitizer=thread --cfg qcmon_relaxed -Awarnings"), run_env=dict(TSAN_OPTIONS="halt_on_error=0:second_deadlock_stack=1")),
    # Miri: undefined behaviour, Stacked Borrows, data races, weak memory
    "miri": dict(cmd=_N + ["miri", "run", "--offline", "-q", "--features", "stats", "--", "nop"], run=_N + ["miri", "run", "--offline", "-q", "--features", "stats", "--"],
                 env=dict(RUSTFLAGS="--cfg qcmon_relaxed -Awarnings", MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-permissive-provenance")),
}


@dataclass
class Job:
    name: str
    cfg: str
    args: list
    cases: int = 1000
    secs: float = 60
    workers: int = 8
    par: int = 8
    timeout: float = 600
    phase: int = 0
    salt: int = 0
    group: str = ""
    writes_out: bool = True
    env: dict = field(default_factory=dict)

    def env_for(self, seed, w):
        return {k: v.format(seed=seed, w=w) for k, v in self.env.items()}


@dataclass
class Prop:
    technique: str
    rule: str
    note: str
    quick: callable
    thorough: callable
    level: str = "exploration"
    assumptions: list = field(default_factory=list)
    floor: dict = field(default_factory=dict)

    def jobs(self, tier):
        return self.quick() if tier == "quick" else self.thorough()

    def floors(self, tier):
        return self.floor



BIG = 10 ** 9
ALLK = ("unsync", "sync", "unsync-default", "sync-default")


def seq(focus, secs, kinds=ALLK, cfgs=(("checked", 4), ("rel", 2), ("std", 2)), engine="seq", phase=0):
    return [Job(f"{engine}-{c}", c, [engine, "--kinds", ",".join(kinds), "--focus", focus, "--cases", "{cases}", "--secs", "{secs}"],
                cases=BIG, secs=secs, workers=n, salt=i * 131, group=engine, timeout=secs + 120, phase=phase) for i, (c, n) in enumerate(cfgs)]


def conc(focus, secs, cfgs=(("checked", 2), ("std", 1), ("rel", 1)), phase=1):
    # every worker is itself a multi-threaded stress test, so fewer of them than cores
    return [Job(f"stress-{c}", c, ["conc", "--focus", focus, "--cases", "{cases}", "--secs", "{secs}"],
                cases=BIG, secs=secs, workers=n, par=4, salt=500 + i * 131, group="stress", timeout=secs + 150, phase=phase) for i, (c, n) in enumerate(cfgs)]


def shuttle(focus, secs, workers=8, phase=2):
    return [Job("schedules", "shuttle", ["conc", "--focus", focus, "--cases", "{cases}", "--secs", "{secs}"],
                cases=BIG, secs=secs, workers=workers, salt=900, group="schedules", timeout=secs + 150, phase=phase)]


def nest(focus, secs, phase=3):
    return [Job(f"nested-{c}", c, ["nest", "--kinds", "sync,sync-default", "--focus", focus, "--cases", "{cases}", "--secs", "{secs}"],
                cases=BIG, secs=secs, workers=n, salt=300 + i * 131, group="nested", timeout=secs + 120, phase=phase) for i, (c, n) in enumerate((("checked", 4), ("std", 2), ("rel", 2)))]


def sc(focus, s, c, h, **kw):
    """sequential programs for s seconds, native stress for c, controlled schedules for h"""
    return (seq(focus, s, **kw) if s else []) + (conc(focus, c) if c else []) + (shuttle(focus, h) if h else [])


def timing(secs, phase=3):
    # measures durations: alone, with at most half of the cores
    return [Job("timing", "rel", ["timing", "--focus", "C11", "--cases", "{cases}", "--secs", "{secs}"],
                cases=BIG, secs=secs, workers=3, par=3, salt=700, group="timing", timeout=secs + 120, phase=phase)]


def mem(secs, phase=3, focus="C13", kinds="unsync,sync", workers=8):
    return [Job("memory", "rel", ["mem", "--kinds", kinds, "--focus", focus, "--cases", "{cases}", "--secs", "{secs}"],
                cases=BIG, secs=secs, workers=workers, salt=720, group="mem", timeout=secs + 120, phase=phase)]


def steady(secs):
    return [Job(f"allocations-{c}", c, ["mem", "--kinds", "steady-sync,steady-unsync", "--focus", "C24", "--cases", "{cases}", "--secs", "{secs}"],
                cases=BIG, secs=secs, workers=n, salt=740 + 131 * i, group="mem", timeout=secs + 120) for i, (c, n) in enumerate((("rel", 4), ("std", 2), ("checked", 2)))]


def engine(name, focus, kinds, secs, cfgs):
    return seq(focus, secs, kinds=kinds, cfgs=cfgs, engine=name)


def raw(cfg, kinds, secs, workers, phase, engine="raw", env=None, par=8, n="", salt=0):
    args = [engine] + (["--kinds", kinds] if kinds else []) + ["--focus", "C14", "--cases", "{cases}", "--secs", "{secs}"]
    return [Job(f"{cfg}-{engine}{n}", cfg, args, cases=BIG, secs=secs, workers=workers, par=par, salt=salt + 800 + phase, group=f"{cfg}-{engine}{n}",
                timeout=secs + 240, phase=phase, writes_out=cfg != "miri", env=env or {})]


MF = "-Zmiri-disable-isolation -Zmiri-permissive-provenance -Zmiri-seed={seed}{w}"
TB = dict(MIRIFLAGS=MF + " -Zmiri-tree-borrows")
MS = dict(MIRIFLAGS=MF)
RAWK, LEAKK = ",".join(ALLK), "leak-unsync,leak-sync"


def memory_safety(m, a, t):
    """Miri for m seconds, AddressSanitizer for a, ThreadSanitizer for t"""
    return (raw("miri", RAWK, m, 3, 0, env=MS) + raw("miri", LEAKK, m, 2, 0, env=TB, n="-leak") + raw("miri", "", m, 3, 0, engine="conc", env=MS)
            + raw("asan", RAWK, a, 3, 1) + raw("asan", LEAKK, a, 2, 1, n="-leak") + raw("asan", RAWK, a, 3, 1, engine="fault")
            + raw("asan", "", a / 2, 2, 2, engine="conc", par=4) + raw("asan", "sync,sync-default", a / 2, 1, 2, engine="nest", par=4) + raw("checked", RAWK + "," + LEAKK + ",traits", a / 2, 2, 2, par=4)
            + raw("tsan", "", t, 4, 3, engine="conc", par=4))


STATS = (("checked", 5), ("std", 3))
PLAN = {}


def add(pid, **kw):
    kw["technique"] = "runtime monitoring: " + kw["technique"]
    PLAN[pid] = Prop(**kw)


SEQR = ("seq: a case is one random program (5-400, some 600-3000 calls) over the whole public API of a cache with random capacity, weights, pins, hooks, "
        "hasher, shards, held guards and futures; after every call the return value, contents, reports, hook log and live-instance "
        "counters are judged. ")
CONR = ("stress: a case is one run of a random 2-6 thread/task program on real threads with injected delays; schedules: the same under the "
        "shuttle scheduler with a random or PCT schedule; the recorded call/return history is judged offline. ")
NESR = ("nested: a case is one program of calls nested in loaders and held guards on one thread (writes, removals and waits on the keys "
        "being loaded), judged call by call against a map and the set of loads in flight. ")
DIS = "Distinct: by hash of the executed operations and what they returned; "
TRUST = ["the harness' own keys, values, weight function, hooks and reference monitors", "the compiler, hashbrown, parking_lot/std locks"]
SHUT = "shuttle's scheduler model: sequentially consistent, switches at lock, atomic and park operations only"
NOTE = "Holds on the executions observed (seeded random exploration, not exhaustive); trusts the harness' monitors. "

add("C01", technique="invariant monitor on weight()/capacity() after every call and from observer threads",
    rule=SEQR + CONR + DIS + "non-trivial: at least one item was evicted for capacity (seq) or calls overlapped (stress, schedules).",
    note=NOTE + "Weights are chosen so that sums fit in 64 bits.",
    quick=lambda: sc("C01", 12, 6, 6), thorough=lambda: sc("C01", 600, 200, 200),
    assumptions=TRUST + [SHUT], floor={"seq.evictions": 1000, "seq.snapshots_over_capacity": 100, "stress.calls": 1000, "schedules.calls": 1000})
add("C02", technique="contents vs. len/is_empty/weight cross-check after every call and at quiescence of concurrent runs",
    rule=SEQR + CONR + DIS + "non-trivial: in-place weight changes, evictions or overweight rejections happened (seq) or calls overlapped.",
    note=NOTE, quick=lambda: sc("C02", 14, 6, 5), thorough=lambda: sc("C02", 600, 200, 200),
    assumptions=TRUST + [SHUT], floor={"seq.in_place_mutations": 500, "seq.ops": 50000, "stress.calls": 1000, "schedules.calls": 1000})
add("C03", technique="shadow-map oracle over every lookup of random programs with adversarial hashers",
    rule=SEQR + CONR + DIS + "non-trivial: lookups hit and missed, and items were evicted or displaced.",
    note=NOTE, quick=lambda: sc("C03", 14, 5, 5), thorough=lambda: sc("C03", 600, 200, 200),
    assumptions=TRUST + [SHUT], floor={"seq.lookup_hits": 5000, "seq.lookup_misses": 5000, "seq.displaced": 1000})
add("C04", technique="linearizability checking of recorded histories (native stress and controlled schedules)",
    rule=CONR + DIS + "non-trivial: at least two calls on one key overlapped in time.",
    note=NOTE + "A history is accepted if some linearization as a map with spontaneous evictions explains it; eviction-free programs are judged against a plain map.",
    quick=lambda: sc("C04", 0, 14, 14), thorough=lambda: sc("C04", 0, 700, 700),
    assumptions=TRUST + [SHUT], floor={"stress.lin_keys_with_overlap": 500, "schedules.lin_keys_with_overlap": 2000})
add("C05", technique="resident-set difference monitor around every call",
    rule=SEQR + DIS + "non-trivial: at least one eviction and one admission of an unseen key happened.",
    note=NOTE, quick=lambda: sc("C05", 20, 0, 0), thorough=lambda: sc("C05", 900, 0, 0),
    assumptions=TRUST, floor={"seq.evictions": 1000, "seq.fresh_admissions": 1000, "seq.rejected_overweight": 1000})
add("C06", technique="resident-set difference monitor on pinned/weightless items around every call",
    rule=SEQR + CONR + DIS + "non-trivial: evictions happened while pinned or weightless items were resident.",
    note=NOTE, quick=lambda: sc("C06", 16, 4, 5), thorough=lambda: sc("C06", 700, 150, 150),
    assumptions=TRUST + [SHUT], floor={"seq.evictions_beside_pinned_or_weightless": 2000, "seq.zeroed_by_hook": 200, "stress.pinned_lookups": 100, "schedules.pinned_lookups": 100})
add("C07", technique="exactly-once conservation checker over hook log, returned pairs and live-instance counters",
    rule=SEQR + CONR + DIS + "non-trivial: pairs left the cache by at least two different routes.",
    note=NOTE, quick=lambda: sc("C07", 14, 6, 6), thorough=lambda: sc("C07", 600, 200, 200),
    assumptions=TRUST + [SHUT], floor={"seq.evictions": 1000, "seq.displaced": 1000, "seq.late_guard_inserts": 50, "stress.calls": 1000})
add("C08", technique="online checker of the hook-call protocol (begin / before_evict / on_evict / end)",
    rule=SEQR + CONR + DIS + "non-trivial: evictions, displacements and before-evict calls were reported inside requests.",
    note=NOTE, quick=lambda: sc("C08", 16, 5, 4, kinds=("unsync", "sync")), thorough=lambda: sc("C08", 600, 200, 150, kinds=("unsync", "sync")),
    assumptions=TRUST + [SHUT], floor={"seq.evictions": 1000, "seq.displaced": 1000})
add("C09", technique="guard-ownership monitor over recorded histories of loads under unrelated traffic",
    rule=SEQR + CONR + NESR + DIS + "non-trivial: a guard was held while other calls on the key arrived.",
    note=NOTE, quick=lambda: sc("C09", 8, 9, 10, kinds=("sync", "sync-default")) + nest("C09", 4), thorough=lambda: sc("C09", 200, 400, 500, kinds=("sync", "sync-default")) + nest("C09", 100),
    assumptions=TRUST + [SHUT], floor={"nested.loads_overtaken": 2000, "stress.guards_held": 1000, "stress.loader_runs": 500, "schedules.guards_held": 2000, "stress.waiters_served": 20, "seq.ops_with_loads_in_flight": 1000})
add("C10", technique="stranded-waiter detection (kernel task states natively, scheduler deadlock detection under shuttle) and handover monitor",
    rule=SEQR + CONR + NESR + DIS + "non-trivial: some call waited on another caller's guard or a future was abandoned.",
    note=NOTE, quick=lambda: sc("C10", 8, 10, 12, kinds=("sync", "sync-default")) + nest("C10", 4), thorough=lambda: sc("C10", 150, 400, 600, kinds=("sync", "sync-default")) + nest("C10", 100),
    assumptions=TRUST + [SHUT], floor={"nested.loads_overtaken": 2000, "seq.handovers": 50, "seq.future_waits": 100, "stress.futures_abandoned": 200, "schedules.futures_abandoned": 500})
add("C11", technique="duration, hand-over and heap monitors of timed and abandoned waits",
    rule=SEQR + CONR + DIS + "non-trivial: a wait timed out or a future was abandoned.",
    note=NOTE, quick=lambda: sc("C11", 8, 8, 10, kinds=("sync", "sync-default")) + timing(12) + mem(4, phase=4, focus="C11", kinds="held"), thorough=lambda: sc("C11", 150, 400, 500, kinds=("sync", "sync-default")) + timing(300) + mem(30, phase=4, focus="C11", kinds="held"),
    assumptions=TRUST + [SHUT], floor={"seq.timeouts_observed": 500, "stress.timeouts": 10, "schedules.timeouts": 100, "mem.waits_given_up_on_a_held_guard": 5000})
add("C12", technique="visibility monitor while guards are held, and late-insertion checker on recorded histories",
    rule=SEQR + CONR + NESR + DIS + "non-trivial: calls were made while a load was in flight.",
    note=NOTE, quick=lambda: sc("C12", 10, 8, 8, kinds=("sync", "sync-default")) + nest("C12", 6), thorough=lambda: sc("C12", 300, 300, 400, kinds=("sync", "sync-default")) + nest("C12", 200),
    assumptions=TRUST + [SHUT], floor={"nested.loads_overtaken": 2000, "seq.ops_with_loads_in_flight": 5000, "seq.late_guard_inserts": 100, "stress.late_guard_inserts": 50, "schedules.late_guard_inserts": 100})
add("C13", technique="live-instance counting of keys and values after every call, and a counting allocator under long churn",
    rule=SEQR + "mem: a case is one cache churned for many turn-overs of its capacity while the bytes its allocator hands out are compared early and late. " + CONR + DIS + "non-trivial: loads failed or items were evicted.",
    note=NOTE, quick=lambda: sc("C13", 10, 5, 5) + mem(8), thorough=lambda: sc("C13", 400, 200, 200) + mem(300),
    assumptions=TRUST + [SHUT], floor={"seq.failed_loads": 500, "seq.evictions": 500, "mem.churn_steps": 10000, "mem.waits_given_up_on_a_held_guard": 10000})
add("C14", technique="Miri (Stacked and Tree Borrows, data races), AddressSanitizer, ThreadSanitizer and debug-assertion builds over hostile programs",
    rule="A case is one program under a sanitizer: raw = a random single-threaded program over the whole API with minimal monitoring; leak = one that forgets guards, "
         "references and iterators; fault = one with a panic injected into a callback; conc = a random multi-threaded program; nest = calls nested in loaders. " + DIS + "every one runs the code under the sanitizer.",
    note=NOTE + "Executions under Miri are short (tens of calls); ASan and TSan see what a native execution does.",
    quick=lambda: memory_safety(55, 14, 14), thorough=lambda: memory_safety(1500, 400, 500),
    assumptions=TRUST + ["the sanitizers and Miri"],
    floor={"miri-raw.programs": 20, "miri-raw-leak.leaking_programs": 40, "miri-conc.calls": 100, "asan-raw.ops": 20000, "asan-fault.faults_in_Weight": 50,
           "asan-raw-leak.leaked_guards_and_references": 5000, "asan-conc.calls": 1000, "asan-nest.loads": 1000, "checked-raw.auto_trait_judgements": 100, "tsan-conc.calls": 1000, "tsan-conc.overlapping_calls": 500})
add("C15", technique="fault injection: a panic at every user callback, with monitors on propagation, instances and later calls",
    rule=SEQR + "fault: a case re-runs a random program with one panic injected at the n-th callback (or n-th of a kind) of one call, then keeps using and drops the cache. "
        + CONR + DIS + "non-trivial: a user callback panicked.",
    level="fault_enumeration",
    note="Faults are enumerated for sampled programs: every callback invocation of the attacked call. " + NOTE,
    quick=lambda: seq("C15", 16, engine="fault", cfgs=(("checked", 3), ("std", 3), ("rel", 2))) + sc("C15", 6, 5, 0),
    thorough=lambda: seq("C15", 600, engine="fault", cfgs=(("checked", 3), ("std", 3), ("rel", 2))) + sc("C15", 200, 200, 0),
    assumptions=TRUST, floor={f"fault.faults_in_{k}": 100 for k in "Before Begin End Eq Hash KeyClone Loader OnEvict Pinned Pred ValClone Weight".split()} | {"seq.user_panics": 200})
add("C16", technique="differential monitor: twin caches, one of them observed at random points",
    rule="twin: a case runs one random program on two identically configured caches, one of which is also observed (peek, contains, iter, retain-all, reserve, clone, reports, soft replace) "
         "between calls; eviction sequences and contents are compared after every call. " + DIS + "non-trivial: something was evicted.",
    note=NOTE, quick=lambda: seq("C16", 22, kinds=("unsync", "sync", "unsync-default"), engine="twin"), thorough=lambda: seq("C16", 900, kinds=("unsync", "sync", "unsync-default"), engine="twin"),
    assumptions=TRUST, floor={"twin.evictions": 5000, "twin.observations": 20000, "twin.soft_replaces": 500})
add("C17", technique="differential monitor against LRU on the same trace, and victim monitors on constructed access patterns",
    rule="policy: a case is one scenario: a new cache (or one used and emptied before), a working set with references, then scans, one-hit wonders, returning ghosts or skewed traces of random size on a random configuration; which keys "
         "survive and the hit rate next to an LRU of the same capacity are judged. " + DIS + "every case evicts.",
    note=NOTE + "Hit rates are judged with wide margins (a tenth above LRU where at least a fifth was observed).",
    quick=lambda: engine("policy", "C17", ("unsync", "sync"), 20, (("checked", 4), ("rel", 4))),
    thorough=lambda: engine("policy", "C17", ("unsync", "sync"), 600, (("checked", 4), ("rel", 4))), assumptions=TRUST,
    floor={f"policy.{k}": 100 for k in "scan_resistance reuse second_chance ghost_returns ghost_returns_among_others emptied_before hit_rate_runs scan_resistance_sharded".split()})
add("C18", technique="monitor of what a built cache does against the options that asked for it",
    rule="config: a case builds a cache through one constructor or builder call order with random or extreme options and probes what it reports and how much it holds; policy: a case evicts keys, brings one back and sees whether it was remembered. " + DIS + "every case builds at least one cache.",
    note=NOTE, quick=lambda: engine("config", "C18", ("x",), 15, (("checked", 3), ("rel", 3), ("std", 2))) + seq("C18", 4, kinds=("unsync", "sync"), cfgs=(("checked", 4), ("rel", 4)), engine="policy", phase=1),
    thorough=lambda: engine("config", "C18", ("x",), 500, (("checked", 3), ("rel", 3), ("std", 2))) + seq("C18", 150, kinds=("unsync", "sync"), cfgs=(("checked", 4), ("rel", 4)), engine="policy", phase=1), assumptions=TRUST,
    floor={"policy.remembered_probes": 200, "policy.forgotten_probes": 200, "config.builder_checks": 1000, "config.caches_overfilled": 200, "config.hot_share_probes": 200, "config.sharded_caches": 200})
add("C19", technique="differential monitor: clone and original run the same and then different programs",
    rule="clone: a case runs a random program, clones the cache, compares both copies under the same calls, then runs different programs on them against their own monitors. " + DIS + "non-trivial: something was evicted.",
    note=NOTE, quick=lambda: seq("C19", 20, kinds=("unsync", "unsync-default"), engine="clone"), thorough=lambda: seq("C19", 700, kinds=("unsync", "unsync-default"), engine="clone"),
    assumptions=TRUST, floor={"clone.clones": 1000, "clone.evictions": 5000})
add("C20", technique="hit/miss counter deltas around every call and totals of concurrent runs",
    rule=SEQR + CONR + DIS + "non-trivial: lookups both hit and missed.",
    note=NOTE, quick=lambda: seq("C20", 14, cfgs=STATS) + conc("C20", 8, cfgs=(("checked", 2), ("std", 2))) + shuttle("C20", 5),
    thorough=lambda: seq("C20", 500, cfgs=STATS) + conc("C20", 200, cfgs=(("checked", 2), ("std", 2))) + shuttle("C20", 100),
    assumptions=TRUST + [SHUT], floor={"seq.lookup_hits": 5000, "seq.lookup_misses": 5000, "seq.loads": 5000, "stress.calls": 1000})
add("C21", technique="exactness monitor of clear/drain/iter/retain against the snapshot before the call; linearizability of histories with clears and selective retains",
    rule=SEQR + CONR + "policy: a case runs one scenario of scans, reuse and returning keys on a cache that was used and emptied before. " + DIS + "non-trivial: a bulk operation ran on a non-empty cache.",
    note=NOTE, quick=lambda: sc("C21", 14, 8, 9) + seq("C21", 5, kinds=("unsync", "sync"), cfgs=(("checked", 4), ("rel", 4)), engine="policy", phase=3),
    thorough=lambda: sc("C21", 700, 150, 150) + seq("C21", 200, kinds=("unsync", "sync"), cfgs=(("checked", 4), ("rel", 4)), engine="policy", phase=3),
    assumptions=TRUST + [SHUT], floor={"policy.emptied_before": 500, "seq.bulk_ops": 2000, "stress.lin_keys_with_bulk": 200, "schedules.lin_keys_with_bulk": 1000})
add("C22", technique="callback budget per call plus a CPU-time/blocked-thread watchdog",
    rule=SEQR + CONR + DIS + "non-trivial: evictions beside pinned or weightless items, or hooks that change weights.",
    note=NOTE + "Termination is judged by a callback budget quadratic in the resident entries and by 30 s of CPU time inside one call.",
    quick=lambda: sc("C22", 16, 4, 4), thorough=lambda: sc("C22", 700, 150, 150),
    assumptions=TRUST + [SHUT], floor={"seq.evictions_beside_pinned_or_weightless": 2000, "seq.ops": 50000})
add("C23", technique="loader-invocation monitor of every load-through and guard call",
    rule=SEQR + CONR + NESR + DIS + "non-trivial: loads hit, missed and failed.",
    note=NOTE, quick=lambda: sc("C23", 14, 5, 5) + nest("C23", 5), thorough=lambda: sc("C23", 600, 200, 200) + nest("C23", 150),
    assumptions=TRUST + [SHUT], floor={"nested.loads_overtaken": 2000, "seq.loads": 10000, "seq.failed_loads": 500, "stress.loader_runs": 500})
add("C24", technique="allocation-counting global allocator over windows of calls after warm-up",
    rule="mem: a case warms one cache up and counts the allocator calls of ten windows of a random mix of calls, each several times the capacity long. " + DIS + "every case counts.",
    note=NOTE + "At most a dozen table growths per shard are tolerated over all windows (five were observed).",
    quick=lambda: steady(15), thorough=lambda: steady(400), assumptions=TRUST,
    floor={"mem.calls_under_allocation_count": 10 ** 7, "mem.windows_without_allocation": 5000})
add("C25", technique="lock-probing monitor: user code has a helper thread use the cache and watches whether the kernel sees it blocked",
    rule="locks: a case runs one scenario (loader, guard or future held, async loader, hooks, waker, clone in a lookup, destructor) on a random cache with some history; each "
         "time user code runs, a helper thread makes a random call and must finish before the user code returns. " + NESR + DIS + "every case probes.",
    note=NOTE, quick=lambda: engine("locks", "C25", ("x",), 24, (("checked", 3), ("std", 3), ("rel", 2))) + nest("C25", 4),
    thorough=lambda: engine("locks", "C25", ("x",), 600, (("checked", 3), ("std", 3), ("rel", 2))) + nest("C25", 100), assumptions=TRUST,
    floor={f"locks.probes_at_{k}": 300 for k in "begin_request clone drop end_request future_held guard_held loader pending_future wake".split()} | {"locks.calls_letting_items_go": 500})
