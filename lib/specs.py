"""Which harness entries decide which property, with the bounds of each tier."""
CONFIGS = {"std": [], "ndebug": ["-DNDEBUG"], "stats": ["-DCO_ECS_WORKER_STATS"]}
COMMON_ASSUMPTIONS = [
    "clang 18 IR of the headers at -O1 without passes (then sroa/early-cse/simplifycfg) represents the code; x86-64 data layout",
    "libstdc++ is executed from its headers; out-of-line pieces (operator new/delete, exception ABI, memcpy, strlen, mutex, thread start/join) are modelled by the executor",
    "operator new never fails; addresses have only the alignment the allocation guarantees",
    "the executor and z3 are trusted for 'held' verdicts; violations are re-run on the compiled library",
]
SPECS = {}
SPECS["C01"] = dict(entries=[
    dict(src="h_handle.cpp", entry="h_handle_pool", reach=["end"], quick=dict(params={"steps": 5}, secs=60), thorough=dict(params={"steps": 7}, secs=600)),
    dict(src="h_handle.cpp", entry="h_registry_handles", reach=["end"], quick=dict(params={"steps": 5}, secs=60), thorough=dict(params={"steps": 7}, secs=600)),
], outside="longer histories; 2^32 recycles of one identifier (generation wrap-around)")
SPECS["C02"] = dict(entries=[
    dict(src="h_registry.cpp", entry="c02_small", reach=["end"], quick=dict(params={"steps": 3, "pre": 2}, secs=60), thorough=dict(params={"steps": 5, "pre": 2}, secs=600)),
    dict(src="h_registry.cpp", entry="c02_blocks", reach=["end"], quick=dict(params={"steps": 2, "kind": 3, "max": 7}, secs=60), thorough=dict(params={"steps": 4, "kind": 3, "max": 7}, secs=600)),
    dict(src="h_registry.cpp", entry="c02_blocks", reach=["end"], quick=dict(params={"steps": 2, "kind": 3, "max": 7, "reuse": 1}, secs=60), thorough=dict(params={"steps": 3, "kind": 3, "max": 7, "reuse": 2}, secs=400)),
    dict(src="h_registry.cpp", entry="c02_drain", reach=["end"], quick=dict(params={"kind": 3, "n": 5}, secs=60), thorough=dict(params={"kind": 4, "n": 8}, secs=600)),
    dict(src="h_registry.cpp", entry="c02_drain", reach=["end"], quick=dict(params={"kind": 6, "n": 6}, secs=60), thorough=dict(params={"kind": 6, "n": 8}, secs=600)),
    dict(src="h_registry.cpp", entry="c02_drain", reach=["end"], quick=dict(params={"kind": 5, "n": 4}, secs=60), thorough=dict(params={"kind": 5, "n": 7}, secs=600)),
    dict(src="h_registry.cpp", entry="c02_alias", reach=["end"], quick=dict(params={"pre": 3, "steps": 2}, secs=60), thorough=dict(params={"pre": 4, "steps": 2}, secs=300)),
    dict(src="h_registry.cpp", entry="c02_alias", reach=["end"], quick=dict(params={"pre": 4, "kind": 3, "steps": 1}, secs=60), thorough=dict(params={"pre": 4, "kind": 3, "steps": 2}, secs=300)),
], outside="more entities and longer histories; component types beyond the five used")
def _c04(q, t=None): return dict(src="h_layout.cpp", entry="c04_layout", configs=["ndebug"], reach=["accepted"], quick=q, thorough=t or q)
_big = ["--max-enum", "20000"]
SPECS["C04"] = dict(entries=[
    _c04(dict(params={"types": 1, "maxlog": 7, "minsize": 16}, secs=100, enum=20000), dict(params={"types": 1, "maxlog": 12}, secs=300, enum=20000)),
    _c04(dict(params={"types": 2, "maxlog": 6, "stride": 3, "minsize": 256}, secs=150, enum=20000), dict(params={"types": 2, "maxlog": 12, "stride": 3, "minsize": 64}, secs=300, enum=20000)),
    _c04(dict(params={"types": 2, "maxlog": 4, "stride": 2, "minsize": 1, "maxsize": 20}, secs=100, enum=20000), dict(params={"types": 2, "maxlog": 5, "minsize": 1, "maxsize": 48}, secs=300, enum=20000)),
    dict(src="h_layout.cpp", entry="c04_layout", configs=["ndebug"], reach=["accepted"], thorough_only=True, thorough=dict(params={"types": 3, "maxlog": 6, "stride": 3, "minsize": 700}, secs=400, enum=20000)),
    dict(src="h_layout.cpp", entry="c04_types", reach=["end"], quick=dict(params={"entities": 2}, secs=60), thorough=dict(params={"entities": 6}, secs=200)),
], outside="more than three component types of arbitrary size in one set; alignment above 4096; for two and more types the size ranges listed in the bounds")
def _e(src, entry, q, t=None, secs=60, tsecs=600, enum=64, reach=("end",), steps=None, **kw):
    """entry with quick params q and thorough params t"""
    d = dict(src=src, entry=entry, reach=list(reach), quick=dict(params=q, secs=secs, enum=enum), thorough=dict(params=t if t is not None else q, secs=tsecs, enum=enum)); d.update(kw)
    if steps: d["quick"]["steps"] = d["thorough"]["steps"] = steps
    return d
def _t(src, entry, t, tsecs=600, enum=64, **kw): d = _e(src, entry, t, t, tsecs=tsecs, enum=enum, **kw); d["thorough_only"] = True; return d
_h = "h_hashmap.cpp"
SPECS["C15"] = dict(entries=[
    _e(_h, "c15_history", dict(steps=4, keys=3, ops=2), dict(steps=5, keys=4, ops=2), tsecs=300),
    _e(_h, "c15_history", dict(steps=2, keys=3, pre=2, hmask=28), dict(steps=3, keys=3, pre=1, hmask=28), tsecs=200),
    _e(_h, "c15_history", dict(steps=1, keys=4, pre=3, buckets=2, reserves=4, hmask=28), dict(steps=2, keys=4, pre=3, buckets=2, reserves=4, hmask=28), tsecs=200),
    _e(_h, "c15_rehash", dict(keys=30, free=1), dict(keys=36, free=1), tsecs=100),
    _e(_h, "c15_alias", dict(tables=3, hmask=28), dict(tables=3), tsecs=200),
    _e(_h, "c15_construct", dict(hashes=6), dict(hashes=30), tsecs=60),
], outside="longer histories; more than one key with an arbitrary hash in populations above 4; throwing element constructors; bucket counts that are not a power of two")
_s = "h_sparse.cpp"
SPECS["C16"] = dict(entries=[
    _e(_s, "c16_u8", dict(steps=3), dict(steps=4, keys=5), tsecs=200), _e(_s, "c16_u8_edges", dict(steps=3), dict(steps=4), tsecs=150),
    _e(_s, "c16_u16", dict(steps=3), dict(steps=4), tsecs=150), _e(_s, "c16_u64", dict(steps=3), dict(steps=4), tsecs=150),
    _e(_s, "c16_anykey", {}, enum=300, tsecs=100), _e(_s, "c16_full", dict(firsts=4), dict(firsts=64), tsecs=100),
], outside="histories longer than the bound outside full population; keys above 4095 for the wider key types; throwing element constructors")
_b = "h_bitset.cpp"
SPECS["C17"] = dict(entries=[
    _e(_b, "c17_bits8", dict(steps=3), dict(steps=4), tsecs=250), _e(_b, "c17_equal8", dict(steps=2), dict(steps=3), tsecs=250),
    _e(_b, "c17_bits", dict(steps=2), dict(steps=3), tsecs=250), _e(_b, "c17_equal", dict(steps=1), dict(steps=2), tsecs=100),
], outside="bits beyond the first 192; longer histories")
_a = "h_alloc.cpp"
SPECS["C18"] = dict(entries=[
    _e(_a, "c18_linear", dict(requests=2, bits=64, maxlog=5), dict(requests=2, bits=64, maxlog=12, startbits=6), tsecs=250, reach=("granted", "refused")),
    _e(_a, "c18_linear", dict(requests=3, bits=5, bufbits=5, startbits=3, maxlog=3), dict(requests=4, bits=5, bufbits=5, startbits=3, maxlog=2), tsecs=400, reach=("granted", "refused")),
], outside="buffers above 4 KiB; more than 4 requests (the allocator's whole state is its position, which one request already makes arbitrary)")
SPECS["C19"] = dict(entries=[
    _e(_a, "c19_stack", dict(requests=2, cap=40), dict(requests=2, cap=300, maxlog=7), tsecs=250, enum=400, reach=("granted", "refused", "moved", "released")),
    _e(_a, "c19_stack", dict(requests=3, cap=8, bits=4, maxlog=2, starts=1), dict(requests=4, cap=12, bits=5, maxlog=2), tsecs=500, reach=("granted", "refused", "moved", "released")),
], outside="larger buffers and longer histories; alignments above 128")
_o = "h_own.cpp"
SPECS["C03"] = dict(entries=[
    _e(_o, "c03_history", dict(pre=2, steps=3), dict(pre=2, steps=4), secs=120, tsecs=400),
    _e(_o, "c03_history", dict(pre=3, steps=2, prekind=1, kinds=1), dict(pre=4, steps=3, prekind=1, kinds=1), tsecs=200),
    _e(_o, "c03_alias", {}), _e(_o, "c03_blocks", dict(n=5, ways=2), dict(n=6, ways=2), secs=100, tsecs=200),
], outside="longer histories; components whose copy constructor throws; registries abandoned without destruction")
_pf = "h_parallel.cpp"; _sc_note = ["entries with a preemption bound: interleavings of the real pool under sequential consistency; a thread that waits (semaphore, yield, join) gives way without counting as preempted; the weaker executions of the queue and the task counter are decided under C12 and C13"]
def _p(entry, q, qp, t=None, tp=None, src=_pf, secs=200, tsecs=800, **kw): d = _e(src, entry, q, t, secs=secs, tsecs=tsecs, **kw); d["quick"]["preempt"] = qp; d["quick"]["steps"] = d["thorough"]["steps"] = 500000; d["thorough"]["preempt"] = qp if tp is None else tp; return d
_q = "h_query.cpp"
SPECS["C05"] = dict(assumptions=_sc_note, entries=[
    _e(_q, "c05_small", dict(pre=2, steps=2), dict(pre=2, steps=3), tsecs=300),
    _e(_q, "c05_small", dict(pre=4, steps=1), dict(pre=5, steps=2), tsecs=150),
    _e(_q, "c05_blocks", dict(max=7, steps=1), dict(max=7, steps=2), tsecs=200),
    _e(_q, "c05_blocks", dict(max=7, steps=1, reuse=1), dict(max=7, steps=2, reuse=2), tsecs=200),
    _e(_q, "c05_blocks", dict(max=6, steps=1, mix=1), dict(max=7, steps=2, mix=1), tsecs=200),
    _e(_q, "c05_par", dict(max=7, steps=1), dict(max=9, steps=1), tsecs=100),
    _p("c05_threads", dict(), 1, dict(max=7), 2, src=_q), _p("c05_threads", dict(min=5, steps=1), 1, dict(min=4, max=7, steps=1), 1, src=_q), _p("c05_threads", dict(form=1, mix=0, max=6), 1, dict(form=1, mix=0, max=7), 2, src=_q), _p("c05_threads", dict(max=3), 2, dict(max=5), 2, src=_q), _p("c05_threads", dict(min=6, max=6, mix=0, workers=3), 1, dict(min=6, max=6, mix=0, workers=3), 2, src=_q),
], outside="longer histories; views over more than four components; more than three workers, more preemptions than the bound")
_m = "h_misuse.cpp"
SPECS["C06"] = dict(entries=[
    _e(_m, "c06_dead", dict(pre=3, steps=1), dict(pre=3, steps=2), tsecs=250), _e(_m, "c06_placeholder", dict(pre=3, steps=1), dict(pre=3, steps=2), tsecs=150),
    _e(_m, "c06_missing", dict(pre=3, steps=1), dict(pre=3, steps=2), tsecs=150), _e(_m, "c06_too_big", dict(pre=3, steps=1), dict(pre=3, steps=2), tsecs=150), _e(_m, "c06_reserved", {}, reach=()),
], outside="longer histories before and between failing operations; misuse that the interface excludes by contract (moving to the same registry, a placeholder of another registry)")
_cp = "h_copy.cpp"
SPECS["C07"] = dict(entries=[
    _e(_cp, "c07_blocks", dict(pre=3, pre2=3, steps=1, reuse=1), dict(pre=3, pre2=3, steps=2, reuse=1), tsecs=200),
    _e(_cp, "c07_small", dict(pre=2, steps=2), dict(pre=2, steps=3), tsecs=400), _e(_cp, "c07_blocks", dict(pre=2, steps=2), dict(pre=2, steps=3), tsecs=200), _e(_cp, "c07_blocks", dict(pre=4, pre2=3, steps=2), dict(pre=6, pre2=3, steps=2), tsecs=200),
], outside="longer histories; components without a copy constructor (documented to throw)")
_k = "h_component.cpp"
SPECS["C20"] = dict(entries=[
    _e(_k, "c20_ids", {}, enum=100), _e(_k, "c20_order", dict(first=3), dict(first=4), tsecs=200), _e(_k, "c20_meta", {}), _e(_k, "c20_sets", dict(steps=4, ids=3), dict(steps=5, ids=4), tsecs=300), _e(_k, "c20_meta_sets", dict(steps=4, types=4), dict(steps=5, types=4), tsecs=250), _e(_k, "c20_archetypes", {}), _e(_k, "c20_local", {}, reach=()),
], outside="types with internal linkage in different translation units; more than 131 types")
_ac = "h_access.cpp"; _cm = "h_command.cpp"; _sc = "h_schedule.cpp"
SPECS["C08"] = dict(assumptions=_sc_note, entries=[
    _e(_cm, "c08_history", dict(pre=2, steps=2, rounds=1), dict(pre=2, steps=2, rounds=2), tsecs=300), _e(_cm, "c08_history", dict(pre=1, steps=1, rounds=2), dict(pre=1, steps=3, rounds=1), tsecs=500),
    _e(_cm, "c08_registries", dict(steps=2), dict(steps=2), tsecs=200),
    _e(_cm, "c08_threads", dict(mine=1, theirs=1, threads=1), dict(mine=1, theirs=1, threads=2), secs=90, tsecs=400, replay="native"), _e(_cm, "c08_failing", {}, tsecs=100),
    _p("c08_concurrent", dict(each=1), 1, dict(each=2), 1, src=_cm), _p("c08_concurrent", dict(each=1, omask=9), 2, dict(each=1, omask=441), 3, src=_cm), _p("c08_concurrent", dict(threads=2, each=1, omask=9), 1, dict(threads=2, each=1, omask=441), 2, src=_cm),
], outside="longer programs; more than three threads recording at once; threads that record while another thread flushes (excluded by contract: a flush needs exclusive access); command objects that throw while being recorded")
SPECS["C10"] = dict(entries=[
    _e(_ac, "c10_patterns", dict(comps=2, parts=2), dict(comps=3, parts=2), secs=60, tsecs=300), _e(_ac, "c10_batch", dict(members=3), dict(members=4), tsecs=400), _e(_ac, "c10_systems", {}, tsecs=200),
], outside="systems over more than three component types; batches of more systems than the bound")
SPECS["C11"] = dict(assumptions=_sc_note, entries=[
    _e(_sc, "c11_single", dict(stages=1, systems=2, runs=1), dict(stages=1, systems=3, runs=2), secs=60, tsecs=400),
    _e(_sc, "c11_single", dict(stages=2, systems=1, runs=2, executors=2), dict(stages=3, systems=1, runs=2, executors=2), secs=60, tsecs=300),
    _p("c11_threads", dict(stages=1, exact=1, systems=2, runs=1, mains=0), 1, dict(stages=1, exact=1, systems=2, runs=1, mains=0), 2, src=_sc),
    _p("c11_threads", dict(stages=1, exact=1, systems=2, runs=1, mains=0, kmask=66), 2, dict(stages=1, exact=1, systems=2, runs=1, mains=0, kmask=66), 3, src=_sc),
    _p("c11_threads", dict(stages=2, exact=1, systems=1, runs=1, mains=0, kmask=66), 1, dict(stages=2, exact=1, systems=1, runs=1, mains=0, kmask=66), 2, src=_sc),
    _p("c11_threads", dict(stages=1, exact=1, systems=3, runs=1, mains=0, kmask=80), 1, dict(stages=1, exact=1, systems=3, runs=1, mains=0, kmask=80), 2, src=_sc),
], outside="more systems and stages; more than two workers; more preemptions than the bound; systems that throw")
SPECS["C21"] = dict(assumptions=_sc_note, entries=[
    _p("c21_threads", dict(pre=4, threads=2, each=1), 1, dict(pre=5, threads=2, each=1), 3, src=_q), _p("c21_threads", dict(pre=2, threads=2, each=2), 1, dict(pre=2, threads=2, each=2), 2, src=_q),
    _p("c21_threads", dict(pre=3, threads=3, each=1), 1, dict(pre=4, threads=3, each=1), 2, src=_q),
], outside="more than three threads; longer operation lists; more preemptions than the bound; populations beyond the bound; threads reading while another one changes the structure (excluded by contract)")
_in = "h_indep.cpp"
SPECS["C22"] = dict(assumptions=_sc_note, entries=[
    _e(_in, "c22_interleaved", dict(pre=2, steps=2), dict(pre=2, steps=3), tsecs=500), _e(_in, "c22_lifetimes", dict(pre=2, steps=1), dict(pre=2, steps=1, rounds=2), tsecs=500),
    _e(_in, "c22_lifetimes", dict(pre=3, steps=1, reuse=1), dict(pre=4, steps=1, reuse=1), tsecs=300), _e(_in, "c22_lifetimes", dict(pre=3, steps=1, reuse=2), dict(pre=4, steps=1, reuse=2), tsecs=300),
    _p("c22_threads", dict(pre=2, each=1), 1, dict(pre=3, each=1), 2, src=_in), _p("c22_threads", dict(pre=1, each=1, threads=3, omask=1361), 1, dict(pre=1, each=1, threads=3), 1, src=_in),
], outside="more than three registries or threads; longer operation lists; commands recorded for several registries by several threads (C08)")
_cc = "h_conc.cpp"
_mm = ["concurrent entries: every execution of the C++20 memory model with sequenced-before and reads-from acyclic together (the load-buffering executions the standard discourages are excluded)", "memory_order::consume is treated as acquire, as compilers do"]
def _w(entry, q, t=None, secs=250, tsecs=800): return _e(_cc, entry, q, t, secs=secs, tsecs=tsecs, threads=1)
SPECS["C12"] = dict(assumptions=_mm, entries=[
    _w("c12_threads", dict(ops=2, pre=2), dict(ops=3, pre=2)), _w("c12_threads", dict(ops=1, pre=2, thieves=2), dict(ops=2, pre=2, thieves=2)), _w("c12_threads", dict(ops=1, pre=2, steals=2, past=1), dict(ops=2, pre=2, steals=2, past=1)),
    _w("c12_publish", dict(pushes=2, pops=1, steals=2, pre=1), dict(pushes=3, pops=2, steals=2, pre=1)), _e(_cc, "c12_sequential", dict(ops=6), dict(ops=9), tsecs=200)],
    outside="more than two thieves, longer programs, larger populations; wrap-around of the 64-bit indices")
SPECS["C13"] = dict(assumptions=_mm + _sc_note, entries=[
    _w("c13_threads", dict(kids=2, workers=3, deep=1, outer=1), dict(kids=3, workers=3, deep=1, outer=1)), _w("c13_threads", dict(kids=2, workers=2, deep=1), dict(kids=3, workers=2, deep=1)), _w("c13_spawn", dict(kids=2), dict(kids=3)),
    _p("c13_pool", dict(kids=1), 2, dict(kids=1), 3), _p("c13_pool", dict(kids=2, late=2), 1, dict(kids=2, late=2), 2), _p("c13_pool", dict(workers=3), 1, dict(workers=3), 2), _p("c13_pool", dict(kids=1, late=2), 1, dict(kids=1, late=2), 2, configs=["stats"]),
    _e(_pf, "c13_many", dict(tasks=4096, rounds=2), steps=50000000), _e(_pf, "c13_many", dict(tasks=1500, rounds=3), dict(tasks=1500, rounds=8), configs=["std", "ndebug"], steps=50000000)],
    outside="more than three executing threads, deeper trees; more than 65535 children of one task; more than 4096 tasks of one thread at a time; children added after their parent completed")
SPECS["C09"] = dict(assumptions=_mm, entries=[
    _w("c09_pool", dict(threads=2, each=2, steps=1, pre=3), dict(threads=2, each=3, steps=1, pre=3)), _w("c09_pool", dict(threads=3, each=1, steps=1, pre=2), dict(threads=3, each=2, steps=1, pre=2)), _w("c09_pool", dict(threads=2, each=1, steps=3), dict(threads=2, each=1, steps=4)), _w("c09_pool", dict(threads=2, each=1, steps=2, pre=3), dict(threads=2, each=1, steps=3, pre=4))],
    outside="more than three threads; longer histories; reserving while another thread creates, destroys or flushes (excluded by contract)")
SPECS["C14"] = dict(assumptions=_sc_note, entries=[
    _e(_pf, "c14_range", dict(length=9, workers=4), dict(length=17, workers=6), tsecs=300), _e(_pf, "c14_split", dict(length=14, workers=6), dict(length=22, workers=9), tsecs=300), _e(_pf, "c14_default", dict(length=6), dict(length=12)), _e(_pf, "c14_pools", dict(length=5), dict(length=9)),
    _p("c14_threads", dict(length=4), 2, dict(length=4), 3), _p("c14_threads", dict(min=3, length=4, workers=3), 2, dict(min=3, length=5, workers=3), 3), _p("c14_threads", dict(loops=2), 1, dict(loops=2), 2), _p("c14_nested", dict(), 1, dict(), 2), _p("c14_recursive", dict(), 1, dict(), 2), _e(_pf, "c14_recursive", dict(length=4, workers=1), dict(length=4, workers=2))],
    outside="ranges longer and pools larger than the bounds; schedules with more preemptions; ranges that are not forward ranges; functions that throw")
NOT_APPLICABLE = {}
