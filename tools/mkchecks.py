#!/usr/bin/env python3
"""Writes sim/checks.json (driver configuration) and MANIFEST.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REAL = "all of tlapack's headers and src/tlapack_cwrappers.cpp that the catalogue instantiates, compiled from /repo with compiler access instrumentation (-fsanitize=thread hooks bound to the simulator), the legacyArray/stdvector plugins, std::vector"
STUB = "heap allocator, stack memory, entropy source (std::random_device), clocks, getenv/rand, pthread mutexes and thread scheduling are the simulator's; callers' threads are real threads that run one at a time, in the order the simulator decides"
ASM = ["seeded sampling: a clean batch is evidence, not proof", "operand sizes up to a few tens; column-major double and complex<double>, row-major float and complex<float>", "x86-64, g++ -O0: interleaving at every instrumented memory access and function entry; races that only compiler optimisation creates are outside", "per-run hash of the execution trace is re-computed for a 1% sample and for every violation"]
def C(level, rule, count, maxsec, tus="all", tcount=10**9, tmax=780, cfgs=None, **kw):
    d = dict(level=level, rule=rule, tus=tus, quick=dict(cfg=cfgs or ["d", "c", "s", "z"], count=count, maxsec=maxsec), thorough=dict(cfg=cfgs or ["d", "z", "s", "c"], count=tcount, maxsec=tmax), real=REAL, stubs=STUB, assumptions=ASM)
    d.update(kw)
    return d
N = 10**9
S = 60
base = "one scenario = generated calls (operation, size, seed of contents, options) plus environment plus fault events, all derived from VERIF_SEED and the scenario index; distinct = different hash of the execution trace (operands, outputs, steps, switches); "
TS = "a program over task-managed matrices runs while the simulated runtime delays, reorders and places each task as the scenario says; "
STUB2 = "the StarPU runtime is the simulator's (task queue, data coherence, partitions, acquisitions; interface of starpu.h 1.4 as far as the library uses it); " + STUB
ASM2 = ["seeded sampling: a clean batch is evidence, not proof", "the simulated runtime admits every order its implicit data dependencies allow, no CUDA workers, tasks of one program run one at a time", "operand sizes up to a few tens; four element types; tasks do not overlap in time (conflicting declared accesses are serialised by the runtime; undeclared ones are trapped)"] + ASM[2:]
CH = {
 "C01": C("exploration", base + "non-trivial = at least two calls in different simulated threads with at least one context switch inside a call; judged against the same call run alone", N, S),
 "C02": C("exploration", base + "non-trivial = as C01, through the C and CBLAS entry points; every store to a read-only operand is reported", N, S, tus=["capi", "cblas", "cwrap", "cblaswrap"]),
 "C03": C("exploration", base + "every load and store of every call is checked against the classification of each element, also while another thread rewrites storage the call may not touch and while allocations fail", N, S),
 "C04": C("exploration", base + "two executions that differ only in storage documented as not referenced (and in concurrent rewriting of it) must agree bit for bit", N, S),
 "C05": C("fault_enumeration", base + "a dry run counts the allocations of the call; one of them, or all from one on, fails; then the call is repeated without fault", N, S),
 "C06": C("exploration", base + "the workspace variant runs in memory of exactly the queried size with allocations failing, against the allocating variant", N, S),
 "C07": C("exploration", base + "two executions in environments that differ in heap and stack contents, previous outputs, placement, clocks and entropy must agree bit for bit", N, S),
 "C08": C("exploration", base + "a history of calls, some failed by injected faults or rejected arguments, followed by a call that must equal its run in a fresh process", N, S),
 "C09": C("exploration", base + "corrupted elements present at entry or appearing at a random step; the call must end within a step budget derived from its fault-free run, without stray access", N, S),
 "C10": C("exploration", base + "one element is NaN at entry or before its first use; relevance of the element is established by a differential run before the verdict", N, S),
 "C11": C("exploration", base + "invalid calls embedded in histories; must throw, with every operand unchanged, and later calls must equal their fresh runs", N, S),
 "C12": C("exploration", base + "random-vector calls interleaved with other streams, with failing and unusual entropy sources", N, S, tus=["aux", "lapackptr"]),
 "C13": C("exploration", base + TS + "final matrices must equal the same program on plain matrices and its undisturbed run", N, S, tus=["starpu"], stubs=STUB2, assumptions=ASM2),
 "C14": C("exploration", base + TS + "values read by the program and final matrices must equal sequential execution", N, S, tus=["starpu"], stubs=STUB2, assumptions=ASM2),
 "C15": C("exploration", base + TS + "each access of a task is checked against its declared buffers, copies are poisoned outside the declared part, write-only data is poisoned before the task", N, S, tus=["starpu"], stubs=STUB2, assumptions=ASM2),
 "C16": C("exploration", base + TS + "runtime accounting of handles, partitions, acquisitions, tasks and argument blocks at the end of every program; waiting is checked for progress", N, S, tus=["starpu"], stubs=STUB2, assumptions=ASM2),
 "C17": C("fault_enumeration", base + "a dry run counts the arithmetic operations of the call; one chosen operation throws; then the call is repeated without fault", N, S, tus=["blas", "hhfact", "hhapply", "solve", "eig", "qz", "svd", "trevc3", "aux"], cfgs=["f", "g"]),
 "C18": C("exploration", base + "the parallel regions of the call run on a simulated team whose size, order and preemption the scenario decides; judged against the run on one thread, with every pair of unsynchronised conflicting accesses reported", N, 40, tus=["omp"], stubs="the OpenMP runtime is the simulator's (libgomp entry points: team, barrier, critical, dynamic and guided loops, sections, tasks run in place); team members are real threads that run one at a time; " + STUB, assumptions=["seeded sampling: a clean batch is evidence, not proof", "teams of 2 to 8; long side up to about 1060, short side up to 8 (quick returns included); four element types"] + ASM[2:]),
 "C19": C("exploration", base + "the call runs under caller settings the scenario decides, with memory failing, data corrupted or arguments rejected in 60 %; the state of the process after it must equal the state before it and nothing may have been written", N, 40),
}
TECH = {
 "C01": "deterministic simulation: seeded scheduler interleaves caller threads at memory accesses; compared with isolated runs",
 "C02": "deterministic simulation: seeded scheduler interleaves C/CBLAS callers; stores to const operands trapped",
 "C03": "deterministic simulation with per-access footprint monitor, concurrent mutator and failing allocations",
 "C04": "deterministic simulation: differential runs with hostile contents and concurrent mutation of unreferenced storage",
 "C05": "deterministic simulation with injected allocation failures, leak accounting and retry",
 "C06": "deterministic simulation with exhausted allocator and exact-size dirty workspace",
 "C07": "deterministic simulation: differential runs across simulated machine states",
 "C08": "deterministic simulation of call histories with injected failures, against fresh-process runs",
 "C09": "deterministic simulation with injected data corruption, step budget and access monitor",
 "C10": "deterministic simulation with injected NaN corruption and differential relevance test",
 "C11": "deterministic simulation of histories with rejected calls, state compared before and after",
 "C12": "deterministic simulation of entropy and interleaved random streams",
 "C13": "deterministic simulation of the task runtime: seeded task order, delay and data placement, against sequential execution",
 "C14": "deterministic simulation of the task runtime with programs of element accesses, against sequential execution",
 "C15": "deterministic simulation of the task runtime with separate poisoned copies and a per-access monitor",
 "C16": "deterministic simulation of the task runtime with resource accounting and progress check",
 "C17": "deterministic simulation with exceptions injected into scalar arithmetic",
 "C18": "deterministic simulation of the OpenMP team: seeded scheduler preempts team members at memory accesses, conflict detection, against the run on one thread",
 "C19": "deterministic simulation with injected failures under simulated caller settings; process state compared before and after, output and files trapped",
}
NA = {
 "N01": "pure function of the input: no schedule, clock, fault or history enters; numerical stability is not a simulation target",
 "N02": "pure function of the input: accuracy for extreme finite data has no nondeterminism or fault to simulate",
 "N03": "pure function of the input: equivalence of storage layouts is differential input testing, not simulation",
 "N04": "pure function of the input: agreement of algorithmic variants has no nondeterminism or fault to simulate",
 "N05": "pure function of the input: exactness of status codes has no nondeterminism or fault to simulate",
}
if __name__ == "__main__":
    try:
        from mkstarpu import ADD, ADDT
        CH.update(ADD(C)); TECH.update(ADDT)
    except ImportError:
        pass
    cat = json.load(open(H + "/sim/catalogue.json"))
    have = {k: v for k, v in CH.items() if v["tus"] == "all" or all(t in cat for t in v["tus"])}
    json.dump(have, open(H + "/sim/checks.json", "w"), indent=1)
    props = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
    na = [dict(property=p, reason=NA.get(p, "no check built yet")) for p in props if p not in have]
    man = dict(version=1, setup_cmd="python3 /verif/check.py --build",
        checks=[dict(property=p, quick_cmd="python3 /verif/check.py " + p, thorough_cmd="env VERIF_TIER=thorough python3 /verif/check.py " + p, evidence_file="evidence/%s.json" % p, technique=TECH[p], level=have[p]["level"],
            level_note="Seeded search over schedules and fault sequences of the real code under a simulator; every violation is replayed bit-exactly in a fresh process before it is reported. Samples, does not enumerate. " + "; ".join(have[p]["assumptions"][1:3])) for p in props if p in have],
        not_applicable=na, notes="No hooks in /repo: the seam is compiler instrumentation and symbol interposition in /verif (see DESIGN.md).")
    json.dump(man, open(H + "/MANIFEST.json", "w"), indent=1)
