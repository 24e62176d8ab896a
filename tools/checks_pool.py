"""The library's own pools and root submission: C03, C13, C14 (harness/pool.cpp on specs/ForkJoin.tla)."""
from vlib import *
import fjgen
from checks_fj import fj_run, fj_mk, INV

BUSY, LAZY, UNIT = 1, 2, 3
TWO = ["pack:2 [numa] core:2 pu:1", "numa:3 core:1 pu:1"]


def pools(*kinds, hwloc=False):
    return [("pool", ["-DPOOL=%d" % k, "-DLF_VERIF_STEAL_ATTEMPTS=2"] + (["-DLF_USE_HWLOC"] if hwloc else []), ["-lhwloc"] if hwloc else []) for k in kinds]


def pool_run(ck, kinds, suite, unit=(), gen=None, nrand=60, execs=6000, time=12, hwloc=None, maxn=500):
    """suite: programs judged by TLC state graphes on each of the pools `kinds` (unit: programs for the unit pool)."""
    ps = pools(*kinds, hwloc=bool(hwloc))
    prefetch(*ps)
    allp = list(dict.fromkeys(list(suite) + list(unit)))
    auts = ck.auts("ForkJoin", "ForkJoin", fj_mk, allp, INV)
    exes = dict(zip(kinds, build_many(ps)))
    env = {"HWLOC_SYNTHETIC": hwloc} if hwloc else None
    ps = fjgen.programs(ck.seed, nrand * (4 if ck.thorough else 1), **gen) if gen else []
    pf2 = f"{BUILD}/run/{ck.pid}-random.txt"
    write(pf2, "\n".join(ps) + "\n")
    rs = []
    for k in kinds:
        name = {BUSY: "busy_pool", LAZY: "lazy_pool", UNIT: "unit_pool"}[k] + (" " + hwloc if hwloc else "")
        s = unit if k == UNIT else suite
        if not s:
            continue
        pf = f"{BUILD}/run/{ck.pid}-{k}.txt"
        write(pf, "\n".join(s) + "\n")
        af = ",".join(auts[t] for t in s)
        tm = 120 if ck.thorough else time if k != UNIT else 4
        ck.explore(name, exes[k], [dict(c, progfile=pf, aut=af, time=tm, **({"weak": 1} if i >= 4 else {})) for i, c in enumerate(seeds(ck, 8))], env=env)
        if ps and k != UNIT:
            rs += ck.explore(name + ": random programs", exes[k], [dict(c, progfile=pf2, time=tm / 2, dumpmax=100, **({"weak": 1} if i >= 4 else {})) for i, c in enumerate(seeds(ck, 8))], env=env)
    if rs:
        ck.validate("pools: random programs", "ForkJoin", fj_mk(ps), rs, ps, maxn=4000 if ck.thorough else maxn)


def c13(ck):
    prefetch(*pools(LAZY), *pools(LAZY, hwloc=True))
    """flags: V raises, P waits for one while keeping its worker busy"""
    pool_run(ck, [LAZY], ["2/0@0/F1V1J,P1", "3/0@0/F1F2V1V2J,P1,P2", "2/0@1+1@2/V1P2,P1V2", "3/0@0/F1V1J,F2V2P1J,P2", "3/0@0+1@0/F2V1J,F3V2J,P1,P2", "3/0@0/F1F2J,P1,F3V1J,",
                          "2/0@0+1@0/F2F3J,Y,,", "3/0@1/F1JF2V1J,Y,P1", "2/0@1+1@1+2@2/,,"], time=18)
    # the wake-up protocol has a state for each memory domain: with several, workers alone in theirs or not
    for h in TWO:
        pool_run(ck, [LAZY], ["2/0@0/F1V1J,P1", "3/0@0/F1F2V1V2J,P1,P2", "2/0@1+1@2/V1P2,P1V2", "3/0@0+1@0/F2V1J,F3V2J,P1,P2", "3/0@0/F1F2J,P1,F3V1J,", "4/0@0/F1F2V1V2J,P1,P2"], time=9, hwloc=h)


def c14(ck):
    prefetch(*pools(BUSY, LAZY, UNIT), *pools(BUSY, LAZY, hwloc=True))
    pool_run(ck, [BUSY, LAZY, UNIT], ["2/0@0d/F1J,", "2/0@1d+1@2d/,", "3/0@0+1@1d/F2J,F3J,,", "2/0@0/", "1/0@0d+1@0d/,F2J,", "3/0@3d+1@3d+2@2d/,,", "2/0@0d+1@0/F2F3J,Y,,"], unit=["1/0@0d+1@0d/,", "1/0@0/F1J,", "1/0@0d+1@0+2@0d/F3J,,,"],
             time=8)
    pool_run(ck, [BUSY, LAZY], ["2/0@0d/F1J,", "3/0@0+1@1d/F2J,F3J,,", "3/0@3d+1@3d+2@2d/,,", "2/0@0d+1@0/F2F3J,Y,,"], time=4, hwloc=TWO[0])


def c03(ck):
    prefetch("core", *pools(BUSY, LAZY, UNIT))
    fj_run(ck, ["2/0@1+1@2/F2F3J,R1F4J,,,", "3/0@1+1@1+2@3/F3J,R2,F4J,,", "3/0@1+1@2/F2R3F3R1J,F4J,,,"], dfs=["2/0@1+1@2/F2J,,"],
           gen=dict(ops="FFFCRRYSQ", roots=3, tasks=9, throw=0), nrand=45, execs=15000, maxn=250)
    pool_run(ck, [BUSY, LAZY, UNIT], ["2/0@0+1@0/F2F3J,R1F4J,,,", "3/0@1+1@1+2@0/F3J,R2,F4J,,", "3/0@0+1@0/F2R3F3R1J,F4J,,,", "2/0@1+1@1+2@1+3@1/Y,R2,R2,"], unit=["1/0@0+1@0+2@0/F3J,Y,,", "1/0@0/C1F2J,F3J,,"],
             gen=dict(ops="FFFCRRYSQ", roots=2, tasks=8, throw=0), time=5, nrand=30, maxn=250)


CHECKS = {
    "C03": dict(fn=c03, level="model_checking", technique="TLA+ fork-join spec (no reachable dead end, every root finishes); executions of user scheduler and library pools judged by TLC state graphs / TLC trace validation",
                note="Bounded: up to 4 roots, 9 tasks, 4 workers; a lost task shows as a thread set that cannot run or makes no progress under a fair schedule."),
    "C13": dict(fn=c13, level="model_checking", technique="TLA+ fork-join spec with flags that busy tasks wait for and a rest step; executions of lazy_pool judged by TLC state graphs", note="Bounded: up to 3 workers and 4 tasks; futex and weak-memory semantics modelled by the runtime."),
    "C14": dict(fn=c14, level="model_checking", technique="TLA+ fork-join spec with detached roots; construction to destruction of the pools judged by TLC state graphs, races and lifetime of worker contexts monitored", note="Bounded: up to 3 workers; busy, lazy and unit pools."),
}
