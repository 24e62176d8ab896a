"""Fork-join core: C01-C06, C09, C15, C23 (specs/ForkJoin.tla, harness/core.cpp)."""
from vlib import *
import fjgen

INV = ["OnePlace", "PopsParent", "JoinWaits", "Descend", "BusyLeaves", "NoLoss", "LiveBound", "Alive"]


def fj_mk(ts):
    return {"Progs": tla([fj_prog(t) for t in ts])}


def fj_run(ck, suite, dfs=(), gen=None, big=None, execs=40000, exe=None, weak=True, nrand=100, env=None, bound=2, maxn=500):
    """suite: programs judged by automata; dfs: bounded-exhaustive; gen/big: keyword arguments of the random
    program generator whose traces TLC validates one by one."""
    m = 10 if ck.thorough else 1
    prefetch("core")
    auts = ck.auts("ForkJoin", "ForkJoin", fj_mk, list(dict.fromkeys(list(suite) + list(dfs))), INV)
    pf = f"{BUILD}/run/{ck.pid}-suite.txt"
    write(pf, "\n".join(suite) + "\n")
    af = ",".join(auts[t] for t in suite)
    exe = exe or build("core")
    ck.explore("random schedules", exe, [dict(c, progfile=pf, aut=af, execs=execs * m) for c in seeds(ck, 4)]
               + [dict(c, progfile=pf, aut=af, execs=execs * m, **({"weak": 1} if weak else {})) for c in seeds(ck, 8)[4:]], env=env)
    if dfs:
        ck.explore("bounded-exhaustive schedules", exe, [dict(prog=t, aut=auts[t], strat="dfs", bound=bound + (1 if ck.thorough else 0), seed=1,
                                                              time=400 if ck.thorough else 10) for t in dfs], env=env)
    sets = [("random programs", [(gen, nrand), (big, nrand // 3)])]
    if ck.thorough:
        sets = [("random programs", [(gen, nrand * 4)]), ("larger random programs", [(big, nrand * 2)])]
    for label, parts in sets:
        ps = [p for kw, n in parts if kw for p in fjgen.programs(ck.seed, n, **kw)]
        if not ps:
            continue
        pf = f"{BUILD}/run/{ck.pid}-{label.replace(' ', '-')}.txt"
        write(pf, "\n".join(ps) + "\n")
        rs = ck.explore(label, exe, [dict(c, progfile=pf, execs=10000 * m, dumpmax=600 if ck.thorough else 150) for c in seeds(ck, 4)]
                        + [dict(c, progfile=pf, execs=10000 * m, dumpmax=600 if ck.thorough else 150, **({"weak": 1} if weak else {})) for c in seeds(ck, 8)[4:]], env=env)
        ck.validate(label, "ForkJoin", fj_mk(ps), rs, ps, maxn=5000 if ck.thorough else maxn)


def c01(ck):
    t = ck.thorough
    prefetch("wide", "core")
    jp = lambda ts: {"Progs": tla([{"w": int(x.split("/")[0]), "n": min(int(x.split("/")[1]), 5)} for x in ts]), "M": "8"}
    ck.model("JoinDesign", "JoinCount", {"Progs": tla([{"w": w, "n": n} for w in (2, 3, 4) for n in ((3, 6, 9, 12) if t else (3, 6))]), "M": tla(14 if t else 8)}, ["Safe", "NoReentry", "Live"])
    ps = ["2/2", "3/3", "3/5", "2/70000"]
    auts = ck.auts("Join", "JoinCount", jp, ps, ["Safe", "NoReentry", "Live"])
    wide = build("wide")
    cf_ = [dict(prog=x, aut=auts[x], seed=ck.seed * 10 + s, weak=s % 2, time=100 if t else 4, _exe=wide) for s in (1, 2) for x in ps[:3]] + \
        [dict(prog=x, aut=auts[x], seed=ck.seed, maxsteps=10**9, execs=40 if t else 2, _exe=wide) for x in ps[3:]]
    ck.explore("joins", wide, cf_)
    fj_run(ck, ["2/0@1/F1F2J,,", "3/0@1/F1F2F3J,,,", "2/0@1/F1C2J,F3F4J,,,", "3/0@1/F1JF2F3J,F4J,,,", "2/0@1/C1F2JF5J,F3F4J,Y,,,", "2/0@1/F1J,F2J,F3J,F4J,",
                "3/0@1/F1F2J,F3J,F4J,,", "2/0@1/F1F2F3F4J,,,,"],
           dfs=["2/0@1/F1J,", "2/0@1/F1F2J,,", "2/0@1/F1JF2J,,", "2/0@1/F1J,F2J,", "3/0@1/F1F2J,,"],
           gen=dict(ops="FFFFCCLMY", throw=0), big=dict(ops="FFFFCLMY", tasks=14, depth=4, workers=(3, 4), throw=0))


def c02(ck):
    fj_run(ck, ["2/0@1/F1F2J,R2Y,", "3/0@1/F1F2J,F3R3J,R2,", "2/0@1+1@2/F2J,F3J,,", "3/0@1+3@2/F1F2J,,,F4F5J,,", "2/0@1+1@1+2@2/F3J,Y,F4J,,", "2/0@1/C1F2J,F3J,R1R2,Y"],
           dfs=["2/0@1/F1J,R2", "2/0@1+1@1/,", "2/0@1/F1J,", "2/0@1/R2R1F1J,"],
           gen=dict(ops="FFFCSORRY", roots=2, tasks=8, throw=0), big=dict(ops="FFFCSORRLMY", roots=3, tasks=14, depth=4, workers=(3, 4), throw=0))


def c04(ck):
    fj_run(ck, ["2/0@1/F1T2J,X1,X2", "3/0@1/T1F2U3Q4J,X1,,X2,", "2/0@1/Q1F2JQ3,F4J,Y,,", "2/0@1/C1U2T3F4J,,X2,F5J,,", "3/0@1/F1F2F3J,F4J,,,"],
           dfs=["2/0@1/T1J,X1", "2/0@1/F1Q2J,,"],
           gen=dict(ops="FFTTCUUQQY", throw=0.3), big=dict(ops="FFTCUQLMX", tasks=14, depth=4, workers=(3, 4)))


def c05(ck):
    fj_run(ck, ["2/0@1/F1F2J,X1,X2", "3/0@1/F1F2F3K,X1,,X3", "2/0@1/F1KF2F3J,X1,X2,", "2/0@1/F1C2K,F3J,X2,X1", "3/0@1/F1F2J,F3F4J,F5J,X1,X2,X3", "2/0@1/F1Z3C2K,Z2J,X4",
                "2/0@1/C1JF2KC3J,X1,X2,", "2/0@1+1@2/F2J,F3K,X1,X2"],
           dfs=["2/0@1/F1J,X1", "2/0@1/F1F2K,X1,X2", "2/0@1/F1KF2K,X1,X2"],
           gen=dict(ops="FFFFTCCUXXZLMY", throw=0.45), big=dict(ops="FFFCTUXZQR", tasks=14, depth=4, workers=(3, 4), throw=0.35))


def c06(ck):
    fj_run(ck, ["3/0@1/O1S2F3K,X3,X4,X2", "2/0@1/G1E2Q3T4U5K,X1,X2,X3,X4,X5", "2/0@1/F1E2F3C4S5JO6K,X1,X2,,X3,X4,X5", "2/0@1/O1JF2S3J,,,", "2/0@1/O1KG2,X1,F3J,", "2/0@1/F1E2K,,F3J,Y",
                "3/0@1/O1S2S3J,F4J,,,", "2/0@1/Q1Q2C3K,X1,F4J,X2,"],
           dfs=["2/0@1/O1K,X1", "2/0@1/O1J,", "2/0@1/F1E2K,X1,X2", "2/0@1/F1S2K,,X2"],
           gen=dict(ops="SSOOEEGGQFCXY", throw=0.35), big=dict(ops="SSOEGQFFCTUX", tasks=14, depth=4, workers=(3, 4), throw=0.3))


def c09(ck):
    fj_run(ck, ["2/0@1/A3F1C2J,LF3J,W1A2,M", "2/0@1/A3A40F1Ja,A5F2JaA3F3J,M,L", "3/0@1/A5F1F2JF3J,A3C4,A40Q5aA1,,A0,A3", "2/0@1/W2A5A3F1J,A40W0A3,", "2/0@1/A3F1KA3F2J,A5X1,LA40",
                "2/0@1/A3R2aA5F1J,R2A3"],
           dfs=["2/0@1/A3F1J,A3", "2/0@1/A1F1JaA2,"],
           gen=dict(ops="FFCAAAALMXQS", throw=0.15), big=dict(ops="FFCAAARLMX", tasks=14, depth=4, workers=(3, 4), throw=0.15))


def c15(ck):
    fj_run(ck, ["2/0@1/F1R2F2J,,R1", "3/0@1/F1F2F3J,R2Y,R1,R3", "3/0@1/F1F2R3J,F3R1J,R2,R2", "2/0@1/R2F1R1F2R2J,R1,", "2/0@1/C1R2C2J,R2,R1", "2/0@1/F1R1R2JR1,X1", "2/0@1+1@2/R2F2R1J,R1,R2",
                "3/0@1/A3R2aF1R3J,R1A5"],
           dfs=["2/0@1/F1R2J,", "2/0@1/R2F1J,", "2/0@1/F1J,R2", "2/0@1/C1,R2"],
           gen=dict(ops="FFFCRRRRRRY", throw=0), big=dict(ops="FFCRRRRTASX", tasks=14, depth=4, workers=(3, 4)))


CHECKS = {k: dict(fn=f, level="model_checking", technique=t, note=n) for k, f, t, n in [
    ("C01", c01, "TLA+ fork-join spec: TLC invariants; TLC state graphs judge controlled executions, TLC validates traces of random programs",
     "Bounded: client programs of up to 14 tasks on 1-4 workers, random, PCT and context-bounded schedules, weak-memory values, happens-before race detection on every access."),
    ("C02", c02, "TLA+ fork-join spec: TLC invariants; controlled executions judged by TLC state graphs / TLC trace validation", "Bounded as C01; several roots and explicit rescheduling included."),
    ("C04", c04, "TLA+ fork-join spec with result slots; controlled executions judged by TLC state graphs / TLC trace validation", "Bounded as C01."),
    ("C05", c05, "TLA+ fork-join spec with exceptions; controlled executions judged by TLC state graphs / TLC trace validation", "Bounded as C01."),
    ("C06", c06, "TLA+ fork-join spec with dispatch modifiers; controlled executions judged by TLC state graphs / TLC trace validation", "Bounded as C01."),
    ("C09", c09, "TLA+ fork-join spec with co_new scopes plus object/region monitors; controlled executions judged by TLC state graphs / TLC trace validation", "Bounded as C01."),
    ("C15", c15, "TLA+ fork-join spec with explicit scheduling; controlled executions judged by TLC state graphs / TLC trace validation", "Bounded as C01; resume_on to every worker, inside and outside scopes."),
]}
