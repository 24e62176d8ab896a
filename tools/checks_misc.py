"""Futures (C07), eventuals (C21), stacks (C08), NUMA (C16), worker registration (C22), memory bound (C23)."""
from vlib import *
from checks_fj import fj_run
import random, re


# ---------------------------------------------------------------- C07 futures ---------------
def fut_prog(tag):
    w, cl = tag.split("/")
    ops = []
    for c in cl.split("+"):
        o = []
        for t in [x for x in c.split(".") if x]:
            k = t[0]
            if k == "m":
                o.append({"k": k, "a": int(t[1]), "b": "", "c": int(t[2])})
            elif k in "SD":
                o.append({"k": k, "a": 0, "b": t[1], "c": 0})
            elif k == "s":
                o.append({"k": k, "a": int(t[1]), "b": t[2], "c": 0})
            else:
                o.append({"k": k, "a": int(t[1]), "b": "", "c": 0})
        ops.append(o)
    return {"tag": tag, "ops": ops}


def fut_programs(seed, num):
    r = random.Random(seed * 7 + 1)
    out = []
    for _ in range(num):
        cl = []
        for c in range(r.choice([1, 1, 2])):
            full = {}
            o = []
            for _ in range(r.randrange(2, 8)):
                k = r.choice("sssggwvdxmSD")
                var = r.choice("vvvtnxm")
                if var == "m":
                    var += str(r.randrange(0, 7))
                s = r.randrange(1, 4)
                if k == "s":
                    free = [x for x in (1, 2, 3, 4) if not full.get(x)]
                    if not free:
                        continue
                    s = r.choice(free)
                    o.append(f"s{s}{var}")
                    if var != "x":
                        full[s] = True
                elif k in "SD":
                    o.append(k + var)
                elif k == "m":
                    free = [x for x in (1, 2, 3, 4) if not full.get(x)]
                    src = [x for x in (1, 2, 3, 4) if full.get(x)]
                    if not free:
                        continue
                    a, b = r.choice(free), r.choice(src or [1])
                    if a == b:
                        continue
                    o.append(f"m{a}{b}")
                    full[a], full[b] = full.get(b), False
                else:
                    o.append(f"{k}{s}")
                    if k in "dx":
                        full[s] = False
            cl.append(".".join(o))
        out.append(f"{r.choice([1, 2, 2])}/" + "+".join(cl))
    return list(dict.fromkeys(out))


def c07(ck):
    prefetch("future")
    mk = lambda ts: {"Progs": tla([fut_prog(t) for t in ts])}
    inv = ["WaitedFinished", "OneOwner", "FailedNeverRun"]
    suite = ["1/s1v.g1.g1.v1.d1.g1", "2/s1t.w1.g1.g1.w1", "2/s1v.x1.w1+s1n.g1", "2/s1x.v1.s1v.m21.v1.v2.g1.g2", "1/Sv.St.Sx.Sv", "2/Dv.Dx.Dt.s1v", "2/s1v.s2t.g2.g1+Sn.Dv",
             "2/s1m0.v1.Sv.d1", "2/s1m1.d1.s1m2.d1", "2/s1m3.Sv.d1.s1m4", "2/s1m5.Sv.St", "1/Dm0.Sm1.Dm2.Sm3.Dm4.Sm5.Sv", "2/s1v.d1.s1v.w1.d1.s2v+s1v.x1"]
    auts = ck.auts("Future", "Future", mk, suite, inv)
    pf = f"{BUILD}/run/{ck.pid}-suite.txt"
    write(pf, "\n".join(suite) + "\n")
    t = 200 if ck.thorough else 12
    exe = build("future")
    ck.explore("random schedules", exe, [dict(c, progfile=pf, aut=",".join(auts[x] for x in suite), time=t, **({"weak": 1} if i >= 4 else {})) for i, c in enumerate(seeds(ck, 8))])
    ps = fut_programs(ck.seed, 400 if ck.thorough else 120)
    pf = f"{BUILD}/run/{ck.pid}-random.txt"
    write(pf, "\n".join(ps) + "\n")
    rs = ck.explore("random programs", exe, [dict(c, progfile=pf, time=t * 0.6, dumpmax=200 if not ck.thorough else 2000, **({"weak": 1} if i >= 4 else {})) for i, c in enumerate(seeds(ck, 8))])
    ck.validate("random programs", "Future", mk(ps), rs, ps, maxn=1200 if not ck.thorough else 12000)


# ---------------------------------------------------------------- C21 eventually ------------
def c21(ck):
    exe = build("eventually")
    kinds = ["val", "tryval", "big", "trybig", "ref", "tryref", "cref", "rref", "tryrref", "tryvoid"]
    n = 7 if ck.thorough else 5
    mk = lambda ts: {"Progs": tla([{"kind": {"big": "val", "cref": "ref"}.get(t.replace("try", ""), t.replace("try", "")), "try": t.startswith("try")} for t in ts]),
                     "MaxOps": tla(n), "Ids": "1..2"}
    auts = ck.auts("Eventually", "Eventually", mk, kinds, ["Consistent"])
    ck.explore("every sequence of operations", exe, [dict(prog=t, ops=n if ck.thorough else 3, aut=auts[t], strat="dfs", bound=1, seed=1, time=300 if ck.thorough else 8) for t in kinds])
    ck.explore("random sequences of operations", exe, [dict(prog=t, ops=n, aut=auts[t], seed=ck.seed, time=30 if ck.thorough else 3) for t in kinds])


# ---------------------------------------------------------------- C08 stacks ----------------
STACK_DESIGN = [[1, 100, 250, 1900, 17000], [1, 250, 500, 4000], [1, 120, 130, 30000], [250, 2040, 18000, 80000]]


def c08(ck):
    t = ck.thorough
    prefetch("stack", "core")
    with cf.ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda iz: ck.model(f"StackDesign{iz[0]}", "Stack", {"Progs": tla([{"sizes": iz[1]}]), "NStacks": "1", "MaxOps": tla(8 if t else 5), "MaxBlocks": tla(5), "Design": "TRUE"},
                                        ["ChainOk", "Bounded"]), enumerate(STACK_DESIGN)))
    exe = build("stack")
    progs = ["1,200,2000", "250,17000", "1,100,30000", "240,500,1000"]
    mk = lambda nb: lambda ts: {"Progs": tla([{"sizes": [int(z) for z in x.split(",")]} for x in ts]), "NStacks": "2", "MaxOps": "1", "MaxBlocks": tla(nb), "Design": "FALSE"}
    nb = 3
    auts = ck.auts("Stack", "Stack", mk(nb), progs, [])
    ck.explore("every sequence of operations", exe, [dict(prog=x, ops=6 if t else 4, blocks=nb, aut=auts[x], strat="dfs", bound=0, seed=1, time=300 if t else 5) for x in progs])
    ck.explore("random sequences of operations", exe, [dict(c, prog=x, ops=40, blocks=nb, aut=auts[x], time=60 if t else 5) for x in progs for c in seeds(ck, 2)])
    big = ["1,100,250,1900,17000", "1,250,500,4000", "1,2,3,120,130,30000", "250,2040,18000,80000"]
    rs = ck.explore("long sequences", exe, [dict(c, prog=x, ops=60, blocks=14, time=60 if t else 5, dumpmax=400 if t else 40) for x in big for c in seeds(ck, 2)])
    ck.validate("long sequences", "Stack", mk(14)(big), rs, big, maxn=3000 if t else 100)
    # task frames and co_new memory of running programs
    fj_run(ck, ["2/0@1/HF1F2HC3J,M,LF4J,M,M", "2/0@1/LHA400F1F2JA3,MF3J,M,L", "3/0@1/F1F2F3J,MA400,LHC4F5J,M,HA400X1,M", "2/0@1/HQ1HF2KHA400R2A3,M,MX1", "2/0@1/A3B0B1F1JB2,B3A5B4"],
           gen=dict(ops="FFCTQAAAHHLLMMMRX", throw=0.2), big=dict(ops="FFCTQAAHLLMMMR", tasks=14, depth=5, workers=(2, 3), throw=0), execs=10000, nrand=60, maxn=300)


# ---------------------------------------------------------------- C22 workers ----------------
def c22(ck):
    prefetch("worker")
    progs = ["1", "2", "3"]
    mo = lambda ts: {"Progs": tla([{"threads": int(x)} for x in ts]), "MaxOps": "12", "MaxPend": "3"}
    ck.model("WorkerDesign", "Worker", mo(["2"]), ["BoxOk"])
    mk = lambda ts: {"Progs": tla([{"threads": int(x)} for x in ts]), "MaxOps": "1", "MaxPend": "2" if ts == ["3"] else "3"}
    auts = ck.auts("Worker", "Worker", mk, progs, ["BoxOk"])
    exe = build("worker")
    ck.explore("random histories", exe, [dict(c, prog=x, aut=auts[x], ops=20, pend=2 if x == "3" else 3, time=60 if ck.thorough else 5, **({"weak": 1} if c["seed"] % 2 else {})) for x in progs for c in seeds(ck, 5)])
    ck.explore("bounded-exhaustive histories", exe, [dict(prog=x, aut=auts[x], ops=n, pend=2, strat="dfs", bound=1 if x == "1" else 0, seed=1, time=200 if ck.thorough else 5) for x, n in [("1", 4), ("2", 4), ("2", 3), ("1", 6)]])


# ---------------------------------------------------------------- C16 NUMA -------------------
def numa_prog(tag):
    """The machine that the synthetic description denotes, worked out here (not by hwloc), and the workers of the program."""
    t = tag.split("/")
    desc, mask = (t[0].split("~") + [""])[:2]
    levels, memory = [("machine", 1)], None  # memory: index of the level whose objects have memory
    for x in desc.split("_"):
        if x == "[numa]":
            memory = len(levels) - 1
        else:
            k, a = x.split(":")
            levels.append((k, int(a)))
            if k == "numa":
                memory = len(levels) - 1
    objs, nxt = [[]], [1]
    paths = [[0]]
    for _, a in levels[1:]:
        paths = [p + [None] for p in paths for _ in range(a)]
        for p in paths:
            p[-1] = nxt[0]
            nxt[0] += 1
    # paths built level by level share prefixes: children of the same parent are consecutive
    keep = [i for i in range(len(paths)) if not mask or int(mask, 16) >> i & 1]
    kinds = [k for k, _ in levels]
    packs = []
    if "pack" in kinds:
        l = kinds.index("pack")
        for o in sorted({p[l] for p in paths}):
            mine = [j + 1 for j, i in enumerate(keep) if paths[i][l] == o]
            cores = len({paths[i][kinds.index("core")] for i in keep if paths[i][l] == o}) if "core" in kinds else 0
            packs.append({"pus": mine, "cores": cores})
    m = memory or 0
    return {"tag": tag, "pus": keep, "path": [paths[i] for i in keep], "dom": [paths[i][m] for i in keep], "packs": packs, "n": int(t[2]), "seq": t[1] == "s", "steal": len(t) > 3}


NUMA_TOPOS = ["pack:2_core:2_pu:2", "pack:2_[numa]_core:4_pu:1", "pack:2_l3:2_[numa]_core:2_pu:1", "numa:2_core:3_pu:1", "core:4_pu:2", "pu:3", "pack:2_[numa]_pu:3", "pack:3_[numa]_l2:2_core:2_pu:1",
              "pack:4_[numa]_l3:2_core:2_pu:2", "numa:2_l3:2_l2:2_core:2_pu:1", "pack:2_numa:2_core:2_pu:1", "pack:1_core:6_pu:1",
              # parts of machines
              "pack:2_[numa]_core:4_pu:1~f1", "pack:2_[numa]_core:4_pu:1~1f", "pack:3_[numa]_core:2_pu:2~f38", "numa:3_core:2_pu:1~2b", "pack:2_l3:2_[numa]_core:2_pu:2~f13f"]


def c16(ck):
    t = ck.thorough
    prefetch(("numa", ["-DLF_USE_HWLOC"], ["-lhwloc", "-ldl"]))
    mk = lambda ts, s=1, b=3: {"Progs": tla([numa_prog(x) for x in ts]), "MaxTasks": tla(b), "MaxSteals": tla(s)}
    small = [f"{x}/{s}/{n}" + ("/s" if n < 4 else "") for x in ["pack:2_[numa]_core:2_pu:1", "pack:2_core:1_pu:2", "numa:2_pu:3~1f", "pu:2", "pack:3_[numa]_core:2_pu:1~1d"] for s in "fs" for n in ((1, 2, 3, 4) if t else (1, 3) if x[0] == 'p' and len(x) < 20 else (1, 2))]
    inv = ["Partition", "Symmetric", "DomainFirst", "Ultrametric", "Reachable", "Possible"]
    with cf.ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda i: ck.model(f"NumaDesign{i}", "Numa", mk(small[i::4], 2, 1), inv, workers=2), range(4)))
    exe = build("numa", ["-DLF_USE_HWLOC"], ["-lhwloc", "-ldl"])
    ps = [f"{x}/{s}/{n}" for x in NUMA_TOPOS for s in "fs" for n in (list(range(0, 40)) if t else [0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 17, 25])]
    rs = []
    for j in range(8):
        write(f"{BUILD}/run/{ck.pid}-{j}.txt", "\n".join(ps[j::8]) + "\n")
    rs += ck.explore("every distribution", exe, [dict(progfile=f"{BUILD}/run/{ck.pid}-{j}.txt", strat="dfs", bound=0, seed=1, dumpmax=5000, time=300 if t else 30) for j in range(8)])
    if not all(r["dfs_complete"] for r in rs):
        raise CheckError("not every distribution was explored")
    ck.validate("distributions", "Numa", mk(ps), rs, ps, maxn=100000)
    st = [f"{x}/{s}/{n}/s" for x in NUMA_TOPOS for s in "fs" for n in ((1, 2, 3, 4, 5, 6, 7, 8, 9, 10) if t else (1, 4, 6, 9))]
    for j in range(8):
        write(f"{BUILD}/run/{ck.pid}-s{j}.txt", "\n".join(st[j::8]) + "\n")
    rs = ck.explore("stealing", exe, [dict(progfile=f"{BUILD}/run/{ck.pid}-s{j}.txt", seed=ck.seed + j, dumpmax=2000 if t else 30, maxsteps=30000000, time=200 if t else 8) for j in range(8)])
    ck.validate("stealing", "Numa", mk(st, 1, 40), rs, st, maxn=10000 if t else 200)


# ---------------------------------------------------------------- C23 memory -----------------
def c23(ck):
    t = ck.thorough
    prefetch("core", "mem")
    # conformance to the fork-join specification, whose invariants bound the number of live tasks
    fj_run(ck, ["2/0@1/F1F2J,F3F4J,F5F6J,,,,", "3/0@1/F1F2J,F3F4J,F5F6J,,,,", "2/0@1/F1F2F3F4F5J,,,,,", "2/0@1/F1C2JF3J,F4J,F5F6J,,,,", "2/0@1/MF1F2J,MF3J,LF4J,M,M"],
           gen=dict(ops="FFFFCCLM", throw=0, tasks=10, depth=4), big=dict(ops="FFFFCLM", tasks=16, depth=6, workers=(2, 3, 4), throw=0), execs=5000, nrand=40, maxn=120)
    exe = build("mem")
    fr = [1500, 5000, 42000]  # what a task of each size may take, co_new included
    def mk(ts):
        ps = []
        for x in ts:
            w, d, b, z, r = map(int, x.split("/"))
            ps.append({"w": w, "d": d, "f": fr[z], "reps": r})
        return {"Progs": tla(ps), "MaxLog": "16"}
    progs = ["2/3/2/0/30", "2/4/2/1/20", "3/3/2/2/20", "3/4/2/0/20", "2/6/1/2/20", "4/3/3/0/12", "2/7/1/0/20", "2/3/4/1/12"]
    auts = ck.auts("Bounds", "Bounds", mk, progs, [])
    ck.explore("balanced computations", exe, [dict(prog=x, aut=auts[x], seed=ck.seed * 10 + i, time=80 if t else 4) for x in progs for i in (1, 2)])


CHECKS = {
    "C23": dict(fn=c23, level="model_checking", technique="TLA+ fork-join spec (TLC invariants BusyLeaves, LiveBound), conformance of controlled executions to it, and a TLA+ bound on live tasks, leaves and memory judged on repeated computations",
                note="Bounded: programs of up to 16 tasks and balanced trees of depth up to 7 on 2-4 workers, repeated up to 30 times; memory within the bound of specs/Stack.tla."),
    "C22": dict(fn=c22, level="model_checking", technique="TLA+ specification of worker registration and submission; recorded histories of the real library validated by TLC",
                note="Bounded: histories of 14 operations over 1-3 threads, every allocation of an initialisation failing, concurrent submissions and fetches under random, PCT and weak-memory schedules."),
    "C16": dict(fn=c16, level="model_checking", technique="TLA+ specification of machines, placements, neighbour lists and steals (consequences proved by TLC for every placement on small machines); the real distribution and steals on synthetic hwloc machines validated by TLC",
                note="Bounded: 17 machines of up to 32 processing units (also asymmetric ones), up to 39 workers for distribution, up to 10 for stealing."),
    "C08": dict(fn=c08, level="model_checking", technique="TLA+ specification of segmented stacks (design bound by TLC; TLC state graphs judge every operation sequence) and of fork-join with task-local memory; controlled executions with region, race, leak monitors",
                note="Bounded."),
    "C07": dict(fn=c07, level="model_checking", technique="TLA+ specification of submission and the future state machine; controlled executions judged by TLC state graphs / TLC trace validation",
                note="Bounded: up to 2 client threads, 7 operations each, 4 futures per client, 1-2 workers; value, void, reference and move-only results; throwing scheduler, each allocation failing."),
    "C21": dict(fn=c21, level="model_checking", technique="TLA+ state machine of eventually objects; every operation sequence of the real objects judged by TLC's state graph",
                note="Bounded: sequences of up to 5 operations (7 thorough) on one object at a time; value, over-aligned value, reference, const reference, rvalue reference and void; throwing construction."),
}
