"""Submission list and event count: C11, C12."""
import re
from vlib import *
from checks_fj import fj_run, fj_mk, INV as FJINV


def list_prog(tag):
    return {"tag": tag, "items": [int(x) for x in tag.split(",")]}


def c11(ck):
    m = 10 if ck.thorough else 1
    ps = ["2,2", "1,1,1", "3,1", "1,2,1"] + (["2,2,2", "4,3"] if ck.thorough else [])
    prefetch("list", "core")
    a = ck.auts("List", "List", lambda ts: {"Progs": tla([list_prog(t) for t in ts])}, ps, ["Once", "PerProducer"])
    af = ",".join(a.values())
    exe = build("list")
    ck.explore("list: random schedules", exe, [dict(c, prog="/".join(ps), aut=af, execs=100000 * m) for c in seeds(ck, 4)]
               + [dict(c, prog="/".join(ps), aut=af, execs=100000 * m, weak=1) for c in seeds(ck, 8)[4:]])
    ck.explore("list: bounded-exhaustive schedules", exe, [dict(prog=t, aut=a[t], strat="dfs", bound=4 if ck.thorough else 3, seed=1, time=300 if ck.thorough else 15) for t in ps])
    fj_run(ck, ["2/0@2+1@2+2@2/,Y,", "3/0@1+1@1+2@2+3@2/F4J,,Y,,", "2/0@1+1@1/R2F2R1J,R2F3J,,", "3/0@3+1@3+2@3/R1R3,R2R3,Y"], gen=dict(ops="FCRRR", roots=3, tasks=9, throw=0), nrand=60)


def ec_prog(tag):
    return {"tag": tag, "ops": [[{"k": k, "a": int(a or 0)} for k, a in re.findall(r"([A-Za-z])(\d*)", t)] for t in tag.split(",")]}


def c12(ck):
    m = 10 if ck.thorough else 1
    ps = ["A1,sN", "A1,sn", "A1,A1,sN", "A1,A2,sNsN", "A1,A1,snsn", "pw,n", "pc1,sn,N", "pxpc1,sN", "T1,sN,A1", "pc1,pc1,sn", "A2,sN,sn", "pw,pw,nn", "A1pc2,sNsN", "pc1n,pc1,sn"]
    if ck.thorough:
        ps += ["A1,A1,A1,sN", "A1,A2,A1,sNsN", "pw,pw,pw,nN", "T2,A1,sNsN,px"]
    prefetch("evcount")
    mk = lambda w: lambda ts: {"Progs": tla([ec_prog(t) for t in ts]), "Weak": tla(w)}
    sc = ck.auts("EventCount", "EventCount", mk(False), ps, ["Asleep", "TypeOK"])
    wk = ck.auts("EventCountWeak", "EventCount", mk(True), ps, ["Asleep", "TypeOK"])
    a, b = ",".join(sc.values()), ",".join(wk.values())
    exe = build("evcount")
    ck.explore("random schedules", exe, [dict(c, prog="/".join(ps), aut=a, execs=100000 * m) for c in seeds(ck, 4)]
               + [dict(c, prog="/".join(ps), aut=b, execs=100000 * m, weak=1) for c in seeds(ck, 8)[4:]])
    ck.explore("bounded-exhaustive schedules", exe, [dict(prog=t, aut=sc[t], strat="dfs", bound=4 if ck.thorough else 3, seed=1, time=200 if ck.thorough else 10) for t in ps])


CHECKS = {
    "C11": dict(fn=c11, level="model_checking", technique="TLA+ MPSC-list spec; TLC state graphs judge controlled executions of the list and of worker submissions",
                note="Bounded: up to 3 producers, up to 7 items; random and context-bounded schedules, weak-memory values."),
    "C12": dict(fn=c12, level="model_checking", technique="TLA+ event-count spec; TLC state graphs judge controlled executions", note="Bounded: up to 4 threads of a few operations; random and context-bounded schedules, weak-memory values; futex semantics modelled by the runtime."),
}
