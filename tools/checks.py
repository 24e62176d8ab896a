"""One function per property."""
from vlib import *
import checks_fj
import checks_ec
import checks_pool
import checks_alg
import checks_misc


# ---------------------------------------------------------------- C10 deque -----------------
def deque_prog(tag):
    cap, ops, st = tag.split(":")
    return {"tag": tag, "ops": list(ops), "steals": [int(x) for x in st.split(",") if x]}


def c10(ck):
    exe = build("deque")
    sc = ["2:pppSoopJD:1,2", "1:ppSpopJD:2,1", "2:ppSooJD:1,1,1", "2:SpopopJD:2,2", "1:pppSpposeJDpooD:2", "2:ppooppSpoJD:1,1"]
    if ck.thorough:
        sc += ["2:pppSoooJD:1,1,1", "1:pppppSooooJD:3,2", "2:SppopoopJD:3,3", "1:ppppSppppoJD:2,2"]
    inv = ["Conserved", "Sorted"]
    mk = lambda w: {"Progs": tla([deque_prog(t) for t in sc]), "Weak": tla(w)}
    a_sc = ck.aut("DequeSC", "Deque", mk(False), sc, inv)
    a_wk = ck.aut("DequeWeak", "Deque", mk(True), sc, inv)
    n = 400000 if ck.thorough else 60000
    ps = "/".join(sc)
    ck.explore("random schedules", exe, [dict(c, aut=a_sc, execs=n, prog=ps) for c in seeds(ck, 4)]
               + [dict(c, aut=a_wk, weak=1, execs=n, prog=ps) for c in seeds(ck, 4)])
    b = 4 if ck.thorough else 3
    dfs = sc if ck.thorough else sc[:4]
    ck.explore("bounded-exhaustive schedules", exe, [dict(aut=a_sc, strat="dfs", bound=b, prog=t, seed=1) for t in dfs])


HOOKS = {"guard": "LF_VERIF_STEAL_ATTEMPTS", "enable": "the pool harnesses are compiled with -DLF_VERIF_STEAL_ATTEMPTS=2 (tools/checks_pool.py)",
         "source_commits": ["7ecfc32"]}
NA = {}
CHECKS = {
    "C10": dict(fn=c10, technique="TLA+ linearizable-deque spec, TLC state graph judging every controlled execution", level="model_checking",
                note="Bounded: fixed client programs (1 owner, up to 3 thieves, up to 10 operations), random and exhaustive context-bounded schedules, weak-memory values."),
}

for _m in (checks_fj, checks_ec, checks_pool, checks_alg, checks_misc):
    CHECKS.update(_m.CHECKS)
