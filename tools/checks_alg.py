"""Algorithms C17-C20 (specs/Algo.tla, harness/algo.cpp)."""
from vlib import *
import random

ALGS = {"C17": "E", "C18": "M", "C19": "F", "C20": "S"}


def alg_prog(tag, proj):
    a, n, c, form, w, sp = tag.split(":")
    return {"tag": tag, "alg": a, "n": int(n), "c": max(1, int(c)), "proj": bool(proj), "q": "q" in sp}


def alg_programs(alg, proj, seed, num, maxn=13):
    """every size and chunk up to a bound is visited; forms, workers and the special elements at random"""
    r = random.Random(f"{seed}{alg}{proj}")
    out = []
    sizes = [(n, c) for n in range(0, maxn) for c in (0, 1, 2, 3, 4, 5, 7, maxn + 7)]
    r.shuffle(sizes)
    for i in range(num):
        n, c = sizes[i % len(sizes)]
        form = r.choice("isr")
        if alg in "MS" and r.random() < 0.4:
            form = form.upper()
        if alg == "S":
            form = form.replace("s", "i").replace("S", "I")
        w = r.choice([1, 2, 2, 2, 3])
        sp = ""
        x = r.random()
        if n > 1 and x < 0.35:
            for _ in range(r.choice([1, 1, 2])):
                sp += ("y" if proj and r.random() < 0.4 else "x") + str(r.randrange(0 if alg in "EM" else 1, n))
        elif n > 0 and x < 0.6 and alg in "EM" and w > 1:
            # two stuck applications must be in different chunks whatever the chunks are
            sp = f"k0k{n - 1}" if w == 3 and n > max(1, c) and r.random() < 0.5 else f"k{r.randrange(n)}"
        elif n > 1 and x < 0.75:
            sp = f"q{r.randrange(1, 5 + (7 if alg == 'S' else 3) * (n // max(1, c)))}"
        # a chunk one longer than allowed: its first element gets stuck, the others must still be processed
        if i % 6 == 0 and alg in "EM":
            c = r.randrange(2, 9)
            n, w, sp = (c + 1) * r.choice([1, 1, 2]), 2, "k0"
        out.append(f"{alg}:{n}:{c}:{form}:{w}:{sp}")
    return list(dict.fromkeys(out))


def alg(ck):
    a = ALGS[ck.pid]
    vs = [(f, p) for p in (0, 1, 2) for f in (0, 1)]
    sp = [("algo", [f"-DALG='{a}'", f"-DFUN={f}", f"-DPROJ={p}"]) for f, p in vs]
    prefetch(*sp)
    # the specification's own invariants, and exhaustive automata for small cases
    small = {"E": ["E:3:0:i:2:", "E:4:2:r:2:", "E:3:1:s:2:x1"], "M": ["M:3:0:i:2:", "M:4:2:R:2:", "M:3:1:s:2:x1"],
             "F": ["F:4:0:i:2:", "F:5:2:r:2:", "F:4:1:s:2:x2", "F:0:2:i:2:"], "S": ["S:3:1:i:2:", "S:3:0:R:2:", "S:3:2:I:2:", "S:3:1:r:2:x1"]}[a]
    inv = ["Partition", "Intervals", "AtMostOnce", "ReturnsComplete"]
    for p in (False, True):
        sm = small
        auts = ck.auts("Algo" + ("Proj" if p else ""), "Algo", lambda ts: {"Progs": tla([alg_prog(t, p) for t in ts])}, sm, inv)
        b = 3 if ck.thorough else 2
        exes = build_many(sp)
        cfgs = [dict(prog=t, aut=auts[t], strat="dfs", bound=b, seed=1, time=200 if ck.thorough else 3, _exe=x) for x, (f, q) in zip(exes, vs) if bool(q) == p for t in sm]
        ck.explore("bounded-exhaustive schedules" + (", projection" if p else ""), exes[0], cfgs)
    tot = []
    for p in (False, True):
        ps = alg_programs(a, p, ck.seed, 500 if ck.thorough else 160, 20 if ck.thorough else 13)
        pf = f"{BUILD}/run/{ck.pid}-{int(p)}.txt"
        write(pf, "\n".join(ps) + "\n")
        cfgs = []
        for i, (x, (f, q)) in enumerate(zip(exes, vs)):
            if bool(q) == p:
                cfgs += [dict(c, progfile=pf, time=60 if ck.thorough else 6, dumpmax=3000 if ck.thorough else 300, _exe=x, **({"weak": 1} if k else {})) for k, c in enumerate(seeds(ck, 2, ))]
        rs = ck.explore("random programs" + (", projection" if p else ""), exes[0], cfgs)
        ck.validate("random programs" + (", projection" if p else ""), "Algo", {"Progs": tla([alg_prog(t, p) for t in ps])}, rs, ps, maxn=20000 if ck.thorough else 1600)


CHECKS = {k: dict(fn=alg, level="model_checking", technique="TLA+ specification of the algorithm's observable applications over symbolic intervals; small cases judged by TLC state graphes, traces of all overloads validated by TLC",
                  note="Bounded: up to 12 elements (19 thorough), chunks below and above the size, 1-3 workers, all overloads with regular and async functions and projections, exceptions.") for k in ALGS}
