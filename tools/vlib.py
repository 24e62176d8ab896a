"""Machinery shared by the checks: building harnesses from /repo, running TLC, turning TLC state
graphs into automata, running controlled executions and validating their traces."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
SPECS = os.path.join(ROOT, "specs")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
NCPU = min(8, os.cpu_count() or 8)


class CheckError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, replay):
        Exception.__init__(self, what)
        self.what, self.replay = what, replay


def log(*a):
    print("#", *a, file=sys.stderr, flush=True)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def tree_hash(d):
    h = hashlib.sha256()
    for base, dirs, files in sorted(os.walk(d)):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(base, f)
            h.update(os.path.relpath(p, d).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()[:20]


def read(p):
    with open(p) as f:
        return f.read()


def write(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    tmp = p + ".tmp%d" % os.getpid()
    with open(tmp, "w") as f:
        f.write(s)
    os.replace(tmp, p)


def run(cmd, timeout=600, cwd=None, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                       text=True, errors="replace")
    return p.returncode, p.stdout


# ------------------------------------------------------------------ building ---------------
def build_rt():
    key = sha(read(ROOT + "/rt/vprt.cpp"), read(ROOT + "/rt/vprt.h"))
    o = f"{BUILD}/vprt-{key}.o"
    if not os.path.exists(o):
        os.makedirs(BUILD, exist_ok=True)
        t = o + ".tmp%d" % os.getpid()
        rc, out = run(["g++", "-std=c++20", "-O2", "-g", "-c", ROOT + "/rt/vprt.cpp", "-o", t])
        if rc:
            raise CheckError("building the runtime failed:\n" + out)
        os.replace(t, o)
    return o


_builds, _blk = {}, threading.Lock()


def prefetch(*specs):
    """starts building [(name, defs, libs)] while TLC works; build() then waits for them"""
    with _blk:
        build_rt()
        for x in specs:
            x = (x, (), ()) if isinstance(x, str) else tuple(x) + ((), ())[:3 - len(x)]
            k = (x[0], tuple(x[1]), tuple(x[2]))
            if k not in _builds:
                ex = cf.ThreadPoolExecutor(1)
                _builds[k] = ex.submit(_build, x[0], list(x[1]), list(x[2]))


def build(name, defs=(), libs=(), opt="-O1", ndebug=False):
    """Builds harness/<name>.cpp with /repo/include, instrumented, linked against the runtime."""
    f = _builds.get((name, tuple(defs), tuple(libs))) if opt == "-O1" and not ndebug else None
    return f.result() if f else _build(name, defs, libs, opt, ndebug)


def _build(name, defs=(), libs=(), opt="-O1", ndebug=False):
    src = f"{ROOT}/harness/{name}.cpp"
    hs = "".join(read(f"{ROOT}/harness/{h}") for h in sorted(os.listdir(ROOT + "/harness")) if h.endswith(".hpp"))
    key = sha(read(src), hs, read(ROOT + "/rt/vprt.h"), read(ROOT + "/rt/vprt.cpp"), tree_hash(REPO + "/include"), defs, libs, opt, ndebug)
    exe = f"{BUILD}/{name}-{key}"
    if os.path.exists(exe):
        return exe
    rt = build_rt()
    t0 = time.time()
    tmp = exe + ".o.tmp%d" % os.getpid()
    cmd = ["g++", "-std=c++23", opt, "-g", "-fsanitize=thread", "--param=tsan-instrument-func-entry-exit=0", "-Wno-tsan",
           "-Wno-interference-size", "-w", "-I" + REPO + "/include", "-I" + ROOT + "/rt", "-c", src, "-o", tmp] + list(defs)
    if ndebug:
        cmd.append("-DNDEBUG")
    rc, out = run(cmd, timeout=800)
    if rc:
        raise CheckError("building harness %s failed:\n%s" % (name, out[-6000:]))
    wraps = ",".join("--wrap=" + x for x in ("malloc", "free", "calloc", "realloc", "aligned_alloc"))
    rc, out = run(["g++", "-o", exe + ".tmp%d" % os.getpid(), tmp, rt, "-Wl," + wraps, "-lpthread", "-ldl"] + list(libs))
    if rc:
        raise CheckError("linking harness %s failed:\n%s" % (name, out[-6000:]))
    os.replace(exe + ".tmp%d" % os.getpid(), exe)
    os.remove(tmp)
    log("built %s in %.1fs" % (name, time.time() - t0))
    return exe


def build_many(specs):
    """[(name, defs, libs)] built in parallel"""
    build_rt()
    with cf.ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(lambda x: build(x[0], defs=x[1], libs=x[2] if len(x) > 2 else ()), specs))


# ------------------------------------------------------------------ TLC --------------------
def tla(v):
    """Python value -> TLA+ expression."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    if isinstance(v, dict):
        return "[" + ", ".join(f"{k} |-> {tla(x)}" for k, x in v.items()) + "]"
    raise TypeError(v)


def tlc(workdir, module, cfg, extra=(), workers=1, timeout=600, heap="3g"):
    write(f"{workdir}/{module}.cfg", cfg)
    cmd = ["java", "-Xmx" + heap, "-Xss16m", *(["-XX:+UseParallelGC"] if workers > 1 else ["-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4"]), "-Dtlc2.TLC.stopAfter=%d" % timeout,
           "-cp", TLAJAR + ":" + "/opt/veriftools/tla/CommunityModules-deps.jar", "-DTLA-Library=" + SPECS,
           "tlc2.TLC", "-config", f"{module}.cfg", "-workers", str(workers), "-noGenerateSpecTE", "-metadir", f"{workdir}/meta-{module}",
           "-deadlock"] + list(extra) + [module + ".tla"]
    try:
        rc, out = run(cmd, cwd=workdir, timeout=timeout + 60)
    finally:
        shutil.rmtree(f"{workdir}/meta-{module}", ignore_errors=True)
    return rc, out


def tlc_stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", ",")) or \
        re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    a, b = m[-1]
    return int(a.replace(",", "")), int(b.replace(",", ""))


def scratch(name):
    d = f"{BUILD}/tlc/{name}-{os.getpid()}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def inline_consts(d, module, defs):
    """Copies specs/<module>.tla to d with its CONSTANTS block (up to the next blank line) replaced by definitions: TLC
    evaluates a definition once but a substituted constant at every use."""
    s = read(f"{SPECS}/{module}.tla")
    m = re.search(r"^CONSTANTS?\b.*?\n[ \t]*\n", s, re.M | re.S)
    body = "\n".join(f"{k} == {v}" for k, v in defs.items()) + "\n\n"
    write(f"{d}/{module}.tla", s[:m.start()] + body + s[m.end():] if m else s)


def mc_module(d, name, extends, defs):
    inline_consts(d, extends, defs)
    write(f"{d}/{name}.tla", f"---- MODULE {name} ----\nEXTENDS {extends}\n====\n")


def mc_cfg(defs, invariants=(), spec="Spec", props=(), extra=""):
    s = f"SPECIFICATION {spec}\n"
    for i in invariants:
        s += f"INVARIANT {i}\n"
    for p in props:
        s += f"PROPERTY {p}\n"
    return s + extra


def cached(key, fn):
    p = f"{BUILD}/cache/{key}.json"
    if os.environ.get("VERIF_CACHE") and os.path.exists(p):
        return json.loads(read(p))
    v = fn()
    if os.environ.get("VERIF_CACHE"):
        write(p, json.dumps(v))
    return v


def model_check(name, module, defs, invariants=(), props=(), spec="Spec", workers=2, timeout=600, extra="", expect=None, heap="4g"):
    """Model checks specs/<module>.tla.  A failure is an error of the specification (CheckError), because
    it does not depend on /repo."""
    def go():
        d = scratch(name)
        t0 = time.time()
        mc_module(d, name, module, defs)
        rc, out = tlc(d, name, mc_cfg(defs, invariants, spec, props, extra), workers=workers, timeout=timeout, heap=heap)
        gen, dist = tlc_stats(out)
        ok = "Model checking completed. No error has been found" in out
        if not ok:
            raise CheckError(f"TLC on {name}: rc={rc}\n{out[-5000:]}")
        shutil.rmtree(d, ignore_errors=True)
        return {"name": name, "module": module, "states": dist, "transitions": gen, "invariants": list(invariants) + list(props), "wall_s": round(time.time() - t0, 1)}
    return cached(sha("mc", spec_text(module), name, module, defs, invariants, props, spec, extra), go)


def spec_text(module, seen=None):
    """The module and the local modules it extends or instantiates."""
    seen = set() if seen is None else seen
    if module in seen or not os.path.exists(f"{SPECS}/{module}.tla"):
        return ""
    seen.add(module)
    s = read(f"{SPECS}/{module}.tla")
    for w in re.findall(r"^EXTENDS (.*)$|INSTANCE (\w+)", s, re.M):
        for x in re.split(r"[ ,]+", w[0] or w[1]):
            s += spec_text(x, seen)
    return s


_node = re.compile(r'^(-?\d+) \[label="(.*)"(,style = filled)?\]?;?')
_edge = re.compile(r'^(-?\d+) -> (-?\d+)')
_ev = re.compile(r'/\\\\ ev = \\"(.*?)\\"(?:\\n|$)')
_prog = re.compile(r'/\\\\ prog = (\d+)(?:\\n|$)')


def automaton(name, module, defs, tags, invariants=(), timeout=600, heap="3g", spec="Spec"):
    """Runs TLC on specs/<module>.tla for the programs in defs["Progs"], dumps the state graph and turns it
    into an automaton over the values of the variable `ev`.  tags[k] names program k+1."""
    key = sha("aut", spec_text(module), module, defs, tags, invariants, spec)
    out_file = f"{BUILD}/aut/{name}-{key}.aut"

    def go():
        d = scratch(name)
        t0 = time.time()
        mc_module(d, name, module, defs)
        rc, out = tlc(d, name, mc_cfg(defs, invariants, spec), extra=["-dump", "dot", f"{d}/g.dot"], timeout=timeout, heap=heap)
        if "Model checking completed. No error has been found" not in out:
            raise CheckError(f"TLC on {name}: rc={rc}\n{out[-5000:]}")
        ids, states, evs, init, edges = {}, {}, {}, [], set()
        raw = []
        with open(f"{d}/g.dot") as f:
            for line in f:
                m = _edge.match(line)
                if m:
                    raw.append((m.group(1), m.group(2)))
                    continue
                m = _node.match(line)
                if m and m.group(1) not in ids:
                    lab = m.group(2)
                    e = _ev.search(lab)
                    core = sha(_ev.sub("", lab))
                    k = states.setdefault(core, len(states))
                    ids[m.group(1)] = k
                    evs[m.group(1)] = e.group(1) if e else ""
                    if m.group(3):
                        p = _prog.search(lab)
                        init.append((k, tags[int(p.group(1)) - 1] if p else tags[0]))
        for a, b in raw:
            edges.add((ids[a], ids[b], evs[b] or "-"))
        gen, dist = tlc_stats(out)
        lines = [f"aut {len(states)} {len(edges)}"] + [f"init {k} {t}" for k, t in init]
        lines += [f"{a} {b} {t}" for a, b, t in edges if not (a == b and t == "-")]
        write(out_file, "\n".join(lines) + "\n")
        shutil.rmtree(d, ignore_errors=True)
        return {"name": name, "module": module, "states": dist, "transitions": gen, "programs": len(tags), "aut_states": len(states),
                "aut_edges": len(edges), "invariants": list(invariants), "wall_s": round(time.time() - t0, 1)}
    if not os.path.exists(out_file) and os.environ.get("VERIF_CACHE"):
        c = f"{BUILD}/cache/{key}.json"
        if os.path.exists(c):
            os.remove(c)
    r = cached(key, go)
    return out_file, r


def validate_traces(name, module, defs, traces, jobs=NCPU, timeout=600, heap="2g", init="Init", nxt="Next", chunk=None):
    """traces: list of (prog index from 1, [events]).  Returns (list of rejected (index, prefix length), stats)."""
    if not traces:
        return [], {"states": 0, "transitions": 0, "traces": 0}
    name = re.sub(r"\W", "_", name)
    n = len(traces)
    jobs = max(1, min(jobs, (n + 39) // 40)) if chunk is None else (n + chunk - 1) // chunk
    parts = [list(range(j, n, jobs)) for j in range(jobs)]

    def one(j, part, explain=False):
        d = scratch(f"{name}-{j}{'x' if explain else ''}")
        toks = {}
        rows = []
        for k in part:
            p, evs = traces[k]
            rows.append("[prog |-> %d, ev |-> <<%s>>]" % (p, ",".join("E%d" % toks.setdefault(e, len(toks)) for e in evs)))
        inline_consts(d, module, defs)
        em = "\n".join(f'E{i} == "{t}"' for t, i in toks.items())
        mod = f"""---- MODULE {name} ----
EXTENDS {module}
{em}
Traces == <<
{chr(10).join((',' if i else '') + r for i, r in enumerate(rows))}
>>
VARIABLES tid, pos
TInit == {init} /\\ tid \\in 1..Len(Traces) /\\ prog = Traces[tid].prog /\\ pos = 1
TNext == /\\ pos <= Len(Traces[tid].ev)
         /\\ {nxt}
         /\\ tid' = tid
         /\\ \\/ ev' = "" /\\ pos' = pos
            \\/ ev' = Traces[tid].ev[pos] /\\ pos' = pos + 1
         /\\ ({'TRUE' if explain else "pos' > Len(Traces[tid].ev)"} => PrintT(<<"OK", tid, pos'>>))
TSpec == TInit /\\ [][TNext]_<<vars, ev, tid, pos>>
====
"""
        write(f"{d}/{name}.tla", mod)
        rc, out = tlc(d, name, mc_cfg(defs, (), "TSpec"), timeout=timeout, heap=heap)
        if "Model checking completed. No error has been found" not in out:
            raise CheckError(f"TLC validating traces {name}: rc={rc}\n{out[-3000:]}")
        best = {}
        for a, b in re.findall(r'<<"OK", (\d+), (\d+)>>', out):
            best[int(a)] = max(best.get(int(a), 0), int(b))
        shutil.rmtree(d, ignore_errors=True)
        gen, dist = tlc_stats(out)
        bad = [k for i, k in enumerate(part) if best.get(i + 1, 0) <= len(traces[k][1]) and traces[k][1]]
        return bad, gen, dist, best

    rej, gen, dist = [], 0, 0
    with cf.ThreadPoolExecutor(jobs if chunk is None else NCPU) as ex:
        for bad, g, ds, _ in ex.map(lambda a: one(*a), [(j, p) for j, p in enumerate(parts) if p]):
            rej += bad
            gen += g
            dist += ds
    res = []
    for k in sorted(rej)[:3]:
        _, _, _, best = one(k, [k], True)
        res.append((k, max(best.get(1, 1), 1) - 1))
    return res, {"states": dist, "transitions": gen, "traces": n}


# ------------------------------------------------------------------ checks -----------------
class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.models, self.runs, self.samples, self.notes = [], [], [], []
        self.execs = self.distinct = self.judged = self.validated = self.steps = 0
        self.assumptions = []
        self.extra = {}
        self.known = known_findings(pid)
        self.known_hit = set()

    # -- specification side
    def model(self, *a, **k):
        r = model_check(*a, **k)
        self.models.append(r)
        log(f"{self.pid}: model {r['name']}: {r['states']} states, {r['transitions']} transitions, {r['wall_s']}s")
        return r

    def aut(self, *a, **k):
        f, r = automaton(*a, **k)
        self.models.append(r)
        log(f"{self.pid}: automaton {r['name']}: {r['states']} states, {r['transitions']} transitions -> {r['aut_states']} states, {r['wall_s']}s")
        return f

    def auts(self, name, module, mk, tags, invariants=(), **k):
        """One TLC run per program, in parallel; returns the comma separated automata and logs a summary."""
        t0 = time.time()
        with cf.ThreadPoolExecutor(NCPU) as ex:
            rs = list(ex.map(lambda t: automaton(f"{name}_{sha(t)[:8]}", module, mk([t]), [t], invariants, **k), tags))
        r = {"name": name, "module": module, "states": sum(x["states"] for _, x in rs), "transitions": sum(x["transitions"] for _, x in rs),
             "programs": len(tags), "aut_states": sum(x["aut_states"] for _, x in rs), "invariants": list(invariants),
             "per_program": {t: x["states"] for t, (_, x) in zip(tags, rs)}, "wall_s": round(time.time() - t0, 1)}
        self.models.append(r)
        log(f"{self.pid}: automata {name}: {len(tags)} programs, {r['states']} states, {r['transitions']} transitions, {r['wall_s']}s")
        return {t: f for t, (f, _) in zip(tags, rs)}

    # -- implementation side
    def explore(self, name, exe, configs, limit=None, env=None):
        """configs: list of dicts of command-line options; run in parallel, each a process.  Every execution is
        judged in the process by the automaton (if any); the first bad one is replayed to confirm it."""
        limit = limit or (600 if self.thorough else 150)
        d = f"{BUILD}/run/{self.pid}-{name}-{os.getpid()}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        results = [None] * len(configs)

        def one(i):
            c = dict(configs[i])
            exe_ = c.pop("_exe", exe)
            c.setdefault("time", limit)
            c["out"] = f"{d}/out{i}.json"
            if "dumpmax" in c:
                c["dump"] = f"{d}/dump{i}"
            e = dict(os.environ)
            e.update(env or {})
            cmd = [exe_] + [f"--{k}={v}" for k, v in c.items()]
            try:
                p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit * 2 + 120, text=True, errors="replace")
            except subprocess.TimeoutExpired:
                raise CheckError(f"{name}: harness hung: {' '.join(cmd)}")
            if p.returncode not in (0, 1) or not os.path.exists(c["out"]):
                raise CheckError(f"{name}: harness failed rc={p.returncode}: {' '.join(cmd)}\n{p.stdout[-3000:]}")
            r = json.loads(read(c["out"]))
            r["args"] = {k: v for k, v in configs[i].items() if k not in ("execs", "from", "strat", "seed", "_exe")}
            r["dump"] = c.get("dump")
            r["exe"] = exe_
            r["env"] = env or {}
            results[i] = r
            return r
        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(one, range(len(configs))))
        tot = {"name": name, "processes": len(configs), "executions": 0, "distinct": 0, "steps": 0, "stale_loads": 0, "judged": 0, "dfs_complete": 0, "wall_s": 0}
        for r in results:
            tot["executions"] += r["execs"]
            tot["distinct"] += r["distinct"]
            tot["steps"] += r["steps"]
            tot["stale_loads"] += r["stale_loads"]
            tot["judged"] += r["judged"]
            tot["dfs_complete"] += bool(r["dfs_complete"])
            tot["wall_s"] = max(tot["wall_s"], round(r["time"], 1))
        self.execs += tot["executions"]
        self.distinct += tot["distinct"]
        self.judged += tot["judged"]
        self.steps += tot["steps"]
        self.runs.append(tot)
        if len(self.samples) < 6:
            r = results[0]
            self.samples.append({"run": name, "program": r["tag"], "trace": r["trace"][:1500]})
        log(f"{self.pid}: {name}: {tot['executions']} executions ({tot['distinct']} distinct), {tot['steps']} steps, {tot['wall_s']}s")
        for r in results:
            if r["status"] != "ok":
                self.bad(name, r)
        return results

    def bad(self, name, r):
        d = f"{BUILD}/run/{self.pid}-confirm-{os.getpid()}"
        os.makedirs(d, exist_ok=True)
        cf_, out = d + "/choices", d + "/out.json"
        write(cf_, r["choices"])
        cmd = [r["exe"]] + [f"--{k}={v}" for k, v in r["args"].items() if k not in ("time", "dumpmax", "dump")] + \
            [f"--choices=@{cf_}", f"--out={out}", f"--seed={r['seed']}", f"--from={r['exec']}", "--time=300"]
        e = dict(os.environ)
        e.update(r["env"])
        p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400, text=True, errors="replace")
        q = json.loads(read(out)) if os.path.exists(out) else {"status": "none"}
        if q["status"] == "ok":
            raise CheckError(f"{name}: could not reproduce: {r['message']} ({' '.join(cmd)})\n{p.stdout[-1000:]}")
        self.violate(name, q["message"], {"harness": os.path.basename(r["exe"]).rsplit("-", 1)[0], "args": r["args"], "env": r["env"], "choices": r["choices"], "seed": r["seed"],
                                          "exec": r["exec"], "program": q["tag"], "trace": q["trace"], "status": q["status"], "rejected_at": q["rejected_at"]})

    def violate(self, name, what, data):
        for kf in self.known:
            if kf["match"] in f"{name}: {what}":
                if kf["match"] not in self.known_hit:
                    self.known_hit.add(kf["match"])
                return
        data = dict(data)
        data.update({"property": self.pid, "run": name, "message": what})
        p = f"evidence/replay/{self.pid}.json"
        write(f"{ROOT}/{p}", json.dumps(data, indent=1))
        raise Violation(f"{name}: {what}", p)

    def validate(self, name, module, defs, results, progs, maxn=4000, **k):
        """TLC validates the dumped traces of the given runs against the specification."""
        seen, traces, origin = set(), [], []
        idx = {t: i + 1 for i, t in enumerate(progs)}
        for r in results:
            if not r.get("dump"):
                continue
            with open(r["dump"]) as f:
                for line in f:
                    line = line.rstrip("\n")
                    if line in seen or len(traces) >= maxn:
                        continue
                    seen.add(line)
                    tag, tr = line.split("|", 1)
                    if tag not in idx:
                        raise CheckError(f"{name}: unknown program {tag}")
                    traces.append((idx[tag], [x for x in tr.split(";") if x]))
                    origin.append((tag, r))
        t0 = time.time()
        rej, st = validate_traces(name, module, defs, traces, **k)
        self.validated += len(traces)
        st.update({"name": name, "module": module, "wall_s": round(time.time() - t0, 1), "kind": "trace validation by TLC"})
        self.models.append(st)
        log(f"{self.pid}: TLC validated {len(traces)} traces of {name}: {st['states']} states, {st['wall_s']}s")
        for i, n in rej:
            tag, r = origin[i]
            evs = traces[i][1]
            self.violate(name, f"specification {module} rejects event #{n} '{evs[n] if n < len(evs) else 'end'}' of {tag}",
                         {"program": tag, "trace": ";".join(evs), "rejected_at": n, "args": r["args"]})
        return st

    def finish(self, level, rule, violations=0):
        cov = {
            "states": sum(m["states"] for m in self.models),
            "transitions": sum(m["transitions"] for m in self.models),
            "traces_validated_against_impl": self.judged + self.validated,
            "samples": self.samples or [{"models": [m["name"] for m in self.models]}],
            "evaluations": self.execs, "distinct_nontrivial": self.distinct, "rule": rule,
            "models": self.models, "runs": self.runs, "scheduler_steps": self.steps,
        }
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        write(f"{ROOT}/evidence/{self.pid}.json", json.dumps(ev, indent=1))
        for kf in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {kf['text']}")


def known_findings(pid):
    """known_findings.txt: lines 'finding: property=<id> match=<substring> :: <text>'; 'fixed:' lines suppress nothing."""
    p = ROOT + "/known_findings.txt"
    out = []
    if os.path.exists(p):
        for line in read(p).splitlines():
            m = re.match(r"finding: property=(\S+) match=(.*?) :: (.*)$", line)
            if m and m.group(1) == pid:
                out.append({"match": m.group(2), "text": m.group(3)})
    return out


def seeds(chk, n, **kw):
    return [dict(kw, seed=chk.seed * 1000 + i + 1) for i in range(n)]

RULE = ("An execution runs a client program of the real code under the controlled scheduler (random/PCT/bounded-exhaustive "
        "schedules, weak-memory values where stated); it counts as distinct when its trace of observable events differs from all "
        "earlier ones of the same process.")


def fj_prog(tag):
    """'2/0@1/F1F2J,,' -> record for specs/ForkJoin.tla"""
    w, roots, tasks = tag.split("/")
    rs = []
    for r in roots.split("+"):
        t, _, wk = r.partition("@")
        rs.append({"t": int(t), "w": int(wk.rstrip("d") or 1), "d": wk.endswith("d")})
    ops = []
    for t in tasks.split(","):
        ops.append([{"k": k, "a": int(a or 0)} for k, a in re.findall(r"([A-Za-z])(\d*)", t)])
    up = [{"p": 0, "k": "root"} for _ in ops]
    for p, os_ in enumerate(ops):
        for o in os_:
            if o["k"] in "FTSOCUQEG":
                up[o["a"]] = {"p": p + 1, "k": o["k"]}
    return {"tag": tag, "w": int(w), "roots": rs, "ops": ops, "up": up}
