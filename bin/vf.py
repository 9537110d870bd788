"""Machinery shared by all checks: build the driver, run TLC models, generate
programs from the specification, record traces, validate them, report."""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    pass


class Violation(Exception):
    def __init__(self, info):
        self.info = info


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.dir = tempfile.mkdtemp(prefix="vf-%s-" % prop)
        self.t0 = time.time()
        self.models, self.traces, self.gens = [], [], []
        self.samples, self.ops, self.extra = [], {}, {}
        self.lock = threading.Lock()
        self.bins = {}
        self.blocks = {"race": threading.Lock(), "plain": threading.Lock()}
        self.known = load_known(prop)
        self.known_hit = []
        self.unfinished = []

    def path(self, name):
        return os.path.join(self.dir, name)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # ---- building -------------------------------------------------------
    def build(self, race=False):
        key = "race" if race else "plain"
        with self.blocks[key]:
            return self._build(key, race)

    def _build(self, key, race):
        if key in self.bins:
            return self.bins[key]
        mod = self.path(key + ".mod")
        shutil.copy(os.path.join(HARNESS, "go.mod"), mod)
        shutil.copy("/repo/go.sum", self.path(key + ".sum"))
        out = self.path("vh-" + key)
        env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off")
        cmd = ["go", "build", "-modfile", mod, "-o", out] + os.environ.get("VF_BUILD", "").split()
        if race:
            cmd.append("-race")
            env["CGO_ENABLED"] = "1"
        t = time.time()
        p = subprocess.run(cmd + ["."], cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if p.returncode != 0:
            raise CheckError("building the driver failed:\n" + p.stdout[-3000:])
        log("built %s driver in %.1fs" % (key, time.time() - t))
        self.bins[key] = out
        return out

    # ---- TLC ------------------------------------------------------------
    def tlc(self, module, cfg, workers=2, env=None, heap="3g", timeout=800, extra=(), name=None, consts=None):
        meta = tempfile.mkdtemp(dir=self.dir, prefix="meta-")
        cfgpath = os.path.join(SPEC, cfg)
        if consts:
            txt = open(cfgpath).read()
            for k, v in consts.items():
                txt, n = re.subn(r"(?<!\w)%s *(?:=|<-) *(\{[^}]*\}|\S+)" % k, lambda m: "%s %s" % (k, v) if str(v).startswith("<-") else "%s = %s" % (k, v), txt, count=1)
                if n != 1:
                    raise CheckError("constant %s not in %s" % (k, cfg))
            cfgpath = os.path.join(meta, cfg)
            open(cfgpath, "w").write(txt)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + meta, "-cp", CP, "tlc2.TLC",
               "-workers", str(workers), "-config", cfgpath, "-metadir", os.path.join(meta, "states"), "-noGenerateSpecTE", *extra, module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % module)
        out = p.stdout
        m = re.search(r"^(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out, re.M)
        st = (int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))) if m else (0, 0)
        shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, out, st, time.time() - t

    def model(self, module, cfg=None, consts=None, workers=4, heap="4g", timeout=800, extra=()):
        """Exhaustively check a design model; anything but success is an error of the check."""
        rc, out, (gen, dist), dt = self.tlc(module, cfg or module + ".cfg", workers, consts=consts, heap=heap, timeout=timeout, extra=extra)
        if rc != 0 or "No error has been found" not in out:
            raise CheckError("design model %s failed (rc %d):\n%s" % (module, rc, tail(out)))
        rec = {"module": module, "cfg": cfg or module + ".cfg", "constants": consts or "as in cfg", "states_generated": gen, "distinct_states": dist, "wall_s": round(dt, 1)}
        log("model %s %s: %d generated, %d distinct, %.1fs" % (module, consts or "", gen, dist, dt))
        with self.lock:
            self.models.append(rec)
        return rec

    def generate(self, module, cfg=None, consts=None, workers=1, extra=(), env=None, timeout=600, heap="4g", jobs=None):
        """Let the specification emit JSON lines (PrintT of "GEN ...")."""
        if jobs is not None:
            jp = self.path("%s.jobs.%d" % (module, len(self.gens)))
            with open(jp, "w") as f:
                for j in jobs:
                    f.write(json.dumps(j) + "\n")
            env = dict(env or {}, JOBS=jp)
            consts = {"jobs": jobs}
        rc, out, (gen, dist), dt = self.tlc(module, cfg or module + ".cfg", workers, consts=None if jobs is not None else consts, extra=extra, env=env, timeout=timeout, heap=heap)
        lines = []
        for ln in out.splitlines():
            if ln.startswith('"GEN '):
                lines.append(json.loads(json.loads(ln)[4:]))
        if rc != 0 or not lines:
            raise CheckError("generator %s failed (rc %d):\n%s" % (module, rc, tail(out)))
        with self.lock:
            self.gens.append({"module": module, "constants": consts or "as in cfg", "emitted": len(lines), "distinct_states": dist, "states_generated": gen})
        log("generated %d from %s %s in %.1fs" % (len(lines), module, "" if jobs is not None else consts or "", dt))
        return lines

    # ---- running the real code -----------------------------------------
    def drive(self, driver, gen=None, race=False, name=None, args=(), env=None, timeout=None):
        """Run a driver of the harness; returns the trace path."""
        exe = self.build(race)
        timeout = timeout or (600 if self.thorough else 400)
        name = name or driver
        out = self.path(name + ".ndjson")
        cmd = [exe, driver, "-out", out, "-seed", str(self.seed)] + list(args)
        if self.thorough:
            cmd.append("-thorough")
        if gen is not None:
            gp = self.path(name + ".gen")
            with open(gp, "w") as f:
                for g in gen:
                    f.write(json.dumps(g) + "\n")
            cmd += ["-gen", gp]
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            # what was recorded so far may show why
            data = open(out, "rb").read()
            open(out, "wb").write(data[:data.rfind(b"\n") + 1])
            self.unfinished.append("driver timed out: " + " ".join(cmd))
            log(self.unfinished[-1])
            p = subprocess.CompletedProcess(cmd, 0)
        if p.stderr and "given up in program" in p.stderr:
            log("driver %s: objects of this size are more than this implementation handles in reasonable time: %s" % (name, p.stderr.strip()[-60:]))
        if p.returncode != 0 and os.path.exists(out + ".huge") and re.search(r"out of memory|signal: killed", p.stderr + ("signal: killed" if p.returncode == -9 else "")):
            data = open(out, "rb").read()
            open(out, "wb").write(data[:data.rfind(b"\n") + 1])
            p = subprocess.CompletedProcess(cmd, 0)
        if p.returncode != 0:
            cur = out + ".cur"
            if "harness: " in p.stderr or not os.path.exists(cur):
                raise CheckError("driver %s failed:\n%s" % (driver, p.stderr[-3000:]))
            pid = int(open(cur).read() or "0")
            # the process died inside the library: believed when the runtime says why, or when it happens again for this program alone
            deaths = 0
            if re.search(r"^(panic: |fatal error: (concurrent map|all goroutines are asleep|sync: )|WARNING: DATA RACE)", p.stderr, re.M):
                raise Violation({"driver": driver, "program": pid, "what": "the process dies while running this program", "cmd": cmd[1:], "stderr": p.stderr[-3000:]})
            for _ in range(3):
                q = self._exec(cmd + ["-only", str(pid)], e, timeout)
                if q.returncode != 0:
                    deaths += 1
                    if "harness: " in q.stderr:
                        raise CheckError("driver %s failed:\n%s" % (driver, q.stderr[-3000:]))
            if deaths == 0:
                raise CheckError("driver %s died once in program %d and never again:\n%s" % (driver, pid, p.stderr[-3000:]))
            raise Violation({"driver": driver, "program": pid, "what": "the process dies while running this program (%d of 3 reruns)" % deaths,
                             "cmd": cmd[1:], "stderr": p.stderr[-3000:]})
        n = sum(1 for _ in open(out))
        log("driver %s: %d programs, %.1f MB, %.1fs" % (name, n, os.path.getsize(out) / 1e6, time.time() - t))
        if n == 0:
            raise CheckError("driver %s recorded nothing" % driver)
        return out

    def _exec(self, cmd, env, timeout):
        try:
            return subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise CheckError("driver timed out: %s" % " ".join(cmd))

    # ---- trace validation ----------------------------------------------
    def validate(self, trace, module, env=None, cfg=None, shard_mb=3.0, heap="3g", evkey="ev", timeout=800):
        """Every line of the trace has to be a behaviour of the trace specification."""
        shards, cur, size, base = [], [], 0, 0
        total = os.path.getsize(trace)
        target = max(200000, min(shard_mb * 1e6, total / NCPU + 1))
        nlines = 0
        with open(trace) as f:
            for ln in f:
                cur.append(ln)
                size += len(ln)
                nlines += 1
                if size >= target:
                    shards.append((base, cur))
                    base, cur, size = nlines, [], 0
        if cur:
            shards.append((base, cur))
        tag = os.path.basename(trace)
        jobs = []
        for i, (b, lines) in enumerate(shards):
            sp = self.path("%s.%s.%d" % (tag, module, i))
            with open(sp, "w") as f:
                f.writelines(lines)
            jobs.append((sp, b, lines))
        self._stats(shards, evkey)

        def one(job):
            sp, b, lines = job
            e = {"TRACE": sp, "PROP": self.prop}
            e.update(env or {})
            rc, out, st, dt = self.tlc(module, cfg or module + ".cfg", workers=2, env=e, heap=heap, timeout=timeout)
            return job, rc, out, st

        par = max(1, min(len(jobs), max(2, NCPU - 2)))
        gen = dist = 0
        bad = []
        t = time.time()
        with concurrent.futures.ThreadPoolExecutor(par) as ex:
            for job, rc, out, st in ex.map(one, jobs):
                gen += st[0]
                dist += st[1]
                if rc == 0 and "No error has been found" in out:
                    continue
                if "Error: Deadlock reached" in out or ("Attempted to" in out and re.search(r"^State \d+:", out, re.M)):
                    # a record outside the domain of the specification's operators is rejected as well
                    bad.append((job, out))
                else:
                    raise CheckError("validating %s with %s failed (rc %d):\n%s" % (tag, module, rc, out[-4000:]))
        log("validated %s with %s: %d programs, %d states, %.1fs" % (tag, module, nlines, dist, time.time() - t))
        self.traces.append({"trace": tag, "spec": module, "programs": nlines, "distinct_states": dist, "states_generated": gen})
        for job, out in bad:
            sp, b, lines = job
            ms = re.findall(r"^State \d+:.*?\n(.*?)(?=^State |\Z)", out, re.M | re.S)
            last = ms[-1] if ms else out
            pm = re.search(r"\bp = (\d+)", last)
            lm = re.search(r"\bl = (\d+)", last)
            if not pm:
                raise CheckError("cannot read the rejected position:\n" + out[-3000:])
            rec = json.loads(lines[int(pm.group(1)) - 1])
            l = int(lm.group(1)) if lm else 1
            evs = rec.get(evkey) or []
            why = re.search(r"\bwhy = (\".*?\")", last)
            info = {"trace": tag, "spec": module, "program": rec.get("pid"), "position": l, "rejected": evs[l - 1] if evs and l <= len(evs) else rec,
                    "record": rec, "tlc": last[-1500:]}
            if why:
                info["why"] = why.group(1)
            if self.is_known(info):
                continue
            raise Violation(info)

    def _stats(self, shards, evkey):
        n = 0
        for _, lines in shards:
            for ln in lines:
                n += 1
                if n % 7 == 1 or n < 2000:
                    r = json.loads(ln)
                    evs = r.get(evkey) or [r]
                    for e in evs:
                        if isinstance(e, dict):
                            k = e.get("op", "?")
                            self.ops[k] = self.ops.get(k, 0) + 1
                    if len(self.samples) < 3 and n % 5 == 3:
                        if isinstance(r.get(evkey), list):
                            r[evkey] = r[evkey][:4]
                        if len(json.dumps(r)) < 4000:
                            self.samples.append(r)

    def is_known(self, info):
        for k in self.known:
            if matches(k["match"], info["rejected"]):
                self.known_hit.append(k)
                return True
        return False

    # ---- reporting -------------------------------------------------------
    def evidence(self, violation=None):
        states = sum(m["distinct_states"] for m in self.models) + sum(t["distinct_states"] for t in self.traces)
        trans = sum(m["states_generated"] for m in self.models) + sum(t["states_generated"] for t in self.traces)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": states, "transitions": trans, "traces_validated_against_impl": sum(t["programs"] for t in self.traces),
                           "samples": self.samples[:3] or ["none recorded"], "design_models": self.models, "generated_from_spec": self.gens,
                           "trace_validation": self.traces, "calls_sampled": self.ops, **self.extra},
              "wall_s": round(time.time() - self.t0, 1)}
        if violation:
            ev["coverage"]["violation"] = violation
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")


def tail(out, n=3000):
    """TLC's output without the noise of parsing"""
    return "\n".join(l for l in out.splitlines() if not re.match(r"(Parsing|Semantic|Linting|Computed|\"GEN)", l))[-n:]


def matches(pat, rec):
    if isinstance(pat, dict):
        return isinstance(rec, dict) and all(k in rec and matches(v, rec[k]) for k, v in pat.items())
    return pat == rec


def load_known(prop):
    """known_findings.jsonl: findings that were not repaired carry a match on the rejected event"""
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for ln in open(p):
            if ln.strip():
                k = json.loads(ln)
                if k.get("property") == prop and k.get("status") == "finding":
                    out.append(k)
    return out


def parallel(*fns):
    """Run closures concurrently; the first Violation wins over errors."""
    errs = []
    with concurrent.futures.ThreadPoolExecutor(len(fns)) as ex:
        for f in [ex.submit(fn) for fn in fns]:
            try:
                f.result()
            except BaseException as e:
                errs.append(e)
    for e in errs:
        if isinstance(e, Violation):
            raise e
    if errs:
        raise errs[0]


def tours(trans, shape, maxlen=60):
    """Programs (call sequences from an all-zero object) that take every emitted transition."""
    todo = {}
    for t in trans:
        todo.setdefault(tuple(t["pre"]), []).append((t["act"], tuple(t["post"])))
    r, c = shape
    zero = tuple([0] * (r * c))
    for v in todo.values():
        v.sort(key=lambda x: json.dumps(x[0], sort_keys=True))
    left = set(todo)
    progs, steps, cur = [], [], zero

    def goto(dst):
        nonlocal cur
        for i, (a, b) in enumerate(zip(cur, dst)):
            if a != b:
                steps.append({"op": "set", "r": i // c, "c": i % c, "v": b})
        cur = dst

    while left:
        if cur not in left:
            # nearest contents with transitions left
            goto(min(left, key=lambda s: (sum(x != y for x, y in zip(s, cur)), s)))
        act, post = todo[cur].pop()
        if not todo[cur]:
            left.discard(cur)
        steps.append(act)
        cur = post
        if len(steps) >= maxlen:
            progs.append({"r": r, "c": c, "steps": steps})
            steps, cur = [], zero
    if steps:
        progs.append({"r": r, "c": c, "steps": steps})
    return progs


def main(checks):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    run = Run(a.prop, "thorough" if a.tier == "thorough" else "quick", a.seed)
    rc = 2
    try:
        checks[a.prop](run)
        if run.unfinished:
            raise CheckError("; ".join(run.unfinished))
        run.evidence()
        for k in run.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
        print("OK property=%s tier=%s wall=%.1fs" % (a.prop, run.tier, time.time() - run.t0))
        rc = 0
    except Violation as v:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        h = hashlib.sha1(json.dumps(v.info, sort_keys=True, default=str).encode()).hexdigest()[:10]
        rp = os.path.join(VERIF, "replays", "%s-%s.json" % (a.prop, h))
        v.info.update({"property": a.prop, "seed": run.seed, "tier": run.tier})
        with open(rp, "w") as f:
            json.dump(v.info, f, indent=1, default=str)
        run.evidence(violation=rp)
        log("rejected:", json.dumps(v.info.get("rejected", v.info.get("what")), default=str)[:2000])
        print("VIOLATION property=%s replay=%s" % (a.prop, rp))
        rc = 1
    except CheckError as e:
        print("ERROR property=%s: %s" % (a.prop, e))
        rc = 2
    finally:
        run.close()
    sys.stdout.flush()
    sys.exit(rc)
