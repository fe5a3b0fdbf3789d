"""Framework shared by all checks: build a harness from /repo's working tree, run it,
validate what it recorded against a TLA+ trace specification with TLC, report."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_DEV_REPO", "/repo")  # override used only while developing
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"
GUARD = "PRINTEMPS_VERIF_TRACE"


class ToolError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "printemps"), os.path.join(REPO, "application"), os.path.join(VERIF, "harness")]
    for root in roots:
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:20]


_TREE = None


def tree():
    global _TREE
    if _TREE is None:
        _TREE = tree_hash()
    return _TREE


def build(name, flags=(), main=None):
    """Compile harness/<name>.cpp against /repo's working tree (content-addressed)."""
    os.makedirs(BUILD, exist_ok=True)
    tag = hashlib.sha256((name + " ".join(flags) + tree()).encode()).hexdigest()[:16]
    out = os.path.join(BUILD, f"{name}.{tag}")
    if os.path.exists(out):
        return out
    for f in os.listdir(BUILD):  # drop stale builds of the same harness
        p = os.path.join(BUILD, f)
        try:
            if f.startswith(name + ".") and time.time() - os.path.getmtime(p) > 3600:
                os.unlink(p)
        except OSError:
            pass
    src = main or os.path.join(VERIF, "harness", name + ".cpp")
    tmp = out + f".tmp{os.getpid()}"
    cmd = ["g++", "-std=c++17", "-O1", "-g0", "-pthread", "-w", "-D" + GUARD, "-I" + os.path.join(REPO, "printemps"),
           "-I" + os.path.join(VERIF, "harness")] + list(flags) + ["-o", tmp, src]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError(f"harness {name} does not compile:\n" + r.stderr[-3000:])
    os.rename(tmp, out)
    return out


def run_harness(exe, args, out, timeout=600, env=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    with open(out, "w") as fh:
        try:
            r = subprocess.run([exe] + [str(a) for a in args], stdout=fh, stderr=subprocess.PIPE, timeout=timeout, env=e)
        except subprocess.TimeoutExpired:
            raise ToolError(f"harness {os.path.basename(exe)} timed out")
    if r.returncode != 0:
        raise ToolError(f"harness {os.path.basename(exe)} exited {r.returncode}: " + r.stderr.decode(errors='replace')[-2000:])


def tlc(module, cfg, workdir, env=None, workers=8, extra=(), timeout=800, heap="6g"):
    """Run TLC; returns (stdout, dict(states, distinct), returncode)."""
    meta = tempfile.mkdtemp(prefix="tlc.", dir=workdir)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update(env)
    cmd = ["java", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + meta, f"-Xmx{heap}", "-Xss32m", f"-DTLA-Library={SPEC}",
           "-cp", JAR + ":" + ":".join(cp_modules()), "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-deadlock", "-config", cfg] + list(extra) + [module]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=SPEC)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC timed out on {module}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left", r.stdout)
    st = {"states": 0, "distinct": 0, "left": 0}
    if m:
        g, d, lft = m[-1]
        st = {"states": int(g.replace(",", "")), "distinct": int(d.replace(",", "")), "left": int(lft.replace(",", ""))}
    return r.stdout, st, r.returncode, r.stderr


_CP = None


def cp_modules():
    global _CP
    if _CP is None:
        d = os.path.dirname(JAR)
        _CP = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".jar") and f != os.path.basename(JAR)]
    return _CP


def design(module, cfg, workdir, workers=8, timeout=800):
    """Exhaustive check of a design specification; any error is an error of the check's own model."""
    out, st, rc, err = tlc(os.path.join(SPEC, module + ".tla"), os.path.join(SPEC, cfg), workdir, workers=workers, timeout=timeout)
    if rc != 0 or "No error has been found" not in out or st["left"] != 0:
        raise ToolError(f"design model {module}/{cfg} failed (rc {rc}):\n" + out[-3000:] + err[-500:])
    return st


EVAL = re.compile(r"Overflow when computing|overflow|was evaluating|evaluating the nested|Attempted to|TLC encountered the following error")
REJ = re.compile(r'<<\s*"REJECT",\s*(\d+),\s*(-?\d+),\s*(.*?)>>\s*(?=\n)', re.S)


def validate(module, trace, workdir, lines, steps, timeout=800, cfg=None, chunk_bytes=24 << 20):
    """Validate episodes (ndjson lines) in chunks; returns (rejections {episode: (step, reason)}, stats)."""
    cfgp = os.path.join(SPEC, cfg or (module + ".cfg"))
    chunks, cur, size = [], [], 0
    total = sum(len(x) for x in lines)
    limit = max(min(chunk_bytes, total // 4 + 1), 1 << 20)
    start = 0
    for k, x in enumerate(lines):
        cur.append(x)
        size += len(x)
        if size >= limit:
            chunks.append((start, cur))
            start, cur, size = k + 1, [], 0
    if cur:
        chunks.append((start, cur))
    rej, tot = {}, {"states": 0, "distinct": 0}
    par = min(4, len(chunks))

    def one(i):
        start, ls = chunks[i]
        path = f"{trace}.{i}"
        numbers = list(range(start + 1, start + len(ls) + 1))   # episode numbers of the lines
        broken = {}
        while True:
            with open(path, "w") as fh:
                fh.write("\n".join(ls) + "\n")
            out, st, rc, err = tlc(os.path.join(SPEC, module + ".tla"), cfgp, workdir, env={"TRACE": path},
                                   workers=max(1, 8 // par), timeout=timeout, heap="5g")
            os.unlink(path)
            # A recorded value for which the specification has no meaning at all (such as a number
            # far out of range) stops TLC: the episode is rejected and the others are validated.
            at = re.findall(r"(?:^|\n)(?:/\\ )?ep = (\d+)", out)
            if rc != 0 and at and len(ls) > 1 and EVAL.search(out) and "OutOfMemory" not in out + err:
                k = int(at[-1]) - 1
                step = re.findall(r"(?:^|\n)(?:/\\ )?l = (-?\d+)", out)
                broken[numbers[k]] = (int(step[-1]) if step else 0, '"a recorded value is outside the range of the specification"')
                ls, numbers = ls[:k] + ls[k + 1:], numbers[:k] + numbers[k + 1:]
                if len(broken) < 3:
                    continue
                return numbers, [], "", {"states": 0, "distinct": 0}, 0, "", broken
            return numbers, ls, out, st, rc, err, broken

    with ThreadPoolExecutor(par) as ex:
        for numbers, ls, out, st, rc, err, broken in ex.map(one, range(len(chunks))):
            rej.update(broken)
            if not ls and broken:
                continue
            if not (rc == 0 and "No error has been found" in out):
                raise ToolError(f"TLC failed on {module} (rc {rc}):\n" + out[-3500:] + err[-800:])
            here = 0
            for m in REJ.finditer(out):  # TLC may wrap long tuples over several lines
                ep = numbers[int(m.group(1)) - 1]
                here += 1
                if ep not in rej:
                    rej[ep] = (int(m.group(2)), " ".join(m.group(3).split()))
            want = sum(steps(json.loads(x)) for x in ls)
            if not here and st["distinct"] != want:
                raise ToolError(f"TLC consumed {st['distinct']} states of {module}, expected {want}: trace specification is stuck")
            tot["states"] += st["states"]
            tot["distinct"] += st["distinct"]
    return rej, tot


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        os.makedirs(BUILD, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=f"work.{prop}.", dir=BUILD)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.stages = []
        self.violations = []   # (stage, key, reason, replay)
        self.known_hit = []
        self.assumptions = []
        self.known = [k for k in load_known() if k["property"] == prop]

    quick = property(lambda s: s.tier == "quick")

    def n(self, quick, thorough):
        return quick if self.tier == "quick" else thorough

    def prebuild(self, *specs):
        """Compile several (harness, flags) in parallel."""
        tree()
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(lambda s: build(s[0], s[1] if len(s) > 1 else ()), specs))

    def design(self, module, cfg=None):
        st = design(module, cfg or module + ".cfg", self.work)
        self.states += st["distinct"]
        self.transitions += st["states"]
        self.stages.append({"design_model": module, "config": cfg or module + ".cfg", "distinct_states": st["distinct"], "states_generated": st["states"], "exhaustive": True})

    def conform(self, harness, args, module, flags=(), label=None, steps=None, env=None, cfg=None, timeout=800, post=None, racy=False):
        """Run harness with args, validate episodes with module. steps(ep)-> states of an episode.
        racy: executions are not repeatable, a rejection counts when the second execution has one too."""
        label = label or f"{harness}->{module}"
        steps = steps or (lambda e: 1 + len(e["ev"]) if "ev" in e else 2)
        res = []
        for attempt in (0, 1):
            exe = build(harness, flags)
            trace = os.path.join(self.work, f"{label.replace('/', '_').replace('>', '')}.{attempt}.ndjson")
            run_harness(exe, args, trace, env=env)
            if post:
                post(trace)
            lines = [x for x in open(trace).read().split("\n") if x]
            if not lines:
                raise ToolError(f"{label}: harness produced no episode")
            eps = [json.loads(x) for x in lines]
            rej, st = validate(module, trace, self.work, lines, steps, timeout=timeout, cfg=cfg)
            res.append((rej, eps, lines))
            if attempt == 0:
                self.states += st["distinct"]
                self.transitions += max(st["states"] - len(eps), 0)
                self.traces += len(eps)
                smp = eps[len(eps) // 2]
                self.samples.append({"stage": label, "episode": json.loads(lines[len(eps) // 2]) if len(lines[len(eps) // 2]) < 3000 else lines[len(eps) // 2][:3000]})
                self.stages.append({"conformance": label, "spec": module, "episodes": len(eps), "states": st["distinct"],
                                    "kinds": hist(eps)})
                if not rej:
                    return eps
        (r0, e0, l0), (r1, e1, l1) = res
        for ep in sorted(r0):
            # a rejection counts only when a second execution of the code repeats it
            if ep not in r1 and not (racy and r1):
                print(f"note: rejection of episode {ep} of {label} not repeated, ignored: {r0[ep]}")
                continue
            line, reason = r0[ep]
            key = f"{label}:{e0[ep - 1].get('key', '')}:{reason}"
            hit = None
            for k in self.known:
                if re.search(k["match"], key):
                    hit = k
            if hit:
                self.known_hit.append(hit["what"])
                continue
            self.violate(label, ep, line, reason, l0[ep - 1], [harness] + [str(a) for a in args], module)
        return e0

    def violate(self, label, ep, line, reason, episode, cmd, module):
        rp = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, f"{self.prop}-{re.sub(r'[^A-Za-z0-9]+', '_', label)}-{ep}.json")
        with open(path, "w") as fh:
            json.dump({"property": self.prop, "stage": label, "episode": ep, "step": line, "reason": reason, "harness": cmd, "spec": module,
                       "record": json.loads(episode) if isinstance(episode, str) else episode}, fh)
        self.violations.append((label, ep, line, reason, path))

    def finish(self):
        for w in sorted(set(self.known_hit)):
            print(f"KNOWN-FINDING: property={self.prop} {w}")
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                           "samples": self.samples[:6], "stages": self.stages},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        if self.violations:
            for (label, ep, line, reason, path) in self.violations[:10]:
                print(f"  {label} episode {ep} step {line}: {reason}")
            print(f"VIOLATION property={self.prop} replay={self.violations[0][4]}")
            return 1
        print(f"OK property={self.prop} states={self.states} traces={self.traces} wall={ev['wall_s']}s")
        return 0

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)


def hist(eps):
    h = {}
    for e in eps:
        k = e.get("kind", "episode")
        h[k] = h.get(k, 0) + 1
    return h


def main(table):
    if len(sys.argv) < 2 or sys.argv[1] not in table:
        print("usage: check.py <property>", file=sys.stderr)
        return 2
    c = Check(sys.argv[1])
    try:
        table[sys.argv[1]](c)
        return c.finish()
    except Exception as e:
        import traceback
        print(f"ERROR property={c.prop}: {e}", file=sys.stderr)
        if not isinstance(e, ToolError):
            traceback.print_exc()
        if c.violations:   # an earlier stage has shown a violation
            return c.finish()
        return 2
    finally:
        c.cleanup()
