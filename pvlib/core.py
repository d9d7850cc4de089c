"""Shared machinery of the checks: building the harness, running it, running TLC, reporting."""
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar:/opt/veriftools/tla/CommunityModules.jar"


class ToolError(Exception):
    """Something is wrong with the check, not with the code under test."""


class Violation(Exception):
    def __init__(self, what, case):
        super().__init__(what)
        self.what, self.case = what, case


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(ROOT, ".work", f"{pid}-{os.getpid()}")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = 0
        self.evaluations = self.distinct = 0
        self.samples, self.parts, self.known = [], {}, []
        self.assumptions = []
        self.exhaustive = None

    thorough = property(lambda s: s.tier == "thorough")

    def log(self, msg):
        print(f"[{time.time() - self.t0:6.1f}s] {msg}", flush=True)

    # ---------------------------------------------------------------- harness
    def build(self, flavour="release"):
        env = dict(os.environ, RUSTFLAGS="--cfg pokers_verif", CARGO_NET_OFFLINE="true",
                   HOME=os.environ.get("HOME", "/root"))
        env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
        target = os.path.join(HARNESS, "target")
        # cargo judges freshness by mtime: make it ask rustc about the crate under test every time
        fp = os.path.join(target, "release", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith(("pokers-", "pv-")):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        p = subprocess.run(["cargo", "build", "--release", "--offline", "--locked", "--target-dir", target],
                           cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise ToolError("the harness does not build against /repo:\n" + p.stdout[-4000:])
        src = os.path.join(target, "release", "pv")
        self.pv = os.path.join(self.work, "pv")
        shutil.copy2(src, self.pv)
        self.log("harness built from /repo")

    def harness(self, sub, *args, timeout=600):
        """Runs a harness command; what it prints as JSON lines is returned. A crash or a hang of the code under
        test is a violation; the case it was on is in current.json."""
        if self.thorough:
            timeout *= 4
        out = os.path.join(self.work, sub)
        os.makedirs(out, exist_ok=True)
        cur = os.path.join(out, "current.json")
        if os.path.exists(cur):
            os.unlink(cur)
        cmd = [self.pv, sub, "--tier", self.tier, "--seed", str(self.seed), "--spec", SPEC, "--out", out,
               *map(str, args)]
        self.log("harness " + " ".join(cmd[1:2] + list(map(str, args))))
        err = open(os.path.join(out, "stderr"), "w+")
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=err, text=True, start_new_session=True,
                             preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30)))
        hung = False
        try:
            text, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            hung = True
            os.killpg(p.pid, signal.SIGKILL)
            text, _ = p.communicate()
        err.seek(0)
        errtext = err.read()[-3000:]
        msgs = []
        for line in text.splitlines():
            if line.startswith("{"):
                try:
                    msgs.append(json.loads(line))
                except ValueError:
                    raise ToolError("harness printed a broken line: " + line[:200])
        current = None
        if os.path.exists(cur):
            try:
                current = json.load(open(cur))
            except ValueError:
                current = open(cur).read()
        if p.returncode == 2 and not hung:
            raise ToolError(f"harness {sub}: {errtext}")
        for m in msgs:
            if "violation" in m:
                raise Violation(m["violation"], dict(m, harness=cmd[1:]))
        if hung:
            raise Violation(f"no answer within {timeout} s", {"case": current, "harness": cmd[1:], "stderr": errtext})
        if p.returncode != 0:
            raise Violation(f"the code under test ended the process (status {p.returncode})",
                            {"case": current, "harness": cmd[1:], "stderr": errtext})
        done = [m for m in msgs if m.get("done")]
        if not done:
            raise ToolError(f"harness {sub} did not finish: {errtext}")
        d = done[-1]
        self.traces += d.get("traces", 0)
        self.evaluations += d.get("evaluations", 0)
        self.samples += d.get("samples", [])[:4]
        self.parts.setdefault(sub, {}).update({k: v for k, v in d.items() if k not in ("done", "samples")})
        listed = known_findings(self.pid)
        for m in msgs:
            if "known" in m:
                if m["known"] not in listed:
                    raise Violation(m.get("what", m["known"]), dict(m, harness=cmd[1:]))
                self.known.append(listed[m["known"]])
        return d, msgs, out

    # ------------------------------------------------------------------ tlapm
    def prove(self, module):
        """Has tlapm check the proofs of spec/<module>.tla, from scratch."""
        for stretch in ("1", "6"):
            d = os.path.join(self.work, "tlapm-" + module + stretch)
            os.makedirs(d, exist_ok=True)
            for f in os.listdir(SPEC):
                if f.endswith(".tla"):
                    shutil.copy2(os.path.join(SPEC, f), d)
            for f in os.listdir(os.path.join(SPEC, "proof")):  # what stands in for modules tlapm cannot read
                shutil.copy2(os.path.join(SPEC, "proof", f), d)
            try:
                p = subprocess.run(["tlapm", "--threads", "4", "--stretch", stretch, module + ".tla"], cwd=d,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1800)
                out = p.stdout
            except subprocess.TimeoutExpired:
                out = "no answer within 1800 s"
            shutil.rmtree(d, ignore_errors=True)
            m = re.search(r"All (\d+) obligations? proved", out)
            if m:
                self.parts["proof:" + module] = {"obligations": int(m.group(1)), "proved": int(m.group(1))}
                self.log(f"tlapm {module}: all {m.group(1)} obligations proved")
                return
        raise ToolError(f"tlapm {module}: " + out[-2000:])

    # -------------------------------------------------------------------- TLC
    def tlc(self, module, cfg, name=None, env=None, workers=8, timeout=800, heap="6g", extra=(), expect_violation=False):
        """Runs TLC on spec/<module>.tla with the configuration text cfg."""
        name = name or module
        if self.thorough:
            timeout *= 4
        d = os.path.join(self.work, "tlc-" + name)
        os.makedirs(d, exist_ok=True)
        cfgp = os.path.join(d, name + ".cfg")
        open(cfgp, "w").write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-DTLA-Library=" + SPEC, "-cp", JARS,
               "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-config", cfgp, "-noGenerateSpecTE", *extra,
               os.path.join(SPEC, module + ".tla")]
        t = time.time()
        outp = os.path.join(d, "out.txt")
        with open(outp, "w") as f:
            p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=d, env=e, start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                raise ToolError(f"TLC {name} did not finish in {timeout} s")
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        with open(outp) as f:
            out = f.read()
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        m2 = re.findall(r"The number of states generated: ([\d,]+)", out)
        if m2:
            gen = int(m2[-1].replace(",", ""))
        self.states += dist
        self.transitions += gen
        bad = rc in (12, 13) or "is violated" in out
        self.log(f"TLC {name}: {gen} transitions, {dist} states, {time.time() - t:.1f} s, status {rc}")
        part = self.parts.setdefault("tlc:" + name, {"states": 0, "transitions": 0})
        part["states"] += dist
        part["transitions"] += gen
        r = {"rc": rc, "out": out, "states": dist, "transitions": gen, "violated": bad, "outfile": outp}
        if rc != 0 and not bad:
            raise ToolError(f"TLC {name} failed ({rc}):\n" + out[-3000:])
        return r

    def model(self, module, cfg, **kw):
        """Model checks the specification itself. A violation is an error of the specification."""
        r = self.tlc(module, cfg, **kw)
        if r["violated"]:
            raise ToolError(f"the specification {module} violates its own property:\n" + r["out"][-3000:])
        return r

    @staticmethod
    def emitted(r, tag):
        """The JSON objects a specification printed as "tag {...}"."""
        res = []
        for line in r["out"].splitlines():
            if line.startswith('"' + tag + " "):
                res.append(json.loads(json.loads(line)[len(tag) + 1:]))
        return res

    @staticmethod
    def rows(r, tag):
        """The tuples a specification printed as <<"tag", ...>>."""
        res = []
        for m in re.finditer(r'^<<"' + tag + r'", (.*)>>$', r["out"], re.M):
            res.append(json.loads("[" + m[1].replace("<<", "[").replace(">>", "]").replace("TRUE", "true").replace("FALSE", "false") + "]"))
        return res

    def simulate(self, module, cfg, tag, num, depth, name=None, **kw):
        """Random behaviours of the specification, as the JSON objects it prints."""
        r = self.model(module, cfg, name=name or module + "_sim", workers=1,
                       extra=("-simulate", f"num={num}", "-depth", str(depth), "-seed", str(self.seed)), **kw)
        objs = self.emitted(r, tag)
        if not objs:
            raise ToolError(f"{module} printed no behaviour:\n" + r["out"][-2000:])
        return objs

    def cfg(self, name):
        return open(os.path.join(SPEC, name + ".cfg")).read()

    def write(self, name, objs):
        p = os.path.join(self.work, name)
        with open(p, "w") as f:
            for o in objs:
                f.write(json.dumps(o, separators=(",", ":")) + "\n")
        return p

    def judge(self, module, tracefile, cases, cfg=None, name=None, chunk=None, what=None, timeout=800, spec="JudgeSpec"):
        """Has TLC judge recorded cases (one JSON object per line) with spec/<module>.tla, a state machine that
        walks the cases in parallel chunks and whose invariant Accepted says whether the specification explains
        case i."""
        cases = list(cases)
        if not cases:
            raise ToolError("no cases to judge for " + module)
        with open(tracefile, "w") as f:
            for c in cases:
                f.write(json.dumps(c, separators=(",", ":")) + "\n")
        chunk = chunk or max(1, min(64, len(cases)))
        cfg = cfg or ""
        cfg = f"SPECIFICATION {spec}\nINVARIANT Accepted\nCONSTANT Chunks = {chunk}\nCHECK_DEADLOCK FALSE\n" + cfg
        r = self.tlc(module, cfg, name=name or module, env={"TRACE_FILE": tracefile}, timeout=timeout)
        if r["violated"]:
            m = re.findall(r"^/?\\?\s*(?:/\\ )?at = (\d+)", r["out"], re.M)
            i = int(m[-1]) if m else 0
            case = cases[i - 1] if 0 < i <= len(cases) else None
            raise Violation(what or f"{module}: the specification rejects what the code did", {"case": case, "index": i,
                            "judge": module})
        # Each case must have been visited.
        if r["states"] < len(cases):
            raise ToolError(f"TLC {module} visited {r['states']} states for {len(cases)} cases")
        self.traces += len(cases)
        return r

    # --------------------------------------------------------------- reporting
    def evidence(self, violations, level="model_checking"):
        cov = {
            "states": self.states, "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "samples": self.samples[:12], "evaluations": self.evaluations, "parts": self.parts,
        }
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def finish(self):
        shutil.rmtree(self.work, ignore_errors=True)


def known_findings(pid):
    """The open entries of known_findings.txt for this property: {key: what fails}."""
    res = {}
    with open(os.path.join(ROOT, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"open: property=(\w+) key=(\S+) (.*)", line)
            if m and m[1] == pid:
                res[m[2]] = m[3]
    return res


def main(pid, fn):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = Check(pid, tier, seed)
    try:
        try:
            fn(c)
        except Violation as v:
            rdir = os.path.join(ROOT, "replays")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f"{pid}-{tier}-{seed}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "what": v.what, "tier": tier, "seed": seed, "case": v.case}, f, indent=1)
            print("what: " + str(v.what)[:2000])
            print("case: " + json.dumps(v.case)[:3000])
            c.evidence(1)
            print(f"VIOLATION property={pid} replay={path}", flush=True)
            return 1
        for k in sorted(set(c.known)):
            print(f"KNOWN-FINDING: property={pid} {k}")
        c.evidence(0)
        c.log(f"{pid} holds on everything explored")
        return 0
    except ToolError as e:
        print("TOOL-ERROR " + str(e), file=sys.stderr, flush=True)
        return 2
    finally:
        c.finish()
