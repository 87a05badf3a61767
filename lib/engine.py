"""Runs TLC, builds the driver from /repo's working tree, replays cases, decides."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time, threading, resource

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GOENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off",
             GOTRACEBACK="single", HOME=os.environ.get("HOME", "/root"))


class ToolError(Exception):
    final = False


class BuildError(ToolError):
    final = True


class Enough(Exception):
    """A violation has been found: the verdict is known."""


def note(*a):
    print(*a, flush=True)


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.began = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.states = self.transitions = self.replayed = self.checks = self.validated = 0
        self.violations, self.known, self.samples, self.stages = [], [], [], []
        self.exhaustive = True
        self.assumptions = []
        self.spec = os.path.join(self.tmp, "spec")
        shutil.copytree(os.path.join(VERIF, "spec"), self.spec)
        self.bins = {}
        self.classes = None
        self.replay_no = 0

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    # ---------------------------------------------------------------- building
    def build(self, flavour="plain"):
        """The driver, linked against the packages as they are in /repo's working tree."""
        if flavour in self.bins:
            return self.bins[flavour]
        src = os.path.join(self.tmp, "harness")
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(VERIF, "harness"), src)
            mod = os.path.join(src, "go.mod")
            text = open(mod).read().replace("=> /repo", "=> " + REPO)
            open(mod, "w").write(text)
        out = os.path.join(self.tmp, "drv-" + flavour)
        cmd = ["go", "build", "-o", out]
        if flavour == "race":
            cmd.insert(2, "-race")
        if flavour == "sched":
            import overlay
            cmd[2:2] = ["-overlay", overlay.make(self.tmp, src, REPO), "-tags", "sched"]
        t = time.time()
        p = subprocess.run(cmd + ["."], cwd=src, env=GOENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise BuildError("building the driver (%s) failed:\n%s" % (flavour, p.stdout[-3000:]))
        self.bins[flavour] = out
        self.stages.append({"stage": "build " + flavour, "s": round(time.time() - t, 2)})
        return out

    # ---------------------------------------------------------------- TLC
    def classpath(self):
        if self.classes is None:
            d = os.path.join(self.tmp, "classes")
            p = subprocess.run(["javac", "-cp", JAR, "-d", d, os.path.join(self.spec, "LineOut.java")], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                raise ToolError("javac: " + p.stdout[-2000:])
            self.classes = d
        return JAR + ":" + self.classes

    def tlc(self, module, cfg=None, mode="bfs", num=None, depth=None, workers=8, env=None, seed=None,
            timeout=800, heap="6g", expect_violation=False, constants=None):
        """Runs TLC; returns (stdout, output file of emitted JSON lines)."""
        n = len([s for s in self.stages if s.get("stage", "").startswith("tlc")])
        out = os.path.join(self.tmp, "out-%d-%s.txt" % (n, module))
        cfg = cfg or module + ".cfg"
        cfgpath = os.path.join(self.spec, cfg)
        if constants:
            text = open(cfgpath).read()
            for k, v in constants.items():
                text, k2 = re.subn(r"(?m)^(\s*)%s\s*=.*$" % re.escape(k), lambda m: "%s%s = %s" % (m.group(1), k, v), text)
                if k2 != 1:
                    raise ToolError("constant %s not in %s" % (k, cfg))
            cfg = "gen%d_%s" % (n, cfg)
            open(os.path.join(self.spec, cfg), "w").write(text)
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-cp", self.classpath(), "tlc2.TLC", "-workers", str(workers),
               "-metadir", os.path.join(self.tmp, "meta%d" % n), "-noGenerateSpecTE", "-config", cfg]
        sim = mode == "sim"
        # RandomElement draws the same numbers in every worker of a simulation: processes with seeds of their own instead
        procs = min(8, max(1, num // 100)) if sim else 1
        t = time.time()
        ps = []
        for k in range(procs):
            c = list(cmd)
            if sim:
                c[c.index("-workers") + 1] = "1"
                c[c.index("-metadir") + 1] += "-%d" % k
                c[1] = "-Xmx1500m"
                c += ["-simulate", "num=%d" % max(1, num // procs), "-depth", str(depth),
                      "-seed", str((seed if seed is not None else self.seed) * 100 + k)]
            else:
                c += ["-fp", "3", "-seed", str(self.seed)]
            c.append(module + ".tla")
            e = dict(os.environ, OUT=out + (".%d" % k if sim else ""), SEED=str(self.seed))
            e.update(env or {})
            log = open(os.path.join(self.tmp, "tlc-%d-%d.log" % (n, k)), "w+")
            ps.append((subprocess.Popen(c, cwd=self.spec, env=e, stdout=log, stderr=subprocess.STDOUT), log))
        text = ""
        gen = dist = 0
        bad = None
        for p, log in ps:
            try:
                p.wait(max(1, timeout - (time.time() - t)))
            except subprocess.TimeoutExpired:
                bad = bad or "TLC on %s did not finish in %d s" % (module, timeout)
                p.kill()
                p.wait()
            log.seek(0)
            text = log.read()
            log.close()
            if p.returncode != 0 and not (expect_violation and p.returncode in (12, 13)):
                tail = "\n".join(l for l in text.split("\n") if not l.startswith(("Linting", "Semantic", "Parsing")))
                err = tail.find("Error")
                if err >= 0 and len(tail) - err > 3500:
                    tail = tail[err:err + 1700] + "\n...\n" + tail[-1700:]
                bad = bad or "TLC on %s (%s) ended with %d:\n%s" % (module, cfg, p.returncode, tail[-3500:])
            m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
            if m:
                gen, dist = gen + int(m[-1][0]), dist + int(m[-1][1])
            else:
                m = re.findall(r"The number of states generated: (\d+)", text)
                gen += int(m[-1]) if m else 0  # a simulation does not know its distinct states: see cases()
        if bad:
            raise ToolError(bad)
        if sim:
            with open(out, "w") as o:
                for k in range(procs):
                    f = out + ".%d" % k
                    if os.path.exists(f):
                        with open(f) as i:
                            shutil.copyfileobj(i, o)
                        os.remove(f)
        self.transitions += gen
        self.states += dist
        if mode == "sim":
            self.exhaustive = False
        self.stages.append({"stage": "tlc", "module": module, "cfg": cfg, "mode": mode, "states_generated": gen,
                            "distinct_states": dist, "s": round(time.time() - t, 2)})
        return text, out

    def cases(self, out, cap=None, name=None):
        """Emitted lines -> a file with one JSON case per line, in an order that does not depend on worker timing."""
        lines = []
        if os.path.exists(out):
            with open(out) as f:
                for l in f:
                    l = l.strip()
                    if l:
                        lines.append(json.loads(l) if l[0] == '"' else l)
        lines = sorted(set(lines))
        total = len(lines)
        if self.stages and self.stages[-1].get("mode") == "sim":
            self.states += total  # distinct complete behaviours
            self.stages[-1]["distinct_behaviours"] = total
        if cap and total > cap:
            lines = random.Random(self.seed).sample(lines, cap)
            self.exhaustive = False
        path = out + ".cases"
        with open(path, "w") as f:
            for l in lines:
                f.write(l + "\n")
        if not lines:
            raise ToolError("no cases were generated (%s)" % (name or out))
        return path, total, len(lines)

    # ---------------------------------------------------------------- replay
    def replay(self, suite, path, variants=1, topics=None, flavour="plain", shards=8, timeout=20, limit=400, samples=2,
               confirm=True, env=None, memory=8 << 30):
        """Runs every case (times variants) in the real code; collects mismatches. Returns recorded observations."""
        binary = self.build(flavour)
        cases = open(path).read().split("\n")
        n = len([c for c in cases if c])
        shards = max(1, min(shards, n))
        results = [None] * shards
        errors, hangs = [], [0]
        t0 = time.time()
        e = dict(GOENV)
        e["GORACE"] = "halt_on_error=0 exitcode=66"
        e.update(env or {})

        def lim():
            if flavour != "race":
                resource.setrlimit(resource.RLIMIT_AS, (memory, memory))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

        def one(args, out, wall):
            cmd = [binary, "run", "-suite", suite, "-in", path, "-out", out, "-variants", str(variants),
                   "-seed", str(self.seed), "-timeout", "%ds" % timeout, "-limit", "%ds" % limit] + args
            try:
                p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                   timeout=wall, preexec_fn=lim, cwd=self.tmp, errors="replace")
                return p.returncode, p.stdout
            except subprocess.TimeoutExpired as ex:
                return -99, "killed after %d s" % wall

        def read(out):
            rs = []
            if os.path.exists(out):
                for l in open(out, errors="replace"):
                    try:
                        rs.append(json.loads(l))
                    except ValueError:
                        pass
            return rs

        def shard(k):
            out = os.path.join(self.tmp, "res-%d-%s-%d" % (len(self.stages), suite, k))
            args = ["-shard", "%d/%d" % (k, shards)]
            frm = None
            crashes = []
            for attempt in range(12):
                a = list(args)
                if frm:
                    a += ["-from", str(frm[0]), "-fromv", str(frm[1])]
                rc, text = one(a, out, limit + timeout + 120)
                if rc == 0 or (rc == 66 and flavour == "race"):
                    if rc == 66:
                        crashes.append((None, None, "race", text))
                    break
                if rc == 2 and "drv:" in text or rc == 2 and "usage:" in text or rc == 2 and "no suite" in text:
                    errors.append(text[-2000:])
                    return
                prog = (0, 0)
                try:
                    prog = tuple(int(x) for x in open(out + ".progress").read().split())
                except (OSError, ValueError):
                    errors.append("driver ended with %d before its first case: %s" % (rc, text[-2000:]))
                    return
                kind = "hang" if rc in (4, -99) else "crash"
                crashes.append((prog[0], prog[1], kind, text[-6000:]))
                if kind == "hang":
                    hangs[0] += 1
                    if hangs[0] >= 6:
                        break  # enough to report; each one costs its time limit
                frm = (prog[0], prog[1] + 1)
                if prog[1] + 1 >= variants:
                    frm = (prog[0] + 1, 0)
            results[k] = (read(out), crashes)

        confirmed = {}

        def confirmation(i, v):
            out = os.path.join(self.tmp, "confirm-%d-%d" % (i, v))
            rc, text = one(["-only", str(i), "-onlyv", str(v), "-timeout", "%ds" % (timeout * 3)], out, timeout * 3 + 60)
            confirmed[(i, v)] = (rc, text, read(out))

        th = [threading.Thread(target=shard, args=(k,)) for k in range(shards)]
        [x.start() for x in th]
        [x.join() for x in th]
        if errors:
            raise ToolError("driver error in suite %s: %s" % (suite, errors[0]))
        recs, runs, bad, stats, sigs = [], 0, {}, {}, {}
        if confirm:
            todo = sorted({(i, v) for _, cs in results for i, v, kind, _ in cs if kind != "race"})[:16]
            th = [threading.Thread(target=confirmation, args=x) for x in todo]
            [x.start() for x in th]
            [x.join() for x in th]
            # further ones are not needed for the verdict when one of these is confirmed
            for rs, cs in results:
                cs[:] = [c for c in cs if c[2] == "race" or (c[0], c[1]) in confirmed]
        for rs, crashes in results:
            for r in rs:
                if r.get("done"):
                    runs += r.get("runs", 0)
                    self.checks += r.get("checks", 0)
                    for k, v in (r.get("stats") or {}).items():
                        stats[k] = stats.get(k, 0) + v
                if r.get("rec") is not None:
                    recs.append((r["i"], r["v"], r["rec"]))
                if r.get("bad"):
                    bad.setdefault((r["i"], r["v"]), []).extend(r["bad"])
                if r.get("sig"):
                    sigs[(r["i"], r["v"])] = r["sig"]
            for i, v, kind, text in crashes:
                if kind == "race":
                    self.violation(suite, "", {"what": "data race", "detail": text[-4000:]}, path, None, None, variants, flavour)
                    continue
                # confirm alone, with more time, before believing a crash or a hang
                ok = True
                if confirm:
                    rc, text2, rs2 = confirmed[(i, v)]
                    ok = rc != 0
                    if ok:
                        text = text2
                    for r in rs2:
                        if r.get("sig"):
                            sigs[(i, v)] = r["sig"]
                        if r.get("bad"):
                            bad.setdefault((i, v), []).extend(r["bad"])
                if ok:
                    first = re.findall(r"(?m)^(?:fatal error|panic|runtime).*$", text)
                    bad.setdefault((i, v), []).append({"topic": kind, "what": "%s: %s" % (kind, "; ".join(first[:2]) or text[:300])})
        recs.sort(key=lambda r: (r[0], r[1]))
        for (i, v), bs in sorted(bad.items()):
            bs = [b for b in bs if topics is None or b["topic"] in topics or b["topic"] in ("panic", "crash", "hang")]
            if bs:
                self.violation(suite, cases[i], {"what": bs[0]["what"], "topic": bs[0]["topic"], "all": bs}, path, i, v, variants, flavour,
                               sigs.get((i, v)))
        self.replayed += runs
        if cases and samples:
            k = random.Random(self.seed)
            for c in [cases[k.randrange(n)] for _ in range(samples)]:
                self.samples.append({"suite": suite, "case": json.loads(c) if len(c) < 3000 else c[:3000]})
        self.stages.append({"stage": "replay", "suite": suite, "cases": n, "runs": runs, "variants": variants, "flavour": flavour,
                            "stats": stats, "s": round(time.time() - t0, 2)})
        return recs, stats

    # ---------------------------------------------------------------- verdicts
    def violation(self, suite, case, detail, path, i, v, variants, flavour, sig=None):
        if sig and any(k["property"] == self.prop and k["sig"] == sig for k in known_findings()):
            if not any(x["sig"] == sig for x in self.known):
                self.known.append({"sig": sig, "what": detail.get("what")})
            return
        if len(self.violations) >= 10:
            self.violations.append(None)
            return
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "%s-%s-%d.json" % (self.prop, self.tier, len(self.violations)))
        with open(f, "w") as o:
            json.dump({"property": self.prop, "suite": suite, "seed": self.seed, "index": i, "variant": v, "variants": variants,
                       "flavour": flavour, "detail": detail, "case": case}, o, indent=1)
        self.violations.append({"replay": f, "what": detail.get("what")})

    def trace_violation(self, suite, what, record):
        self.violation(suite, json.dumps(record), {"what": what}, None, None, None, 1, "trace")

    def finish(self, level):
        for k in self.known:
            note("KNOWN-FINDING: property=%s %s" % (self.prop, k["sig"]))
        vs = [v for v in self.violations if v]
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.replayed + self.validated,
               "samples": self.samples[:8], "comparisons": self.checks, "stages": self.stages,
               "evaluations": self.replayed, "exhaustive": self.exhaustive}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.began, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for v in vs:
            note("VIOLATION property=%s replay=%s" % (self.prop, v["replay"]))
            note("  " + str(v["what"])[:500])
        note("%s %s: %d states, %d transitions, %d runs of the real code, %d comparisons, %d recorded traces validated, %.1f s: %s" % (
            self.prop, self.tier, self.states, self.transitions, self.replayed, self.checks, self.validated, time.time() - self.began,
            "VIOLATED" if vs else "holds on everything explored"))
        return 1 if vs else 0


def known_findings():
    out = []
    for l in open(os.path.join(VERIF, "KNOWN_FINDINGS")):
        m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", l)
        if m:
            out.append({"property": m.group(1), "sig": m.group(2), "what": m.group(3)})
    return out
