#!/usr/bin/env python3
"""campaign.py OUT FILE... [-n N] [-s SEED]: small changes to files of /repo that its tests do not see, run against
reduced checks (behaviours generated once and capped); what survives is to be read."""
import json, os, random, shutil, subprocess, sys, time
sys.path.insert(0, "/verif/lib")
args = sys.argv[1:]
def opt(k, d):
    if k in args:
        i = args.index(k); v = args[i + 1]; del args[i:i + 2]; return v
    return d
N, SEED, CAP = int(opt("-n", "100000")), int(opt("-s", "1")), int(opt("-cap", "300"))
out, files = args[0], args[1:]
W = "/tmp/mutwork-%d" % os.getpid()
shutil.copytree("/repo", W, symlinks=True)
os.environ["VERIF_REPO"] = W
import engine, plan
CACHE = "/tmp/mutcache"
os.makedirs(CACHE, exist_ok=True)
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
CHECKS = {"tarfs": "T01 T04 T02 T03 T05 X01 X06 X04 X08 X02 X03", "arfs": "A01 A02 A03 X06 X01 X08 X04 X02 X03",
          "erofs": "E02 E04 E05 E01 E06 E03 E07 E08 X01 X06 X04 X08 X02 X03", "memfs": "M01 M02 M03 M04 X04"}

tlc0, cases0, build0, val0 = engine.Run.tlc, engine.Run.cases, engine.Run.build, plan.validate
def tlc(self, module, cfg=None, **k):
    if (k.get("env") or {}).get("TRACES"):
        return tlc0(self, module, cfg, **k)
    key = json.dumps([module, cfg, k.get("mode"), k.get("num"), k.get("constants"), self.seed], sort_keys=True)
    import hashlib
    f = os.path.join(CACHE, hashlib.sha1(key.encode()).hexdigest())
    if not os.path.exists(f + ".ok"):
        text, o = tlc0(self, module, cfg, **k)
        if os.path.exists(o):
            shutil.copy(o, f)
        json.dump(text, open(f + ".ok", "w"))
    o = os.path.join(self.tmp, "cached-%d" % len(self.stages))
    self.stages.append({"stage": "tlc"})
    if os.path.exists(f):
        l = sorted(set(open(f)))
        if len(l) > CAP:
            l = random.Random(self.seed).sample(l, CAP)
        open(o, "w").writelines(l)
    return json.load(open(f + ".ok")), o
def build(self, flavour="plain"):
    b = os.path.join(W + "-bin", flavour)
    if not os.path.exists(b):
        shutil.copy(build0(self, flavour), b)
    self.bins[flavour] = b
    return b
engine.Run.tlc, engine.Run.build = tlc, build
plan.validate = lambda run, suite, recs, module, cap, what, **k: val0(run, suite, recs, module, min(cap, 600), what, **k)
plan.huge = lambda *a, **k: None
plan.NODES[:] = [x for x in plan.NODES if x[0] in ("Special", "Many")]
notes = []
engine.note = lambda *a: notes.append(" ".join(map(str, a)))

def check(prop):
    del notes[:]
    run = engine.Run(prop, "quick", 1)
    try:
        try:
            plan.PLAN[prop](run)
        except engine.Enough:
            pass
        return run.violations
    except engine.ToolError as e:
        return run.violations or [{"what": "TOOL " + str(e)[:300]}]
    finally:
        run.close()

def sh(c, t=120):
    return subprocess.run(["timeout", "-k", "5", str(t), "bash", "-c", c], cwd=W, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode

subprocess.run(["go", "build", "-o", "/tmp/mutants", "/verif/tools/mutate/mutants.go"], env=ENV, check=True)
ms = []
for l in subprocess.run(["/tmp/mutants"] + files, cwd="/repo", env=ENV, capture_output=True, text=True, check=True).stdout.splitlines():
    ms.append(json.loads(l))
done = set()
if os.path.exists(out):
    for l in open(out):
        d = json.loads(l)
        done.add((d["file"], d["off"], d["end"], d["new"]))
random.Random(SEED).shuffle(ms)
print(len(ms), "changes", flush=True)
k = 0
for m in ms:
    if (m["file"], m["off"], m["end"], m["new"]) in done:
        continue
    k += 1
    if k > N:
        break
    p = os.path.join(W, m["file"])
    src = open("/repo/" + m["file"], "rb").read()
    open(p, "wb").write(src[:m["off"]] + m["new"].encode() + src[m["end"]:])
    t = time.time()
    if sh("go build ./... && go vet ./" + os.path.dirname(m["file"])) != 0:
        m["result"] = "build"
    elif sh("go test ./...", 60) != 0:
        m["result"] = "tests"
    else:
        m["result"] = "SURVIVED"
        shutil.rmtree(W + "-bin", ignore_errors=True)
        os.makedirs(W + "-bin")
        for prop in CHECKS[m["file"].split("/")[0]].split():
            v = check(prop)
            if any(v):
                m["result"], m["by"] = "caught", prop
                m["why"] = str(next(x for x in v if x)["what"])[:200]
                break
    m["s"] = round(time.time() - t)
    open(out, "a").write(json.dumps(m) + "\n")
    open(p, "wb").write(src)
    if m["result"] == "SURVIVED":
        print(m["file"], m["line"], m["what"].replace("\n", " ")[:160], flush=True)
shutil.rmtree(W); shutil.rmtree(W + "-bin", ignore_errors=True)
