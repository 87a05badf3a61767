"""Which specifications, generators and suites decide which property."""
from engine import Enough, ToolError

LEVEL = {}
PLAN = {}


def prop(pid):
    def deco(f):
        PLAN[pid] = f
        return f
    return deco


def q(run, quick, thorough):
    return thorough if run.tier == "thorough" else quick


def gen(run, suite, module, cfg=None, mode="bfs", num=None, depth=None, variants=1, topics=None, cap=None, constants=None, seed=None, **kw):
    """TLC generates cases (with the prescribed answers), the driver replays them."""
    _, out = run.tlc(module, cfg, mode=mode, num=num, depth=depth, constants=constants, seed=seed)
    path, total, n = run.cases(out, cap)
    return replay(run, suite, path, variants=variants, topics=topics, **kw)


def replay(run, suite, path, **kw):
    r = run.replay(suite, path, **kw)
    if any(run.violations):
        raise Enough()
    return r


@prop("M01")
def m01(run):
    gen(run, "memfs", "MCMemTree", variants=q(run, 2, 12))
    gen(run, "memfs", "MCMemTree", "MCMemTreeSim.cfg", mode="sim", num=q(run, 4000, 60000), depth=60, variants=2)
    gen(run, "memfs", "MCMemTree", "MCMemTreeDeep.cfg", mode="sim", num=q(run, 3000, 60000), depth=90, variants=q(run, 3, 4))


@prop("M02")
def m02(run):
    gen(run, "memfs", "MCMemHandle", variants=q(run, 1, 6), cap=q(run, 60000, None))
    gen(run, "memfs", "MCMemHandle", "MCMemHandleSim.cfg", mode="sim", num=q(run, 4000, 60000), depth=90, variants=2)


@prop("M03")
def m03(run):
    gen(run, "memfs", "MCMemDir", variants=q(run, 2, 8), cap=q(run, 60000, None))
    gen(run, "memfs", "MCMemDir", "MCMemDirSim.cfg", mode="sim", num=q(run, 4000, 60000), depth=90, variants=2)
    gen(run, "memfs", "MCMemDir", "MCMemDirWide.cfg", mode="sim", num=q(run, 2000, 40000), depth=250, variants=2)


def validate(run, suite, recs, module, cap, what, heap="8g"):
    """Recorded histories are behaviours of the specification (TLC prints the numbers of those that are)."""
    import json, os, random
    seen, uniq = set(), []
    for _, _, r in recs:
        k = json.dumps({x: r[x] for x in r if x != "sched"}, sort_keys=True)
        if k not in seen:
            seen.add(k)
            uniq.append(r)
    total = len(uniq)
    if len(uniq) > cap:
        uniq = random.Random(run.seed).sample(uniq, cap)
        run.exhaustive = False
    if not uniq:
        return
    f = os.path.join(run.tmp, "traces-%d.json" % len(run.stages))
    with open(f, "w") as o:
        json.dump([{x: r[x] for x in r if x != "sched"} for r in uniq], o)
    _, out = run.tlc(module, env={"TRACES": f}, heap=heap)
    lines = [l.strip().strip('"') for l in open(out)] if os.path.exists(out) else []
    ok = set(int(l) for l in lines if l[0] != "!")
    why = {int(l[1:].split()[0]): l.split(None, 1)[1] for l in lines if l[0] == "!"}
    run.validated += len(uniq)
    run.stages.append({"stage": "validate", "module": module, "recorded": total, "validated": len(uniq), "accepted": len(ok)})
    for i, r in enumerate(uniq, 1):
        if i not in ok:
            run.trace_violation(suite, what + (" (%s)" % why[i] if i in why else ""), r)


@prop("M04")
def m04(run):
    run.tlc("MCMemConc")
    if run.tier == "thorough":
        run.tlc("MCMemConc", "MCMemConcLong.cfg")
    env = {"SCHED_P": str(q(run, 1, 2)), "SCHED_RUNS": str(q(run, 200, 6000)), "SCHED_RAND": str(q(run, 40, 600))}
    recs = []
    try:
        run.build("sched")
        sched = True
    except ToolError as e:
        # sources the instrumentation cannot deal with: real threads and the race detector remain
        run.assumptions.append("no enumerated schedules: " + str(e)[:300])
        run.exhaustive = sched = False
    for cfg, cap in (("MemFsProg21.cfg", None), ("MemFsProg22.cfg", q(run, 1500, 12000)), ("MemFsProg31.cfg", q(run, 1000, 8000))):
        _, out = run.tlc("MemFsProg", cfg)
        path, _, _ = run.cases(out, cap)
        if sched:
            r, stats = replay(run, "sched", path, flavour="sched", env=env)
            recs += r
            if stats.get("not schedulable"):
                run.assumptions.append("no enumerated schedules: threads wait for something other than the locks of sync")
                run.exhaustive = sched = False
        if cfg != "MemFsProg31.cfg":
            r, _ = replay(run, "stress", path, flavour="race", env={"STRESS_ROUNDS": str(q(run, 6, 60) * (1 if sched else 10))})
            recs += r
    validate(run, "sched", recs, "MemFsHist", q(run, 15000, 200000), "a history that is not linearizable")


def large(run, f, n):
    """Archives of many entries, of deep trees, of large files."""
    one = {"Formats": '{"%s"}' % f, "SrcKinds": '{"plain"}'}
    flat = {"MaxDepth": 1, "Kinds": '{"many", "file"}'} if f == "ar" else {}
    gen(run, "read-" + f, "MCConvert", "MCConvertMany.cfg", mode="sim", num=n, depth=40, variants=q(run, 1, 3), topics={"tree"}, constants=dict(flat, **one))
    if f != "ar":
        gen(run, "read-" + f, "MCConvert", "MCConvertDeep.cfg", mode="sim", num=n, depth=40, variants=q(run, 1, 3), topics={"tree"}, constants=one)
    gen(run, "read-" + f, "MCConvert", "MCConvertBig.cfg", variants=q(run, 2, 10), topics={"tree"}, constants=one)


@prop("T01")
def t01(run):
    top = {"tree", "links", "refuse"}
    large(run, "tar", q(run, 150, 4000))
    gen(run, "tar", "MCTar", variants=q(run, 2, 10), cap=q(run, 30000, None), topics=top)
    gen(run, "tar", "MCTar", "MCTarSim.cfg", mode="sim", num=q(run, 12000, 300000), depth=12, variants=q(run, 3, 4), topics=top)


@prop("T05")
def t05(run):
    gen(run, "tar", "MCTar", variants=q(run, 1, 6), cap=q(run, 15000, None), topics={"refuse"})
    gen(run, "tar", "MCTarDamage", variants=q(run, 6, 60), topics={"damage"})
    gen(run, "tar", "MCTar", "MCTarOdd.cfg", variants=1, cap=q(run, 12000, None), topics={"damage"})
    gen(run, "tar", "MCTar", "MCTarOddSim.cfg", mode="sim", num=q(run, 6000, 200000), depth=12, variants=1, topics={"damage"})
    gen(run, "tar", "MCTarDamage", "MCTarDamageSim.cfg", mode="sim", num=q(run, 12000, 300000), depth=12, variants=q(run, 3, 4), topics={"damage"})


def resolve(run, suite, topics):
    run.tlc("MCResolveWalk")
    gen(run, suite, "MCResolve", q(run, "MCResolve.cfg", "MCResolveMany.cfg"), variants=q(run, 1, 2), cap=q(run, 2500, None), topics=topics)
    gen(run, suite, "MCResolve", q(run, "MCResolveChain.cfg", "MCResolveChainAll.cfg"), variants=q(run, 4, 8), topics=topics)
    gen(run, suite, "MCResolve", q(run, "MCResolveSim.cfg", "MCResolveSimFacts.cfg"), mode="sim", num=q(run, 480, 20000), depth=20,
        variants=q(run, 4, 4), topics=topics)


@prop("T02")
def t02(run):
    resolve(run, "resolve-tar", {"follow"})


@prop("T03")
def t03(run):
    resolve(run, "resolve-tar", {"links"})
    gen(run, "tar", "MCTar", "MCTarSim.cfg", mode="sim", num=q(run, 4000, 100000), depth=12, variants=q(run, 2, 4), topics={"links"})


@prop("E03")
def e03(run):
    resolve(run, "resolve-erofs", {"follow", "links"})


@prop("E01")
def e01(run):
    for cfg in ("12", "23", "35", "34", "15", "56"):
        gen(run, "edir", "MCErofsDir", "MCErofsDir%s.cfg" % cfg, variants=q(run, 8, 20), constants={"N": q(run, 7, 9)})
    large(run, "erofs", q(run, 150, 4000))
    gen(run, "edirbig", "ErofsDirBig", q(run, "ErofsDirBig.cfg", "ErofsDirBigLong.cfg"), variants=q(run, 4, 6))


def convert(run, parts, topics, only=None):
    """parts: (configuration, mode, quick number, thorough number, quick variants, thorough variants)"""
    for cfg, mode, qn, tn, qv, tv in parts:
        n = q(run, qn, tn)
        consts = {"Formats": only} if only else None
        if mode == "bfs":
            gen(run, "convert", "MCConvert", "MCConvert%s.cfg" % cfg, variants=q(run, qv, tv), cap=n, topics=topics, constants=consts,
                timeout=120 if cfg == "Crowd" else 20)
        else:
            gen(run, "convert", "MCConvert", "MCConvert%s.cfg" % cfg, mode="sim", num=n, depth=40, variants=q(run, qv, tv), topics=topics, constants=consts)


# special files, many entries in a directory
NODES = [("Special", "bfs", None, None, 1, 6), ("Many", "sim", 150, 4000, 1, 4), ("Crowd", "bfs", None, None, 1, 4),
         ("Deep", "sim", 200, 4000, 1, 4), ("Big", "bfs", None, None, 1, 4), ("From", "sim", 1500, 40000, 1, 4)]


def huge(run, f, sizes, topics, times='{"zero", "sec"}'):
    """Files around the limits of the fields that hold their sizes."""
    gen(run, "huge", "MCConvert", "MCConvertHuge.cfg", topics=topics, timeout=150,
        constants={"Formats": '{"%s"}' % f, "Sizes": "{%s}" % ", ".join('"s%d"' % s for s in sizes), "Times": times})


@prop("T04")
def t04(run):
    convert(run, [("One", "bfs", None, None, 2, 20), ("Size", "bfs", None, None, 2, 10), ("Name", "bfs", None, None, 2, 10), *NODES,
                  ("Sim", "sim", 6000, 100000, 3, 6)], {"tar.tree", "tar.meta", "tar.std", "tar.refuse"}, only='{"tar"}')
    huge(run, "tar", q(run, [2 ** 33], [2 ** 32 - 1, 2 ** 32, 2 ** 33 - 1, 2 ** 33, 2 ** 33 + 513]), {"tar.tree", "tar.meta"}, '{"sec"}')


@prop("E04")
def e04(run):
    convert(run, [("One", "bfs", None, None, 1, 8), ("Size", "bfs", None, None, 4, 20), ("Name", "bfs", None, None, 4, 20), *NODES,
                  ("Sim", "sim", 6000, 100000, 3, 6)], {"erofs.tree", "erofs.refuse"}, only='{"erofs"}')
    layout(run, "elayout", None, q(run, 1, 4), q(run, 2000, 20000), {"layout", "layout.tree"})
    huge(run, "erofs", q(run, [2 ** 32], [2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 5, 3 * 2 ** 32 + 4097]), {"erofs.tree"})


@prop("E05")
def e05(run):
    convert(run, [("One", "bfs", None, None, 6, 40), ("From", "sim", 1500, 40000, 1, 4), ("Sim", "sim", 6000, 100000, 3, 6)], {"erofs.meta"}, only='{"erofs"}')
    layout(run, "elayout", None, q(run, 1, 4), q(run, 1000, 20000), {"layout.meta"})
    huge(run, "erofs", q(run, [2 ** 32 - 1, 2 ** 32, 2 ** 32 + 5], [2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 5, 3 * 2 ** 32 + 4097]), {"erofs.meta"})


@prop("A03")
def a03(run):
    convert(run, [("Size", "bfs", None, None, 4, 20), ("Name", "bfs", None, None, 4, 20), *NODES, ("Ar", "sim", 12000, 200000, 3, 6)],
            {"ar.tree", "ar.meta", "ar.std", "ar.refuse"}, only='{"ar"}')
    huge(run, "ar", q(run, [2 ** 32 + 1, 10 ** 10], [2 ** 32 - 1, 2 ** 32 + 1, 2 ** 33, 10 ** 10 - 1, 10 ** 10]), {"ar.tree", "ar.meta", "ar.refuse"}, '{"sec"}')


@prop("X03")
def x03(run):
    convert(run, [("From", "sim", 4000, 60000, 2, 4), ("FromAr", "sim", 1500, 30000, 2, 4), ("Sim", "sim", 8000, 100000, 3, 6), ("Chain", "sim", 6000, 100000, 2, 6)],
            {f + "." + x for f in ("tar", "erofs", "ar") for x in ("tree", "meta", "refuse")} | {"source"})


def ar(run, topics):
    gen(run, "ar", "MCAr", variants=q(run, 1, 12), topics=topics)
    gen(run, "ar", "MCAr", "MCArThree.cfg", variants=q(run, 2, 12), topics=topics)
    gen(run, "ar", "MCAr", "MCArSim.cfg", mode="sim", num=q(run, 6000, 200000), depth=30, variants=q(run, 4, 6), topics=topics)


@prop("A01")
def a01(run):
    ar(run, {"tree"})
    large(run, "ar", q(run, 150, 4000))


@prop("A02")
def a02(run):
    ar(run, {"damage"})


@prop("E02")
def e02(run):
    gen(run, "eimg", "MCErofsImage", variants=q(run, 1, 6), cap=q(run, 12000, None))
    gen(run, "eimg", "MCErofsImage", "MCErofsImageSim.cfg", mode="sim", num=q(run, 16000, 300000), depth=40, variants=1)
    gen(run, "etree", "MCErofsTree", mode="sim", num=q(run, 6000, 100000), depth=70, variants=q(run, 2, 4))
    large(run, "erofs", q(run, 150, 4000))


@prop("E07")
def e07(run):
    gen(run, "edamage", "MCErofsDamage", variants=q(run, 200, 3000))
    gen(run, "edamage", "MCErofsDamage", "MCErofsDamageSim.cfg", mode="sim", num=q(run, 8000, 100000), depth=50, variants=q(run, 3, 6))


def layout(run, suite, what, one, sim, topics=None):
    recs = []
    for cfg, mode, num, variants in (("One", "bfs", None, one), ("Size", "bfs", None, one), ("Sim", "sim", sim, 2), ("Many", "sim", q(run, 60, 1500), 1),
                                     ("Big", "bfs", None, 1)):
        _, out = run.tlc("MCConvert", "MCConvert%s.cfg" % cfg, mode=mode, num=num, depth=40 if num else None, constants={"Formats": '{"erofs"}', "MaxSteps": 1})
        path, _, _ = run.cases(out, q(run, 2500, None))
        recs += replay(run, suite, path, variants=variants, topics=topics)[0]
    if what:
        validate(run, suite, recs, "ErofsLayout", q(run, 3000, 40000), what)


@prop("E06")
def e06(run):
    layout(run, "elayout", "an image that disobeys the on-disk format", q(run, 1, 8), q(run, 2000, 40000), {"layout"})


@prop("E08")
def e08(run):
    layout(run, "eorder", "a superblock written before what it refers to", q(run, 1, 4), q(run, 1000, 20000))


@prop("X02")
def x02(run):
    for cfg in ("", "Two"):
        gen(run, "handles", "MCHandles", "MCHandles%s.cfg" % cfg, variants=q(run, 3, 20), topics={"handles"}, constants={"Faults": "FALSE"})
    gen(run, "handles", "MCHandles", "MCHandlesSim.cfg", mode="sim", num=q(run, 4000, 60000), depth=26, variants=q(run, 3, 4), topics={"handles"},
        constants={"Faults": "FALSE"})
    gen(run, "hconc", "MCHandles", "MCHandlesConc.cfg", mode="sim", num=q(run, 600, 8000), depth=18, variants=q(run, 3, 4), topics={"handles"},
        flavour="race", timeout=60)


@prop("X06")
def x06(run):
    gen(run, "handles", "MCHandles", variants=q(run, 8, 60), topics={"handles", "fault", "deliver"})
    gen(run, "handles", "MCHandles", "MCHandlesSim.cfg", mode="sim", num=q(run, 4000, 60000), depth=26, variants=q(run, 3, 6), topics={"handles", "fault", "deliver"})
    one = {"Formats": '{"tar"}', "SrcKinds": '{"plain"}', "MaxSteps": 1}
    gen(run, "deliver", "MCConvert", "MCConvertSize.cfg", constants=one, variants=q(run, 4, 20), topics={"fault", "deliver"})
    gen(run, "deliver", "MCConvert", "MCConvertBig.cfg", constants=dict(one, Sizes='{"s65537", "s1048577"}'), topics={"fault", "deliver"}, variants=q(run, 2, 8))
    gen(run, "deliver", "MCConvert", "MCConvertMany.cfg", mode="sim", num=q(run, 100, 3000), depth=40, topics={"fault", "deliver"},
        constants=dict(one, Sizes=q(run, '{"s20", "s130", "s300"}', '{"s20", "s300", "s1000"}')))
    gen(run, "deliver", "MCConvert", "MCConvertAr.cfg", mode="sim", num=q(run, 3000, 40000), depth=40, constants=one, variants=q(run, 1, 4), topics={"fault", "deliver"})
    gen(run, "deliver", "MCConvert", "MCConvertSim.cfg", mode="sim", num=q(run, 6000, 60000), depth=40, constants=one, variants=q(run, 1, 4), topics={"fault", "deliver"})


def creation(run, suite, what):
    run.tlc("Creation", "Creation.cfg", constants=q(run, None, {"Paths": '{"r", "x", "y"}'}))
    recs = []
    one = {"SrcKinds": '{"plain", "hdr"}', "MaxSteps": 1}
    for cfg, mode, num, formats, variants, cap in (("Size", "bfs", None, '{"tar", "erofs", "ar"}', q(run, 1, 4), q(run, 1500, None)),
                                                   ("Ar", "sim", q(run, 300, 4000), '{"ar"}', 2, None),
                                                   ("Sim", "sim", q(run, 600, 8000), '{"tar", "erofs"}', 2, None),
                                                   ("Many", "sim", q(run, 60, 1000), '{"tar", "erofs"}', 1, None),
                                                   ("Big", "bfs", None, '{"tar", "erofs", "ar"}', 1, None)):
        small = {"Sizes": {"Many": '{"s20"}', "Big": '{"s65537", "s1048577"}'}[cfg]} if cfg in ("Many", "Big") else {}
        _, out = run.tlc("MCConvert", "MCConvert%s.cfg" % cfg, mode=mode, num=num, depth=40 if num else None, constants=dict(one, Formats=formats, **small))
        path, _, _ = run.cases(out, cap)
        recs += replay(run, suite, path, variants=variants, timeout=60)[0]
    validate(run, suite, recs, "CreationTrace", q(run, 4000, 60000), what)


@prop("X01")
def x01(run):
    creation(run, "creation", "a creation whose result does not follow from what it was told")


@prop("X08")
def x08(run):
    creation(run, "tidy", "a creation that leaves a file open")


def made(run, parts):
    """(suite, module, configuration, number of behaviours or None for all, depth, constants, variants, cap)"""
    done = {}
    for suite, module, cfg, num, depth, consts, variants, c in parts:
        if (module, cfg) not in done:
            _, out = run.tlc(module, cfg, mode="sim" if num else "bfs", num=num, depth=depth, constants=consts)
            done[module, cfg] = run.cases(out, c)[0]
        yield suite, done[module, cfg], variants


def view(run, what, cap):
    """Filesystems of all kinds; everything they answer is explained by one tree."""
    n = q(run, 1, 25)
    parts = [("tar", "MCTar", "MCTarSim.cfg", 500 * n, 12, None, 1, None),
             ("tar", "MCTar", "MCTarOddSim.cfg", 500 * n, 12, None, 1, None),
             ("ar", "MCAr", "MCArSim.cfg", 800 * n, 30, None, 1, None),
             ("etree", "MCErofsTree", None, 400 * n, 70, None, 1, None),
             ("edir", "MCErofsDir", "MCErofsDir23.cfg", None, None, {"N": 5}, 1, 120 * n),
             ("eimg", "MCErofsImage", "MCErofsImageSim.cfg", 600 * n, 40, None, 1, None),
             ("resolve-tar", "MCResolve", "MCResolveSim.cfg", 150 * n, 20, None, 1, None),
             ("resolve-erofs", "MCResolve", "MCResolveSim.cfg", 150 * n, 20, None, 1, None),
             ("convert", "MCConvert", "MCConvertSim.cfg", 400 * n, 40, None, 1, None),
             ("convert", "MCConvert", "MCConvertMany.cfg", 20 * n, 40, {"Sizes": '{"s20"}'}, 1, None),
             ("memfs", "MCMemTree", "MCMemTreeSim.cfg", 300 * n, 60, None, 1, None)]
    recs = []
    for suite, path, variants in made(run, parts):
        recs += replay(run, "view-" + suite, path, variants=variants)[0]
    validate(run, "view", recs, "View", cap, what)


@prop("X04")
def x04(run):
    view(run, "answers no single tree explains", q(run, 4000, 80000))


@prop("X07")
def x07(run):
    run.tlc("Determ", constants={"Steps": q(run, 5, 6)})
    for leak in ("clock", "proc", "last"):
        text, _ = run.tlc("Determ", constants={"Leak": '"%s"' % leak, "Steps": 4}, expect_violation=True)
        if "NeverRefused is violated" not in text:
            raise ToolError("the acceptor does not see a leak of the " + leak)
    n = q(run, 1, 25)
    parts = [("tar", "MCTar", "MCTarSim.cfg", 600 * n, 12, None, 2, None),
             ("tar", "MCTar", "MCTarOddSim.cfg", 400 * n, 12, None, 2, None),
             ("ar", "MCAr", "MCArSim.cfg", 600 * n, 30, None, 2, None),
             ("etree", "MCErofsTree", None, 500 * n, 70, None, 2, None),
             ("edir", "MCErofsDir", "MCErofsDir23.cfg", None, None, {"N": 5}, 1, 150 * n),
             ("resolve-tar", "MCResolve", "MCResolveSim.cfg", 150 * n, 20, None, 1, None),
             ("resolve-erofs", "MCResolve", "MCResolveSim.cfg", 150 * n, 20, None, 1, None),
             ("convert", "MCConvert", "MCConvertSim.cfg", 800 * n, 40, None, 2, None),
             ("convert", "MCConvert", "MCConvertAr.cfg", 600 * n, 40, None, 1, None),
             ("convert", "MCConvert", "MCConvertMany.cfg", 60 * n, 40, {"Sizes": '{"s20", "s130"}'}, 1, None)]
    recs = {}
    for proc, (shards, env) in enumerate(((8, {"TZ": "UTC"}), (5, {"TZ": "Asia/Kolkata", "GOMAXPROCS": "2", "LANG": "de_DE.UTF-8", "VERIF_OTHER": "1"}))):
        for j, (suite, path, variants) in enumerate(made(run, parts) if not proc else kept):
            if not proc:
                kept = ([] if j == 0 else kept) + [(suite, path, variants)]
            for _, _, r in replay(run, "determ-" + suite, path, variants=variants, shards=shards, env=env)[0]:
                ev = recs.setdefault((j, r["key"]), {})
                ev[proc] = ev.get(proc, []) + r["ev"]
    joined = [(0, 0, {"key": "%s %s" % (parts[j][0], key), "ev": ev.get(0, []) + [{"op": "restart", "k": "", "a": ""}] + ev.get(1, [])})
              for (j, key), ev in sorted(recs.items())]
    validate(run, "determ", joined, "DetermTrace", q(run, 12000, 200000), "an answer given differently before")


@prop("X05")
def x05(run):
    import json, os
    muts = os.path.join(run.tmp, "muts")
    n = q(run, 1, 20)
    for f in ("tar", "ar", "erofs"):
        lines = []
        for cfg, mode, num, depth, consts in (("Robust.cfg", "bfs", None, None, {}), ("RobustSim.cfg", "sim", 800 * n, 16, {})):
            _, out = run.tlc("Robust", cfg, mode=mode, num=num, depth=depth, constants=dict(consts, Format='"%s"' % f))
            path, _, _ = run.cases(out)
            lines += [l for l in open(path).read().split("\n") if l]
        open(muts + "." + f, "w").write("\n".join(lines) + "\n")
        path = muts + "-%s.cases" % f
        with open(path, "w") as o:
            for l in lines:
                o.write(json.dumps({"format": f, "muts": json.loads(l)}) + "\n")
        replay(run, "robust-bytes", path, variants=q(run, 2, 20), memory=4 << 30)
    env = {"MUTS": muts, "ROBUST_N": str(q(run, 40, 100))}
    parts = [("tar", "MCTar", "MCTarSim.cfg", 1500 * n, 12, None, 2, None),
             ("tar", "MCTar", "MCTarOddSim.cfg", 1000 * n, 12, None, 2, None),
             ("ar", "MCAr", "MCArSim.cfg", 1500 * n, 30, None, 2, None),
             ("etree", "MCErofsTree", None, 1500 * n, 70, None, 2, None),
             ("edir", "MCErofsDir", "MCErofsDir23.cfg", None, None, {"N": 5}, 2, 200 * n),
             ("resolve-tar", "MCResolve", "MCResolveSim.cfg", 100 * n, 20, None, 1, None),
             ("resolve-erofs", "MCResolve", "MCResolveSim.cfg", 100 * n, 20, None, 1, None),
             ("convert", "MCConvert", "MCConvertSim.cfg", 800 * n, 40, None, 1, None)]
    for suite, path, variants in made(run, parts):
        replay(run, "robust-" + suite, path, variants=variants, env=env, memory=4 << 30)
    known = os.path.join(run.tmp, "known.cases")
    open(known, "w").write(json.dumps({"name": "tar-sparse-huge"}) + "\n")
    replay(run, "robust-known", known, timeout=5, memory=4 << 30)
