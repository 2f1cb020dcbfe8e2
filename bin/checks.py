"""What each check runs."""
from vlib import Violation, Broken


def both(c, *fs):
    """Runs functions in parallel and returns their results; the first exception wins."""
    futs = [__import__("concurrent.futures").futures.ThreadPoolExecutor(1).submit(f) for f in fs]
    return [f.result() for f in futs]


def c01(c):
    c.build()
    scn = c.generate("MCSecs2", "GenSecs2.cfg" if c.quick else "GenSecs2T.cfg", workers=4)
    _, files = both(c, lambda: c.model("MCSecs2", "MCSecs2Q.cfg" if c.quick else "MCSecs2.cfg", workers=4),
                    lambda: c.drive("c01", scn))
    c.validate(files, "TraceSecs2")


def c02(c):
    c.build()
    _, files = both(c, lambda: c.model("MCSecs2", "MCSecs2Q.cfg" if c.quick else "MCSecs2.cfg", workers=4),
                    lambda: c.drive("c02"))
    c.validate(files, "TraceSecs2", xss="512m")


UP = [dict(op="sel", await_=0, ectl="EO", ecom=False, nchg=0), dict(op="com", by="host", s1f1="ok", await_=0, ectl="OR", ecom=True, nchg=2)]
for x in UP:
    x["await"] = x.pop("await_")


def gem(mix, num, depth, part=None, also=()):
    """Behaviours of the equipment model replayed on the real equipment and judged by the model: random ones, and for
    a small alphabet (part) all transitions."""
    def run(c):
        n, d = (num, depth) if c.quick else (num * 8, depth * 2)

        def gen(mix, n, d):
            return c.generate("GenGem", "GenGem.cfg", num=n, depth=d + 5, env={"MIX": mix, "DEPTH": str(d)})
        jobs = [c.build, lambda: gen(mix, n, d)]
        jobs += [lambda a=a: gen(*a) for a in also]
        if part:
            jobs.append(lambda: c.tour("MCGem", "MCGem_%s.cfg" % part, [] if part == "control" else UP))
        scn = sum(both(c, *jobs)[1:], [])
        files = c.drive("gem", scn)
        c.validate(files, "TraceGem", unit="new")
    return run


_c15 = gem("c15", 300, 30, "control", [("stale", 4, 12)])
c16 = gem("c16", 300, 40, "reports")
c17 = gem("c17", 500, 40)
c18 = gem("c18", 300, 40, "alarms")
c19 = gem("c19", 400, 40, "consts")
_c20 = gem("c20", 600, 30)


def hosts(c, mix, num):
    """Calls of a real host answered by a scripted equipment."""
    scn = c.generate("GenHost", "GenHost.cfg", num=num if c.quick else num * 8, depth=45, env={"MIX": mix, "DEPTH": "40"})
    c.validate(c.drive("host", scn), "TraceHost", unit="new")


def c20(c):
    _c20(c)
    hosts(c, "cmd", 100)


c21 = gem("c21", 400, 30, "consts")
c22 = gem("c22", 600, 30)


def hsms(mixes, parts=(), models=()):
    """Behaviours of the endpoint model replayed on real endpoints and judged by the model: random ones of the mixes
    (name, number, length), and for small alphabets (parts) all transitions; models are only checked."""
    def run(c):
        jobs = [c.build]
        for mix, n, d in mixes:
            k, n, d = (1, n, d) if c.quick else (4, n * 3, d * 2)
            for i in range(k):
                jobs.append(lambda mix=mix, n=n, d=d, i=i: c.generate("GenHsms", "GenHsms.cfg", num=n, depth=d + 5, env={"MIX": mix, "DEPTH": str(d)}, seed=c.seed + 1000 * i))
        jobs += [lambda p=p: c.tour("MCHsms", "MCHsms_%s.cfg" % p, [], 40) for p in parts]
        jobs += [lambda p=p: c.model("MCHsms", "MCHsms_%s.cfg" % p, workers=2) and [] for p in models]
        scn = sum((x for x in both(c, *jobs)[1:] if isinstance(x, list)), [])
        c.validate(c.drive("hsms", scn), "TraceHsms", unit="new")
    return run


c03 = hsms([("c03", 400, 30)], models=["calls"])
_c04 = hsms([("c04", 600, 40)], models=["calls"])


def c04(c):
    _c04(c)
    c.validate(c.drive("flood", parts=1), "TraceFlood")


c05 = hsms([("t3", 300, 30), ("c04", 100, 30)], models=["calls"])
c06 = hsms([("c06", 800, 40)], ["passive", "active"], ["calls"])
c07 = hsms([("c07", 700, 40), ("t6", 100, 20)], ["passive", "active", "wild"], ["calls"])
c08 = hsms([("t7", 200, 30), ("t8", 200, 30)])
c09 = hsms([("c09", 200, 30), ("t6", 100, 20)], ["once", "active"])
c11 = hsms([("c11", 600, 40)])


def c10(c):
    n, d = (350, 17) if c.quick else (1500, 100)
    _, scn, _ = both(c, c.build, lambda: c.generate("GenBackoff", "GenBackoff.cfg", num=n, depth=70, env={"DEPTH": str(d)}),
                     lambda: c.model("MCBackoff", "MCBackoff.cfg", workers=2))
    c.validate(c.drive("backoff", scn), "TraceBackoff", unit="new")


def conc(tr, mixes, models=()):
    """Concurrent programs run on the real objects, built to yield at random between statements, and their histories
    judged by the model of the object."""
    def run(c):
        jobs = [lambda: c.build(yields=True)]
        jobs += [lambda m=m: c.generate("GenConc", "GenConc.cfg", num=m[1] * (1 if c.quick else 8), depth=20, env={"MIX": m[0], "DEPTH": str(m[2])}) for m in mixes]
        jobs += [lambda m=m: c.model(m[0], m[1], workers=4) and [] for m in models]
        scn = sum((x for x in both(c, *jobs)[1:] if isinstance(x, list)), [])
        c.validate(c.drive("conc", scn, env={"VERIF_YIELD": "60"}), tr, unit="new")
    return run


def c15(c):
    conc("TraceControl", [("control", 1200, 16)])(c)       # the state machine by itself
    _c15(c)


c12 = conc("TraceDeque", [("deque", 500, 16), ("bursts", 1500, 0)], [("Deque", "MCDeque.cfg")])
c24 = conc("TraceEvents", [("events", 600, 16)])
c13 = conc("TraceLink", [("link", 2500, 14), ("server", 1200, 12)])


def c14(c):
    """Random scripts of the other side played to real handlers, built to yield at random; what happened is judged by the
    observer model."""
    _, scn = both(c, lambda: c.build(yields=True), lambda: c.generate("GenComm", "GenComm.cfg", num=500 if c.quick else 4000, depth=35, env={"DEPTH": "30" if c.quick else "45"}))
    c.validate(c.drive("comm", scn, env={"VERIF_YIELD": "60"}), "TraceComm", unit="new")


def c25(c):
    _, scn = both(c, c.build, lambda: c.generate("GenCodec", "GenCodec.cfg", num=4000 if c.quick else 60000, depth=45, env={"DEPTH": "30" if c.quick else "40"}))
    c.validate(c.drive("codec", scn), "TraceCodec", unit="new")


def c26(c):
    """Behaviours of a host and an equipment model connected to each other replayed on a real pair, and a real host's calls
    answered by a scripted equipment."""
    _, scn = both(c, lambda: c.build(yields=True),
                  lambda: c.generate("GenPair", "GenPair.cfg", num=350 if c.quick else 3000, depth=65, env={"MIX": "pair", "DEPTH": "40" if c.quick else "60"}))
    c.validate(c.drive("pair", scn, env={"VERIF_YIELD": "60"}), "TracePair", unit="new")
    hosts(c, "pair", 400)


def c27(c):
    both(c, lambda: c.model("MCTemplate", "MCTemplate.cfg", workers=2),
         lambda: (c.build(), c.validate(c.drive("template"), "TraceTemplate", unit="new")))


def c28(c):
    both(c, lambda: c.model("MCAccess", "MCAccess.cfg" if c.quick else "MCAccessT.cfg", workers=4),
         lambda: (c.build(), c.validate(c.drive("access"), "TraceAccess")))


def c29(c):
    n, d = (160, 30) if c.quick else (1280, 40)
    r = both(c, lambda: c.model("MCMsgLog", "MCMsgLog.cfg", workers=2),
             lambda: c.generate("GenMsgLog", "GenMsgLog.cfg", num=n, depth=d + 5, env={"DEPTH": str(d)}), c.build)
    c.validate(c.drive("msglog", r[1]), "TraceMsgLog", unit="new")


def c30(c):
    n, d = (300, 14) if c.quick else (1500, 60)
    r = both(c, lambda: c.model("MCLinktest", "MCLinktest.cfg", workers=2),
             lambda: c.generate("GenLinktest", "GenLinktest.cfg", num=n, depth=65, env={"DEPTH": str(d)}), c.build)
    c.validate(c.drive("linktest", r[1]), "TraceLinktest", unit="new")


def c23(c):
    both(c, lambda: c.model("MCSml", "MCSml.cfg", workers=4),
         lambda: (c.build(), c.validate(c.drive("sml"), "TraceSml", xss="512m")))
