"""What is run for which property."""

SAMPLED = "schedules of the real code are sampled (random, PCT, sticky, site-delay), not enumerated"
BUBBLE = "time is virtual (testing/synctest); the Go runtime and synctest are trusted"
INSTR = "the inserted yield points and lock shims do not change what the code does"
SMALL = "the models are explored exhaustively for the listed constants only"
BASE = [SAMPLED, BUBBLE, INSTR, SMALL]


def pool(kind, size, n, calls, expect="ok", bug="none", **kw):
    return dict(module="PoolImpl", consts=dict(Kind=kind, Size=size, N=n, Bug=bug, Calls=set(calls)), expect=expect,
                inv=("Correct", "Sane") if expect == "ok" else ("Correct",), **kw)


def grp(n, size, rounds, errs, calls, expect="ok", bug="none", **kw):
    return dict(module="GroupImpl", consts=dict(N=n, Size=size, Rounds=rounds, HasCancel=True, Errs=set(errs), Calls=set(calls), Bug=bug),
                expect=expect, inv=("Correct", "Sane") if expect == "ok" else ("Correct",), **kw)


def par(op, n, size, stop, errs, expect="ok", bug="none", cancel=True, **kw):
    return dict(module="ParImpl", consts=dict(Op=op, N=n, Size=size, Stop=stop, Errs=set(errs), MayCancel=cancel, Bug=bug),
                expect=expect, inv=("Correct", "Sane") if expect == "ok" else ("Correct",), **kw)


def rw(n, kinds, fails, expect="ok", bug="none", **kw):
    return dict(module="RWImpl", consts=dict(N=n, Kinds=set(kinds), Fails=set(fails), Bug=bug), expect=expect,
                inv=("Correct", "Sane") if expect == "ok" else ("Correct",), **kw)


def errs(n, m, expect="ok", bug="none", **kw):
    return dict(module="ErrsImpl", consts=dict(N=n, M=m, Bug=bug), expect=expect,
                inv=("Correct", "Sane") if expect == "ok" else ("Correct",), **kw)


def reg(n, m, bases, expect="ok", bug="none", **kw):
    return dict(module="RegistryImpl", consts=dict(N=n, M=m, Bases=set(bases), Bug=bug), expect=expect,
                inv=("Correct", "Sane") if expect == "ok" else ("Correct",), **kw)


def que(n, m, limit, expect="ok", bug="none", **kw):
    return dict(module="QueueImpl", consts=dict(N=n, M=m, Limit=limit, Bug=bug), expect=expect,
                inv=("Correct", "Sane") if expect == "ok" else ("Correct",), **kw)


def pipe(n=2, g=1, r=1, ordered=False, dag=False, progs=(1,), fails=(), cancels=(), pre=None, expect="ok", bug="none", **kw):
    return dict(module="PipeImpl", consts=dict(N=n, G=g, R=r, Ordered=ordered, IsDag=dag, Progs=set(progs), Fails=set(fails), Cancels=set(cancels),
                                               Pre=g if pre is None else pre, Bug=bug),
                expect=expect, inv=("Correct", "Sane") if expect == "ok" else ("Correct",), **kw)


def skl(n, bases, expect="ok", bug="none", **kw):
    return dict(module="SkelImpl", consts=dict(N=n, Bases=set(bases), Bug=bug), expect=expect,
                inv=("Correct", "Sane") if expect == "ok" else ("Correct",), **kw)


def spn(expect="ok", bug="none", N=2, F=0, Traced=(1,), Cancels=(1,), **kw):
    return dict(module="SpanImpl", consts=dict(N=N, Cancels=set(Cancels), F=F, Rounds=2, Traced=set(Traced), Bug=bug), expect=expect,
                inv=("Correct", "Sane") if expect == "ok" else ("Correct",), **kw)


def bld(m, expect="ok", bug="none"):
    return dict(module="BuildImpl", consts=dict(M=m, Bug=bug), expect=expect, inv=("Correct", "Sane") if expect == "ok" else ("Correct",), props=("C32",))


def dly(n, r, d, t, expect="ok", bug="none", **kw):
    return dict(module="DelayImpl", consts=dict(N=n, R=r, D=d, T=t, Bug=bug), expect=expect,
                inv=("Correct", "Sane") if expect == "ok" else ("Correct",), props=("C33",), **kw)


P14 = ("C01", "C02", "C03", "C04", "C05")
COMPONENTS = {
    "pool": dict(
        gen=dict(module="PoolGen", consts=dict(quick=dict(L=3), thorough=dict(L=4)), rounds=(4, 12)),
        driver="pool", where="zzverif/pool", test="TestPool", trace="PoolTrace",
        n=(900, 12000), seconds=(60, 400), free=(150, 3000),
        need=("sub", "start", "end", "waitret", "runret", "badret", "leak", "q"),
        mc=[pool(k, z, 3, ["wait"], props=("C01", "C02", "C03")) for k in ("limited", "pooled") for z in (1, 2)]
        + [pool(k, 1, 3, ["run"], props=("C05",)) for k in ("limited", "pooled")]
        + [pool(k, 2, 3, ["wait"], props=("C05",)) for k in ("limited", "pooled")]
        + [pool(k, 1, 3, ["bad"], props=("C04",)) for k in ("limited", "pooled")]
        + [pool(k, 2, 3, ["wait", "bad", "run"], props=P14, thorough=True, workers=4) for k in ("limited", "pooled")]
        + [pool(k, z, 4, ["wait"], props=P14, thorough=True, workers=4) for k in ("limited", "pooled") for z in (1, 2)]
        + [
            pool("limited", 1, 3, [], "violation", "early", props=("C02",)),
            pool("pooled", 1, 3, [], "violation", "buffer", props=("C03", "C01")),
            pool("limited", 1, 2, ["wait"], "violation", "doneFirst", props=("C05",)),
            pool("pooled", 1, 2, ["wait"], "violation", "doneFirst", props=("C05",)),
            pool("limited", 1, 2, ["wait"], "violation", "nowg", props=("C01",)),
            pool("limited", 1, 2, ["bad"], "violation", "badslot", props=("C04",)),
        ],
    ),
    "group": dict(
        gen=dict(module="GroupGen", consts=dict(quick=dict(L=3), thorough=dict(L=4)), rounds=(2, 6)),
        driver="group", where="zzverif/group", test="TestGroup", trace="GroupTrace",
        n=(900, 12000), seconds=(60, 400), free=(200, 3000),
        need=("go", "start", "end", "waitret", "runret", "cf", "cancelled", "leak", "q"),
        mc=[
            grp(2, 0, 2, [1, 2, 99], ["cancel"]),
            grp(3, 0, 1, [1, 2, 3, 99], [], props=("C11", "C12")),
            grp(3, 1, 1, [1, 2, 99], ["cancel"], props=("C10", "C12")),
            grp(3, 2, 2, [1], ["run"], props=("C13", "C10")),
            grp(3, 0, 2, [1, 2, 99], ["cancel", "run", "nest"], thorough=True, workers=4),
            grp(4, 2, 1, [1, 2, 99], ["cancel"], thorough=True, workers=4),
            grp(2, 0, 1, [1, 2, 99], [], "violation", "lost", props=("C11",)),
            grp(2, 0, 1, [1, 2, 99], [], "violation", "keepctx", props=("C11",)),
            grp(2, 0, 1, [1, 2, 99], [], "violation", "late", props=("C13",)),
            grp(2, 0, 2, [1, 2, 99], [], "violation", "noreset", props=("C13", "C11")),
            grp(2, 0, 1, [1, 2, 99], [], "violation", "nocancel", props=("C12",)),
            grp(2, 0, 1, [1, 2, 99], [], "violation", "always", props=("C12",)),
            grp(2, 0, 1, [1, 2, 99], ["cancel"], "violation", "nocheck", props=("C10",)),
        ],
    ),
    "par": dict(
        gen=dict(module="ParGen", consts=dict(quick=dict(L=4), thorough=dict(L=6)), rounds=(2, 6)),
        driver="par", where="zzverif/par", test="TestPar", trace="ParTrace",
        n=(900, 12000), seconds=(60, 400), free=(250, 4000),
        need=("call", "ret", "start", "end", "cancelled", "q", "leak", "poolok", "opts"),
        mc=[
            par("slice", 3, 2, False, [1, 2, 99], props=("C14", "C17")),
            par("slice", 3, 2, True, [1, 2, 99], props=("C14", "C17")),
            par("access", 3, 2, False, [1, 2, 99], props=("C15", "C17", "C18")),
            par("access", 3, 2, True, [1, 2], props=("C15", "C17")),
            par("modify", 2, 2, False, [1, 2, 99], props=("C16", "C17")),
            par("modify", 3, 1, True, [1, 2, 99], props=("C16", "C17", "C18")),
            par("modify", 3, 2, True, [1, 2], cancel=False, props=("C16",)),
            par("slice", 4, 2, True, [1, 2, 99], thorough=True),
            par("access", 4, 2, False, [1, 2, 99], thorough=True, workers=4),
            par("access", 4, 2, True, [1, 2, 99], thorough=True, workers=4),
            par("modify", 3, 2, True, [1, 2, 99], thorough=True, workers=4),
            par("modify", 4, 2, False, [1, 99], thorough=True, workers=4),
            par("slice", 2, 2, False, [1], "violation", "nowait", props=("C14",)),
            par("modify", 2, 2, False, [1], "violation", "nowait", props=("C16",)),
            par("access", 2, 2, False, [1], "violation", "noctx", props=("C15",)),
            par("modify", 2, 2, False, [1], "violation", "sendblock", props=("C16",)),
            par("slice", 2, 2, True, [1], "violation", "droperr", cancel=False, props=("C17",)),
            par("slice", 3, 1, True, [1], "violation", "nocheck", cancel=False, props=("C17",)),
            par("access", 2, 2, True, [1], "violation", "nostop", cancel=False, props=("C17",)),
            par("access", 2, 1, False, [1], "violation", "nolimit", cancel=False, props=("C18",)),
        ],
    ),
    "rw": dict(
        gen=dict(module="RWGen", consts=dict(quick=dict(L=2), thorough=dict(L=3)), rounds=(4, 12), inv="Emit"),
        driver="rw", where="zzverif/rw", test="TestRW", trace="RWTrace",
        n=(3000, 40000), seconds=(60, 400), free=(800, 15000),
        need=("ld", "ldret", "st", "stret", "lr", "fs", "fe", "lrret", "lrpanic", "q"),
        mc=[
            rw(3, ["ld", "st", "lr"], ["ok", "err", "panic"]),
            rw(4, ["ld", "st", "lr"], ["ok", "err"], thorough=True, workers=4),
            rw(3, ["ld", "st", "lr"], ["ok"], "violation", "readlock", props=("C09",)),
            rw(3, ["ld", "st", "lr"], ["ok"], "violation", "nolock"),
            rw(3, ["ld", "st", "lr"], ["ok"], "violation", "unlockearly", props=("C08",)),
            rw(3, ["ld", "st", "lr"], ["ok", "err"], "violation", "storeerr", props=("C08",)),
            rw(3, ["ld", "st", "lr"], ["ok", "panic"], "violation", "nodefer", props=("C09",)),
        ],
    ),
    "registry": dict(
        gen=dict(module="RegistryGen", consts=dict(quick=dict(L=4), thorough=dict(L=5)), rounds=(1, 2)),
        driver="registry", where="goroutines/zzverif/registry", test="TestRegistry", trace="RegistryTrace",
        n=(1500, 20000), seconds=(60, 400), free=(500, 8000),
        need=("new", "newret", "job", "jobend", "close", "closeret", "name", "pools", "poolsret", "leak", "q"),
        mc=[
            reg(2, 1, [0, 1]), reg(3, 0, [1, 2], props=("C06",)), reg(2, 2, [1], props=("C06",)),
            reg(3, 1, [0, 1], thorough=True, workers=4), reg(4, 0, [1], thorough=True, workers=4),
            reg(3, 1, [1], "violation", "split", props=("C06",)),
            reg(3, 1, [1], "violation", "nounreg", props=("C06",)),
            reg(3, 1, [1], "violation", "earlyunreg", props=("C06",)),
            reg(3, 1, [1], "violation", "unregbase", props=("C06",)),
            reg(3, 1, [1], "violation", "giveup", props=("C06",)),
            reg(3, 1, [1], "violation", "rejreg", props=("C04",)),
            reg(3, 1, [1], "violation", "noclose", props=("C06",)),
        ],
    ),
    "queue": dict(
        gen=dict(module="QueueGen", consts=dict(quick=dict(L=3), thorough=dict(L=4)), rounds=(4, 20)),
        driver="queue", where="pipelines/stagedpipe/zzverif/queue", test="TestQueue", trace="QueueTrace",
        n=(1800, 20000), seconds=(60, 400), free=(300, 5000),
        need=("push", "pushret", "pop", "popret", "close", "closeret", "q"),
        mc=[
            que(3, 2, 0), que(2, 3, 1), que(3, 2, 1), que(3, 2, 2),
            que(3, 3, 0, thorough=True, workers=4), que(3, 3, 1, thorough=True, workers=4), que(4, 2, 2, thorough=True, workers=4),
            que(2, 2, 1, "violation", "nolimit"), que(2, 2, 1, "violation", "keeptoken"),
            que(2, 2, 1, "violation", "closedlate"), que(2, 2, 0, "violation", "nocas"),
            que(2, 2, 1, "violation", "popnocas"), que(2, 2, 1, "violation", "nowake"),
        ],
    ),
    "pipe": dict(
        gen=dict(module="PipeGen", consts=dict(quick=dict(L=3), thorough=dict(L=4)), rounds=(1, 2)),
        driver="pipe", where="pipelines/stagedpipe/zzverif/pipe", test="TestPipe", trace="PipeTrace", deps=True,
        n=(330, 5000), seconds=(60, 500), free=(110, 2000),
        need=("ng", "sub", "subret", "st", "en", "pb", "pe", "rv", "out", "eof", "cl", "clret", "pcl", "pclret", "smc", "cancelled", "statret", "leak", "q"),
        mc=[
            pipe(n=2, progs=(1, 12), fails=[2], props=("C19", "C20", "C25")),
            pipe(n=2, g=2, props=("C19", "C27")),
            pipe(n=2, g=2, pre=0, r=1, cancels=[2], props=("C27",)),
            pipe(n=2, progs=(121, 12, 11), dag=True, props=("C21",)),
            pipe(n=2, ordered=True, cancels=[1], props=("C22",)),
            pipe(n=2, r=2, ordered=True, props=("C22",)),
            pipe(n=2, progs=(12,), cancels=[1], props=("C20", "C23")),
            pipe(n=2, cancels=[2], fails=[1], props=("C23", "C25")),
            pipe(n=2, r=2, props=("C24", "C26")),
            pipe(n=2, r=1, cancels=[1], props=("C24", "C26")),
            pipe(n=3, r=1, fails=[2], thorough=True, workers=4),
            pipe(n=2, g=2, r=2, thorough=True, workers=4),
            pipe(n=2, r=2, ordered=True, cancels=[1], thorough=True, workers=4),
            pipe(n=3, r=2, ordered=True, thorough=True, workers=4, props=("C22",)),
            pipe(n=3, r=1, cancels=[3], thorough=True, workers=4, props=("C23",)),
            pipe(n=3, g=2, pre=1, thorough=True, workers=4, props=("C27", "C19")),
            pipe(n=2, progs=(121, 12, 123, 11), dag=True, r=2, thorough=True, workers=4, props=("C21", "C20")),
            pipe(n=1, progs=(12,), cancels=[1], expect="violation", bug="noctx", props=("C23",)),
            pipe(n=3, cancels=[3], expect="violation", bug="blocked", props=("C23",)),
            pipe(n=2, cancels=[1], expect="violation", bug="pwg", props=("C23", "C25")),
            pipe(n=2, ordered=True, cancels=[1], expect="violation", bug="gap", props=("C22",)),
            pipe(n=2, g=2, expect="violation", bug="wrongg", props=("C19", "C27")),
            pipe(n=1, expect="violation", bug="dup", props=("C19",)),
            pipe(n=1, expect="violation", bug="noclosewait", props=("C19",)),
            pipe(n=2, expect="violation", bug="stale", props=("C20",)),
            pipe(n=2, dag=True, expect="violation", bug="seenshared", props=("C21",)),
            pipe(n=2, dag=True, progs=(11,), expect="violation", bug="seenstart", props=("C21",)),
            pipe(n=2, r=2, expect="violation", bug="onerunner", props=("C24",)),
            pipe(n=2, expect="violation", bug="smearly", props=("C25",)),
            pipe(n=2, expect="violation", bug="comp", props=("C26",)),
            pipe(n=2, g=2, pre=1, expect="violation", bug="lostmap", props=("C27",)),
            bld(3),
            bld(3, "violation", "demuxfirst"), bld(3, "violation", "zero"), bld(3, "violation", "lastopt"),
            bld(3, "violation", "noclose"), bld(3, "violation", "closesm"),
            dly(4, 1, 2, 5), dly(4, 1, 0, 4), dly(5, 2, 1, 2, thorough=True, workers=4), dly(4, 1, 2, 7, thorough=True, workers=4),
            dly(4, 1, 2, 6, "violation", "noreset"), dly(4, 1, 2, 6, "violation", "once"), dly(4, 1, 2, 6, "violation", "silent"),
        ],
        needfor=dict(C32=("bnew",), C33=("warn",)),
    ),
    "spanpipe": dict(
        gen=dict(module="PipeGen", consts=dict(quick=dict(L=3), thorough=dict(L=4)), rounds=(0, 2)),
        driver="pipe", where="pipelines/stagedpipe/zzverif/pipe", test="TestPipe", trace="SpanTrace", deps=True, env={"VH_TRACE": "2"},
        n=(250, 4000), seconds=(60, 500), free=(80, 1500),
        need=("ss", "se", "sx", "st", "en", "pb", "out", "clret", "leak"),
        mc=[spn()] + [spn(N=3, Cancels=c, thorough=True, workers=4) for c in ((1,), (2, 3))]
        + [spn("violation", b) for b in ("shared", "leak", "chain", "noend", "onerr", "twice", "nostatus", "late", "gnoend")],
    ),
    "spangroup": dict(
        gen=dict(module="GroupGen", consts=dict(quick=dict(L=3), thorough=dict(L=4)), rounds=(0, 6)),
        driver="group", where="zzverif/group", test="TestGroup", trace="SpanTrace", env={"VH_TRACE": "2"},
        n=(600, 8000), seconds=(60, 400), free=(150, 3000),
        need=("round", "go", "ss", "se", "start", "end", "waitret", "leak"),
        mc=[spn(N=0, F=2, Traced=t) for t in ((1,), (2,), (1, 2))] + [spn(N=0, F=4, Traced=(1, 2), thorough=True)]
        + [spn("violation", b, N=0, F=2) for b in ("discard", "wearly", "wnoend", "stale")],
    ),
    "errs": dict(
        gen=dict(module="ErrsGen", consts=dict(quick=dict(L=2), thorough=dict(L=3)), rounds=(1, 2), inv="Emit"),
        driver="errs", where="zzverif/errs", test="TestErrs", trace="ErrsTrace",
        n=(3000, 40000), seconds=(60, 400), free=(800, 15000),
        need=("rec", "recret", "ls", "lsret", "fst", "fstret", "again", "q"),
        mc=[
            errs(3, 2), errs(2, 3), errs(4, 2, thorough=True, workers=4),
            errs(2, 2, "violation", "nolock"), errs(2, 2, "violation", "last"),
            errs(2, 2, "violation", "front"), errs(2, 2, "violation", "alias"),
        ],
    ),
    "skel": dict(
        processes=True, trace="SkelTrace",
        gen=dict(module="SkelGen", consts=dict(quick=dict(L=2, Two=True), thorough=dict(L=3, Two=True))),
        need=("pre", "init", "initret", "look", "build", "run"),
        mc=[
            skl(3, ["", "a", "data"]), skl(4, ["a", "data"], thorough=True, workers=4),
            skl(2, ["a", "data"], "violation", "mkdirall"), skl(2, ["", "a"], "violation", "nocheck"),
            skl(2, ["a", "data"], "violation", "checkthenact"), skl(2, ["a", "data"], "violation", "mainfirst"),
            skl(1, ["a", "data"], "violation", "mainalways"), skl(1, ["a", "data"], "violation", "samefile"),
        ],
    ),
}

PROPS = {
    "C07": ["errs"], "C08": ["rw"], "C09": ["rw"],
    "C14": ["par"], "C15": ["par"], "C16": ["par"], "C17": ["par"], "C18": ["par"],
    "C10": ["group"], "C11": ["group"], "C12": ["group"], "C13": ["group"],
    "C19": ["pipe"], "C20": ["pipe"], "C21": ["pipe"], "C22": ["pipe"], "C23": ["pipe"], "C24": ["pipe"], "C25": ["pipe"],
    "C31": ["spanpipe", "spangroup"],
    "C29": ["pool", "group", "par", "pipe"],
    "C26": ["pipe"], "C27": ["pipe"], "C32": ["pipe"], "C33": ["pipe"], "C28": ["queue"], "C06": ["registry"], "C30": ["skel"],
    "C01": ["pool"], "C02": ["pool"], "C03": ["pool"], "C04": ["pool", "registry"], "C05": ["pool"],
}

TECHNIQUE = {p: dict(assumptions=BASE) for p in PROPS}
TECHNIQUE["C30"] = dict(assumptions=[
    "package names of one or two pieces, histories of at most 3 steps over two packages in one directory; quick runs a sample of the names",
    "the operating system's mkdir is atomic; the go tool decides whether a program builds", SMALL])

NOT_APPLICABLE = {}
NOTES = {
    "*": "TLC explores an algorithm model exhaustively for small constants under the property's contract and refutes wrong variants of it; "
         "every execution of the real code that the harness performs (deterministically scheduled and free-running with the race detector) is "
         "validated by TLC against the same contract. Schedules and inputs of the real code are sampled, not enumerated; trusts TLC, the Go "
         "runtime with testing/synctest, and the harness.",
    "C30": "TLC enumerates the histories (calls, concurrent calls, things already there) and the package names with which the real generator is "
           "run, and validates what was recorded (files, build, run) against the contract; the algorithm model is explored exhaustively with its "
           "wrong variants refuted. Names longer than two pieces are not covered; trusts TLC, the go tool and the harness.",
}
