"""C04: answers depend only on the current system, never on earlier questions."""
import copy, os, pickle, tempfile, time
from mc import observe
from mc.core import Violation

LEVEL = "model_checking"
INF = float("inf")


def systems():
    """{name: build(shared) -> (the system asked first, the system judged)}. shared: with elements used at several places."""
    import raytracing as rt
    from raytracing.matrixgroup import MatrixGroup
    sp, le, ap = rt.Space, rt.Lens, rt.Aperture

    def one(x):
        return x, x

    def relay(shared):
        return one(rt.ImagingPath([sp(d=10), le(f=50, diameter=25), sp(d=20), ap(diameter=10), sp(d=20), le(f=30, diameter=10), sp(d=40)], label="relay"))

    def twice(shared):
        a, s = le(f=20, diameter=8), sp(d=15)
        b, t = (a, s) if shared else (le(f=20, diameter=8), sp(d=15))
        return one(rt.ImagingPath([s, a, rt.Space(d=40), b, t]))

    def groups(shared):
        make = lambda: MatrixGroup([sp(d=10), le(f=30, diameter=12), sp(d=12)])
        g = make()
        h = g if shared else make()
        return one(rt.ImagingPath([g, sp(d=5), h, sp(d=9)]))

    def glass(shared):
        make = lambda: sp(d=6)
        s = make()
        return one(MatrixGroup([s, rt.DielectricInterface(n1=1, n2=1.5, R=20, diameter=20), s if shared else make(),
                                rt.DielectricInterface(n1=1.5, n2=1, R=-20), sp(d=25)]))

    def parents(shared):
        make = lambda: MatrixGroup([le(f=30, diameter=12), sp(d=12)], label="sub")
        g = make()
        a = rt.ImagingPath([sp(d=10), g, sp(d=3)])
        if not shared:
            g = make()
        return a, rt.ImagingPath([g, sp(d=5), le(f=-40, diameter=14), sp(d=30)])

    def member(shared):
        e = le(f=30, diameter=12)
        a = rt.ImagingPath([sp(d=10), e, sp(d=33)])
        return a, (e if shared else le(f=30, diameter=12))

    def cavity(shared):
        m = lambda: rt.CurvedMirror(R=-300, diameter=20)
        e = m()
        return one(rt.LaserCavity([sp(d=80), e, sp(d=80), e if shared else m()]))

    def laser(shared):
        return one(rt.LaserPath([sp(d=50), le(f=30, diameter=10), sp(d=40), rt.DielectricSlab(n=1.5, thickness=10, diameter=20), sp(d=7)]))

    def thick(shared):
        return one(rt.ThickLens(n=1.5, R1=30, R2=-40, thickness=5, diameter=20))

    def catalog(shared):
        return one(rt.ImagingPath([sp(d=150), rt.thorlabs.AC254_100_A(), sp(d=120)]))

    def objective(shared):
        return one(rt.ImagingPath([sp(d=20), rt.olympus.LUMPlanFL40X(), sp(d=1)]))

    def axicon(shared):
        return one(MatrixGroup([sp(d=10), rt.Axicon(alpha=0.1, n=1.5, diameter=20), sp(d=10)]))

    return dict(relay=relay, twice=twice, groups=groups, glass=glass, parents=parents, member=member, cavity=cavity, laser=laser,
                thick=thick, catalog=catalog, objective=objective, axicon=axicon)


class Context:
    """Objects of the caller, which questions must not change."""
    def __init__(self, m, altered=0):
        import raytracing as rt
        self.ray = rt.Ray(y=1.5 + altered, theta=0.03)
        self.blocked = rt.Ray(y=1, theta=0.1, isBlocked=True)
        self.list = [rt.Ray(y=0, theta=0.05), rt.Ray(y=4, theta=-0.1), rt.Ray(y=50, theta=0)]
        self.rays = rt.Rays([rt.Ray(y=2, theta=0.05), rt.Ray(y=4, theta=-0.1), rt.Ray(y=50, theta=0)])
        self.uniform = rt.UniformRays(yMax=1, thetaMax=0.1, M=2, N=2)
        self.beam = rt.GaussianBeam(w=1.25, n=m.frontIndex, wavelength=0.0006)
        self.element = rt.Space(d=3, n=m.frontIndex)

    def state(self):
        return tuple(observe.canon(x) for x in (self.ray, self.blocked, self.list, self.rays, self.uniform, self.beam, self.element)) + \
               (self.ray.apertureDiameter, self.blocked.apertureDiameter, tuple(r.apertureDiameter for r in self.list))


def spoil(x):
    """Change an answer as much as its owner can."""
    import raytracing as rt
    if isinstance(x, rt.Ray):
        x.y, x.theta, x.z, x.isBlocked, x.apertureDiameter = 99., 9., 999., True, 0.001
    elif isinstance(x, rt.GaussianBeam):
        x.q, x.z, x.isClipped = 1j, 1234., True
    elif isinstance(x, rt.Rays):
        for r in x.rays:
            spoil(r)
    elif isinstance(x, list):
        for v in x:
            spoil(v)
        x.append("spoiled")
        del x[0]
    elif isinstance(x, tuple):
        for v in x:
            spoil(v)
    elif isinstance(x, dict):
        x.clear()


def loops(m):
    return [(i, j) for i, a in enumerate(m) for j, b in enumerate(m)]


def partial(m):
    it = iter(m)
    first = next(it)
    rest = list(m)
    return [first, next(it), len(rest)]


def saved(m):
    path = os.path.join(tempfile.gettempdir(), "c04-%d.pickle" % os.getpid())
    m.save(path)
    os.unlink(path)


def extra(m, ctx):
    """Questions with the caller's objects, and other uses of the system."""
    q = {}
    q["ctx trace"] = lambda: m.trace(ctx.ray)
    q["ctx traceThrough"] = lambda: m.traceThrough(ctx.ray)
    q["ctx trace blocked"] = lambda: m.trace(ctx.blocked)
    q["ctx traceMany"] = lambda: m.traceMany(ctx.list)
    q["ctx traceMany Rays"] = lambda: m.traceMany(ctx.rays)
    q["ctx traceManyThrough"] = lambda: m.traceManyThrough(ctx.list, progress=False)
    q["ctx traceManyThrough Rays"] = lambda: m.traceManyThrough(ctx.rays, progress=False)
    q["ctx traceManyThrough source"] = lambda: m.traceManyThrough(ctx.uniform, progress=False)
    q["ctx beam"] = lambda: [m.trace(ctx.beam), m*ctx.beam]
    q["ctx product"] = lambda: m*ctx.element
    q["copy"] = lambda: copy.copy(m)
    q["deepcopy"] = lambda: copy.deepcopy(m)
    q["compare"] = lambda: (m == copy.deepcopy(m), m == ctx.element, ctx.element == m)
    if hasattr(m, "elements"):
        q["loops"] = lambda: loops(m)
        q["partial loop"] = lambda: partial(m)
        q["save"] = lambda: saved(m)
    return q


def displays(m, ctx):
    import raytracing as rt
    import matplotlib.pyplot as plt
    q = {}
    def closing(f):
        def g():
            try:
                f()
            finally:
                plt.close("all")
        return g
    if isinstance(m, rt.ImagingPath):
        q["display"] = closing(lambda: m.display(interactive=False))
        q["display rays"] = closing(lambda: m.display(rays=rt.ObjectRays(diameter=2, halfAngle=0.1), onlyPrincipalAndAxialRays=False, interactive=False))
        q["display principal"] = closing(lambda: m.display(onlyPrincipalAndAxialRays=True, limitObjectToFieldOfView=True, interactive=False))
        q["displayWithObject"] = closing(lambda: m.displayWithObject(diameter=3))
    elif isinstance(m, rt.LaserPath):
        if isinstance(m, rt.LaserCavity):
            q["display"] = closing(lambda: m.display())
        else:
            q["display"] = closing(lambda: m.display(beams=[ctx.beam]))
    else:
        q["display"] = closing(lambda: m.display())
    return q


EDITS = ("append", "insert", "set", "pop", "flip", "alter")


def edit(name, m, ctx):
    import raytracing as rt
    if name == "append":
        m.append(rt.Space(d=4, n=m.backIndex))
    elif name == "insert":
        m.insert(0, rt.Space(d=2.5, n=m.frontIndex))
    elif name == "set":
        m[-1] = rt.Space(d=21)
    elif name == "pop":
        m.pop(-1)
    elif name == "flip":
        m.flipOrientation()
    elif name == "alter":
        ctx.ray.y += 1


class World:
    def __init__(self, build, shared):
        self.asked, self.judged = build(shared)
        self.ctx = Context(self.asked)

    def everything(self, skip):
        out = observe.signature(self.judged, skip)
        for name, f in extra(self.judged, self.ctx).items():
            if name not in skip:
                out[name] = observe.ask(f)
        if self.judged is not self.asked:
            for name, a in observe.signature(self.asked, skip).items():
                out["first: " + name] = a
        return out


def expected(memo, name, build, edits, skip):
    """What a freshly built identical system answers, each question asked to one of its own."""
    key = (name, edits, skip)
    if key not in memo:
        def fresh():
            w = World(build, False)
            for e in edits:
                edit(e, w.asked if e != "alter" else None, w.ctx)
            return w
        out = {}
        for q in fresh().everything(skip):
            w = fresh()
            if q.startswith("first: "):
                f = observe.queries(w.asked)[q[7:]]
            elif q in observe.queries(w.judged):
                f = observe.queries(w.judged)[q]
            else:
                f = extra(w.judged, w.ctx)[q]
            out[q] = observe.ask(f)
        memo[key] = out
    return memo[key]


def history(shard, memo, name, build, ops, skip):
    w = World(build, True)
    edits = ()
    for kind, op in ops:
        if kind == "edit":
            edit(op, w.asked, w.ctx)
            edits += (op,)
            continue
        before = w.ctx.state()
        f = observe.queries(w.asked).get(op) or extra(w.asked, w.ctx).get(op) or displays(w.asked, w.ctx).get(op)
        try:
            answer = f()
        except Exception as e:
            if kind == "display":
                raise Violation("%s failed: %s: %s" % (op, type(e).__name__, e))
            answer = None
        if w.ctx.state() != before:
            raise Violation("asking %s changed the objects of the caller" % op)
        if kind == "spoil":
            spoil(answer)
            w.ctx = Context(w.asked)    # an answer may hold the very rays that were passed in
        shard.add("transitions")
    got = w.everything(skip)
    want = expected(memo, name, build, edits, skip)
    bad = observe.difference(got, want)
    if bad:
        raise Violation("afterwards " + bad)
    shard.distinct((name, edits, len(got)))
    shard.add("answers", len(got))
    shard.add("traces")


def worker(shard):
    time.sleep = lambda s: None
    memo = {}
    builds = systems()
    slow = observe.SLOW

    def plan():
        for name, build in builds.items():
            w = World(build, False)
            qs = [q for q in observe.queries(w.asked)] + list(extra(w.asked, w.ctx))
            ds = list(displays(w.asked, w.ctx))
            edits = [e for e in EDITS if w.asked is w.judged and hasattr(w.asked, "elements") and (name != "glass" or e != "pop")] + ["alter"]
            for d in ds:
                yield name, build, (("display", d),), ()
                for d2 in ds:
                    yield name, build, (("display", d), ("display", d2)), ()
            for q in qs:
                yield name, build, (("ask", q),), ()
                yield name, build, (("spoil", q),), ()
                for e in edits:
                    yield name, build, (("ask", q), ("edit", e)), () if shard.thorough or q in slow else slow
            fast = [q for q in qs if q not in slow and q != "save"]
            for q1 in fast:
                for q2 in (fast + ds[:1] if shard.thorough else fast):
                    yield name, build, (("ask", q1), ("ask" if q2 in fast else "display", q2)), slow
            if shard.thorough:
                for q1 in qs:
                    for e in edits:
                        for q2 in fast:
                            yield name, build, (("ask", q1), ("edit", e), ("ask", q2)), slow
                    for q2 in fast:
                        yield name, build, (("spoil", q1), ("spoil", q2)), slow

    for name, build, ops, skip in shard.mine(plan()):
        if shard.full(): return
        shard.run(dict(system=name, history=ops), history, shard, memo, name, build, ops, skip)
        shard.sample(dict(system=name, history=ops))


def run(check):
    check.sharded(worker)
    check.coverage = dict(states=len(check.hashes), transitions=check.counters.get("transitions", 0),
                          traces_validated_against_impl=check.counters.get("traces", 0), answers_compared=check.counters.get("answers", 0),
                          exhaustive=True, bound="every history of one question (its answer spoiled or not), of two questions, of two displays, and of a "
                          "question and an edit%s, on %d systems, each followed by all the questions" %
                          (", of a question, an edit and a question, of two spoiled answers" if check.thorough else "", len(systems())),
                          samples=check.samples)
    check.assumptions = ["the oracle is a system built afresh, without sharing, asked one question only"]
