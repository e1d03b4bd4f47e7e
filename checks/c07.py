"""C07: turning an element or a system around gives the physically reversed system."""
import inspect
from mc import ref, systems, observe
from mc.core import Violation
from mc.ref import close, Refused, F

LEVEL = "model_checking"
INF = float("inf")

ALPHABET = [
    ("Space", 10), ("Lens", 50, 20.3), ("DI", 1, 1.5, 20, 18.1), ("DI", 1.5, 1, -30), ("Thick", 1.5, 20, -40, 5, 25.7), ("Space", 3, 1.5, 17.3),
    ("Mirror", -100, 16.7), ("DI", 1, 1.33, None, 15.9), ("DI", 1.33, 1.5, -12), ("Slab", 1.5, 6, 14.3), ("Aperture", 9.1),
    ("Thick", 1.75, None, -30, 4, 13.3), ("Flip", ("DI", 1, 1.5, 25)), ("Axicon", 0.1, 1.5, 19.9), ("DI", 1.5, 1.33, 44, 21.1),
    ("Group", [("DI", 1, 1.5, 25, 22.2), ("Space", 2), ("DI", 1.5, 1.33, None)]), ("4f", 20, 40, None, 18.3),
    ("Group", [("Lens", 30), ("Group", [("Space", 7), ("Mirror", 60, 12.9)])]),
]
RAYS = [(0.5, 0.01), (0, 0.02), (-1, -0.015), (6.37, 0.043), (9.81, 0), (-7.7, 0.11)]


def elements():
    ns, Rs = (1, 1.33, 1.5), (None, 10, -10, 37.5, -400)
    for n1 in ns:
        for n2 in ns:
            for R in Rs:
                yield ("DI", n1, n2, R); yield ("DI", n1, n2, R, 12)
    for n in (1.33, 1.5, 1.75):
        for R1 in Rs:
            for R2 in Rs:
                yield ("Thick", n, R1, R2, 8.5, 10); yield ("Thick", n, R1, R2, 0)
        yield ("Slab", n, 5, 9)
    for R in (5, -5, 1000):
        yield ("Mirror", R); yield ("Mirror", R, 6)
    for f in (10, -25):
        yield ("Lens", f); yield ("Lens", f, 5)
    for n in ns:
        yield ("Space", 10, n); yield ("Space", 10, n, 7)
    yield ("Aperture", 5); yield ("Axicon", 0.1, 1.5, 8); yield ("4f", 10, 25, 8, 12); yield ("2f", 30, 8)


def must(name, got, want, scale=1.0):
    if not close(got, want, scale, 1e-9):
        raise Violation("%s is %r, should be %r" % (name, got, None if want is None else float(want)))


def ray(y, theta, z=0):
    import raytracing as rt
    return rt.Ray(y=y, theta=theta, z=z)


def total(name, m, flat):
    t = ref.total(flat)
    scale = max(1.0, *[abs(float(x)) for x in t.abcd()])
    for n, got, want in (("A", m.A, t.A), ("B", m.B, t.B), ("C", m.C, t.C), ("D", m.D, t.D), ("L", m.L, t.L),
                         ("frontIndex", m.frontIndex, t.n1), ("backIndex", m.backIndex, t.n2), ("frontVertex", m.frontVertex, t.fv),
                         ("backVertex", m.backVertex, t.bv)):
        must("%s of the %s" % (n, name), got, want, scale)


def surfaces(m):
    try:
        return tuple((type(s).__name__, float(getattr(s, "R", 0)), float(s.n), float(s.L)) for s in m.forwardSurfaces)
    except Exception as e:
        return type(e).__name__


def attributes(m):
    return {k: observe.canon(v) for k, v in vars(m).items()
            if isinstance(v, (int, float, str, type(None))) and not k.startswith("_") and k != "iteration"}


def squeeze(points):
    out = []
    for p in points:
        if not out or not (close(p[0], out[-1][0]) and close(p[1], out[-1][1]) and close(p[2], out[-1][2]) and p[3] == out[-1][3]):
            out.append(p)
    return out


def tracesAgree(name, m, flat):
    group = hasattr(m, "elements")
    for y, theta in RAYS:
        if ref.fragile(flat, y, theta):
            continue
        got = [(r.y, r.theta, r.z, bool(r.isBlocked)) for r in m.trace(ray(y, theta))]
        if not group:
            got = [(y, theta, 0.0, False)] + got
        want = [p[:4] for p in ref.trace(flat, y, theta)]
        got, want = squeeze(got), squeeze(want)
        if len(got) != len(want) or not all(close(g[0], w[0]) and close(g[1], w[1]) and close(g[2], w[2]) and g[3] == w[3] for g, w in zip(got, want)):
            raise Violation("the trace of ray (%g, %g) through the %s is %s, should be %s" %
                            (y, theta, name, got, [tuple(map(float, p[:3])) + (p[3],) for p in want]))


def retrace(m, f):
    """A ray sent back along its output path retraces its input path."""
    for y, theta in RAYS:
        there = m.trace(ray(y, theta))
        out = there[-1]
        if out.isBlocked:
            continue
        back = f.trace(ray(out.y, -out.theta))
        if back[-1].isBlocked:
            continue
        scale = 1 + abs(out.y) + abs(out.theta)*100
        must("height of a ray sent back", back[-1].y, y, scale)
        must("angle of a ray sent back", back[-1].theta, -theta, scale)
        must("position of a ray sent back", back[-1].z, m.L, scale)


def focal(m, f):
    """Front and back distances swap."""
    must("front focal length of the turned system", f.frontFocalLength(), m.backFocalLength(), 100)
    must("back focal length of the turned system", f.backFocalLength(), m.frontFocalLength(), 100)
    a, b = m.effectiveFocalLengths(), f.effectiveFocalLengths()
    must("front effective focal length of the turned system", b.f1, a.f2, 100)
    must("back effective focal length of the turned system", b.f2, a.f1, 100)


def case(shard, spec):
    try:
        flat = ref.flatten(spec)
    except Refused:
        return
    m, f = ref.real(spec), ref.real(spec)
    start, was = observe.signature(m), (surfaces(m), attributes(m))
    back = [ref.flip(e) for e in reversed(flat)]
    t = ref.total(flat)
    ok = t.C == 0 or abs(t.C) > F(1, 10000)
    for times in range(1, 5 if shard.thorough else 4):
        returned = f.flipOrientation()
        if returned is not f:
            raise Violation("flipOrientation() returns %r" % (returned,))
        now = back if times % 2 else flat
        what = "system turned %d times" % times
        total(what, f, now)
        tracesAgree(what, f, now)
        for part, e in zip(f.transferMatrices(), now):
            must("diameter in the " + what, part.apertureDiameter, INF if e.diam is None else e.diam)
            total("element in the " + what, part, [e])
        if len(f.transferMatrices()) != len(now):
            raise Violation("the %s has %d elements, should have %d" % (what, len(f.transferMatrices()), len(now)))
        must("largest diameter of the " + what, f.largestDiameter, m.largestDiameter)
        if times % 2:
            if ok and not any(e.kind == "Mirror" for e in flat):
                focal(m, f)
            if not any(e.kind in ("Axicon", "Mirror") for e in flat):
                retrace(m, f)
                retrace(f, m)
            if f.isFlipped is not True:
                raise Violation("isFlipped is %r after %d turns" % (f.isFlipped, times))
        else:
            bad = observe.difference(observe.signature(f), start)
            if bad:
                raise Violation("the %s is not the original: %s" % (what, bad))
            if surfaces(f) != was[0]:
                raise Violation("the surfaces of the %s are %s, were %s" % (what, surfaces(f), was[0]))
            if not observe.same(tuple(sorted(attributes(f).items())), tuple(sorted(was[1].items()))):
                raise Violation("the attributes of the %s are %s, were %s" % (what, attributes(f), was[1]))
        shard.add("transitions")
    shard.distinct(tuple((e.abcd(), e.L, e.n1, e.n2, e.diam) for e in flat))
    shard.add("traces")


def specOf(e):
    """The description of an unflipped element of a catalog lens, from its parameters."""
    import raytracing as rt
    d = None if e.apertureDiameter == INF else e.apertureDiameter
    if isinstance(e, rt.DielectricInterface):
        return ("DI", e.n1, e.n2, None if abs(e.R) == INF else e.R, d)
    if isinstance(e, rt.Space):
        return ("Space", e.L, e.frontIndex, d)
    raise ValueError(type(e))


def catalog():
    import raytracing as rt
    from raytracing import thorlabs, eo, olympus, nikon
    from raytracing.specialtylenses import AchromatDoubletLens, SingletLens, CompoundLens, Objective
    lenses, objectives = [], []
    for module in (thorlabs, eo, olympus, nikon):
        for name, cls in sorted(vars(module).items()):
            if inspect.isclass(cls) and cls.__module__ == module.__name__:
                (objectives if issubclass(cls, Objective) else lenses).append(cls)
    return lenses, objectives


def catalogCase(shard, cls):
    m, f = cls(), cls()
    specs = [specOf(e) for e in m.elements]
    flat = ref.flatten(("Group", specs))
    back = [ref.flip(e) for e in reversed(flat)]
    start, was = observe.signature(m), (surfaces(m), attributes(m))
    for times in range(1, 4):
        f.flipOrientation()
        now = back if times % 2 else flat
        total("lens turned %d times" % times, f, now)
        tracesAgree("lens turned %d times" % times, f, now)
        if times % 2:
            focal(m, f)
            retrace(m, f); retrace(f, m)
        else:
            bad = observe.difference(observe.signature(f), start)
            if bad:
                raise Violation("the lens turned twice is not the original: " + bad)
            if surfaces(f) != was[0]:
                raise Violation("the surfaces of the lens turned twice are %s, were %s" % (surfaces(f), was[0]))
            if not observe.same(tuple(sorted(attributes(f).items())), tuple(sorted(was[1].items()))):
                raise Violation("the attributes of the lens turned twice are %s, were %s" % (attributes(f), was[1]))
        shard.add("transitions")
    shard.distinct(cls.__name__)
    shard.add("traces")


def objectiveCase(shard, cls, around):
    import raytracing as rt
    def make():
        o = cls()
        return o if not around else rt.MatrixGroup([rt.Space(d=11), o, rt.Space(d=4), rt.Lens(f=77)])
    m, f = make(), make()
    start, was = observe.signature(m), attributes(m)
    for times in range(1, 4):
        f.flipOrientation()
        if times % 2:
            must("L of the turned objective", f.L, m.L)
            must("front vertex of the turned objective", f.frontVertex, m.L - m.backVertex, 10)
            must("back vertex of the turned objective", f.backVertex, m.L - m.frontVertex, 10)
            must("A of the turned objective", f.A, m.D, 10); must("D of the turned objective", f.D, m.A, 10)
            must("B of the turned objective", f.B, m.B, 10); must("C of the turned objective", f.C, m.C)
            focal(m, f)
            retrace(m, f); retrace(f, m)
            da = [e.apertureDiameter for e in m.transferMatrices()]
            db = [e.apertureDiameter for e in f.transferMatrices()]
            if da != db[::-1]:
                raise Violation("the apertures of the turned objective are %s, should be %s" % (db, da[::-1]))
        else:
            bad = observe.difference(observe.signature(f), start)
            if bad:
                raise Violation("the objective turned twice is not the original: " + bad)
            if not observe.same(tuple(sorted(attributes(f).items())), tuple(sorted(was.items()))):
                raise Violation("the attributes of the objective turned twice are %s, were %s" % (attributes(f), was))
        shard.add("transitions")
    shard.distinct((cls.__name__, around))
    shard.add("traces")


def worker(shard):
    for spec in shard.mine(elements()):
        if shard.full(): return
        shard.run(spec, case, shard, spec)
        shard.run(["Group", spec], case, shard, ("Group", [spec]))
        shard.sample(spec)
    for word in shard.mine(systems.words(ALPHABET, 3, 1)):
        if shard.full(): return
        if systems.media(word):
            shard.run(list(word), case, shard, ("Group", list(word)))
            if len(word) == 2:
                for spec in list(systems.nestings(word))[1:]:
                    shard.run(spec, case, shard, spec)
    if shard.thorough:
        for word in shard.mine(systems.words(ALPHABET[:12], 4, 4)):
            if shard.full(): return
            if systems.media(word):
                shard.run(list(word), case, shard, ("Group", list(word)))
                spec = ("Group", [("Group", list(word[:2])), ("Group", list(word[2:]))])
                shard.run(spec, case, shard, spec)
    for word in shard.mine(systems.long(4)):
        n = len(word)
        for spec in (("Group", list(word)), ("Group", [("Group", list(word[:n//2])), ("Group", list(word[n//2:]))])):
            if shard.full(): return
            shard.run(spec, case, shard, spec)
    lenses, objectives = catalog()
    for cls in shard.mine(lenses):
        if shard.full(): return
        shard.run(cls.__name__, catalogCase, shard, cls)
    for cls in shard.mine(objectives):
        for around in (False, True):
            shard.run([cls.__name__, around], objectiveCase, shard, cls, around)


def run(check):
    check.sharded(worker)
    check.coverage = dict(long_systems="every length up to 24, 32 and 48 elements of 6 repeated cells", states=len(check.hashes), transitions=check.counters.get("transitions", 0),
                          traces_validated_against_impl=check.counters.get("traces", 0), exhaustive=True,
                          bound="every element of a parameter grid, every sequence of up to %d elements, every catalog lens and objective, turned 1 to %d times"
                                % (4 if check.thorough else 3, 4 if check.thorough else 3), samples=check.samples)
    check.assumptions = ["the reversed forms of interfaces, mirrors and thick lenses are built from their surfaces, in exact arithmetic",
                         "a generic Matrix has no known surfaces and is not turned around"]
