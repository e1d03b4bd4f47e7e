"""C05: focal lengths, principal planes and focal points say where rays really go."""
from mc import ref, systems
from mc.core import Violation
from mc.ref import close, Refused, F
from checks.c01 import elements

LEVEL = "model_checking"
INF = float("inf")

ALPHABET = [
    ("Lens", 50), ("Space", 10), ("DI", 1, 1.5, 20), ("DI", 1.5, 1, -30), ("Space", 35.5), ("Lens", -20, 12), ("Thick", 1.5, 20, -40, 5),
    ("Mirror", -100), ("DI", 1, 1.33, None), ("DI", 1.33, 1.5, -12), ("Slab", 1.5, 6), ("Flip", ("Thick", 1.6, None, -30, 4)), ("Lens", 25),
    ("Space", 75), ("Aperture", 8), ("DI", 1.5, 1.33, 44, 20), ("Matrix", 2, 7, 0.25, 1.375, 7, 1, 1, 1, 6), ("Mirror", 64),
    ("Group", [("DI", 1, 1.5, 25), ("Space", 3), ("DI", 1.5, 1, None)]), ("Matrix", 0.5, 4, -0.125, 1, 3, 1, 1, None, None),
]
STARTS = (0, 7.5, -20)


def must(name, got, want, scale=1):
    if not close(got, want, scale, 1e-8):
        raise Violation("%s is %r, should be %r" % (name, got, None if want is None else float(want)))


def sizes(flat, t):
    """How large the numbers are from which the positions are computed (rounding grows with them)."""
    return max([1.0] + [abs(float(x)) for x in (t.A, t.B, t.D, t.L)] + [abs(float(e.L)) for e in flat]) / max(1e-12, min(1.0, abs(float(t.C))))


def case(shard, spec, flat=None, cls=None):
    if flat is None:
        try:
            flat = ref.flatten(spec)
        except Refused:
            return
    t = ref.total(flat)
    if t.C != 0 and abs(t.C) < F(1, 50000):
        shard.add("almost_no_power")
        return
    m = ref.real(spec)
    if cls is not None:
        m = cls(m.elements)
    shard.add("traces")
    shard.distinct((t.abcd(), t.L, t.n1, t.n2, t.fv, t.bv))
    scale = sizes(flat, t)
    if t.C == 0:
        # exactly or up to rounding
        for what, f in (("effectiveFocalLengths", m.effectiveFocalLengths()), ("focalDistances", m.focalDistances())):
            if f.f1 != INF or f.f2 != INF:
                raise Violation("%s of a system without power is %r" % (what, f))
        for z in STARTS:
            shard.add("transitions")
            if tuple(m.focusPositions(z)) != (None, None):
                raise Violation("the focal points of a system without power are %r" % (m.focusPositions(z),))
        if m.backFocalLength() is not None or m.frontFocalLength() is not None:
            raise Violation("a system without power has a front or back focal length")
        if m.hasPower:
            raise Violation("a system without power has power")
        return
    if not m.hasPower:
        raise Violation("a system with power has none")
    n1, n2 = t.n1, t.n2
    for what, f in (("effectiveFocalLengths", m.effectiveFocalLengths()), ("focalDistances", m.focalDistances())):
        must(what + " back", f.f2, -1/t.C, 0)
        must(what + " front", f.f1, -n1/n2/t.C, 0)
        if tuple(f) != (f.f1, f.f2):
            raise Violation("%s is not (front, back)" % what)
    for z0 in STARTS:
        shard.add("transitions")
        z = F(z0)
        F1, F2 = m.focusPositions(z0)
        P1, P2 = m.principalPlanePositions(z0)
        # a ray parallel to the axis crosses it at the back focus
        must("back focal point, starting at %g" % z0, F2, z + t.L - t.A/t.C, scale)
        # a ray from the front focus leaves parallel
        must("front focal point, starting at %g" % z0, F1, z + t.D/t.C, scale)
        # between the principal planes: unit magnification
        must("front principal plane, starting at %g" % z0, P1, z - (n1/n2 - t.D)/t.C, scale)
        must("back principal plane, starting at %g" % z0, P2, z + t.L + (1 - t.A)/t.C, scale)
        out = m.traceThrough(ray(1, 0, z0))
        if not out.isBlocked:
            must("height at the back focal point of a ray entering parallel", out.y + out.theta*(F2 - out.z), 0, scale*abs(float(t.C)) + 1)
        y, theta = (z0 - F1)*0.001, 0.001
        out = m.traceThrough(ray(y, theta, z0))
        if not out.isBlocked:
            must("angle of a ray from the front focal point", out.theta, 0, 1e-3*(1 + scale*abs(float(t.C))))
    if t.fv is None:
        must("frontFocalLength", m.frontFocalLength(), None)
    else:
        must("frontFocalLength", m.frontFocalLength(), t.fv - t.D/t.C, scale)
    if t.bv is None:
        must("backFocalLength", m.backFocalLength(), None)
    else:
        must("backFocalLength", m.backFocalLength(), t.L - t.A/t.C - t.bv, scale)
    if t.fv == 0 and t.bv == t.L:
        toFocus(m, t, scale)


def ray(y, theta, z=0):
    import raytracing as rt
    return rt.Ray(y=y, theta=theta, z=z)


def toFocus(m, t, scale):
    import raytracing as rt
    gap = rt.ToFocus(m)
    must("length of ToFocus", gap.L, -t.A/t.C, scale)
    must("B of ToFocus", gap.B, -t.A/t.C, scale)
    must("index of ToFocus", gap.frontIndex, t.n2)
    must("index of ToFocus", gap.backIndex, t.n2)
    whole = m.fromFocusToFocus()
    must("A from focus to focus", whole.A, 0, scale)
    must("D from focus to focus", whole.D, 0, scale)
    must("C from focus to focus", whole.C, t.C, 0)
    must("L from focus to focus", whole.L, -t.D/t.C + t.L - t.A/t.C, scale)
    must("front index from focus to focus", whole.frontIndex, t.n1)
    must("back index from focus to focus", whole.backIndex, t.n2)
    out = whole.traceThrough(ray(0, 0.001))
    if not out.isBlocked:
        must("angle of a ray from the axis through the focus-to-focus path", out.theta, 0, scale)


def axicon(shard, alpha, n, diameter, before):
    """Rays parallel to the axis cross it on the focal line, from the axicon to its length."""
    import raytracing as rt
    a = rt.Axicon(alpha, n, diameter)
    deviation = (n - 1)*alpha
    must("deviation angle", a.deviationAngle(), deviation, 0)
    rim = diameter/2
    heights = [h for h in (rim, rim*0.75, 0.5, 0.001) if h <= rim and h != INF]
    for y in heights:
        for sign in (1, -1):
            shard.add("transitions")
            length = a.focalLineLength(sign*y)
            must("length of the focal line", length, y/deviation, 0)
            out = rt.MatrixGroup([rt.Space(before), a, rt.Space(length)]).traceThrough(ray(sign*y, 0))
            if out.isBlocked:
                raise Violation("a ray at %g is blocked by an axicon of diameter %g" % (y, diameter))
            must("height at the end of the focal line", out.y, 0, y)
            must("angle on the focal line", out.theta, -sign*deviation, 0)
    if rim != INF:
        must("length of the focal line of the whole axicon", a.focalLineLength(), rim/deviation, 0)
    on = rt.MatrixGroup([rt.Space(before), a]).traceThrough(ray(0, 0))
    must("angle of a ray on the axis", on.theta, 0)
    shard.add("traces")
    shard.distinct(("axicon", alpha, n, diameter))


def worker(shard):
    import raytracing as rt
    grid = [(a, n, d, b) for a in (0.0625, 0.01, 0.001) for n in (1.5, 1.25, 2.0) for d in (INF, 25.0, 1.0) for b in (0, 7.5)]
    for args in shard.mine(grid):
        shard.run(("axicon",) + args, axicon, shard, *args)
    for spec in shard.mine(elements()):
        if shard.full(): return
        shard.run(spec, case, shard, spec)
        shard.run(["Flip", spec], case, shard, ("Flip", spec))
        shard.run(["Group", spec], case, shard, ("Group", [spec]))
    depth = 4 if shard.thorough else 3
    for word in shard.mine(systems.words(ALPHABET, depth, 1)):
        if shard.full(): return
        try:
            flat = ref.flatten(("Group", list(word)))
        except Refused:
            continue
        shard.run(list(word), case, shard, ("Group", list(word)), flat)
        if len(word) <= 2 or len(word) == 3 and shard.thorough:
            shard.run(["in a group"] + list(word), case, shard, ("Group", [("Group", list(word))]), flat)
            shard.run(["ImagingPath"] + list(word), case, shard, ("Group", list(word)), flat, rt.ImagingPath)
            if not any(s[0] == "Matrix" for s in word):
                shard.run(["Flip"] + list(word), case, shard, ("Flip", ("Group", list(word))))
        shard.sample(word)
    for word in shard.mine(systems.long(5)):
        if shard.full(): return
        shard.run(list(word), case, shard, ("Group", list(word)))
    if not shard.thorough:
        for word in shard.mine(systems.words(ALPHABET[:10], 4, 4)):
            if systems.media(word):
                shard.run(list(word), case, shard, ("Group", list(word)))


def run(check):
    check.sharded(worker)
    check.coverage = dict(long_systems="every length up to 24, 32 and 48 elements of 6 repeated cells", states=len(check.hashes), transitions=check.counters.get("transitions", 0),
                          traces_validated_against_impl=check.counters.get("traces", 0),
                          skipped_almost_no_power=check.counters.get("almost_no_power", 0), exhaustive=True,
                          bound="every element of a parameter grid and every sequence of up to %d of %d elements, at %d positions along the axis" %
                                (4 if check.thorough else 3, len(ALPHABET), len(STARTS)), samples=check.samples)
    check.assumptions = ["C between 0 and 2e-5 (where the code's threshold lies) is not judged"]
