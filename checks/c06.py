"""C06: conjugate planes are where all rays from one point meet again."""
from mc import ref, systems, observe
from mc.core import Violation
from mc.ref import close, Refused, F

LEVEL = "model_checking"
INF = float("inf")

ALPHABET = [
    ("Lens", 50), ("Space", 10), ("Space", 100), ("DI", 1, 1.5, 20), ("DI", 1.5, 1, -30), ("Lens", -20), ("Thick", 1.5, 20, -40, 5),
    ("Mirror", -100), ("Space", 50), ("DI", 1, 1.25, None), ("DI", 1.25, 1.5, -12), ("Slab", 1.5, 6), ("Space", 32), ("Lens", 32),
    ("Flip", ("Thick", 1.5, None, -30, 4)), ("Space", 64), ("DI", 1.5, 1.25, 44), ("Matrix", 2, 7, 0.25, 1.375, 7, 1, 1, 1, 6),
    ("Group", [("Space", 16), ("Lens", 16), ("Space", 16)]), ("Aperture", 8.0371), ("Group", [("DI", 1, 1.5, 25), ("Space", 3), ("DI", 1.5, 1, None)]),
]


def ray(y, theta, z=0):
    import raytracing as rt
    return rt.Ray(y=y, theta=theta, z=z)


def must(name, got, want, scale=1.0):
    if not close(got, want, scale, 1e-8):
        raise Violation("%s is %r, should be %r" % (name, got, None if want is None else float(want)))


def infinite(d):
    return d in (INF, -INF) or abs(d) > 1e13


def case(shard, spec, flat, bare=False, cls=None):
    m = ref.real(spec)
    if cls is not None:
        m = cls(m.elements)
    t = ref.total(flat)
    A, B, C, D = t.abcd()
    ratio = t.n1/t.n2
    shard.distinct((t.abcd(), t.L, t.n1, t.n2))
    shard.add("traces")
    scale = max([1.0] + [abs(float(x)) for x in (A, B, C, D)] + [float(e.L) for e in flat])
    # forward
    d, conj = m.forwardConjugate()
    if D == 0:
        if not infinite(d):
            raise Violation("the forward conjugate is at infinity, not at %r" % (d,))
    else:
        want = -B/D
        s = scale/min(1.0, abs(float(D)))**2
        must("forward conjugate", d, want, s)
        must("transverse magnification forward", conj.A, A + want*C, s)
        must("angular magnification forward", conj.D, D, scale)
        must("B to the forward conjugate", conj.B, 0, s)
        must("C to the forward conjugate", conj.C, C, scale)
        must("L to the forward conjugate", conj.L, t.L + want, s)
        must("product of the forward magnifications", conj.A*conj.D, ratio, s)
        must("front index to the forward conjugate", conj.frontIndex, t.n1)
        must("back index to the forward conjugate", conj.backIndex, t.n2)
        if abs(want) < 1000 and scale < 1000:
            mag = conj.magnification()
            must("magnification().transverse forward", mag.transverse, A + want*C, s)
            must("magnification().angular forward", mag.angular, D, s)
        for y in (0, 0.25):
            for theta in (0, 0.01, -0.02):
                out = m.traceThrough(ray(y, theta))
                if not out.isBlocked:
                    must("height at the forward conjugate", out.y + d*out.theta, y*(A + want*C), s)
        shard.add("transitions")
    # backward
    d, conj = m.backwardConjugate()
    if A == 0:
        if not infinite(d):
            raise Violation("the backward conjugate is at infinity, not at %r" % (d,))
    else:
        want = -B/A
        s = scale/min(1.0, abs(float(A)))**2
        must("backward conjugate", d, want, s)
        must("transverse magnification backward", conj.A, A, scale)
        must("angular magnification backward", conj.D, C*want + D, s)
        must("B from the backward conjugate", conj.B, 0, s)
        must("C from the backward conjugate", conj.C, C, scale)
        must("L from the backward conjugate", conj.L, t.L + want, s)
        must("front index from the backward conjugate", conj.frontIndex, t.n1)
        must("back index from the backward conjugate", conj.backIndex, t.n2)
        mag = conj.magnification()
        must("magnification().transverse backward", mag.transverse, A, s)
        must("magnification().angular backward", mag.angular, C*want + D, s)
        for y in (0, 0.25):
            for theta in (0, 0.01, -0.02):
                out = m.traceThrough(ray(y + d*theta, theta))
                if not out.isBlocked:
                    must("height of a ray from the backward conjugate", out.y, y*A, s)
        shard.add("transitions")
    # imaging from front to back
    mag = m.magnification()
    if B == 0:
        if not m.isImaging:
            raise Violation("the system is imaging, and isImaging is false")
        must("transverse magnification", mag.transverse, A, scale)
        must("angular magnification", mag.angular, D, scale)
    elif abs(B) > F(1, 1000):
        if m.isImaging:
            raise Violation("the system is not imaging, and isImaging is true")
        if tuple(mag) != (None, None):
            raise Violation("magnification %r of a system that is not imaging" % (mag,))
    toConjugate(m, t, scale)
    if hasattr(m, "elements"):
        intermediates(shard, m, flat)


def toConjugate(m, t, scale):
    import raytracing as rt
    if t.D == 0:
        if infinite(m.forwardConjugate().d) and m.forwardConjugate().d not in (INF, -INF):
            return
        try:
            rt.ToConjugate(m)
        except ValueError:
            return
        raise Violation("ToConjugate to infinity was not refused")
    gap = rt.ToConjugate(m)
    want = -t.B/t.D
    s = scale/min(1.0, abs(float(t.D)))**2
    must("length of ToConjugate", gap.L, want, s)
    must("B of ToConjugate", gap.B, want, s)
    must("index of ToConjugate", gap.frontIndex, t.n2)
    must("back index of ToConjugate", gap.backIndex, t.n2)


def planesOf(flat):
    """The plane formed after each element: (position, magnification), in exact arithmetic."""
    planes = []
    for i in range(1, len(flat) + 1):
        p = ref.total(flat[:i])
        if p.D != 0:
            d = -p.B/p.D
            planes.append((p.L + d, p.A + d*p.C))
    return planes


def intermediates(shard, m, flat):
    got = m.intermediateConjugates()
    want = planesOf(flat)
    def near(p, q, tol=1e-6):
        s = max(1.0, abs(float(q[0])), abs(float(q[1])))
        return abs(float(p[0]) - float(q[0])) <= tol*s and abs(float(p[1]) - float(q[1])) <= tol*s
    for i, p in enumerate(got):
        if abs(p[0]) > 1e13:
            continue    # at infinity, up to rounding
        if not any(near(p, q) for q in want):
            raise Violation("the intermediate conjugate at %r with magnification %r does not exist" % tuple(p))
    distinct = []
    for q in want:
        if q not in distinct:
            distinct.append(q)
    for q in distinct:
        if abs(q[0]) < F(1, 10**6) or abs(q[0]) > 10**12:
            continue        # the object itself, or infinity up to rounding
        if any(r != q and near(r, q, 1e-4) for r in distinct):
            continue        # two planes too close to be told apart
        n = sum(near(p, q) for p in got)
        if n != 1:
            raise Violation("the intermediate conjugate at %g with magnification %g is listed %d times" % (q[0], q[1], n))
        shard.add("planes")


def remainder(spec, e, d, n):
    return ("Space", float(d), float(n))


def subPaths(shard, word):
    import raytracing as rt
    kids = ref.children(word)
    path = rt.ImagingPath([ref.real(s) for s in word])
    before = observe.canon(path)
    z = F(0)
    for i, k in enumerate(kids):
        e = ref.total(k)
        if ref.isSpace(word[i]):
            n = k[0].n1
            for frac in (F(1, 4), F(1, 2), F(7, 8)):
                start = float(z + e.L*frac)
                forward = [ref.single(("Space", e.L*(1 - frac), n))] + [x for kk in kids[i+1:] for x in kk]
                one(shard, path.subPath(start), forward, "forwards from %g" % start)
                backward = [ref.single(("Space", e.L*frac, n))] + [ref.flip(x) for kk in reversed(kids[:i]) for x in reversed(kk)]
                one(shard, path.subPath(start, backwards=True), backward, "backwards from %g" % start)
        z += e.L
    if observe.canon(path) != before:
        raise Violation("subPath changed the path")
    shard.add("traces")


def one(shard, sub, flat, what):
    t = ref.total(flat)
    scale = max(abs(float(x)) for x in t.abcd() + (t.L, F(1)))
    for name, got, want in zip("ABCDL", (sub.A, sub.B, sub.C, sub.D, sub.L), t.abcd() + (t.L,)):
        must("%s of the path %s" % (name, what), got, want, scale)
    must("front index of the path " + what, sub.frontIndex, t.n1)
    must("back index of the path " + what, sub.backIndex, t.n2)
    for y in (0.5, -3, 7):
        for theta in (0, 0.03125):
            if ref.fragile(flat, y, theta):
                continue
            want = ref.trace(flat, y, theta)
            got = sub.trace(ray(y, theta))
            a = [(p[0], p[1], p[2], p[3]) for p in want]
            b = [(r.y, r.theta, r.z, bool(r.isBlocked)) for r in got]
            a, b = squeeze(a), squeeze(b)
            if len(a) != len(b) or not all(close(p[0], q[0]) and close(p[1], q[1]) and close(p[2], q[2]) and p[3] == q[3] for p, q in zip(b, a)):
                raise Violation("a ray goes through %s, should go through %s in the path %s" % (b, [tuple(map(float, p)) for p in a], what))
    shard.add("transitions")


def squeeze(points):
    out = []
    for p in points:
        if not out or not (close(p[0], out[-1][0]) and close(p[1], out[-1][1]) and close(p[2], out[-1][2]) and p[3] == out[-1][3]):
            out.append(p)
    return out


def worker(shard):
    import raytracing as rt
    depth = 4 if shard.thorough else 3
    for word in shard.mine(systems.words(ALPHABET, depth, 1)):
        if shard.full(): return
        try:
            flat = ref.flatten(("Group", list(word)))
        except Refused:
            continue
        spec = ("Group", list(word))
        shard.run(list(word), case, shard, spec, flat)
        if len(word) == 1:
            shard.run(["bare", word[0]], case, shard, word[0], flat, True)
        if len(word) <= 2:
            shard.run(["ImagingPath"] + list(word), case, shard, spec, flat, False, rt.ImagingPath)
            shard.run(["nested"] + list(word), case, shard, ("Group", [spec]), flat)
        if any(ref.isSpace(s) for s in word) and not any(s[0] == "Matrix" for s in word):
            clear = [s if s[0] not in ("Lens", "Thick") else s[:len(s)] + (12.0713,) for s in word]
            shard.run(["subPath"] + clear, subPaths, shard, clear)
        shard.sample(word)
    for word in shard.mine(systems.long(5)):
        if shard.full(): return
        shard.run(list(word), case, shard, ("Group", list(word)), ref.flatten(("Group", list(word))))
        if len(word) < 12:
            shard.run(["subPath"] + list(word), subPaths, shard, list(word))
    if not shard.thorough:
        for word in shard.mine(systems.words(ALPHABET[:9], 4, 4)):
            if systems.media(word):
                flat = ref.flatten(("Group", list(word)))
                shard.run(list(word), case, shard, ("Group", list(word)), flat)


def run(check):
    check.sharded(worker)
    check.coverage = dict(long_systems="every length up to 24, 32 and 48 elements of 6 repeated cells", states=len(check.hashes), transitions=check.counters.get("transitions", 0),
                          traces_validated_against_impl=check.counters.get("traces", 0), planes=check.counters.get("planes", 0), exhaustive=True,
                          bound="every sequence of up to %d of %d elements%s; sub-paths from three planes of every gap, both ways" %
                                (4 if check.thorough else 3, len(ALPHABET), "" if check.thorough else " (4 of the first 9)"), samples=check.samples)
    check.assumptions = ["a plane further than 1e13 is at infinity (rounding of an exact zero)"]
