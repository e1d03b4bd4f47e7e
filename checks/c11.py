"""C11: Gaussian beams propagate by the ABCD law and report consistent sizes."""
import copy, math
from mc import ref, systems, observe
from mc.core import Violation
from mc.ref import close, Refused, F

LEVEL = "model_checking"
INF = float("inf")

ALPHABET = [
    ("Space", 10), ("Lens", 50, 3), ("DI", 1, 1.5, 20), ("DI", 1.5, 1, -30, 2), ("Thick", 1.5, 20, -40, 5), ("Space", 40, 1.5), ("Lens", -20),
    ("Mirror", -100, 6), ("DI", 1.5, 1.33, None), ("DI", 1.33, 1.5, -12), ("Aperture", 1), ("Slab", 1.5, 6), ("DI", 1, 1.33, None, 4),
    ("Matrix", 2, 7, 0.25, 1.375, 7, 1, 1, 1, 6), ("Flip", ("Thick", 1.6, None, -30, 4)), ("Space", 200), ("4f", 20, 30, None, None),
    ("Group", [("DI", 1, 1.5, 25), ("Space", 3), ("DI", 1.5, 1, None, 1.5)]), ("Matrix", 1, 4, 0, 0.75, 3, 1.5, 2, None, None), ("Space", 7, 2),
    ("Thick", 1.5, 30, -30, 3, 2.5),
]
QS = [(F(0), F(500)), (F(30), F(7)), (F(-120), F(40)), (F(2), F(1, 8)), (F(-1, 4), F(4000)), (F(50), F(3))]
WAVELENGTHS = [0.0006328, 0.0015]


def apply(m, q):
    """(A q + B)/(C q + D), exactly."""
    A, B, C, D = m
    a, b = A*q[0] + B, A*q[1]
    c, d = C*q[0] + D, C*q[1]
    s = c*c + d*d
    return ((a*c + b*d)/s, (b*c - a*d)/s)


def spot(q, n, lam):
    return math.sqrt(lam*float((q[0]*q[0] + q[1]*q[1])/q[1])/(float(n)*math.pi))


def waist(q, n, lam):
    return math.sqrt(lam*float(q[1])/(float(n)*math.pi))


def radius(q):
    return INF if q[0] == 0 else float((q[0]*q[0] + q[1]*q[1])/q[0])


def must(name, got, want, scale=None, rel=1e-8):
    if want is None or got is None or isinstance(want, bool):
        if got is not want:
            raise Violation("%s is %r, should be %r" % (name, got, want))
        return
    if not close(got, want, abs(float(want)) if scale is None else scale, rel):
        raise Violation("%s is %r, should be %r" % (name, got, float(want)))


def sizes(name, beam, q, n, lam, z=None):
    """Everything a beam reports."""
    size = abs(complex(float(q[0]), float(q[1])))
    must("real part of q " + name, beam.q.real, q[0], size)
    must("imaginary part of q " + name, beam.q.imag, q[1], None, 1e-7)
    must("index of the beam " + name, beam.n, n)
    must("wavelength of the beam " + name, beam.wavelength, lam)
    if z is not None:
        must("position of the beam " + name, beam.z, z, 1)
    if not beam.isFinite:
        raise Violation("the beam %s is not finite" % name)
    must("spot size " + name, beam.w, spot(q, n, lam), None, 1e-7)
    for which in ("wo", "waist"):
        must(which + " " + name, getattr(beam, which), waist(q, n, lam), None, 1e-7)
    for which in ("zo", "rayleighRange", "confocalParameter"):
        must(which + " " + name, getattr(beam, which), q[1], None, 1e-7)
    must("waist position " + name, beam.waistPosition, -q[0], size)
    if abs(q[0]) > F(1, 10**6)*abs(q[1]):
        must("wavefront radius " + name, beam.R, radius(q), None, 1e-7*max(1.0, float(abs(q[1])/abs(q[0]))))
    elif abs(beam.R) < 1e5*size:
        raise Violation("wavefront radius %s is %r, should be %r" % (name, beam.R, radius(q)))
    if not str(beam):
        raise Violation("nothing is printed for the beam " + name)


def atWaist(name, beam, q, n, lam):
    """Propagating to the reported waist position gives the reported waist, with a flat wavefront."""
    import raytracing as rt
    d = beam.waistPosition
    there = rt.Matrix(A=1, B=d, C=0, D=1, frontIndex=beam.n, backIndex=beam.n)*beam
    must("spot size at the waist of the beam " + name, there.w, beam.waist, None, 1e-6)
    must("spot size at the waist of the beam " + name, there.w, waist(q, n, lam), None, 1e-6)
    if abs(there.R) < 1e5*abs(beam.zo):
        raise Violation("wavefront radius at the waist of the beam %s is %r" % (name, there.R))
    if d > 0:
        again = rt.Space(d=d, n=beam.n)*beam
        must("spot size at the waist of the beam " + name, again.w, beam.waist, None, 1e-6)
    # one Rayleigh range away, the spot is sqrt(2) times larger and the radius twice the range
    far = rt.Matrix(A=1, B=d + beam.rayleighRange, C=0, D=1, frontIndex=beam.n, backIndex=beam.n)*beam
    must("spot size one Rayleigh range from the waist of the beam " + name, far.w, beam.waist*math.sqrt(2), None, 1e-6)
    must("wavefront radius one Rayleigh range from the waist of the beam " + name, far.R, 2*beam.rayleighRange, None, 1e-6)


def makeBeam(q, n, lam, z=0):
    import raytracing as rt
    return rt.GaussianBeam(q=complex(float(q[0]), float(q[1])), n=n, wavelength=lam, z=z)


def expected(flat, q, n, lam, z, clipped):
    """(q, n, z, {clipped or not}) at the input and after every element."""
    out = [(q, n, z, {clipped})]
    flags = {clipped}
    for e in flat:
        before = q
        q, n, z = apply(e.abcd(), q), e.n2, z + e.L
        if e.diam is not None:
            r = float(e.diam)/2
            beyond = [spot(q, n, lam) > r]
            if e.L > 0:
                beyond.append(spot(before, e.n1, lam) > r)
            near = min(abs(spot(q, n, lam) - r), abs(spot(before, e.n1, lam) - r)) < 1e-9*r
            if all(beyond) and not near:
                flags = {True}
            elif any(beyond) or near:
                flags = flags | {True}
        out.append((q, n, z, set(flags)))
    return out


def case(shard, spec, flat, q, lam, z, clipped, path=False):
    import raytracing as rt
    m = ref.real(spec) if not path else rt.LaserPath([ref.real(s) for s in spec[1]])
    n = float(flat[0].n1)
    beam = makeBeam(q, n, lam, z)
    beam.isClipped = clipped
    before = observe.canon(beam)
    points = expected(flat, q, F(n), lam, F(z), clipped)
    shard.add("traces")
    for p in points:
        shard.distinct((p[0], p[1], lam))
    shard.add("transitions", len(points) - 1)
    end = points[-1]
    sizes("sent in", beam, q, n, lam, z)
    out = m*beam
    sizes("multiplied by the system", out, end[0], end[1], lam, end[2])
    if isinstance(m, rt.MatrixGroup) is False and out.isClipped not in end[3]:
        raise Violation("the beam is %sflagged as clipped" % ("" if out.isClipped else "not "))
    trace = m.trace(beam)
    # the trace, without what is repeated
    got = []
    for b in trace:
        here = (b.q, b.n, b.z, bool(b.isClipped))
        if not got or got[-1][0] != here:
            got.append((here, b))
    want = []
    for p in points if isinstance(m, rt.MatrixGroup) else points[1:]:
        if not want or not (abs(float(want[-1][0][0] - p[0][0])) < 1e-13*abs(float(p[0][1])) and want[-1][0][1] == p[0][1] and want[-1][1:] == p[1:]):
            want.append(p)
    flag = clipped
    for k, (here, b) in enumerate(got):
        if flag and not here[3]:
            raise Violation("the beam is not clipped any more after step %d" % k)
        flag = here[3]
    # each thing of the trace is one of the points, in order, and each point is in the trace
    i = 0
    for k, (here, b) in enumerate(got):
        while i < len(want) and not isAt(b, want[i], lam):
            i += 1
        if i == len(want):
            raise Violation("step %d of the trace, %s at z=%r in n=%r%s, is none of the places where the beam goes" %
                            (k, b.q, b.z, b.n, " (clipped)" if b.isClipped else ""))
    for p in want:
        if not any(isAt(b, p, lam) for here, b in got):
            raise Violation("the trace has nothing at z=%r, where q is %s%s" % (float(p[2]), (float(p[0][0]), float(p[0][1])),
                            " (clipped)" if p[3] == {True} else ""))
    last = trace[-1]
    sizes("traced through", last, end[0], end[1], lam, end[2])
    if last.isClipped not in end[3]:
        raise Violation("the beam traced through is %sflagged as clipped" % ("" if last.isClipped else "not "))
    atWaist("at the output", last, end[0], end[1], lam)
    through = m.traceThrough(beam)
    if observe.canon(through) != observe.canon(last):
        raise Violation("traceThrough() gives another beam than trace()")
    if observe.canon(beam) != before:
        raise Violation("the beam sent in was changed")
    # the same beam, built from its size and wavefront radius, and from all of them together
    b2 = rt.GaussianBeam(w=last.w, R=last.R, n=last.n, wavelength=lam, z=last.z)
    if abs(float(end[0][0])) < 1e5*float(end[0][1]):
        sizes("built from size and radius", b2, end[0], end[1], lam, end[2])
    rt.GaussianBeam(q=last.q, w=last.w, R=last.R, n=last.n, wavelength=lam)
    # in the wrong medium
    for wrong in (1.0, 1.33, 1.5, n + 0.0625):
        if wrong != n:
            for what in (lambda b: m*b, m.trace, m.traceThrough):
                b = makeBeam(q, wrong, lam, z)
                if not flat or isinstance(m, rt.Space) and False:
                    continue
                try:
                    what(b)
                except Exception:
                    continue
                raise Violation("a beam in n=%g is accepted by a system that starts in n=%g" % (wrong, n))


def isAt(b, p, lam):
    size = abs(complex(float(p[0][0]), float(p[0][1])))
    return (close(b.q.real, p[0][0], size) and close(b.q.imag, p[0][1], None or float(p[0][1]), 1e-7) and close(b.n, p[1]) and close(b.z, p[2])
            and bool(b.isClipped) in p[3] and b.wavelength == lam)


def construct(shard, w, R, n, lam):
    """A beam from its size and wavefront radius, and the same from its complex radius."""
    import raytracing as rt
    inv = complex(0 if math.isinf(R) else 1/R, -lam/n/(math.pi*w*w))
    q = 1/inv
    beam = rt.GaussianBeam(w=w, R=R, n=n, wavelength=lam)
    shard.add("traces")
    shard.distinct((w, R, n, lam))
    exact = (F(q.real) if not math.isinf(R) else F(0), F(q.imag))
    sizes("built from size and radius", beam, exact, n, lam, 0)
    must("spot size", beam.w, w)
    if math.isinf(R):
        must("wavefront radius", beam.R, INF)
    elif abs(q.real) > 1e-6*q.imag:
        must("wavefront radius", beam.R, R, None, 1e-6)
    atWaist("built from size and radius", beam, exact, n, lam)
    same = rt.GaussianBeam(q=q, n=n, wavelength=lam)
    sizes("built from q", same, exact, n, lam, 0)
    both = rt.GaussianBeam(q=q, w=w, R=R, n=n, wavelength=lam, z=3)
    sizes("built from all", both, exact, n, lam, 3)
    shard.add("transitions", 3)
    for name, wrong in (("q is 2% off", dict(q=q*1.02)), ("q is 2% off", dict(q=q*0.98)), ("q is that of the opposite", dict(q=-q)), ("q is another", dict(q=q + 1j*abs(q))),
                        ("w is 2% off", dict(w=w*1.02)), ("n is twice", dict(n=2*n)), ("the wavelength is half", dict(wavelength=lam/2)),
                        ("q is turned", dict(q=q*complex(0.99, 0.1411)))):
        args = dict(q=q, w=w, R=R, n=n, wavelength=lam)
        args.update(wrong)
        inv2 = complex(0 if math.isinf(R) else 1/R, -args["wavelength"]/args["n"]/(math.pi*args["w"]**2))
        if abs(1/inv2 - args["q"]) < 0.0125*max(abs(args["q"]), abs(1/inv2)):
            try:            # it does not matter much for this beam: it may be accepted, with what was asked for
                b = rt.GaussianBeam(**args)
            except ValueError:
                pass
            continue
        try:
            rt.GaussianBeam(**args)
        except ValueError:
            continue
        raise Violation("a beam is accepted although %s" % name)
    for args in (dict(), dict(n=n), dict(R=10), dict(wavelength=lam), dict(R=R, n=n, wavelength=lam, z=1)):
        try:
            rt.GaussianBeam(**args)
        except ValueError:
            continue
        raise Violation("a beam with neither size nor complex radius is accepted: %r" % args)


def grid(thorough):
    ws = [0.01, 0.1, 1, 5] + ([0.003, 0.4, 25] if thorough else [])
    rs = [INF, 10, -10, 1000, -0.5, 3] + ([-250.0, 1e5, 0.125, -77] if thorough else [])
    for w in ws:
        for R in rs:
            for n in (1, 1.5, 1.33):
                for lam in WAVELENGTHS + [0.001064]:
                    yield w, R, n, lam


def worker(shard):
    depth = 4 if shard.thorough else 3
    for args in shard.mine(grid(shard.thorough)):
        if shard.full(): return
        shard.run(["GaussianBeam"] + list(args), construct, shard, *args)
    for word in shard.mine(systems.words(ALPHABET, depth, 1)):
        if shard.full(): return
        try:
            flat = ref.flatten(("Group", list(word)))
        except Refused:
            continue
        if shard.thorough and len(word) < 4:
            plan = [(q, lam, z, c) for q in QS for lam in WAVELENGTHS for z, c in ((0, False), (12, True))]
        else:
            plan = [(q, WAVELENGTHS[i % 2], 0 if i % 2 else 12, i == 3) for i, q in enumerate(QS)]
        for q, lam, z, c in plan:
            args = (flat, q, lam, z, c)
            spec = ("Group", list(word))
            shard.run(["Group", word, str(q), lam, z, c], case, shard, spec, *args)
            if len(word) == 1:
                shard.run(["single", word, str(q), lam, z, c], case, shard, word[0], ref.flatten(word[0]), q, lam, z, c)
            if len(word) < 3:
                shard.run(["LaserPath", word, str(q), lam, z, c], case, shard, spec, *args, True)
                shard.run(["nested", word, str(q), lam, z, c], case, shard, ("Group", [spec]), *args)
        shard.sample(word)
    for word in shard.mine(systems.long(5)):
        if shard.full(): return
        for i, q in enumerate(QS):
            args = (ref.flatten(("Group", list(word))), q, WAVELENGTHS[i % 2], 0 if i % 2 else 12, i == 3)
            shard.run(["LaserPath", word, str(q)], case, shard, ("Group", list(word)), *args, True)


def run(check):
    check.sharded(worker)
    check.coverage = dict(long_systems="every length up to 24, 32 and 48 elements of 6 repeated cells", states=len(check.hashes), transitions=check.counters.get("transitions", 0),
                          traces_validated_against_impl=check.counters.get("traces", 0), exhaustive=True,
                          bound="every sequence of up to %d of %d elements, bare, grouped, nested and in a LaserPath, for %d complex radii and %d wavelengths; "
                                "every beam of a grid of sizes, radii, indices and wavelengths" %
                                (4 if check.thorough else 3, len(ALPHABET), len(QS), len(WAVELENGTHS)), samples=check.samples)
    check.assumptions = ["inside a thick element of finite diameter only 'exceeds it at both ends' and 'at neither' are decided",
                         "the product of a whole group and a beam, not a trace, has no apertures to clip with"]
