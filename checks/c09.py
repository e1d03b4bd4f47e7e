"""C09: the field stop, the field of view, the chief ray and the image size agree with tracing."""
import math
from mc import ref, systems
from mc.core import Violation
from mc.ref import close, Refused, F

LEVEL = "model_checking"
INF = float("inf")

ALPHABET = [
    ("Space", 10), ("Lens", 20, 8), ("Aperture", 5), ("Space", 20), ("Lens", 30, 11), ("DI", 1, 1.5, 15, 7), ("DI", 1.5, 1, -15, 9), ("Lens", -40, 12),
    ("Aperture", 13), ("2f", 20, 10.5), ("Thick", 1.5, 20, -40, 5, 9), ("Space", 12, 1, 6), ("Lens", 40), ("DI", 1.5, 1, None), ("Mirror", 60, 10),
    ("4f", 20, 10, 9.5, 7.5), ("Slab", 1.5, 6, 8.5), ("Group", [("Space", 15), ("Lens", 15, 14), ("Aperture", 3)]), ("Lens", 20, 25.4),
]


def must(name, got, want, scale=1.0, rel=1e-7):
    if not close(got, want, scale, rel):
        raise Violation("%s is %r, should be %r" % (name, got, None if want is None else float(want)))


def ray(y, theta):
    import raytracing as rt
    return rt.Ray(y=y, theta=theta)


def case(shard, spec, flat):
    import raytracing as rt
    path = rt.ImagingPath([ref.real(s) for s in spec])
    path.objectHeight = 3
    t = ref.total(flat)
    shard.add("traces")
    stopZ, stopD = path.apertureStop()      # C08 judges it
    m = None if stopZ is None else ref.upTo(flat, F(stopZ))[0]
    if stopZ is not None:
        # the position may be rounded: take the depth of an element that is really there
        zs, z = [F(0)], F(0)
        for e in flat:
            z += e.L
            zs.append(z)
        m = ref.upTo(flat, min(zs, key=lambda x: abs(x - F(stopZ))))[0]
    conj = conjugate(t)
    if m is None or abs(m[1]) < F(1, 10**9):
        # no chief ray: no stop, or a stop that is conjugate to the object
        if path.chiefRay(y=2) is not None:
            raise Violation("chiefRay is %s, and there is no chief ray" % path.chiefRay(y=2))
        nothing(path, conj)
        shard.add("without_chief_ray")
        shard.distinct(("none", t.abcd()))
        return
    slope = -m[0]/m[1]
    for y in (2, -1.25, 0):
        r = path.chiefRay(y=y)
        must("height of the chief ray from %g" % y, r.y, y)
        must("angle of the chief ray from %g" % y, r.theta, slope*F(y), 10)
        out = path.transferMatrix(upTo=stopZ)*ray(y, r.theta)
        if not out.isBlocked:
            must("height at the stop of the chief ray from %g" % y, out.y, 0, 10)
    # heights of the chief ray at every rim, per unit of object height
    z, mm, limits = F(0), ref.IDENT, []
    for e in flat:
        if e.diam is not None:
            c = abs(mm[0] + mm[1]*slope)
            if c > F(1, 10**8):
                limits.append((e.diam/2/c, z, e.diam))
        mm = ref.mul(e.abcd(), mm)
        z += e.L
    shard.distinct((tuple(limits), t.abcd()))
    half = min((l[0] for l in limits), default=None)
    if half is None or half > 9000:
        if half is not None and half < 12000:
            return      # near the largest height that is looked at
        nothing(path, conj, y=2)
        shard.add("infinite_fields")
        try:
            path.chiefRay()
        except ValueError:
            return
        raise Violation("chiefRay() without height was not refused with an infinite field of view")
    if half < F(1, 2000):
        shard.add("tiny_fields")
        return
    tolerance = 2e-5
    got = path.halfFieldOfView()
    if abs(got - float(half)) > tolerance:
        raise Violation("halfFieldOfView() is %r, should be %r" % (got, float(half)))
    must("fieldOfView", path.fieldOfView(), 2*half, 1, 1e-4)
    if abs(path.fieldOfView() - 2*float(half)) > 2*tolerance:
        raise Violation("fieldOfView() is %r, should be %r" % (path.fieldOfView(), 2*float(half)))
    fz, fd = path.fieldStop()
    candidates = [(float(z), float(d)) for h, z, d in limits if abs(h - half) <= F(5, 10**5)]
    if not any(close(fz, z) and close(fd, d) for z, d in candidates):
        raise Violation("fieldStop() is (%r, %r), should be %s" % (fz, fd, candidates))
    if not path.hasFieldStop():
        raise Violation("hasFieldStop() is false with a field stop at %r" % fz)
    r = path.principalRay()
    must("height of the principal ray", r.y, half, 1, 1e-4)
    must("angle of the principal ray", r.theta, slope*half, 1, 1e-4)
    must("angle of the principal ray", r.theta, float(slope)*r.y, 1)
    r = path.chiefRay()
    must("height of the chief ray from the edge of the field", r.y, half, 1, 1e-4)
    # traced: just inside passes, just outside is blocked first at the field stop
    for sign in (1, -1):
        y = sign*(float(half) - tolerance)
        if path.traceThrough(path.chiefRay(y=y)).isBlocked:
            raise Violation("the chief ray from %r, in the field of view, is blocked" % y)
        y = sign*(float(half) + tolerance)
        trace = path.trace(path.chiefRay(y=y))
        if not trace[-1].isBlocked:
            raise Violation("the chief ray from %r, out of the field of view, is not blocked" % y)
        first = [p for p in trace if p.isBlocked][0]
        if not any(close(first.z, z) and close(first.apertureDiameter, d) for z, d in candidates):
            raise Violation("the chief ray from %r is blocked at z=%r by a diameter of %r, not at the field stop %s" %
                            (y, first.z, first.apertureDiameter, candidates))
        shard.add("transitions", 2)
    if conj is None:
        if not path.imageSize() > 1e9 or not path.imageSize(useObject=True) > 1e9:
            raise Violation("imageSize is %r, and the image is at infinity" % path.imageSize())
    else:
        s = 100/min(1.0, abs(float(t.D)))
        got = path.imageSize()
        if abs(got - abs(conj)*2*float(half)) > abs(conj)*2*tolerance + 1e-7*s:
            raise Violation("imageSize is %r, should be %r" % (got, abs(conj)*2*float(half)))
        must("imageSize(useObject)", path.imageSize(useObject=True), abs(conj)*3, s)


def conjugate(t):
    """The magnification from the front plane to its image, or None when that is at infinity."""
    return None if abs(t.D) < F(1, 10**9) else float(t.A - t.B*t.C/t.D)


def nothing(path, conj, y=None):
    """The field of view is infinite and there is no field stop."""
    z, d = path.fieldStop()
    if z is not None or d != INF or path.hasFieldStop():
        raise Violation("fieldStop() is (%r, %r), and no chief ray is ever blocked" % (z, d))
    for name, x in (("halfFieldOfView", path.halfFieldOfView()), ("fieldOfView", path.fieldOfView())):
        if x != INF:
            raise Violation("%s is %r, and no chief ray is ever blocked" % (name, x))
    if path.principalRay() is not None:
        raise Violation("principalRay is %s, and no chief ray is ever blocked" % path.principalRay())
    if path.imageSize() != INF:
        raise Violation("imageSize is %r with an infinite field of view" % path.imageSize())
    got = path.imageSize(useObject=True)
    if conj is None:
        if not got > 1e9:
            raise Violation("imageSize(useObject) is %r, and the image is at infinity" % got)
    elif not close(got, abs(conj)*3, 100, 1e-7) and abs(conj) < 1e6:
        raise Violation("imageSize(useObject) is %r, should be %r" % (got, abs(conj)*3))


def worker(shard):
    def plan():
        yield ()
        for w in systems.words(ALPHABET, 3, 1):
            yield w
        for w in systems.words(ALPHABET if shard.thorough else ALPHABET[:8], 4, 4):
            yield w
        if shard.thorough:
            for w in systems.words(ALPHABET[:7], 5, 5):
                yield w
        # longer ones: relays with apertures at images of the object and of the stop
        for w in systems.long(5, 11, (20,) if not shard.thorough else (20, 24, 32)):
            yield w
        for f1 in (10, 25):
            for d1 in (None, 5, 12):
                for d2 in (None, 4, 9):
                    for d3 in (None, 3, 20):
                        ap = lambda d: [] if d is None else [("Aperture", d)]
                        yield tuple(ap(d3) + [("Space", f1), ("Lens", f1, 30), ("Space", f1)] + ap(d1) + [("Space", 20), ("Lens", 20, 15), ("Space", 20)] + ap(d2) +
                                    [("Space", 30), ("Lens", 30, d3), ("Space", 30)] + ap(d1))
    for word in shard.mine(plan()):
        if shard.full(): return
        try:
            flat = ref.flatten(("Group", list(word)))
        except Refused:
            continue
        shard.run(list(word), case, shard, list(word), flat)
        if len(word) == 2:
            shard.run(["nested"] + list(word), case, shard, [("Group", list(word))], flat)
        shard.sample(word)


def run(check):
    check.sharded(worker)
    check.coverage = dict(long_systems="every length up to 11 and 20 elements of 6 repeated cells (thorough: 24 and 32 too)", states=len(check.hashes), transitions=check.counters.get("transitions", 0),
                          traces_validated_against_impl=check.counters.get("traces", 0),
                          systems_without_chief_ray=check.counters.get("without_chief_ray", 0),
                          infinite_fields=check.counters.get("infinite_fields", 0), tiny_fields_not_judged=check.counters.get("tiny_fields", 0),
                          exhaustive=True, bound="every sequence of up to 3 of %d elements with various diameters, 4 of %d of them%s, and relays of three lenses" %
                          (len(ALPHABET), len(ALPHABET) if check.thorough else 8, ", 5 of 7" if check.thorough else ""), samples=check.samples)
    check.assumptions = ["field sizes within 2e-5 (the search of the code stops at 1e-6)", "fields above 9000 are infinite, those below 5e-4 are not judged",
                         "the aperture stop is the one reported (C08 judges it)"]
