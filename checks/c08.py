"""C08: the aperture stop, the marginal rays, the entrance pupil, the f-number and the numerical aperture agree."""
import math
from mc import ref, systems
from mc.core import Violation
from mc.ref import close, Refused, F

LEVEL = "model_checking"
INF = float("inf")

ALPHABET = [
    ("Space", 10), ("Lens", 20, 8), ("Aperture", 5), ("Lens", 30), ("DI", 1, 1.5, 15, 7), ("Space", 20), ("DI", 1.5, 1, -15), ("Lens", -40, 12),
    ("Aperture", 13), ("Thick", 1.5, 20, -40, 5, 9), ("DI", 1.5, 1, 25, 6.5), ("Space", 12, 1, 6), ("2f", 20, 11), ("Slab", 1.5, 6), ("Mirror", 60, 10),
    ("DI", 1, 1.5, None), ("Group", [("Space", 15), ("Lens", 15, 14), ("Aperture", 3)]), ("Flip", ("Thick", 1.5, 30, None, 4, 7.5)), ("DI", 1, 1.25, 22, 9.5),
]


def must(name, got, want, scale=1.0, rel=1e-7):
    if not close(got, want, scale, rel):
        raise Violation("%s is %r, should be %r" % (name, got, None if want is None else float(want)))


def rims(flat):
    """Every rim a ray from the axial object point can meet: (z, height per radian, diameter, is it where rays are clipped)."""
    out, m, z = [], ref.IDENT, F(0)
    for e in flat:
        if e.diam is not None:
            out.append((z, m[1], e.diam, True))
        m = ref.mul(e.abcd(), m)
        z += e.L
        if e.diam is not None and e.L > 0:
            out.append((z, m[1], e.diam, False))
    return out


def nothing(x):
    return x is None or (isinstance(x, float) and (math.isinf(x) or x == 0))


def ray(y, theta):
    import raytracing as rt
    return rt.Ray(y=y, theta=theta)


def noStop(path):
    """No aperture limits the cone of rays: nothing must fail."""
    z, d = path.apertureStop()
    if d != INF:
        raise Violation("apertureStop() is (%r, %r), and nothing limits the rays" % (z, d))
    if tuple(path.marginalRays()) != (None, None) or path.axialRay() is not None:
        raise Violation("there are marginal rays %r, and nothing limits the rays" % (path.marginalRays(),))
    if tuple(path.marginalRays(y=2)) != (None, None):
        raise Violation("there are marginal rays, and nothing limits the rays")
    if not nothing(path.entrancePupil()[1]):
        raise Violation("there is an entrance pupil, and nothing limits the rays")
    for name, x in (("fNumber", path.fNumber()), ("NA", path.NA())):
        if not nothing(x):
            raise Violation("%s is %r, and nothing limits the rays" % (name, x))


def case(shard, spec, flat, direct=True):
    import raytracing as rt
    path = rt.ImagingPath([ref.real(s) for s in spec])
    t = ref.total(flat)
    all_ = rims(flat)
    clips = [(z, b, d) for z, b, d, c in all_ if c]
    shard.add("traces")
    shard.distinct(tuple(all_))
    tiny = F(1, 10**9)
    limit = max([abs(b)/d for z, b, d in clips if abs(b) > tiny], default=0)
    exits = max([abs(b)/d for z, b, d, c in all_ if not c and abs(b) > tiny], default=0)
    if path.hasFiniteApertureDiameter() != bool(clips):
        raise Violation("hasFiniteApertureDiameter() is %r" % path.hasFiniteApertureDiameter())
    if not clips:
        if tuple(path.apertureStop()) != (None, INF) or path.hasApertureStop():
            raise Violation("apertureStop() is %r, and there is no aperture" % (path.apertureStop(),))
    if limit == 0 and exits == 0:
        noStop(path)
        shard.add("without_stop")
        return
    z, d = path.apertureStop()
    if not path.hasApertureStop():
        raise Violation("hasApertureStop() is false with a stop at %r" % z)
    stops = [s for s in clips if abs(abs(s[1])/s[2] - limit) <= tiny*limit and abs(s[1]) > tiny]
    finding = None
    if not any(close(z, s[0]) and close(d, s[2]) for s in stops):
        exit_ = [e[:3] for e in all_ if not e[3] and close(z, e[0]) and close(d, e[2]) and abs(e[1])/e[2] >= max(limit, exits)*(1 - tiny)]
        if not exit_:
            raise Violation("the aperture stop is (%r, %r), should be %s" % (z, d, [(float(s[0]), float(s[2])) for s in stops]))
        # the recorded finding: it is the most limiting rim, but one at the exit of an element with a length, where
        # rays are not clipped. Everything else must agree with it all the same.
        finding = Violation("the aperture stop is (%r, %r), the exit of an element with a length, where rays are not clipped; they are first clipped "
                            "at %s" % (z, d, [(float(s[0]), float(s[2])) for s in stops]), key="thick-exit")
        stops = exit_
    s = [s for s in stops if close(z, s[0]) and close(d, s[2])][0]
    # the marginal rays touch the edge of the stop
    theta = s[2]/2/abs(s[1])
    up, down = path.marginalRays()
    for name, r, want in (("up", up, theta), ("down", down, -theta), ("axialRay", path.axialRay(), theta)):
        must("height of the marginal ray " + name, r.y, 0)
        must("angle of the marginal ray " + name, r.theta, want)
    m = ref.upTo(flat, s[0])[0]
    for y in (1.5, -2):
        pair = path.marginalRays(y=y)
        wants = sorted(((s[2]/2 - m[0]*F(y))/m[1], (-s[2]/2 - m[0]*F(y))/m[1]))
        must("height of the marginal rays from %g" % y, pair.up.y, y)
        must("height of the marginal rays from %g" % y, pair.down.y, y)
        must("angle of the upper marginal ray from %g" % y, pair.up.theta, wants[1], 10)
        must("angle of the lower marginal ray from %g" % y, pair.down.theta, wants[0], 10)
    # and rays traced just inside and just outside of the cone
    places = [(float(s[0]), float(s[2])) for s in stops]
    for sign in (1, -1):
        if finding is not None:
            if path.trace(ray(0, sign*float(theta)*(1 - 1e-7)))[-1].isBlocked:
                raise Violation("a ray less steep than the marginal ray is blocked")
            break
        inside = path.trace(ray(0, sign*float(theta)*(1 - 1e-7)))
        if inside[-1].isBlocked:
            raise Violation("a ray less steep than the marginal ray is blocked")
        outside = path.trace(ray(0, sign*float(theta)*(1 + 1e-7)))
        if not outside[-1].isBlocked:
            raise Violation("a ray steeper than the marginal ray is not blocked")
        first = [r for r in outside if r.isBlocked][0]
        if not any(close(first.z, z) and close(first.apertureDiameter, d) for z, d in places):
            raise Violation("a ray steeper than the marginal ray is blocked at z=%r by a diameter of %r, not at the aperture stop %s" %
                            (first.z, first.apertureDiameter, places))
        shard.add("transitions", 2)
    # the entrance pupil is the image of the stop seen from the object
    pz, pd = path.entrancePupil()
    A, B = m[0], m[1]
    if abs(A) < tiny:
        if not (math.isinf(pz) or abs(pz) > 1e9) or not (pd == INF or pd > 1e9):
            raise Violation("the entrance pupil is (%r, %r), should be at infinity" % (pz, pd))
        pd = None
    else:
        s2 = 1/min(1.0, abs(float(A)))**2
        must("position of the entrance pupil", pz, B/A, s2)
        must("diameter of the entrance pupil", pd, s[2]/abs(A), s2)
        for h in (s[2]/2, -s[2]/2):
            # every ray through the edge of the pupil goes through the edge of the stop
            for slope in (0, 0.03125):
                y0 = h/abs(A) - B/A*F(slope)
                must("height at the stop of a ray through the edge of the pupil", float(A*y0 + B*F(slope)), float(A*h/abs(A)), s2)
        if t.C == 0 or abs(t.C) > F(1, 10000):
            f = INF if t.C == 0 else -(t.n1/t.n2)/t.C
            must("fNumber", path.fNumber(), INF if t.C == 0 else f*abs(A)/s[2], 100*s2)
    must("NA", path.NA(), float(t.n1)*math.sin(float(theta)))
    if finding is not None:
        raise finding


def worker(shard):
    depth = 4
    alphabet = ALPHABET if shard.thorough else ALPHABET[:15]
    def plan():
        yield ()
        for w in systems.words(ALPHABET, 3, 1):
            yield w
        for w in systems.words(alphabet, 4, 4):
            yield w
        if shard.thorough:
            for w in systems.words(ALPHABET[:8], 5, 5):
                yield w
    for word in shard.mine(plan()):
        if shard.full(): return
        try:
            flat = ref.flatten(("Group", list(word)))
        except Refused:
            continue
        shard.run(list(word), case, shard, list(word), flat)
        if len(word) == 2:
            shard.run(["nested"] + list(word), case, shard, [("Group", list(word))], flat)
            # the same system in glass or water
        shard.sample(word)
    for word in shard.mine(systems.long(5)):
        if shard.full(): return
        shard.run(list(word), case, shard, list(word), ref.flatten(("Group", list(word))))
    for n in (1.33, 1.5):
        inside = [("Space", 10, n), ("Space", 25, n), ("DI", n, 1, 20, 8), ("DI", n, 1, -20), ("Lens", 30, 9), ("Space", 5), ("DI", n, 1, None, 4)]
        for word in shard.mine(systems.words(inside, 4, 1)):
            if shard.full(): return
            if word[0][0] == "Lens" or not systems.media(word):
                continue
            flat = ref.flatten(("Group", list(word)))
            shard.run(list(word), case, shard, list(word), flat)


def run(check):
    check.sharded(worker)
    check.coverage = dict(long_systems="every length up to 24, 32 and 48 elements of 6 repeated cells", states=len(check.hashes), transitions=check.counters.get("transitions", 0),
                          traces_validated_against_impl=check.counters.get("traces", 0), systems_without_stop=check.counters.get("without_stop", 0),
                          exhaustive=True, bound="every sequence of up to 4 of %d elements with various diameters%s, starting in air, water and glass" %
                          (len(ALPHABET) if check.thorough else 15, ", 5 of the first 8" if check.thorough else ""), samples=check.samples)
    check.assumptions = ["rims are met at the entrance of an element, where tracing clips", "apertures that limit the angle (NA) are not stops"]
