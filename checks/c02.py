"""C02: tracing is element-by-element propagation, aperture clipping included."""
from mc import ref, systems
from mc.core import Violation
from mc.ref import close, Refused

LEVEL = "model_checking"

# all numbers are dyadic: the arithmetic is exact on both sides, and heights exactly at an edge are decided exactly
ALPHABET = [
    ("Space", 8), ("Lens", 16, 8), ("Aperture", 8), ("Space", 8, 1, 8), ("Thick", 2, 8, -8, 4, 8), ("Lens", 16),
    ("Aperture", 16, 0.25), ("Axicon", 0.125, 1.5, 8), ("DI", 1, 2, 8, 8), ("Space", 4, 2), ("DI", 2, 1, -8, 16),
    ("Lens", -8, 16), ("Mirror", -16, 8), ("Slab", 2, 4, 8), ("Axicon", -0.25, 2), ("Matrix", 1, 8, 0, 1, 8, 1, 1, None, None, 8),
    ("Flip", ("Thick", 2, 8, None, 4, 16)), ("Space", 0, 1, 4),
]
# ordinary numbers, where a ray is never exactly at an edge
ROUNDED = [
    ("Space", 12.7), ("Lens", 33.3, 25.4), ("Lens", -71.2, 12.7), ("Thick", 1.517, 51.3, -44.1, 4.2, 25.4), ("DI", 1, 1.333, 31.7, 22.1),
    ("Space", 7.9, 1.333), ("DI", 1.333, 1, None), ("Aperture", 9.9, 0.31), ("Axicon", 0.0872, 1.4585, 19.3),
    ("Mirror", -123.4, 20.2), ("Space", 3.3, 1, 11.1),
]
HEIGHTS = (0, 2, 4, 4.015625, -4, -3, 8, -9)
ANGLES = (0, 0.25, -0.5, 0.2578125)


def rays(dyadic):
    if dyadic:
        for y in HEIGHTS:
            for theta in ANGLES:
                yield (y, theta, 0, False)
        yield (2, 0.25, 16, False)
        yield (1, 0.125, -4, False)
        yield (3, 0.25, 0, True)
        yield (-20, 0.125, 8, True)
    else:
        for y in (0, 3.7, -6.1, 11.3):
            for theta in (0, 0.057, -0.31):
                yield (y, theta, 0, False)
        yield (2.1, 0.01, 33.3, False)
        yield (2.1, 0.01, 33.3, True)


def dedupe(points):
    out = []
    for p in points:
        if not out or p != out[-1]:
            out.append(p)
    return out


def point(ray):
    return (ray.y, ray.theta, ray.z, bool(ray.isBlocked))


def samePoint(got, want):
    return got[3] == want[3] and close(got[0], want[0]) and close(got[1], want[1]) and close(got[2], want[2])


def show(p):
    return "y=%g theta=%g z=%g%s" % (p[0], p[1], p[2], " blocked" if p[3] else "")


def state(ray):
    return {k: v for k, v in vars(ray).items()}


def make(r):
    import raytracing as rt
    return rt.Ray(y=r[0], theta=r[1], z=r[2], isBlocked=r[3])


def compare(what, got, want):
    if len(got) != len(want) or not all(samePoint(g, w) for g, w in zip(got, want)):
        raise Violation("%s is [%s], should be [%s]" % (what, ", ".join(map(show, got)), ", ".join(map(show, want))))


def traces(shard, specs, flat, rayList):
    wants = [ref.trace(flat, *r[:2], z=r[2], blocked=r[3]) for r in rayList]
    folded = [dedupe(w) for w in wants]
    linear = all(e.dev is None for e in flat)
    total = ref.total(flat)
    for spec in specs:
        shard.run(dict(system=spec, rays=len(rayList)), oneSystem, shard, spec, flat, rayList, wants, folded, linear, total)


def oneSystem(shard, spec, flat, rayList, wants, folded, linear, total):
    m = ref.real(spec)
    inputs = [make(r) for r in rayList]
    before = [state(r) for r in inputs]
    group = hasattr(m, "elements")
    for ray, r, want, fold in zip(inputs, rayList, wants, folded):
        # an element that is not in a group does not repeat its input
        got = [point(x) for x in m.trace(ray)]
        if not group:
            got = [point(ray)] + got
        fold = list(fold)
        got = [g for i, g in enumerate(got) if i == 0 or g != got[i-1]]
        # rounding may keep apart two points that are one (only ever at the same place)
        if len(got) != len(fold):
            got = mergeClose(got); fold = mergeClose(fold)
        compare("the trace of ray (%g, %g)" % r[:2], got, fold)
        last = m.traceThrough(ray)
        compare("traceThrough of ray (%g, %g)" % r[:2], [point(last)], [want[-1]])
        if linear and not want[-1][3]:
            y, t = total.A*ref.fr(r[0]) + total.B*ref.fr(r[1]), total.C*ref.fr(r[0]) + total.D*ref.fr(r[1])
            out = m*ray
            if not (close(out.y, y) and close(out.theta, t) and close(out.z, ref.fr(r[2]) + total.L)):
                raise Violation("matrix times ray (%g, %g) is (%g, %g)" % (r[0], r[1], out.y, out.theta))
        shard.add("transitions", len(flat))
        shard.add("traces")
        shard.distinct(tuple(want))
    many = m.traceMany(inputs)
    if len(many) != len(inputs):
        raise Violation("traceMany gives %d traces for %d rays" % (len(many), len(inputs)))
    for got, want in zip(many, wants):
        compare("traceMany", [point(got[-1])], [want[-1]])
    through = [w[-1] for w in wants if not w[-1][3]]
    import raytracing as rt
    for how, given in (("list", inputs), ("tuple", tuple(inputs)), ("generator", (x for x in inputs)), ("Rays", rt.Rays(inputs))):
        out = m.traceManyThrough(given, progress=False)
        compare("traceManyThrough(%s)" % how, [point(x) for x in out], through)
    for z in planes(flat):
        want = profile(flat, wants, rayList, z)
        got = [(x.y, x.theta) for x in m.profileFromRayTraces(many, z=float(z))]
        if len(got) != len(want) or not all(close(g[0], w[0]) and close(g[1], w[1]) for g, w in zip(got, want)):
            raise Violation("the profile at z=%g is %s, should be %s" % (z, got[:4], [(float(a), float(b)) for a, b in want[:4]]))
        shard.add("transitions")
    out = m.profileFromRayTraces(many)
    compare("profileFromRayTraces at the end", [point(x) for x in out], through)
    for ray, was in zip(inputs, before):
        if state(ray) != was:
            raise Violation("the input ray was changed from %r to %r" % (was, state(ray)))


def mergeClose(points):
    out = []
    for p in points:
        if not out or not samePoint(p, out[-1]):
            out.append(p)
    return out


def planes(flat):
    z = ref.F(0)
    for e in flat:
        if e.kind == "Space" and e.L > 0:
            yield z + e.L/4
            yield z + e.L*3/4
        z += e.L


def profile(flat, wants, rayList, z):
    """Heights and angles, at depth z inside a gap, of the rays that get there (those starting at z=0 only)."""
    out = []
    for want, r in zip(wants, rayList):
        if want[-1][3] and want[-1][2] < z:
            continue
        before = [p for p in want if p[2] < z]
        if not before:
            # the plane lies in front of the first point: the ray is taken back along a straight line
            before = want[:1]
            if before[0][3]:
                continue
        p = before[-1]
        if r[3] or p[3]:
            continue
        if p[2] >= z and want[0] is not p:
            continue
        if want[-1][2] < z:
            out.append((want[-1][0], want[-1][1]))
            continue
        out.append((p[0] + (z - p[2])*p[1], p[1]))
    return out


def worker(shard):
    depth = 4 if shard.thorough else 3
    for alphabet, dyadic, n in ((ALPHABET, True, depth), (ROUNDED, False, depth)):
        rayList = list(rays(dyadic))
        for word in shard.mine(systems.words(alphabet, n, 0)):
            if shard.full(): return
            try:
                flat = ref.flatten(("Group", list(word)))
            except Refused:
                continue
            w = list(word)
            specs = [("Group", w)]
            if len(w) == 1:
                specs += [w[0], ("Group", [("Group", w)])]
            elif len(w) > 1 and systems.media(w[1:]) and not (ref.isSpace(w[1]) and flat[1].n1 != ref.single(w[1]).n1 if w[1][0] == "Space" else False):
                specs.append(("Group", [w[0], ("Group", w[1:])]))
            traces(shard, specs, flat, rayList if dyadic else [r for r in rayList if not ref.fragile(flat, r[0], r[1])])
            shard.sample(dict(system=w, first_ray=rayList[1]))
    rayList = list(rays(False))
    for word in shard.mine(systems.long(4)):
        if shard.full(): return
        flat, n = ref.flatten(("Group", list(word))), len(word)
        traces(shard, [("Group", list(word)), ("Group", [("Group", list(word[:n//2])), ("Group", list(word[n//2:]))])], flat,
               [r for r in rayList if not ref.fragile(flat, r[0], r[1])])


def run(check):
    check.sharded(worker)
    check.coverage = dict(long_systems="every length up to 24, 32 and 48 elements of 6 repeated cells", states=len(check.hashes), transitions=check.counters.get("transitions", 0),
                          traces_validated_against_impl=check.counters.get("traces", 0), systems=check.cases, exhaustive=True,
                          bound="every sequence of up to %d elements of two alphabets (%d, %d elements), with every ray of a grid of %d and %d"
                                % (4 if check.thorough else 3, len(ALPHABET), len(ROUNDED), len(list(rays(True))), len(list(rays(False)))),
                          samples=check.samples)
    check.assumptions = ["an element with a length clips at its entrance (see DESIGN.md)", "numbers agree within 1e-9 relative; edges are decided exactly on the dyadic alphabet"]
