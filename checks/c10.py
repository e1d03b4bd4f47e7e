"""C10: the optical invariant of any two rays is the same at every depth."""
from mc import ref, systems, observe
from mc.core import Violation
from mc.ref import close, Refused, F
from checks.c01 import cuts, elements

LEVEL = "model_checking"
INF = float("inf")

ALPHABET = [
    ("Space", 10), ("Lens", 50, 8), ("DI", 1, 1.5, 20, 7), ("DI", 1.5, 1, -30), ("Thick", 1.5, 20, -40, 5, 9), ("Space", 3.5, 1.5, 4),
    ("Lens", -20), ("Mirror", -100, 6), ("DI", 1, 1.33, None), ("DI", 1.33, 1.5, -12), ("Slab", 1.5, 6), ("Aperture", 5),
    ("Matrix", 2, 7, 0.25, 1.375, 7, 1, 1, 1, 6), ("Flip", ("Thick", 1.5, None, -30, 4)), ("DI", 1.5, 1.33, 44),
    ("Group", [("DI", 1, 1.5, 25), ("Space", 3), ("DI", 1.5, 1, None)]), ("Matrix", 1, 4, 0, 0.75, 3, 1.5, 2, None, None), ("Space", 7, 2),
    ("4f", 20, 30, 9, None),
]
RAYS = [(0, 0.125), (1, 0), (2.5, -0.0625), (-3, 0.1), (100, 0.7), (0, 0)]
RAY_OBJECTS = []


def ray(y, theta, z=0):
    import raytracing as rt
    return rt.Ray(y=y, theta=theta, z=z)


def case(shard, spec, flat, path=False):
    import raytracing as rt
    m = ref.real(spec) if not path else rt.ImagingPath(ref.real(spec).elements)
    n = flat[0].n1 if flat else F(1)
    rays = [ray(*r) for r in RAYS]
    before = observe.canon(rays)
    shard.add("traces")
    shard.distinct(tuple((e.abcd(), e.L, e.n1, e.n2) for e in flat))
    zs = cuts(flat)
    scale = max([1.0] + [abs(float(x))**2 for z in zs for x in ref.upTo(flat, z)[0]])
    for i, (y1, t1) in enumerate(RAYS):
        for j, (y2, t2) in enumerate(RAYS):
            want = n*(F(t1)*F(y2) - F(y1)*F(t2))
            s = scale*max(abs(y1), abs(t1), 1e-3)*max(abs(y2), abs(t2), 1e-3)
            if i > j and not shard.thorough:
                places = [0.0]
            else:
                places = zs
            for z in places:
                got = m.opticalInvariant(rays[i], rays[j], z=float(z))
                if not close(got, want, s, 1e-10):
                    raise Violation("the invariant of rays (%g, %g) and (%g, %g) at z=%g is %r, should be %r" % (y1, t1, y2, t2, z, got, float(want)))
                shard.add("transitions")
            if not close(m.opticalInvariant(rays[i], rays[j]), want, s, 1e-10):
                raise Violation("the invariant of rays (%g, %g) and (%g, %g) is %r, should be %r" %
                                (y1, t1, y2, t2, m.opticalInvariant(rays[i], rays[j]), float(want)))
    # what the two rays really are at each depth: the invariant is index times the crossed products there
    for z in zs:
        abcd, nz, _ = ref.upTo(flat, z)
        part = m.transferMatrix(upTo=float(z))
        a, b = part.traceThrough(rays[2]), part.traceThrough(rays[3])
        if not close(m.opticalInvariant(rays[2], rays[3], z=float(z)), nz*(F(a.theta)*F(b.y) - F(a.y)*F(b.theta)), scale, 1e-10):
            raise Violation("the invariant at z=%g is not that of the rays there" % z)
    if observe.canon(rays) != before:
        raise Violation("the rays were changed")
    if path:
        lagrange(m, n)


def lagrange(path, n):
    axial, principal = path.axialRay(), path.principalRay()
    got = path.lagrangeInvariant()
    if axial is None or principal is None:
        if got != INF:
            raise Violation("the Lagrange invariant is %r without axial or principal ray" % got)
        return
    want = float(n)*(axial.theta*principal.y - axial.y*principal.theta)
    if not close(got, want, 1, 1e-7):
        raise Violation("the Lagrange invariant is %r, that of the axial and principal rays is %r" % (got, want))


def worker(shard):
    for spec in shard.mine(e for e in elements() if e[0] != "Axicon"):
        if shard.full(): return
        shard.run(spec, case, shard, spec, ref.flatten(spec))
    depth = 4 if shard.thorough else 3
    for word in shard.mine(systems.words(ALPHABET, depth, 1)):
        if shard.full(): return
        try:
            flat = ref.flatten(("Group", list(word)))
        except Refused:
            continue
        shard.run(list(word), case, shard, ("Group", list(word)), flat)
        if len(word) < 4 and not any(s[0] == "Matrix" for s in word):
            shard.run(["ImagingPath"] + list(word), case, shard, ("Group", list(word)), flat, True)
        if len(word) == 1:
            shard.run(["bare", word[0]], case, shard, word[0], flat)
        if len(word) == 2:
            shard.run(["nested"] + list(word), case, shard, ("Group", [("Group", list(word))]), flat)
        shard.sample(word)
    for word in shard.mine(systems.long(5)):
        if shard.full(): return
        shard.run(list(word), case, shard, ("Group", list(word)), ref.flatten(("Group", list(word))))


def run(check):
    check.sharded(worker)
    check.coverage = dict(long_systems="every length up to 24, 32 and 48 elements of 6 repeated cells", states=len(check.hashes), transitions=check.counters.get("transitions", 0),
                          traces_validated_against_impl=check.counters.get("traces", 0), exhaustive=True,
                          bound="every element of a parameter grid and every sequence of up to %d of %d elements, every boundary and inside of every "
                                "thickness, every pair of %d rays" % (4 if check.thorough else 3, len(ALPHABET), len(RAYS)), samples=check.samples)
    check.assumptions = ["an axicon is not linear and has no invariant", "the inside of a generic Matrix is not known and not cut"]
