"""C12: a cavity is stable exactly when its round trip is, with self-reproducing modes."""
import math
from mc import ref, systems, observe
from mc.core import Violation
from mc.ref import close, Refused, F
from checks.c11 import apply, sizes

LEVEL = "model_checking"
INF = float("inf")

ALPHABET = [
    ("Space", 100), ("Mirror", -150), ("Space", 260), ("Lens", 80), ("Thick", 1.5, 60, -40, 5), ("DI", 1, 1.5, 90), ("DI", 1.5, 1, -70), ("Mirror", 400),
    ("Space", 64, 1.5), ("Matrix", 1, 0, -1/64, 1, 0, 1.5, 1.5, 0, 0), ("Lens", -120, 9), ("Slab", 1.7, 20), ("DI", 1.5, 1, None), ("Space", 30),
    ("Matrix", 1, 0, 1/100, 1, 0, 1.5, 1.5, 0, 0, 12), ("Aperture", 7), ("Group", [("Space", 128), ("Mirror", -256), ("Space", 128)]), ("Space", 12, 1.33),
    ("DI", 1.5, 1.33, 200), ("Mirror", -128), ("Matrix", 1, 0, -1/32, 1, 0, 1, 1, 0, 0), ("Flip", ("Thick", 1.5, None, -90, 8)),
]


def modesOf(m):
    """Half the trace of the round trip, and its exact eigenmodes' sum and product: C q^2 + (D - A) q - B = 0."""
    A, B, C, D = m
    return (A + D)/2


def exactly(m, t):
    """Is everything about this cavity exact in floating point?"""
    if not all(F(float(x)) == y for x, y in zip((m.A, m.B, m.C, m.D), t.abcd())):
        return False
    b = float(t.D) - float(t.A)
    return F(b) == t.D - t.A and F(b*b) == (t.D - t.A)**2 and F(float(t.C)*float(t.B)) == t.C*t.B and F(4*float(t.C)*float(t.B) + b*b) == 4*t.C*t.B + (t.D-t.A)**2


def cavityCase(shard, cavity, flat):
    t = ref.total(flat)
    shard.add("traces")
    shard.distinct((t.abcd(), t.n1))
    for letter, want in zip("ABCD", t.abcd()):
        if not close(getattr(cavity, letter), want, max(abs(x) for x in t.abcd())):
            raise Violation("%s of the cavity is %r, should be %r" % (letter, getattr(cavity, letter), float(want)))
    if t.n1 != t.n2:
        return          # not a round trip: it does not end in the medium it starts in
    if t.C != 0 and abs(t.C) < F(1, 20000):
        return          # hardly any power
    half = abs(t.A + t.D)/2
    before = observe.canon(cavity)
    one, two = cavity.eigenModes()
    modes = cavity.laserModes()
    stable = cavity.isStable
    shard.add("transitions", 3)
    if t.C == 0:
        if stable or len(modes):
            raise Violation("a cavity without power is reported stable")
        return
    near = abs(half - 1) < F(1, 10**7)
    if near and not (half == 1 and exactly(cavity, t)):
        return
    if bool(stable) != (half < 1):
        raise Violation("the cavity is reported %sstable, half of its absolute trace is %r" % ("" if stable else "not ", float(half)))
    shard.add("stable" if half < 1 else "unstable")
    if len(modes) != (1 if half < 1 else 0):
        raise Violation("the cavity has %d modes, half of its absolute trace is %r" % (len(modes), float(half)))
    # both eigenmodes reproduce themselves
    root = math.sqrt(abs(float(half*half - 1)))
    middle = float((t.A - t.D)/(2*t.C))
    width = root/abs(float(t.C))
    wants = [complex(middle, s*width) if half < 1 else complex(middle + s*width, 0) for s in (1, -1)]
    size = max(abs(w) for w in wants)
    for q in wants:
        if not any(abs(complex(x.q) - q) <= 1e-6*size for x in (one, two)):
            raise Violation("the eigenmodes are %s, should be %s" % ((one.q, two.q), wants))
    for x in (one, two):
        if x.n != float(t.n1):
            raise Violation("an eigenmode is in a medium of index %r, the cavity starts in %r" % (x.n, float(t.n1)))
    if half >= 1:
        if any(x.isFinite for x in (one, two)):
            raise Violation("an unstable cavity has a finite mode")
        for x in (one, two):
            if abs(complex(t.C)*x.q + complex(t.D)) > 1e-3:
                there = cavity*x
                if abs(there.q - x.q) > 1e-5*(1 + size):
                    raise Violation("an eigenmode %s comes back as %s" % (x.q, there.q))
        return
    mode = modes[0]
    q = (F(middle), F(width))
    lam = 0.0006328
    if not (0 < abs(mode.q) and mode.isFinite and math.isfinite(mode.w) and mode.w > 0):
        raise Violation("the mode %s is not finite" % mode.q)
    must = lambda name, got, want, rel=1e-6: close(got, want, abs(float(want)), rel) or (_ for _ in ()).throw(
        Violation("%s is %r, should be %r" % (name, got, float(want))))
    must("waist of the mode", mode.waist, math.sqrt(mode.wavelength*width/math.pi/float(t.n1)), 1e-5)
    must("spot size of the mode", mode.w, math.sqrt(mode.wavelength*(width*width + middle*middle)/width/math.pi/float(t.n1)), 1e-5)
    for name, back in (("multiplied by", cavity*mode), ("traced through", cavity.trace(mode)[-1]), ("traced through again", cavity.traceThrough(mode))):
        if abs(back.q - mode.q) > 1e-6*abs(mode.q)*max(1, 1/root):
            raise Violation("the mode %s comes back as %s when %s the cavity" % (mode.q, back.q, name))
        must("index of the mode after a round trip", back.n, t.n1)
        must("spot size of the mode after a round trip", back.w, mode.w, 1e-5*max(1, 1/root))
    if observe.canon(cavity) != before:
        raise Violation("asking for the modes changed the cavity")
    again = cavity.laserModes()
    if observe.canon(again) != observe.canon(modes) or not cavity.isStable:
        raise Violation("the modes are not the same when asked for again")


def case(shard, specs, way):
    import raytracing as rt
    flat = ref.flatten(("Group", specs))
    if way == "list":
        cavity = rt.LaserCavity([ref.real(s) for s in specs])
    elif way == "append":
        cavity = rt.LaserCavity()
        for s in specs:
            cavity.append(ref.real(s))
            cavity.isStable
    elif way == "nested":
        cavity = rt.LaserCavity([rt.MatrixGroup([ref.real(s) for s in specs])])
    cavityCase(shard, cavity, flat)


def completed(shard, specs, first, last):
    """Adding the elements in reverse order to complete the round trip."""
    import raytracing as rt
    back = list(specs)[1 if first else 0: -1 if last else None][::-1]
    whole = list(specs) + back
    cavity = rt.LaserCavity([ref.real(s) for s in specs])
    members = list(cavity.elements)
    cavity.isStable
    shard.add("completed")
    try:
        flat = ref.flatten(("Group", whole))
    except Refused:
        before = observe.canon(cavity)
        try:
            cavity.appendElementsInReverse(skipFirstElement=first, skipLastElement=last)
        except Exception:
            if observe.canon(cavity) != before:
                raise Violation("completing the round trip was refused, and changed the cavity")
            return
        raise Violation("completing the round trip should be refused: two neighbours do not agree on the medium between them")
    cavity.appendElementsInReverse(skipFirstElement=first, skipLastElement=last)
    expected = members + members[1 if first else 0: -1 if last else None][::-1]
    if len(cavity) != len(expected):
        raise Violation("the completed cavity has %d elements, should have %d" % (len(cavity), len(expected)))
    cavityCase(shard, cavity, flat)
    fresh = rt.LaserCavity([ref.real(s) for s in whole])
    d = observe.difference(observe.signature(cavity, skip=("str",)), observe.signature(fresh, skip=("str",)))
    if d:
        raise Violation("the completed cavity is not that of the completed list: " + d)


def worker(shard):
    depth = 4 if shard.thorough else 3
    def plan():
        for w in systems.words(ALPHABET, depth, 1):
            yield w
        for w in systems.words(ALPHABET[:6] if not shard.thorough else ALPHABET[:10], depth + 1, depth + 1):
            yield w
    for word in shard.mine(plan()):
        if shard.full(): return
        if not systems.media(word):
            continue
        for way in ("list", "append", "nested") if len(word) < 4 else ("list",):
            shard.run([way] + list(word), case, shard, list(word), way)
        if len(word) < (5 if shard.thorough and word[0] in ALPHABET[:8] else 4):
            for first in (False, True):
                for last in (False, True):
                    shard.run(["completed", first, last] + list(word), completed, shard, list(word), first, last)
        shard.sample(word)
    # a stable cavity crosses into an unstable one as a length grows: both sides of the edge, and the edge
    for R in (64, 128, 256):
        for n in range(0, 2*R + 17, 4 if not shard.thorough else 1):
            for spec in ([("Space", n), ("Mirror", -R), ("Space", n), ("Mirror", -R)], [("Space", n), ("Mirror", -R), ("Space", n)],
                         [("Mirror", -R), ("Space", n), ("Mirror", -64), ("Space", n)], [("Space", n, 1.5), ("Matrix", 1, 0, -2/R, 1, 0, 1.5, 1.5, 0, 0)]):
                if (n//4 + R//64) % shard.count == shard.index:
                    shard.run(["edge"] + spec, case, shard, spec, "list")


def run(check):
    check.sharded(worker)
    check.coverage = dict(states=len(check.hashes), transitions=check.counters.get("transitions", 0),
                          traces_validated_against_impl=check.counters.get("traces", 0), stable_cavities=check.counters.get("stable", 0),
                          unstable_cavities=check.counters.get("unstable", 0), completed_round_trips=check.counters.get("completed", 0), exhaustive=True,
                          bound="every round trip of up to %d of %d elements, and of %d of the first %d, in air and glass; every completion of one-way "
                                "sequences; families that cross the edge of stability step by step" %
                                (4 if check.thorough else 3, len(ALPHABET), 5 if check.thorough else 4, 10 if check.thorough else 6), samples=check.samples)
    check.assumptions = ["a power below 5e-5 is neither judged as power nor as none", "half traces within 1e-7 of one are judged only when exact"]
