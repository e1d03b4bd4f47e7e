"""C23: the efficiency report counts each ray of the source as tracing does."""
import contextlib, io, math, re
from mc import ref, systems
from mc.core import Violation
from mc.ref import Refused, F
from checks.c14 import Script
from checks.c22 import optics

LEVEL = "exploration"
INF = float("inf")

ALPHABET = [
    ("Space", 10), ("Lens", 20, 8), ("Aperture", 5), ("Space", 20), ("Lens", 30, 11), ("Group", [("Space", 15), ("Lens", 15, 14), ("Aperture", 3)]),
    ("DI", 1, 1.5, 15, 7), ("Space", 12, 1.5), ("DI", 1.5, 1, -15, 9), ("Lens", 40), ("Lens", -40, 12), ("Thick", 1.5, 20, -40, 5, 9), ("Space", 12, 1, 6),
    ("Mirror", 60, 10), ("4f", 20, 10, 9.5, 7.5),
]
SOURCES = [(None, None), (None, 0.3), (1.5, 0.1), (6, None), (40, 0.5), (0.02, 0.004), (1000, 0.01)]      # diameter of the object, half angle


def answers(n):
    """Random numbers: every pair of a grid, none of them on a simple fraction."""
    grid = [(i + 0.4137 + 0.1*(i % 3))/n for i in range(n)]
    return [x for u in grid for v in grid for x in (u, v)]


def shown(path, n, *args):
    """What the report prints, and what its figure shows: {label: points}."""
    import matplotlib.pyplot as plt
    figures = []
    show = plt.show
    text = io.StringIO()
    Script(answers(n), repeat=True).install()
    try:
        plt.show = lambda *a, **k: figures.append({c.get_label(): [tuple(float(x) for x in p) for p in c.get_offsets()] for a_ in plt.gcf().axes for c in a_.collections})
        with contextlib.redirect_stdout(text):
            path.reportEfficiency(*args, nRays=n*n)
    finally:
        plt.show = show
        plt.close("all")
    return text.getvalue(), figures


def number(text, before, after=""):
    m = re.search(before + r"\s*(-?[\d.]+|inf|nan)\s*" + after, text)
    if m is None:
        raise Violation("the report does not state '%s'" % before.replace("\\", ""))
    return float(m.group(1))


def within(name, got, low, high, tolerance=0.051):
    if not low - tolerance <= got <= high + tolerance:
        raise Violation("%s is %r, should be %s" % (name, got, "%.4g" % low if low == high else "from %.4g to %.4g" % (low, high)))


def case(shard, spec, flat, diameter, halfAngle, n):
    import raytracing as rt
    path = rt.ImagingPath([ref.real(s) for s in spec], label="the path")
    before = optics(path)
    principal, axial = path.principalRay(), path.axialRay()
    text, figures = shown(path, n, diameter, halfAngle)
    if optics(path) != before:
        raise Violation("the report changed the path")
    shard.add("evaluations")
    if principal is None or axial is None:
        if figures or "%" in text:
            raise Violation("a report is given although there is no field stop")
        shard.add("without_report")
        return
    index = float(flat[0].n1)
    invariant = abs(index*(principal.y*axial.theta - principal.theta*axial.y))
    height, angle = principal.y if diameter is None else diameter/2, math.pi/2 if halfAngle is None else halfAngle
    Script(answers(n), repeat=True).install()
    rays = [(r.y, r.theta) for r in rt.RandomUniformRays(yMax=height, yMin=-height, thetaMax=angle, thetaMin=-angle, maxCount=n*n)]
    classes = {"Transmitted": [], "Vignetted": [], "Blocked": []}
    either = 0              # rays that rounding may put in one class or another
    places = set()
    maybe = set()
    for y, theta in rays:
        a = index*(y*principal.theta - principal.y*theta)/invariant
        b = index*(axial.y*theta - y*axial.theta)/invariant
        unsure = min(abs(abs(a) - 1), abs(abs(b) - 1)) < 1e-5
        points = ref.trace(flat, F(y), F(theta))
        cut = [p for p in points if p[3]]
        if ref.fragile(flat, y, theta):
            unsure = True
        kind = "Blocked" if abs(a) > 1 or abs(b) > 1 else "Vignetted" if cut else "Transmitted"
        if kind == "Vignetted":
            (maybe if unsure else places).add(round(float(cut[0][2]), 6))
        if unsure:
            either += 1
            if cut:
                maybe.add(round(float(cut[0][2]), 6))
        else:
            classes[kind].append((abs(a), abs(b)))
    shard.add("rays", len(rays))
    shard.distinct((ref.total(flat).abcd(), diameter, halfAngle, tuple(len(v) for v in classes.values())))
    count, N = {k: len(v) for k, v in classes.items()}, len(rays)
    if len(figures) != 1:
        raise Violation("%d figures are shown" % len(figures))
    drawn = {k: [(abs(a), abs(b)) for a, b in v] for k, v in figures[0].items()}
    for kind, wanted in classes.items():
        left = sorted(drawn.get(kind, []))
        for p in sorted(wanted):
            for q in left:
                if abs(p[0] - q[0]) < 1e-6*max(1, p[0]) and abs(p[1] - q[1]) < 1e-6*max(1, p[1]):
                    left.remove(q)
                    break
            else:
                raise Violation("a ray of coefficients %r should be shown as %s" % (p, kind))
        if len(left) > either:
            raise Violation("%d rays are shown as %s, %d should" % (len(drawn[kind]), kind, len(wanted)))
    if sum(len(v) for v in drawn.values()) != N:
        raise Violation("%d rays are shown, of %d" % (sum(len(v) for v in drawn.values()), N))
    within("the Lagrange invariant", number(text, "Lagrange invariant:"), invariant, invariant, 0.0051 + 1e-4*invariant)
    within("the efficiency", number(text, "Monte Carlo:", "%"), 100*count["Transmitted"]/N, 100*(count["Transmitted"] + either)/N)
    ratio = 100*invariant/(index*height*angle)
    within("the ratio of invariants", number(text, "source invariants:", "%"), ratio, ratio, 0.051 + 1e-3*ratio)
    within("the field of view", number(text, "Field of view is"), 2*principal.y, 2*principal.y, 0.0051)
    stopZ, stopD = path.apertureStop()
    within("the diameter of the stop", number(text, "limited by"), stopD, stopD)
    within("the position of the stop", number(text, "AS at z="), stopZ, stopZ)
    within("the numerical aperture", number(text, "NA is"), path.NA(), path.NA(), 0.0051)
    inside = count["Transmitted"] + count["Vignetted"]
    if inside:
        within("the relative efficiency", number(text, "Relative efficiency:", "%"), 100*count["Transmitted"]/(inside + either), 100*min(1, (count["Transmitted"] + either)/inside))
    if count["Vignetted"]:
        within("the loss to vignetting", number(text, "Loss to vignetting:", "%"), 100*count["Vignetted"]/(inside + either), 100*min(1, (count["Vignetted"] + either)/inside))
        m = re.search(r"positions:?\s*[\[{(](.*?)[\]})]", text)
        got = {round(float(x), 6) for x in m.group(1).split(",")} if m else set()
        near = lambda x, s: any(abs(x - y) < 1e-5*max(1, abs(x)) for y in s)
        if not all(near(x, got) for x in places) or not all(near(x, places | maybe) for x in got):
            raise Violation("the blockers are said to be at %s, they are at %s" % (sorted(got), sorted(places)))
    elif not either and "No losses" not in text:
        raise Violation("the report does not say that there are no losses")


def worker(shard):
    import warnings
    warnings.simplefilter("ignore")
    shard.caseLimit = 60

    def plan():
        for w in systems.words(ALPHABET, 3 if shard.thorough else 2, 1):
            for source in SOURCES:
                yield (("Space", 10),) + w, source, 6
        for w in systems.words(ALPHABET if shard.thorough else ALPHABET[:7], 3, 3):
            for source in SOURCES if shard.thorough else SOURCES[:4]:
                yield w, source, 6
        # media in front of the object, and relays with a vignetting lens
        for n in (1.33, 1.5):
            for d in (3, 6, 12):
                for source in SOURCES:
                    yield (("Space", 20, n), ("DI", n, 1, 10, d), ("Space", 30), ("Lens", 15, 5), ("Space", 30)), source, 6
        for d in (4, 7, 10, 30):
            for source in SOURCES:
                for n in (1, 6, 15) + ((30,) if shard.thorough else ()):
                    yield (("Space", 10), ("Lens", 10, 8), ("Space", 30), ("Lens", 20, d), ("Space", 20), ("Aperture", 3)), source, n
    for word, (diameter, halfAngle), n in shard.mine(plan()):
        if shard.full(): return
        try:
            flat = ref.flatten(("Group", list(word)))
        except Refused:
            continue
        shard.run([list(word), diameter, halfAngle, n], case, shard, list(word), flat, diameter, halfAngle, n)
        shard.sample([list(word), diameter, halfAngle, n])


def run(check):
    check.sharded(worker)
    check.coverage = dict(evaluations=check.counters.get("evaluations", 0), distinct_nontrivial=len(check.hashes), exhaustive=True,
                          rays=check.counters.get("rays", 0), without_report=check.counters.get("without_report", 0),
                          rule="every sequence of up to 3 elements of an alphabet x every source of a list, with the random generator replaced: every pair of a grid of its answers is a ray",
                          samples=check.samples)
    check.assumptions = ["a ray outside of the cone or of the field (a coefficient above 1) counts as blocked, as documented, whether or not it happens to pass",
                         "the principal and axial rays are those reported (C08 and C09 judge them)"]
