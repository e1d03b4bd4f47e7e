"""C19: every catalog lens and objective has the optics its own data state."""
import itertools
import json
import math
import os
import re
import warnings
from fractions import Fraction as F
from mc import glass, ref
from mc.core import Violation

LEVEL = "exploration"
INF = float("inf")
CATALOG = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mc", "catalog.json")))
for _d in CATALOG.values():
    for _k, _v in _d.items():
        if _v == "inf":
            _d[_k] = INF
WAVELENGTHS = (None, 0.4, 0.4861327, 0.5875618, 0.6562725, 0.855, 1.064, 1.55)


def built(make, /, *args, **kwargs):
    """The object, and the notes shown while it is made."""
    import raytracing as rt
    with warnings.catch_warnings(record=True) as shown:
        warnings.simplefilter("always")
        obj = make(*args, **kwargs)
    return obj, [str(w.message) for w in shown if issubclass(w.category, rt.utils.ExpertNote)]


def stack(d, wavelength):
    """The surfaces and glasses of a lens, as a ref spec, or None if its data give no index."""
    def index(n, mat):
        w = wavelength if wavelength is not None else d.get("wavelengthRef")
        if mat is not None and w is not None:
            return glass.index(mat, w)
        return d.get(n)
    R = lambda x: None if math.isinf(x) else x
    diameter = d["diameter"]
    if d["kind"] == "AchromatDoubletLens":
        both = d.get("mat1") is not None and d.get("mat2") is not None
        n1 = index("n1", d.get("mat1") if both else None)
        n2 = index("n2", d.get("mat2") if both else None)
        if n1 is None or n2 is None:
            return None
        return [("DI", 1, n1, R(d["R1"]), diameter), ("Space", d["tc1"], n1), ("DI", n1, n2, R(d["R2"]), diameter), ("Space", d["tc2"], n2),
                ("DI", n2, 1, R(d["R3"]), diameter)]
    n = index("n", d.get("mat"))
    if n is None:
        return None
    return [("DI", 1, n, R(d["R1"]), diameter), ("Space", d["tc"], n), ("DI", n, 1, R(d["R2"]), diameter)]


def sag(R, h):
    return 0.0 if math.isinf(R) else R*(1 - math.sqrt(1 - h*h/(R*R)))


def expectedNotes(d, total):
    """Which of focal length, back focal length and edge are missed; None for one too close to its tolerance to tell."""
    design = d["fa"] if d["kind"] == "AchromatDoubletLens" else d["f"]
    last = d["R3"] if d["kind"] == "AchromatDoubletLens" else d["R2"]
    f = INF if abs(total.C) < 1e-12 else float(-1/total.C)
    bfl = INF if abs(total.C) < 1e-12 else float(-total.A/total.C)
    h = d["diameter"]/2
    edge = float(total.L) + sag(last, h) - sag(d["R1"], h)
    out = {}
    for name, miss, tolerance in (("effective focal", abs(f/design - 1), 0.01), ("back focal", abs(bfl/d["fb"] - 1), 0.01), ("thickness", abs(edge/d["te"] - 1), 0.05)):
        out[name] = None if abs(miss - tolerance) < 1e-9*max(1, miss) else miss > tolerance
    return out


def checkNotes(notes, d, total, what):
    want = expectedNotes(d, total)
    low, high = sum(v is True for v in want.values()), sum(v is not False for v in want.values())
    if not low <= len(notes) <= high:
        raise Violation("%s warns %r, should warn about %r" % (what, notes, want))
    if all(re.search("effective focal|back focal|thickness", n) for n in notes):
        for name, v in want.items():
            count = sum(name in n for n in notes)
            if v is not None and count != int(v):
                raise Violation("%s warns %r, should warn about %r" % (what, notes, want))


def checkStack(lens, specs, what, flips=0):
    """The lens is this sequence of surfaces and gaps, turned around flips times, in all that a user can ask."""
    import raytracing as rt
    spec = ("Group", specs)
    if flips % 2:
        spec = ("Flip", spec)
    flat = ref.flatten(spec)
    total = ref.total(flat)
    if len(lens.elements) != len(flat):
        raise Violation("%s has %d elements, should have %d" % (what, len(lens.elements), len(flat)))
    for e, w in zip(lens.elements, flat):
        kind = rt.DielectricInterface if w.kind == "DI" else rt.Space
        if not isinstance(e, kind):
            raise Violation("%s has a %s where a %s should be" % (what, type(e).__name__, w.kind))
        for name, a, b in (("A", e.A, w.A), ("B", e.B, w.B), ("C", e.C, w.C), ("D", e.D, w.D), ("L", e.L, w.L), ("front index", e.frontIndex, w.n1),
                           ("back index", e.backIndex, w.n2), ("diameter", e.apertureDiameter, INF if w.diam is None else w.diam)):
            if not ref.close(a, b, 1e-6):
                raise Violation("%s: the %s of a %s is %r, should be %r" % (what, name, w.kind, a, float(b)))
        if w.kind == "DI" and not ref.close(abs(e.R) if w.steps[0] is None else e.R, INF if w.steps[0] is None else w.steps[0]):
            raise Violation("%s: the radius of a surface is %r, should be %r" % (what, e.R, w.steps[0]))
    scale = max(1, *[abs(float(x)) for x in total.abcd()])
    for name, a, b in (("A", lens.A, total.A), ("B", lens.B, total.B), ("C", lens.C, total.C), ("D", lens.D, total.D), ("L", lens.L, total.L),
                       ("frontIndex", lens.frontIndex, total.n1), ("backIndex", lens.backIndex, total.n2),
                       ("frontVertex", lens.frontVertex, total.fv), ("backVertex", lens.backVertex, total.bv)):
        if not ref.close(a, b, scale if name in "ABCD" else 1):
            raise Violation("%s: %s is %r, should be %r" % (what, name, a, float(b)))
    if abs(total.C) > 2e-5:
        f = -1/total.C
        if not all(ref.close(x, f, rel=1e-8) for x in lens.effectiveFocalLengths()):
            raise Violation("%s: the focal lengths are %r, should be %r" % (what, lens.effectiveFocalLengths(), float(f)))
        if not ref.close(lens.backFocalLength(), -total.A/total.C, f, 1e-8) or not ref.close(lens.frontFocalLength(), -total.D/total.C, f, 1e-8):
            raise Violation("%s: the back and front focal lengths are %r and %r, should be %r and %r" %
                            (what, lens.backFocalLength(), lens.frontFocalLength(), float(-total.A/total.C), float(-total.D/total.C)))
        points = sorted(p["z"] for p in lens.pointsOfInterest(10))
        want = sorted([10 + float(total.D/total.C), 10 + float(total.L - total.A/total.C)])
        if len(points) != 2 or not all(ref.close(a, b, float(f), 1e-8) for a, b in zip(points, want)):
            raise Violation("%s: the foci are drawn at %r, should be at %r" % (what, points, want))
    surfaces = [(s.R, s.n, s.L) for s in lens.surfaces]
    want = []
    for i, w in enumerate(flat):
        if w.kind == "DI":
            want.append((INF if w.steps[0] is None else float(w.steps[0]), float(w.n2), float(flat[i+1].L) if i + 1 < len(flat) else 0.0))
    if len(surfaces) != len(want) or any(not ref.close(abs(a[0]) if math.isinf(b[0]) else a[0], b[0]) or not ref.close(a[1], b[1]) or not ref.close(a[2], b[2])
                                         for a, b in zip(surfaces, want)):
        raise Violation("%s: the surfaces are %r, should be %r" % (what, surfaces, want))
    if bool(lens.isFlipped) != bool(flips % 2):
        raise Violation("%s: isFlipped is %r after %d turns" % (what, lens.isFlipped, flips))
    h = float(flat[0].diam/2)
    for y, theta in ((h*0.5, 0.0), (h*0.999999, 0.0), (h*1.000001, 0.0), (0.0, 0.01), (-h*0.25, 0.02)):
        points = ref.trace(flat, y, theta)
        out = lens.traceThrough(rt.Ray(y, theta))
        last = points[-1]
        if not ref.fragile(flat, y, theta):
            if bool(out.isBlocked) != last[3]:
                raise Violation("%s: the ray (%g, %g) is %sblocked" % (what, y, theta, "" if out.isBlocked else "not "))
            if not last[3] and not (ref.close(out.y, last[0], h) and ref.close(out.theta, last[1], 1)):
                raise Violation("%s: the ray (%g, %g) leaves at (%r, %r), should be (%r, %r)" % (what, y, theta, out.y, out.theta, float(last[0]), float(last[1])))
    if not ref.close(lens.largestDiameter, float(flat[0].diam)) or not ref.close(lens.apertureDiameter, float(flat[0].diam)):
        raise Violation("%s: the diameters are %r and %r" % (what, lens.largestDiameter, lens.apertureDiameter))
    return total


def catalogLens(shard, name, wavelength):
    import raytracing as rt
    module, cls = name.split(".")
    module = getattr(__import__("raytracing." + module), module)
    d = CATALOG[name]
    make = getattr(module, cls)
    lens, notes = built(make) if wavelength is None else built(make, wavelength=wavelength)
    specs = stack(d, wavelength)
    what = "%s at %s" % (cls, wavelength or "its wavelength")
    if not isinstance(lens, getattr(rt, d["kind"])) or lens.label != d["label"] or lens.url != d.get("url"):
        raise Violation("%s is a %s labelled %r, of %r" % (what, type(lens).__name__, lens.label, lens.url))
    total = checkStack(lens, specs, what)
    checkNotes(notes, d, total, what)
    design = d["fa"] if "fa" in d else d["f"]
    for attribute, value in [(k, v) for k, v in d.items() if isinstance(v, float) or isinstance(v, int)] + [("designFocalLength", design)]:
        if attribute in ("n", "n1", "n2", "diameter"):
            continue
        if getattr(lens, attribute) != value:
            raise Violation("%s: %s is %r, the data say %r" % (what, attribute, getattr(lens, attribute), value))
    for flips in (1, 2, 3):
        if lens.flipOrientation() is not lens:
            raise Violation("%s: turning it around does not answer the lens itself" % what)
        checkStack(lens, specs, what + ", turned around %d times" % flips, flips)
        shard.add("evaluations")
    shard.add("evaluations")
    shard.distinct((name, wavelength))
    if wavelength is None:
        if lens.wavelengthRef != d.get("wavelengthRef"):
            raise Violation("%s: the reference wavelength is %r, the data say %r" % (what, lens.wavelengthRef, d.get("wavelengthRef")))
        miss = abs(float(-1/total.C)/design - 1)
        if miss > 0.05:
            raise Violation("%s: its data give a focal length of %g, it is stated to be %g" % (cls, float(-1/total.C), design), key="stated-" + cls)


def shifts(shard, name):
    """The chromatic focal shifts are the focal lengths at each wavelength less that of the design."""
    import numpy as np
    module, cls = name.split(".")
    module = getattr(__import__("raytracing." + module), module)
    d = CATALOG[name]
    lens, _ = built(getattr(module, cls))
    grid = np.array([0.45, 0.5875618, 0.7])
    (nm, got), _ = built(lens.focalShifts, wavelengths=grid)
    design = d["fa"] if "fa" in d else d["f"]
    for w, x, g in zip(grid, nm, got):
        total = ref.total(ref.flatten(("Group", stack(d, float(w)))))
        if not ref.close(x, w*1000) or not ref.close(g, float(-1/total.C) - design, design):
            raise Violation("the focal shift of %s at %g nm is %r at %r" % (cls, w*1000, g, x))
    shard.add("evaluations")
    shard.distinct(("shifts", name))


def kinds(shard, kind):
    import raytracing as rt
    for name in CATALOG:
        __import__("raytracing." + name.split(".")[0])
    cls = getattr(rt, kind)
    listed = cls.all() if hasattr(cls, "all") else [c.__name__ for c in cls.__subclasses__()]
    names = [c if isinstance(c, str) else c.__name__ for c in listed]
    for name, d in CATALOG.items():
        if d["kind"] == kind and names.count(name.split(".")[1]) < 1:
            raise Violation("%s is not listed among the %s" % (name, kind))
    shard.add("evaluations")


# ---------------------------------------------------------------- lenses built by the user
def userLens(shard, kind, parameters, flips):
    """parameters: geometry, glasses, and how far the stated focal lengths and edge are from the real ones."""
    import raytracing as rt
    import raytracing.materials as M
    geometry, glasses, offsets = parameters
    d = dict(kind=kind, **geometry)
    d.update(glasses)
    wavelength = d.pop("wavelength", None)
    specs = stack(d, wavelength)
    arguments = {k: v for k, v in d.items() if k != "kind"}
    for k in ("mat", "mat1", "mat2"):
        if d.get(k) is not None:
            arguments[k] = getattr(M, d[k])() if flips % 2 else getattr(M, d[k])
    if wavelength is not None:
        arguments["wavelength"] = wavelength
    if kind == "SingletLens" and "n" not in arguments:
        arguments["n"] = None
    first, last = d["R1"], d["R3"] if kind == "AchromatDoubletLens" else d["R2"]
    design = "fa" if kind == "AchromatDoubletLens" else "f"
    if specs is None:
        arguments.update({design: 10, "fb": 10, "te": 3})
        try:
            lens, _ = built(getattr(rt, kind), **arguments)
        except ValueError:
            shard.add("evaluations")
            return
        raise Violation("a lens without indices is accepted")
    total = ref.total(ref.flatten(("Group", specs)))
    h = d["diameter"]/2
    if abs(total.C) < 1e-12:
        stated = {design: 50.0, "fb": 50.0}
    elif abs(total.C) < 2e-5 or abs(total.A) < 1e-9:
        return
    else:
        stated = {design: float(-1/total.C)*(1 + offsets[0]), "fb": float(-total.A/total.C)*(1 + offsets[1])}
    edge = float(total.L) + sag(last, h) - sag(first, h)
    if abs(edge) < 1e-6:
        return
    stated["te"] = edge*(1 + offsets[2])
    d.update(stated)
    arguments.update(stated)
    arguments["label"] = "mine"
    lens, notes = built(getattr(rt, kind), **arguments)
    what = "%s(%r)" % (kind, arguments)
    if lens.label != "mine" or lens.designFocalLength != stated[design]:
        raise Violation("%s: the label or design is not kept" % what)
    checkStack(lens, specs, what)
    checkNotes(notes, d, total, what)
    for i in range(flips):
        lens.flipOrientation()
        checkStack(lens, specs, what, i + 1)
    shard.add("evaluations")
    shard.distinct(repr(arguments))


def compound(shard, specs, flips):
    import raytracing as rt
    lens, notes = built(rt.CompoundLens, [ref.real(s) for s in specs], 50, diameter=specs[0][4], label="mine")
    for i in range(flips + 1):
        if i:
            lens.flipOrientation()
        checkStack(lens, specs, "CompoundLens(%r)" % (specs,), i)
    if notes:
        raise Violation("a compound lens warns: %r" % notes)
    shard.add("evaluations")
    shard.distinct(("compound", tuple(specs), flips))


# ---------------------------------------------------------------- objectives
def objective(shard, d, make, flips):
    import raytracing as rt
    o, notes = built(make)
    f, NA, length, back, wd = (d[k] for k in ("f", "NA", "focusToFocusLength", "backAperture", "workingDistance"))
    what = "objective %r, turned around %d times" % (d, flips)
    if not notes:
        raise Violation("%s: no note that it is approximate" % what)
    for _ in range(flips):
        if o.flipOrientation() is not o:
            raise Violation("%s: turning it around does not answer the objective itself" % what)
    turned = flips % 2
    for name, a, b, s in (("A", o.A, 0, 1), ("B", o.B, f, f), ("C", o.C, -1/f, 1/f), ("D", o.D, 0, 1), ("L", o.L, length, length)):
        if not ref.close(a, b, s):
            raise Violation("%s: %s is %r, should be %r" % (what, name, a, b))
    vertices = (0, length - wd) if not turned else (wd, length)
    if not ref.close(o.frontVertex, vertices[0], length) or not ref.close(o.backVertex, vertices[1], length):
        raise Violation("%s: the vertices are %r and %r, should be %r" % (what, o.frontVertex, o.backVertex, vertices))
    if not all(ref.close(x, f) for x in o.effectiveFocalLengths()):
        raise Violation("%s: the focal lengths are %r" % (what, o.effectiveFocalLengths()))
    bfl, ffl = (wd, 0) if not turned else (0, wd)
    if not ref.close(o.backFocalLength(), bfl, f) or not ref.close(o.frontFocalLength(), ffl, f):
        raise Violation("%s: the back and front focal lengths are %r and %r, should be %r and %r" % (what, o.backFocalLength(), o.frontFocalLength(), bfl, ffl))
    points = {p["label"].strip("$"): p["z"] for p in o.pointsOfInterest(7)}
    want = {"F_b": 7 + (length if turned else 0), "F_f": 7 + (0 if turned else length)}
    if points.keys() != want.keys() or any(not ref.close(points[k], want[k]) for k in want):
        raise Violation("%s: the foci are at %r, should be at %r" % (what, points, want))
    for k, v in d.items():
        if k not in ("kind", "url", "label") and getattr(o, k) != v:
            raise Violation("%s: %s is %r" % (what, k, getattr(o, k)))
    if not ref.close(o.frontAperture, 2*NA*wd) or o.apertureDiameter != back:
        raise Violation("%s: the apertures are %r and %r" % (what, o.frontAperture, o.apertureDiameter))
    # rays from and to the focus on the sample side
    for angle in (NA*(1 - 1e-6), NA*(1 + 1e-6), back/2/f*(1 - 1e-6), back/2/f*(1 + 1e-6), NA/2, 0, min(NA, back/2/f)*2):
        for sign in (1, -1):
            passes = angle <= NA and angle*f <= back/2
            if turned:
                out = o.traceThrough(rt.Ray(0, sign*angle))
                wanted = (sign*angle*f, 0)
            else:
                out = o.traceThrough(rt.Ray(sign*angle*f, 0))
                wanted = (0, -sign*angle)
            if bool(out.isBlocked) == passes:
                raise Violation("%s: the ray of angle %g on the sample side is %sblocked" % (what, sign*angle, "" if out.isBlocked else "not "))
            if passes and not (ref.close(out.y, wanted[0], f) and ref.close(out.theta, wanted[1], 1)):
                raise Violation("%s: the ray of angle %g on the sample side gives (%r, %r)" % (what, sign*angle, out.y, out.theta))
    if d.get("magnification") and d.get("fieldNumber"):
        if not ref.close(o.maximumOpticalInvariant(), d["fieldNumber"]/2/d["magnification"]*NA):
            raise Violation("%s: the largest invariant is %r" % (what, o.maximumOpticalInvariant()))
    else:
        try:
            got = o.maximumOpticalInvariant()
        except AttributeError:
            pass
        else:
            raise Violation("%s: the largest invariant is %r without a magnification" % (what, got))
    # in a system, focus to focus: a 4f image through the objective and a tube lens
    tube = 180
    system = [rt.Space(tube), rt.Lens(tube), rt.Space(tube), o] if not turned else [o, rt.Space(tube), rt.Lens(tube), rt.Space(tube)]
    m = rt.MatrixGroup(system)
    want = (-f/tube, 0, 0, -tube/f) if not turned else (-tube/f, 0, 0, -f/tube)
    if not all(ref.close(a, b, tube) for a, b in zip((m.A, m.B, m.C, m.D), want)):
        raise Violation("%s with a tube lens gives %r, should be %r" % (what, (m.A, m.B, m.C, m.D), want))
    shard.add("evaluations")
    shard.distinct(("objective", tuple(sorted((k, v) for k, v in d.items() if k not in ("url",))), flips))


def worker(shard):
    import raytracing as rt

    def plan():
        lenses = [n for n in CATALOG if CATALOG[n]["kind"] != "Objective"]
        wavelengths = WAVELENGTHS + (tuple(x/40 for x in range(17, 81, 3)) if shard.thorough else ())
        for name in lenses:
            for w in wavelengths:
                yield (name, w), catalogLens, (name, w)
            yield ("shifts", name), shifts, (name,)
        for kind in ("AchromatDoubletLens", "SingletLens", "CompoundLens", "Objective"):
            yield ("list", kind), kinds, (kind,)

        offsets = list(itertools.product((0, 0.0098, -0.0098, 0.0103, -0.0103, -2), (0, 0.0098, 0.0103, -2), (0, 0.045, -0.045, 0.055, -0.055)))
        few = [offsets[0], (0.02, 0, 0), (0, -0.02, 0), (0, 0, 0.1), (-2, -2, -2)]
        indices = [dict(n1=1.5, n2=1.7), dict(mat1="N_BK7", mat2="SF5", wavelengthRef=0.5876), dict(mat1="N_BK7", mat2="SF5", wavelength=0.8),
                   dict(mat1="N_SF11", mat2="N_BK7", wavelength=0.8, wavelengthRef=0.5), dict(n1=1.4, n2=1.6, mat1="N_BK7", mat2="SF5", wavelengthRef=0.5876),
                   dict(n1=1.4, n2=1.6, mat1="N_BK7", mat2="SF5"), dict(mat1="N_BK7", mat2="SF5"), dict(n1=1.5), dict(n1=1.5, n2=1.7, mat1="N_BK7", wavelength=0.5)]
        radii = (20.0, -30.0, 60.0, INF, -15.0)
        for R1, R2, R3, tc1, tc2, diameter in itertools.product(radii, (-20.0, 30.0, INF), radii, (3.0, 8.0), (2.0,), (10.0, 25.4)):
            geometry = dict(R1=R1, R2=R2, R3=R3, tc1=tc1, tc2=tc2, diameter=diameter)
            for g in (indices if (tc1, diameter) == (3.0, 10.0) or shard.thorough else indices[:1]):
                for o in few:
                    yield ("doublet", geometry, g, o), userLens, ("AchromatDoubletLens", (geometry, g, o), 1 + (R1 < 0))
        for o in offsets:
            for R1, R3 in ((20.0, -60.0), (-30.0, 20.0), (INF, -15.0), (60.0, INF)):
                geometry = dict(R1=R1, R2=-20.0, R3=R3, tc1=3.0, tc2=2.0, diameter=10.0)
                yield ("doublet", geometry, o), userLens, ("AchromatDoubletLens", (geometry, indices[0], o), 0)
        indices1 = [dict(n=1.5), dict(mat="N_BK7", wavelengthRef=0.5876), dict(mat="N_BK7", wavelength=1.2), dict(mat="SF5", wavelength=0.8, wavelengthRef=0.5),
                    dict(n=1.4, mat="N_BK7", wavelengthRef=0.5876), dict(n=1.4, mat="N_BK7"), dict(mat="N_BK7"), dict()]
        for R1, R2, tc, diameter in itertools.product(radii, radii, (1.0, 3.0, 8.0), (10.0, 25.4)):
            geometry = dict(R1=R1, R2=R2, tc=tc, diameter=diameter)
            for g in indices1:
                for o in few:
                    yield ("singlet", geometry, g, o), userLens, ("SingletLens", (geometry, g, o), 1 + (R1 < 0))
        for o in offsets:
            for R1, R2 in ((20.0, -60.0), (-30.0, 20.0), (INF, -15.0), (60.0, INF), (INF, INF)):
                geometry = dict(R1=R1, R2=R2, tc=3.0, diameter=10.0)
                yield ("singlet", geometry, o), userLens, ("SingletLens", (geometry, indices1[0], o), 0)
        # compound lenses of two to five surfaces
        for n in (1, 2, 3, 4):
            for choice in itertools.product(((1.5, 20.0, 2.0), (1.75, -30.0, 1.0), (1.6, None, 4.0), (1.0, 25.0, 0.5)), repeat=n):
                specs, before = [], 1
                for index, R, t in choice:
                    specs += [("DI", before, index, R, 12.0), ("Space", t, index)]
                    before = index
                specs.append(("DI", before, 1, -40.0, 12.0))
                yield ("compound", choice), compound, (specs, 3)
        for name, d in CATALOG.items():
            if d["kind"] == "Objective":
                module, cls = name.split(".")
                for flips in range(5):
                    make = (lambda module=module, cls=cls: getattr(getattr(__import__("raytracing." + module), module), cls)())
                    yield ("objective", name, flips), objective, (d, make, flips)
        for f, NA, wd, extra, back, mag in itertools.product((4.5, 9, 45.0), (0.1, 0.5, 1.05), (0.5, 2, 3.5), (0, 10, 61.5), (3, 9, 30), (None, (20, 22))):
            d = dict(f=f, NA=NA, focusToFocusLength=2*f + extra, backAperture=back, workingDistance=wd)
            if mag:
                d.update(magnification=mag[0], fieldNumber=mag[1])
            for flips in ((0, 1, 2) if shard.thorough or mag else (0, 1)):
                yield ("objective", d, flips), objective, (d, (lambda d=d: rt.Objective(**d)), flips)

    for case, f, args in shard.mine(plan()):
        if shard.full(): return
        shard.run(case, f, shard, *args)
        shard.sample(case)


def run(check):
    check.sharded(worker)
    check.coverage = dict(evaluations=check.counters.get("evaluations", 0), distinct_nontrivial=len(check.hashes), exhaustive=True,
                          rule="each of the %d classes of the catalogs at %d wavelengths, turned around 0 to 3 times; every doublet, singlet and compound "
                               "lens of a grid of radii, thicknesses, diameters, glasses and misses of the stated lengths; every objective of the "
                               "catalogs and of a grid, turned around 0 to 4 times" % (len(CATALOG), 30 if check.thorough else len(WAVELENGTHS)),
                          samples=check.samples)
    check.assumptions = ["the data of the catalog lenses are those of the pinned tree (mc/catalog.json); the vendors' data sheets are not available here",
                         "indices from the published dispersion in mc/glass.py"]
