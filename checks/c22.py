"""C22: a figure draws the rays, images and elements of the system, whatever was displayed before."""
import itertools
import math
import os
from fractions import Fraction as F
from mc import observe, ref
from mc.core import Violation

LEVEL = "exploration"
INF = float("inf")
COLORS = dict(rayColors=["#110000", "#120000", "#130000"], lampRayColors=["#140000", "#141400"], imageColor="#150000", objectColor="#160000",
              FOVColors=["#170000", "#180000"])
BAR = (0.7, 0.7, 0.7)
FAR = 1e5


class Drawing:
    """What one call has drawn, in data units: lines, shapes and texts that can be seen."""

    def __init__(self, figure):
        from matplotlib import colors
        import numpy as np
        rgb = lambda c: tuple(round(float(v), 4) for v in colors.to_rgb(c))
        axes = figure.axes[0]
        self.title, self.lines, self.markers, self.shapes, self.arrows = axes.get_title(), [], [], [], []
        for l in axes.lines:
            if not l.get_visible():
                continue
            xy = [(float(x), float(y)) for x, y in zip(l.get_xdata(), l.get_ydata())]
            if l.get_marker() not in (None, "None", "", " "):
                self.markers += xy
            else:
                self.lines.append((rgb(l.get_color()), l.get_linestyle(), xy))
        for p in axes.patches:
            if not p.get_visible():
                continue
            if hasattr(p, "_posA_posB"):
                self.arrows.append(tuple(tuple(float(v) for v in end) for end in p._posA_posB))
                continue
            m = p.get_transform() + axes.transData.inverted()
            # the vertices of curves included, but not the control points in between
            path = p.get_path()
            xy = m.transform(np.asarray(path.vertices, dtype=float))
            keep, i, codes = [], 0, path.codes
            while i < len(codes):
                if codes[i] == path.CURVE3:
                    keep.append(i + 1)
                    i += 2
                else:
                    keep.append(i)
                    i += 1
            self.shapes.append((rgb(p.get_edgecolor()), bool(p.get_fill()), [(float(xy[k][0]), float(xy[k][1])) for k in keep]))
        self.texts = [(t.get_text(), tuple(float(v) for v in t.get_position())) for t in axes.texts if t.get_visible()]

    def canon(self):
        return observe.canon([self.title, self.lines, self.markers, self.shapes, self.arrows, self.texts])

    def colored(self, color):
        from matplotlib import colors
        c = tuple(round(float(v), 4) for v in colors.to_rgb(color))
        return [s for s in self.shapes if s[0] == c]


def draw(f, *args, **kwargs):
    """The drawing made by a call; nothing is shown or saved."""
    import matplotlib.figure
    import matplotlib.pyplot as plt
    caught = []
    show, save = plt.show, matplotlib.figure.Figure.savefig
    plt.close("all")
    try:
        plt.show = lambda *a, **k: caught.append(Drawing(plt.figure(plt.get_fignums()[-1])))
        matplotlib.figure.Figure.savefig = lambda self, *a, **k: caught.append(Drawing(self))
        f(*args, **kwargs)
    finally:
        plt.show, matplotlib.figure.Figure.savefig = show, save
        plt.close("all")
    if len(caught) != 1:
        raise Violation("%d figures are shown" % len(caught))
    return caught[0]


# ---------------------------------------------------------------- sources
def source(spec):
    """("Object", diameter, halfAngle, H, T, z), ("Lamp", diameter, N, random z), ("Uniform", ...), ("List", rays)."""
    import raytracing as rt
    kind = spec[0]
    if kind == "Object":
        return rt.ObjectRays(spec[1], halfAngle=spec[2], H=spec[3], T=spec[4], z=spec[5])
    if kind == "Lamp":
        return rt.LampRays(spec[1], NA=spec[2], N=spec[3], T=2, z=spec[4])
    if kind == "Uniform":
        return rt.UniformRays(yMax=spec[1], thetaMax=spec[2], M=3, N=3)
    return [rt.Ray(y, t) for y, t in spec[1]]


def raysOf(spec, made):
    if spec[0] == "Object":
        ys = [-spec[1]/2 + spec[1]*i/(spec[3] - 1) for i in range(spec[3])] if spec[3] > 1 else [None]
        ts = [-spec[2] + 2*spec[2]*i/(spec[4] - 1) for i in range(spec[4])] if spec[4] > 1 else [None]
        if ys != [None] and ts != [None]:
            return [(y, t) for y in ys for t in ts]
    return [(r.y, r.theta) for r in (made if isinstance(made, list) else list(made))]


def place(spec):
    return {"Object": 5, "Lamp": 4}.get(spec[0]) and spec[{"Object": 5, "Lamp": 4}[spec[0]]] or 0


def halves(word, z):
    """The flattened systems to cross from depth z, forwards and backwards (the latter turned around)."""
    kids = ref.children(word)
    if z == 0:
        return [(1, [e for k in kids for e in k])]
    at = F(0)
    for i, k in enumerate(kids):
        e = ref.total(k)
        if ref.isSpace(word[i]) and at < z < at + e.L:
            n, frac = k[0].n1, F(z) - at
            forward = [ref.single(("Space", e.L - frac, n))] + [x for kk in kids[i+1:] for x in kk]
            backward = [ref.single(("Space", frac, n))] + [ref.flip(x) for kk in reversed(kids[:i]) for x in reversed(kk)]
            return [(1, forward), (-1, backward)]
        at += e.L
    raise ValueError(z)


def squeeze(points):
    out = []
    for p in points:
        p = (float(p[0]), float(p[1]))
        if not out or not (ref.close(p[0], out[-1][0]) and ref.close(p[1], out[-1][1])):
            out.append(p)
    return out


def polylines(word, rays, z, removeBlocked):
    """(line, whether rounding may change what is blocked) for each ray of a source, from the rational model."""
    out = []
    for direction, flat in halves(word, z):
        for y, theta in rays:
            points = ref.trace(flat, y, theta)
            fragile = ref.fragile(flat, y, theta)
            line = [(z + direction*p[2], p[0]) for p in points if not p[3]]
            if removeBlocked and any(p[3] for p in points):
                line = []
            if line or fragile:
                out.append((squeeze(line), fragile, y))
    return out


def sameLine(a, b):
    return len(a) == len(b) and all(ref.close(p[0], q[0], 10, 1e-7) and ref.close(p[1], q[1], 10, 1e-7) for p, q in zip(a, b))


def matchLines(drawn, expected, what):
    left = [squeeze(l[2]) for l in drawn]
    uncertain = sum(e[1] for e in expected)
    for line, fragile, _ in expected:
        hit = [i for i, l in enumerate(left) if sameLine(l, line)]
        if hit:
            left.pop(hit[0])
            uncertain -= fragile
        elif not fragile:
            raise Violation("%s: the ray along %r is not drawn" % (what, [tuple(round(v, 6) for v in p) for p in line]))
    if len(left) > uncertain:
        raise Violation("%s: a line is drawn along %r, where no ray goes" % (what, left[0]))


class Either(float):
    """A position where an image may be drawn or not: that of its own object."""


def planes(word, z):
    """(position, magnification) of the images of depth z."""
    out = []
    for direction, flat in halves(word, z):
        for i in range(1, len(flat) + 1):
            p = ref.total(flat[:i])
            if p.D != 0:
                d = -p.B/p.D
                own = abs(p.L + d) <= F(1, 10**6)
                out.append(((Either if own else float)(z + direction*float(p.L + d)), float(p.A + d*p.C)))
    return out


def arrow(shape):
    """(x, y of its base, y of its tip) of an arrow."""
    xs, ys = [p[0] for p in shape[2]], [p[1] for p in shape[2]]
    x, low, high = (min(xs) + max(xs))/2, min(ys), max(ys)
    widest = [p[1] for p in shape[2] if abs(p[0] - x) > 0.999*(max(xs) - x)]
    head = sum(widest)/len(widest)
    return (x, low, high) if high - head < head - low else (x, high, low)


def matchArrows(shapes, expected, what):
    """Arrows of given sizes at given places; far ones and those too small to be seen are not judged."""
    def near(a, b):
        return abs(a[0] - b[0]) <= 1e-6*max(10, abs(b[0])) and all(abs(a[i] - s*b[1]/2) <= 1e-6*max(10, abs(b[1])) for i, s in ((1, -1), (2, 1)))
    drawn = [arrow(s) for s in shapes]
    judged = lambda x, size: abs(x) < FAR and 1e-3 < abs(size) < FAR
    for x, size in expected:
        if judged(x, size) and not isinstance(x, Either) and not any(near(a, (x, size)) for a in drawn):
            raise Violation("%s of size %g at %g is not drawn, but %r" % (what, size, x, drawn))
    for a in drawn:
        if judged(a[0], a[2] - a[1]) and not any(near(a, e) for e in expected):
            raise Violation("%s is drawn at %g, from %g to %g, expected are %r" % ((what,) + a + (expected,)))
    distinct = []
    for e in expected:
        if judged(*e) and not isinstance(e[0], Either) and not any(abs(e[0] - d[0]) < 1e-3*max(1, abs(e[0])) and abs(e[1] - d[1]) < 1e-3*max(1, abs(e[1])) for d in distinct):
            distinct.append(e)
    count = sum(judged(a[0], a[2] - a[1]) for a in drawn)
    if count < len(distinct):
        raise Violation("%d of %s are drawn, there are %d" % (count, what, len(distinct)))


# ---------------------------------------------------------------- elements
def bars(drawing, x0, x1, half, what):
    """Bars at the rim of an opening that extends from x0 to x1."""
    for s in drawing.colored(BAR):
        xs, ys = [p[0] for p in s[2]], [p[1] for p in s[2]]
        if abs(max(ys) - half) < 1e-6*max(1, half) and abs(min(ys) + half) < 1e-6*max(1, half):
            if x1 - x0 > 0.011 and abs(min(xs) - x0) < 1e-6 and abs(max(xs) - x1) < 1e-6:
                return
            if x1 - x0 <= 0.011 and min(xs) - 1e-6 <= x0 and max(xs) + 1e-6 >= x1 and abs((min(xs) + max(xs))/2 - x0) < 0.01:
                return
    raise Violation("%s: no rim at +-%g from %g to %g, rims are %r" % (what, half, x0, x1, [s[2] for s in drawing.colored(BAR)]))


def hasPoints(drawing, wanted, what):
    """Some shape goes through all of these points."""
    for s in drawing.shapes:
        if s[0] != BAR and all(any(abs(p[0] - w[0]) < 1e-6*max(1, abs(w[0])) and abs(p[1] - w[1]) < 1e-6*max(1, abs(w[1])) for p in s[2]) for w in wanted):
            return
    raise Violation("%s: no shape goes through %r" % (what, wanted))


def edge(R, h):
    R = INF if R is None else float(R)
    if math.isinf(R):
        return 0.0
    return R*(1 - math.sqrt(1 - (h/R)**2)) if h <= abs(R) else R


def elements(drawing, word, what):
    """Each element is where it is, of the size it has."""
    flat = []
    z = F(0)
    for s, k in zip(word, ref.children(word)):
        if s[0] in ("Group", "4f", "2f", "Flip") and len(k) != 1:
            pass
        for e in k:
            flat.append((e, float(z)))
            z += e.L
    for e, z in flat:
        h = float(e.diam/2) if e.diam is not None else 4.0
        name = "%s: %s at %g" % (what, e.kind, z)
        if e.kind == "Lens":
            if e.diam is not None:
                bars(drawing, z, z, h, name)
            if not any(abs((min(p[0] for p in s[2]) + max(p[0] for p in s[2]))/2 - z) < 1e-6 and abs(max(p[1] for p in s[2]) + min(p[1] for p in s[2])) < 1e-6
                       and (abs(max(p[1] for p in s[2]) - h) < 1e-6 if e.diam is not None else max(p[1] for p in s[2]) > h - 1e-6)
                       for s in drawing.colored("k")):
                raise Violation("%s is not drawn" % name)
        elif e.kind == "Aperture" and e.diam is not None:
            bars(drawing, z, z, h, name)
        elif e.kind in ("DI", "Mirror"):
            R = e.steps[0] if e.kind == "DI" else 2/e.C
            hasPoints(drawing, [(z + edge(R, h), -h), (z, 0), (z + edge(R, h), h)] if e.kind == "Mirror" or R is not None else [(z, -h), (z, h)], name)
        elif e.kind in ("Thick", "Slab"):
            R1, R2 = e.steps[1:]
            L = float(e.L)
            front, back = z + edge(R1, h), z + L + edge(R2, h)
            wanted = [(front, -h), (front, h), (back, -h), (back, h)]
            if R1 is not None:
                wanted.append((z, 0))
            if R2 is not None:
                wanted.append((z + L, 0))
            hasPoints(drawing, wanted, name)
            bars(drawing, front, back, h, name)
        elif e.kind == "Matrix":
            hasPoints(drawing, [(z, -h), (z, h), (z + float(e.L), h), (z + float(e.L), -h)], name)
            if e.diam is not None:
                bars(drawing, z, z + float(e.L), h, name)


def foci(word):
    """Positions on the axis of the focal points of the elements and groups that show them."""
    out, z = [], F(0)
    for s, k in zip(word, ref.children(word)):
        t = ref.total(k)
        inner = s
        while inner[0] == "Flip":
            inner = inner[1]
        if inner[0] in ("Lens", "Mirror", "Thick") and abs(t.C) > 2e-5:
            # front focus: D/C in front, of the matrix without the media; back focus: A/C behind
            out += [float(z + t.D/t.C), float(z + t.L - t.A/t.C)]
        z += t.L
    return out


# ---------------------------------------------------------------- one display
def build(word, design=True, label="mine", **attributes):
    import raytracing as rt
    path = rt.ImagingPath([ref.real(s) for s in word], label=label)
    for k, v in attributes.items():
        setattr(path, k, v)
    if design:
        path.design(**COLORS)
    return path


def optics(path):
    import raytracing as rt
    return observe.canon([path, path.objectHeight, path.objectPosition, path.label, path.fanAngle, path.fanNumber, path.rayNumber, path.showImages,
                          path.showObject, path.showEntrancePupil, path.showElementLabels, path.showPointsOfInterest])


ANSWERS = {}


def answers(word):
    """Stops, pupil and rays of a path never displayed."""
    if repr(word) not in ANSWERS:
        path = build(word, design=False)
        ANSWERS[repr(word)] = path.apertureStop(), path.fieldStop(), path.entrancePupil(), path.principalRay(), path.axialRay()
    return ANSWERS[repr(word)]


def display(shard, word, sources, options, attributes):
    path = build(word, **attributes)
    made = [source(s) for s in sources]
    before, raysBefore = optics(path), observe.canon(made)
    arguments = dict(options)
    form = arguments.pop("form", "list")
    if form == "rays" and len(made) == 1:
        arguments["rays"] = made[0]
    elif form == "both" and len(made) > 1:
        arguments.update(rays=made[-1], raysList=made[:-1])
    else:
        arguments["raysList"] = list(made)
    saving = arguments.pop("save", False)
    d = draw(path.saveFigure, "nowhere.png", **arguments) if saving else draw(path.display, interactive=arguments.pop("interactive", False), **arguments)
    if optics(path) != before or observe.canon(made) != raysBefore:
        raise Violation("displaying changed the path or its rays")
    if d.title != path.label:
        raise Violation("the title is %r" % d.title)
    removeBlocked = options.get("removeBlocked", True)
    kinds = {s[0] for s in sources}
    colors = {}
    expected = []
    for s, m in zip(sources, made):
        lines = polylines(word, raysOf(s, m), place(s), removeBlocked)
        expected.append((s, lines))
    from matplotlib import colors as mc
    rgb = lambda c: tuple(round(float(v), 4) for v in mc.to_rgb(c))
    palette = {"Lamp": COLORS["lampRayColors"]}
    for group in set(tuple(palette.get(s[0], COLORS["rayColors"])) for s, _ in expected):
        if "Lamp" in kinds and group == tuple(COLORS["rayColors"]):
            continue        # rays of an object are there, but may be hidden, when a lamp is also displayed
        wanted = [l for s, ls in expected for l in ls if tuple(palette.get(s[0], COLORS["rayColors"])) == group]
        drawn = [l for l in d.lines if l[0] in [rgb(c) for c in group]]
        if group == tuple(COLORS["rayColors"]) and "Object" not in kinds:
            # the default object is also displayed: what is there must be rays of the path from its height
            drawn = defaults(word, drawn, wanted, removeBlocked)
        matchLines(drawn, wanted, "from %r" % (sources,))
        byHeight = {}
        if sum(tuple(palette.get(s[0], COLORS["rayColors"])) == group for s, _ in expected) == 1 and "Object" in kinds | {"Object"} and drawn is not None:
            for l in drawn:
                byHeight.setdefault(round(l[2][0][1], 6), set()).add(l[0])
            if any(len(c) > 1 for c in byHeight.values()):
                raise Violation("rays from the same height have different colors")
    if "Lamp" not in kinds and "Object" in kinds:
        showObject, showImages = attributes.get("showObject", True), attributes.get("showImages", True)
        objects = [(s[5], s[1]) for s in sources if s[0] == "Object"]
        matchArrows(d.colored(COLORS["objectColor"]), objects if showObject else [], "an object")
        images = [(x, m*size) for z, size in objects for x, m in planes(word, z)]
        matchArrows(d.colored(COLORS["imageColor"]), images if showImages else [], "an image")
        shard.add("planes", len(images))
    for s in sources:
        if s[0] == "Lamp":
            if not any(abs(max(p[1] for p in l[2]) - s[1]/2) < 1e-6 and abs(min(p[1] for p in l[2]) + s[1]/2) < 1e-6 and
                       abs((max(p[0] for p in l[2]) + min(p[0] for p in l[2]))/2 - s[4]) < 1e-6 for l in d.colored("y")):
                raise Violation("the lamp at %g of diameter %g is not drawn" % (s[4], s[1]))
    common(d, word, attributes)
    shard.add("evaluations")
    shard.add("lines", sum(len(ls) for _, ls in expected))
    shard.distinct((repr(word), repr(sources), repr(options), repr(attributes)))


def defaults(word, drawn, wanted, removeBlocked):
    """Take out of the lines drawn those of the default object, which are those that are no ray of the sources."""
    rest = []
    left = [w for w in wanted]
    for l in drawn:
        s = squeeze(l[2])
        hit = [i for i, w in enumerate(left) if sameLine(s, w[0])]
        if hit:
            left.pop(hit[0])
            rest.append(l)
        else:
            follows(word, s, removeBlocked)
    return rest


def follows(word, line, removeBlocked, what="a line"):
    """A line from the first plane is the trace of some ray of the system."""
    (flat,) = [f for _, f in halves(word, 0)]
    if abs(line[0][0]) > 1e-9:
        raise Violation("%s starts at %g" % (what, line[0][0]))
    y, gap = F(line[0][1]), F(0)
    if len(line) == 1:
        return line[0][1], None
    if line[1][0] <= 0:
        raise Violation("%s goes backwards: %r" % (what, line))
    # the slope from the first gap, whatever comes before it without thickness
    m = ref.IDENT
    for e in flat:
        if e.dev is not None or (e.L != 0 and e.kind != "Space"):
            return line[0][1], None
        if e.L > 0:
            break
        m = ref.mul(e.abcd(), m)
    slope = (F(line[1][1]) - F(line[0][1]))/F(line[1][0])
    if m[3] == 0:
        return line[0][1], None
    theta = (slope - m[2]*y)/m[3]
    points = ref.trace(flat, y, theta)
    if ref.fragile(flat, y, theta):
        return line[0][1], theta
    want = squeeze([(p[2], p[0]) for p in points if not p[3]])
    if removeBlocked and any(p[3] for p in points):
        raise Violation("%s is the ray (%g, %g), which is blocked" % (what, y, theta))
    if len(line) != len(want) or not all(ref.close(p[0], q[0], 10, 1e-6) and ref.close(p[1], q[1], 10, 1e-6) for p, q in zip(line, want)):
        raise Violation("%s goes along %r, the ray goes along %r" % (what, line, want))
    return line[0][1], float(theta)


def common(d, word, attributes):
    """What every figure of a path shows: its elements, stops, pupil and focal points."""
    elements(d, word, "elements")
    stop, field, pupil, _, _ = answers(word)
    texts = [t for t, _ in d.texts]
    if attributes.get("showPointsOfInterest", True):
        for name, position in (("AS", stop[0]), ("FS", field[0])):
            if texts.count(name) != (position is not None):
                raise Violation("%s is written %d times, the stop is at %r" % (name, texts.count(name), position))
        for x in foci(word):
            if abs(x) < FAR and not any(abs(x - m[0]) < 1.1e-3*max(1, abs(x)) and m[1] == 0 for m in d.markers):
                raise Violation("the focal point at %g is not marked, marks are at %r" % (x, d.markers))
    elif "AS" in texts or "FS" in texts:
        raise Violation("stops are shown although points of interest are not")
    if attributes.get("showEntrancePupil") and pupil[0] is not None and abs(pupil[0]) < FAR and pupil[1] < FAR:
        bars(d, pupil[0], pupil[0], pupil[1]/2, "the entrance pupil")


def unasked(shard, word, options, attributes):
    """Without sources: the principal and axial rays, or the default object."""
    path = build(word, **attributes)
    before = optics(path)
    d = draw(path.display, interactive=False, **options)
    if optics(path) != before:
        raise Violation("displaying changed the path")
    common(d, word, attributes)
    stop, field, pupil, principal, axial = answers(word)
    fresh = build(word, **attributes)
    from matplotlib import colors as mc
    rgb = lambda c: tuple(round(float(v), 4) for v in mc.to_rgb(c))
    drawn = [l for l in d.lines if l[0] in [rgb(c) for c in COLORS["rayColors"]]]
    removeBlocked = options.get("removeBlocked", True)
    if options.get("onlyPrincipalAndAxialRays", True) and stop[0] is not None and principal is not None:
        rays = [(r.y, r.theta) for r in (principal, axial) if r is not None]
        if removeBlocked:
            # these rays graze the rim of the stops: they may be blocked by rounding
            pass
        matchLines(drawn, [(l[0], True, l[2]) if not l[0] else (l[0], l[1], l[2]) for l in polylines(word, rays, 0, removeBlocked)], "principal and axial rays")
        matchArrows(d.colored(COLORS["FOVColors"][0]), [(0, 2*principal.y)], "the field of view")
        matchArrows(d.colored(COLORS["FOVColors"][1]), [(x, 2*principal.y*m) for x, m in planes(word, 0)], "an image of the field of view")
        if d.colored(COLORS["objectColor"]) or d.colored(COLORS["imageColor"]):
            raise Violation("an object is shown with the field of view")
        shard.add("fields")
    else:
        fov = fresh.fieldOfView()
        height = fresh.objectHeight
        limited = options.get("limitObjectToFieldOfView", "objectHeight" not in attributes)
        if limited and fov != INF:
            height = fov
        heights = {}
        for l in drawn:
            y, theta = follows(word, squeeze(l[2]), removeBlocked)
            heights.setdefault(round(y, 6), []).append(theta)
            if min(abs(y - k*height/2) for k in (-1, 0, 1)) > 1e-6*max(1, height):
                raise Violation("a ray starts at %g, the object is %g high" % (y, height))
        if not removeBlocked and len(heights) != 3 and height > 1e-6:
            raise Violation("rays start at %r, the object is %g high" % (sorted(heights), height))
        matchArrows(d.colored(COLORS["objectColor"]), [(0, height)] if attributes.get("showObject", True) else [], "the object")
        matchArrows(d.colored(COLORS["imageColor"]), [(x, height*m) for x, m in planes(word, 0)] if attributes.get("showImages", True) else [], "an image")
        shard.add("objects")
    shard.add("evaluations")
    shard.distinct((repr(word), repr(options), repr(attributes)))


def colored(shard, word, diameter, rayColors, color, lamp, design, z):
    """The colors and fills asked for."""
    import raytracing as rt
    from matplotlib import colors as mc
    rgb = lambda c: tuple(round(float(v), 4) for v in mc.to_rgb(c))
    path = build(word)
    path.design(**design)
    settings = dict(COLORS, fillObject=True, fillImage=True)
    settings.update(design)
    if lamp:
        rays = rt.LampRays(diameter, NA=0.0625, N=3, T=2, z=z, rayColors=rayColors)
    else:
        rays = rt.ObjectRays(diameter, halfAngle=0.0625, H=3, T=2, z=z, rayColors=rayColors, color=color)
    d = draw(path.display, rays=rays, removeBlocked=False, interactive=False)
    wanted = rayColors if rayColors is not None else settings["lampRayColors" if lamp else "rayColors"]
    if mc.is_color_like(wanted):
        wanted = [wanted]
    wanted = [rgb(c) for c in wanted]
    traces = polylines(word, [(r.y, r.theta) for r in rays], z, False)
    drawn = [l for l in d.lines if l[0] in wanted]
    if lamp and diameter and drawn:
        drawn = [l for l in drawn if any(sameLine(squeeze(l[2]), t[0]) for t in traces)]
    matchLines(drawn, traces, "in the colors %r" % (wanted,))
    heights = sorted({round(t[2], 9) for t in traces})
    if len(heights) == 3 and len(wanted) == 3:
        for l in drawn:
            if l[0] != wanted[heights.index(round(l[2][0][1], 9))]:
                raise Violation("the ray from %g is drawn in the color %r of %r" % (l[2][0][1], l[0], wanted))
    if not lamp and diameter:
        objects, images = settings["objectColor"], settings["imageColor"]
        fills = settings["fillObject"], settings["fillImage"]
        if color is not None:
            objects = images = color
            fills = True, False
        a, b = d.colored(objects), d.colored(images)
        if color is not None:
            a, b = [x for x in a if x[1]], [x for x in b if not x[1]]
        elif any(x[1] != fills[0] for x in a) or any(x[1] != fills[1] for x in b):
            raise Violation("the object or its images are filled or not, against the settings")
        matchArrows(a, [(z, diameter)], "the object in its color")
        matchArrows(b, [(x, m*diameter) for x, m in planes(word, z)], "an image in its color")
    shard.add("evaluations")
    shard.distinct(("colored", repr(word), diameter, repr(rayColors), color, lamp, repr(design), z))


def withObject(shard, word, arguments):
    path = build(word)
    before = optics(path)
    d = draw(path.displayWithObject, **arguments)
    if optics(path) != before:
        raise Violation("displaying changed the path")
    size, angle, fan, n = arguments["diameter"], arguments.get("fanAngle"), arguments.get("fanNumber", 3), arguments.get("rayNumber", 3)
    from matplotlib import colors as mc
    rgb = lambda c: tuple(round(float(v), 4) for v in mc.to_rgb(c))
    drawn = [l for l in d.lines if l[0] in [rgb(c) for c in COLORS["rayColors"]]]
    if angle is not None:
        spec = ("Object", size, angle, fan, n, 0)
        matchLines(drawn, polylines(word, raysOf(spec, source(spec)), 0, arguments.get("removeBlocked", True)), "the object")
    else:
        for l in drawn:
            follows(word, squeeze(l[2]), arguments.get("removeBlocked", True))
    matchArrows(d.colored(COLORS["objectColor"]), [(0, size)], "the object")
    matchArrows(d.colored(COLORS["imageColor"]), [(x, size*m) for x, m in planes(word, 0)], "an image")
    common(d, word, {})
    shard.add("evaluations")
    shard.distinct((repr(word), repr(arguments)))


def objectiveFigure(shard, name, flips, before, rays):
    """An objective in a path: its outline, its apertures at their own size, its foci, and the rays through it."""
    import raytracing as rt
    from checks import c19
    module, cls = name.split(".")
    data = c19.CATALOG[name]
    o = getattr(getattr(__import__("raytracing." + module), module), cls)()
    for _ in range(flips):
        o.flipOrientation()
    f, NA, length, back, wd = (data[k] for k in ("f", "NA", "focusToFocusLength", "backAperture", "workingDistance"))
    path = rt.ImagingPath([rt.Space(before), o, rt.Space(20)], label="objective")
    path.design(**COLORS)
    unchanged = optics(path)
    d = draw(path.display, raysList=[source(r) for r in rays], removeBlocked=False, interactive=False)
    if optics(path) != unchanged:
        raise Violation("displaying changed the path")
    inside = [("Aperture", back), ("Space", f), ("Matrix", 1, 0, 0, 1, length - 2*f, 1, 1, None, None), ("Lens", f), ("Space", f - wd), ("Aperture", o.frontAperture), ("Space", wd)]
    rims = [(0, back), (length - wd, 2*NA*wd)]
    outline = (0, length - wd)
    if flips % 2:
        inside.reverse()
        rims = [(length, back), (wd, 2*NA*wd)]
        outline = (wd, length)
    word = [("Space", before)] + inside + [("Space", 20)]
    wanted = [l for r in rays for l in polylines(word, raysOf(r, source(r)), 0, False)]
    from matplotlib import colors as mc
    drawn = [l for l in d.lines if l[0] in [tuple(round(float(v), 4) for v in mc.to_rgb(c)) for c in COLORS["rayColors"]]]
    matchLines(drawn, wanted, "through the objective")
    for z, diameter in rims:
        bars(d, before + z, before + z, diameter/2, "the objective")
    if not any(abs(min(p[0] for p in s[2]) - before - outline[0]) < 1e-6 and abs(max(p[0] for p in s[2]) - before - outline[1]) < 1e-6 and
               abs(max(p[1] for p in s[2]) - back/2) < 1e-6 for s in d.colored("k")):
        raise Violation("the outline of the objective does not go from %g to %g" % (before + outline[0], before + outline[1]))
    for x in (before, before + length):
        if not any(abs(m[0] - x) < 1.1e-3 and m[1] == 0 for m in d.markers):
            raise Violation("the focus at %g is not marked, marks are at %r" % (x, d.markers))
    shard.add("evaluations")
    shard.distinct(("objective", name, flips, before, repr(rays)))


def lensFigure(shard, name, flips, before):
    """A lens of the catalogs in a path: its surfaces, rims and foci, and the rays through it."""
    import raytracing as rt
    from checks import c19
    module, cls = name.split(".")
    lens = getattr(getattr(__import__("raytracing." + module), module), cls)()
    for _ in range(flips):
        lens.flipOrientation()
    spec = ("Group", c19.stack(c19.CATALOG[name], None))
    if flips % 2:
        spec = ("Flip", spec)
    path = rt.ImagingPath([rt.Space(before), lens, rt.Space(20)], label="lens")
    path.design(**COLORS)
    unchanged = optics(path)
    rays = ("Object", 2.0, 0.03125, 3, 3, 0)
    d = draw(path.display, rays=source(rays), removeBlocked=False, interactive=False)
    if optics(path) != unchanged:
        raise Violation("displaying changed the path")
    word = [("Space", before), spec, ("Space", 20)]
    from matplotlib import colors as mc
    drawn = [l for l in d.lines if l[0] in [tuple(round(float(v), 4) for v in mc.to_rgb(c)) for c in COLORS["rayColors"]]]
    matchLines(drawn, polylines(word, raysOf(rays, source(rays)), 0, False), "through the lens")
    flat = ref.flatten(spec)
    z, h = F(before), float(flat[0].diam)/2
    surfaces = []
    for e in flat:
        if e.kind == "DI":
            surfaces.append((float(z), e.steps[0]))
        z += e.L
    corners = [v + edge(R, h) for v, R in surfaces]
    for (a, Ra), (b, Rb), ca, cb in zip(surfaces, surfaces[1:], corners, corners[1:]):
        hasPoints(d, [(ca, h), (ca, -h), (cb, h), (cb, -h)] + ([(a, 0)] if Ra is not None else []) + ([(b, 0)] if Rb is not None else []), "the glass from %g to %g" % (a, b))
    bars(d, corners[0], corners[-1], h, "the lens")
    t = ref.total(flat)
    for x in (before + float(t.D/t.C), before + float(t.L - t.A/t.C)):
        if abs(x) < FAR and not any(abs(m[0] - x) < 1.1e-3*max(1, abs(x)) and m[1] == 0 for m in d.markers):
            raise Violation("the focus at %g is not marked, marks are at %r" % (x, d.markers))
    shard.add("evaluations")
    shard.distinct(("lens", name, flips, before))


# ---------------------------------------------------------------- histories of displays and settings
OBJECT, AWAY, LAMP = ("Object", 4.0, 0.0625, 3, 3, 0), ("Object", 2.0, 0.03125, 2, 2, 3.0), ("Lamp", 3.0, 0.125, 3, 0)
HISTORY = {
    "display": lambda p: p.display(interactive=False),
    "object": lambda p: p.display(rays=source(OBJECT), interactive=False),
    "blocked": lambda p: p.display(rays=source(OBJECT), removeBlocked=False, interactive=False),
    "away": lambda p: p.display(rays=source(AWAY), interactive=False),
    "lamp": lambda p: p.display(raysList=[source(LAMP)], interactive=False),
    "all": lambda p: p.display(onlyPrincipalAndAxialRays=False, limitObjectToFieldOfView=False, interactive=False),
    "limit": lambda p: p.display(limitObjectToFieldOfView=True, interactive=True),
    "with": lambda p: p.displayWithObject(5.0, fanAngle=0.0625),
    "save": lambda p: p.saveFigure("nowhere.png", rays=source(OBJECT), comments="some text"),
}
SETTING = {
    "publication": lambda p: p.design(style="publication"),
    "presentation": lambda p: p.design(style="presentation"),
    "colors": lambda p: p.design(rayColors=["#210000", "#220000"], imageColor="#230000", objectColor="#240000", lampRayColors=["#250000"]),
    "font": lambda p: p.design(fontScale=0.5, fillImage=False, fillObject=False, FOVColors=["#260000", "#270000"]),
    "height": lambda p: setattr(p, "objectHeight", 3.0),
    "hide": lambda p: (setattr(p, "showImages", False), setattr(p, "showObject", False)),
    "pupil": lambda p: (setattr(p, "showEntrancePupil", True), setattr(p, "showElementLabels", False)),
    "element": lambda p: p.append(__import__("raytracing").Lens(15, diameter=8)),
}


def refused(p):
    """Displays that cannot be made: a source where there is an element, or beyond the end; and one interrupted while it is shown."""
    import matplotlib.pyplot as plt
    show = plt.show
    try:
        for rays in ([source(OBJECT), source(("Object", 2.0, 0.03125, 2, 2, 8.0))], [source(LAMP), source(("Lamp", 2.0, 0.125, 3, 1000.0))]):
            plt.show = lambda *a, **k: None
            try:
                p.display(raysList=rays, removeBlocked=False, limitObjectToFieldOfView=True, interactive=False)
            except (ValueError, AssertionError):
                continue
            raise Violation("a source that is not in a gap of the path is accepted")

        class Interrupted(Exception):
            pass

        def interrupted(*args, **kwargs):
            raise Interrupted()
        plt.show = interrupted
        for f, kwargs in ((p.display, dict(rays=source(AWAY), onlyPrincipalAndAxialRays=False, interactive=False)), (p.displayWithObject, dict(diameter=2.0))):
            try:
                f(**kwargs)
            except Interrupted:
                pass
    finally:
        plt.show = show
        plt.close("all")


def history(shard, word, steps):
    path = build(word, design=False)
    for i, step in enumerate(steps):
        if step in SETTING:
            SETTING[step](path)
            continue
        before = optics(path)
        if step == "refused":
            refused(path)
            if optics(path) != before:
                raise Violation("after %r, a display that is refused changed the path" % (steps[:i],))
            continue
        d = draw(HISTORY[step], path)
        if optics(path) != before:
            raise Violation("%s changed the path" % step)
        fresh = build(word, design=False)
        for s in steps[:i]:
            if s in SETTING:
                SETTING[s](fresh)
        want = draw(HISTORY[step], fresh)
        if not observe.same(d.canon(), want.canon(), 1e-6, 1e-6):
            raise Violation("after %r, %s does not draw what it draws on a new path with the same settings%s" % (steps[:i], step, difference(d, want)))
        shard.add("evaluations")
    settings(path, steps)
    shard.distinct((repr(word), steps))


def settings(path, steps):
    """The settings chosen last are those in effect."""
    if "colors" not in steps or any(s in ("publication", "presentation") for s in steps[steps.index("colors"):]):
        return
    from matplotlib import colors as mc
    rgb = lambda c: tuple(round(float(v), 4) for v in mc.to_rgb(c))
    path.showImages = path.showObject = True
    d = draw(path.display, rays=source(("Object", 1.0, 0.0009765625, 2, 2, 0)), removeBlocked=False, interactive=False)
    if {l[0] for l in d.lines} - {rgb("#210000"), rgb("#220000")} or not d.lines or not d.colored("#240000"):
        raise Violation("after %r, the colors chosen are not used" % (steps,))


def difference(a, b):
    for name in ("title", "lines", "markers", "shapes", "arrows", "texts"):
        x, y = observe.canon(getattr(a, name)), observe.canon(getattr(b, name))
        if not observe.same(x, y, 1e-6, 1e-6):
            return ": %s differ: %s for %s" % (name, str(getattr(a, name))[:300], str(getattr(b, name))[:300])
    return ""


# ---------------------------------------------------------------- laser beams
def laser(shard, word, beams, form, twice):
    import raytracing as rt
    path = rt.LaserPath([ref.real(s) for s in word], label="laser")
    flat = ref.flatten(("Group", word))
    made = [rt.GaussianBeam(w=w, R=R, wavelength=wl, n=float(flat[0].n1)) for w, R, wl in beams]
    before = observe.canon([path, made])
    for i in range(twice):
        if form == "input":
            path.inputBeam = made[0]
            d = draw(path.display)
        else:
            d = draw(path.display, beams=list(made))
        if observe.canon([path, made]) != before:
            raise Violation("displaying changed the path or the beams")
    drawn = [l for l in d.lines if len(l[2]) > 2]
    for b in made:
        want = profile(flat, b)
        for sign in (1, -1):
            hit = [l for l in drawn if all(abs(y - sign*want(x)) <= 1e-6*max(1e-3, abs(y)) for x, y in l[2])]
            if not hit:
                raise Violation("the %s edge of the beam of waist %g is not drawn" % ("upper" if sign > 0 else "lower", b.w))
            xs = [p[0] for p in hit[0][2]]
            total = float(sum((e.L for e in flat), F(0)))
            if abs(min(xs)) > 1e-9 or abs(max(xs) - total) > 1e-6*max(1, total):
                raise Violation("the beam is drawn from %g to %g, the path is %g long" % (min(xs), max(xs), total))
            gaps = [b - a for a, b in zip(xs, xs[1:])]
            if any(g < -1e-9 for g in gaps):
                raise Violation("the beam is drawn backwards")
    if len(drawn) != 2*len(made):
        raise Violation("%d edges are drawn for %d beams" % (len(drawn), len(made)))
    waists = []
    total = float(sum((e.L for e in flat), F(0)))
    for b in made:
        for z, q, n in stations(flat, b):
            position = z - q.real
            size = math.sqrt(b.wavelength*abs(q.imag)/math.pi/n)
            waists.append((position, size, abs(position) < 1e-6*max(1, total) or abs(position - total) < 1e-6*max(1, total)))
    for position, size, border in waists:
        inside = -1e-9 < position < total + 1e-9
        if inside and not border:
            for sign in (1, -1):
                if not any(abs(a[1][0] - position) < 1e-6*max(1, abs(position)) and abs(a[1][1] - sign*size) < 1e-6*max(1, size) and abs(a[0][1]) > abs(a[1][1])
                           and a[0][1]*sign > 0 for a in d.arrows):
                    raise Violation("the waist of %g at %g is not shown, arrows are %r" % (size, position, d.arrows))
    for a in d.arrows:
        if not any(abs(a[1][0] - p) < 1e-6*max(1, abs(p)) and abs(abs(a[1][1]) - s) < 1e-6*max(1, s) for p, s, _ in waists):
            raise Violation("a waist is shown at %r, where there is none" % (a,))
    elements(d, word, "elements")
    shard.add("evaluations")
    shard.distinct(("laser", repr(word), repr(beams)))


def stations(flat, beam):
    """(position, complex radius, index) at the entrance and after each element."""
    q, z, n = complex(beam.q), 0.0, float(flat[0].n1)
    out = [(z, q, n)]
    for e in flat:
        A, B, C, D = (float(x) for x in e.abcd())
        q = (A*q + B)/(C*q + D)
        z += float(e.L)
        n = float(e.n2)
        out.append((z, q, n))
    return out


def profile(flat, beam):
    places = stations(flat, beam)
    wavelength = beam.wavelength

    def width(x):
        # the last place at or before x; within a thick element the drawing is a straight line between its ends
        best = None
        for i in range(len(flat)):
            z, q, n = places[i]
            if flat[i].kind == "Space" and z - 1e-9 <= x <= z + float(flat[i].L) + 1e-9:
                best = q + (x - z)
                return math.sqrt(wavelength/math.pi/n/(-(1/best).imag))
        for z, q, n in places:
            if abs(z - x) < 1e-9*max(1, abs(z)):
                return math.sqrt(wavelength/math.pi/n/(-(1/q).imag))
        return -1.0
    return width


# ---------------------------------------------------------------- the figure of one element
def oneElement(shard, spec, how):
    import raytracing as rt
    e = ref.real(spec)
    t = ref.total(ref.flatten(spec))
    before = observe.canon(e)
    d = draw(e.display)
    if observe.canon(e) != before:
        raise Violation("displaying the element changed it")
    if abs(t.C) > 2e-5:
        f1, f2 = float(t.D/t.C), float(t.L - t.A/t.C)
        for x in (f1, f2):
            if not any(abs(m[0] - x) < 1e-3*max(1, abs(x)) and m[1] == 0 for m in d.markers):
                raise Violation("the focal point at %g is not marked, marks are at %r" % (x, d.markers))
        p2 = float(t.L + (1 - t.A)/t.C)
        p1 = float(t.D/t.C - t.n1/(t.C*t.n2)) 
        for x in (p1, p2):
            if not any(l[1] in ("--", "dashed") and all(abs(p[0] - x) < 1e-6*max(1, abs(x)) for p in l[2]) for l in d.lines):
                raise Violation("the principal plane at %g is not drawn, lines are %r" % (x, [l[2] for l in d.lines if l[1] in ("--", "dashed")]))
        for a, b in ((p1, f1), (p2, f2)):
            if not any(abs(x[0][0] - a) < 1e-6*max(1, abs(a)) and abs(x[1][0] - b) < 1e-6*max(1, abs(b)) for x in d.arrows):
                raise Violation("the effective focal length from %g to %g is not drawn, arrows are %r" % (a, b, d.arrows))
        if t.fv is not None:
            for a, b in ((float(t.fv), f1), (float(t.bv), f2)):
                if not any(abs(x[0][0] - a) < 1e-6*max(1, abs(a)) and abs(x[1][0] - b) < 1e-6*max(1, abs(b)) for x in d.arrows):
                    raise Violation("the length from the vertex at %g to the focus at %g is not drawn, arrows are %r" % (a, b, d.arrows))
        texts = [x[0] for x in d.texts]
        for text in ["EFL = %0.1f" % float(-(t.n1/t.n2)/t.C), "EFL = %0.1f" % float(-1/t.C)]:
            if text not in texts:
                raise Violation("%r is not written, but %r" % (text, texts))
    inner = spec
    while inner[0] == "Flip":
        inner = inner[1]
    if inner[0] == "Group" or inner[0] == spec[0] or len(spec) == 2:
        elements(d, [spec], "the element")
    shard.add("evaluations")
    shard.distinct(("element", repr(spec)))


# ---------------------------------------------------------------- the figure while it is shown
def session(f, action):
    """Call f, which shows one figure; while it is shown, the action is given the figure and its check boxes."""
    import matplotlib.pyplot as plt
    from matplotlib.widgets import CheckButtons
    made, shown = [], []
    show, init = plt.show, CheckButtons.__init__

    def record(self, *args, **kwargs):
        init(self, *args, **kwargs)
        made.append(self)

    def visit(*args, **kwargs):
        shown.append(1)
        action(plt.figure(plt.get_fignums()[-1]), made)
    plt.close("all")
    try:
        plt.show, CheckButtons.__init__ = visit, record
        f()
    finally:
        plt.show, CheckButtons.__init__ = show, init
        plt.close("all")
    if len(shown) != 1:
        raise Violation("%d figures are shown" % len(shown))


def click(figure, x, y):
    from matplotlib.backend_bases import MouseEvent
    for name in ("button_press_event", "button_release_event"):
        figure.canvas.callbacks.process(name, MouseEvent(name, figure.canvas, x, y, button=1))


def boxes(shard, word, sources, options, attributes):
    """Every setting of the check boxes, reached by clicks: what is on is drawn, and nothing else; so it stays when zooming."""
    path = build(word, **attributes)
    made = [source(s) for s in sources]
    removeBlocked = options.get("removeBlocked", True)
    stop, _, _, principal, axial = answers(word)
    groups = {}
    for s, m in zip(sources, made):
        z = place(s)
        if s[0] == "Object":
            name = "Object/Image" + (" (z=%.1f)" % z if z else "")
            arrows = [(COLORS["objectColor"], z, s[1])] + [(COLORS["imageColor"], x, k*s[1]) for x, k in planes(word, z)]
        else:
            name, arrows = "Lamp" + (" (z=%.2f)" % z if z else ""), []
        g = groups.setdefault(name, ([], []))
        g[0].extend(polylines(word, raysOf(s, m), z, removeBlocked))
        g[1].extend(arrows)
    if stop[0] is not None:
        rays = [(r.y, r.theta) for r in (principal, axial) if r is not None]
        grazing = [(l[0], True, l[2]) for l in polylines(word, rays, 0, removeBlocked)]
        arrows = [(COLORS["FOVColors"][0], 0, 2*principal.y)] + [(COLORS["FOVColors"][1], x, 2*principal.y*m) for x, m in planes(word, 0)] if principal is not None else []
        groups["Principal/axial rays"] = (grazing, arrows)
    # a group without anything to draw has no box
    from matplotlib import colors as mc
    rgb = lambda c: tuple(round(float(v), 4) for v in mc.to_rgb(c))
    palette = [rgb(c) for c in COLORS["rayColors"] + COLORS["lampRayColors"]]

    def compare(d, on, what):
        matchLines([l for l in d.lines if l[0] in palette], [l for name in on if name in groups for l in groups[name][0]], what)
        for color in [COLORS["objectColor"], COLORS["imageColor"]] + COLORS["FOVColors"]:
            matchArrows(d.colored(color), [a[1:] for name in on if name in groups for a in groups[name][1] if a[0] == color], "%s: an arrow" % what)
        lamps = [s for s in sources if s[0] == "Lamp" and "Lamp" + (" (z=%.2f)" % s[4] if s[4] else "") in on]
        if len(d.colored("y")) != len(lamps):
            raise Violation("%s: %d lamps are drawn, %d are on" % (what, len(d.colored("y")), len(lamps)))
        common(d, word, attributes)

    def explore(figure, widgets):
        if len(widgets) != 1:
            raise Violation("%d sets of check boxes" % len(widgets))
        box = widgets[0]
        figure.canvas.draw()
        names = [l.get_text().replace("\n", " ") for l in box.labels]
        if len(set(names)) != len(names) or set(names) - set(groups):
            raise Violation("boxes are named %r, groups are %r" % (names, sorted(groups)))
        for name, (lines, arrows) in groups.items():
            if name not in names and (any(not l[1] for l in lines) or any(name.startswith("Object") and attributes.get("showObject", True) for a in arrows)):
                raise Violation("there is no box for %r, but for %r" % (name, names))
        frames = box.ax.collections[0]
        where = frames.get_offset_transform().transform(frames.get_offsets())
        if len(where) != len(names):
            raise Violation("%d boxes have %d names" % (len(where), len(names)))
        compare(Drawing(figure), [n for n, on in zip(names, box.get_status()) if on], "at first")
        seen, n = set(), len(names)
        state = tuple(box.get_status())
        # every setting in an order that changes one box at a time, and back
        for step in range(1, 2**n + 1):
            i = (step & -step).bit_length() - 1 if step < 2**n else n - 1
            click(figure, *where[i])
            state = tuple(on != (k == i) for k, on in enumerate(state))
            if tuple(box.get_status()) != state:
                raise Violation("a click on %r changes the boxes to %r" % (names[i], list(zip(names, box.get_status()))))
            compare(Drawing(figure), [name for name, on in zip(names, state) if on], "boxes %r" % [name for name, on in zip(names, state) if on])
            shard.add("settings")
            seen.add(state)
            if step == 2**n - 1 or step == 1:
                axes = figure.axes[0]
                low, high = axes.get_ylim()
                axes.set_ylim(low*2, high*2) if step == 1 else axes.set_ylim(low/3, high/2)
                compare(Drawing(figure), [name for name, on in zip(names, state) if on], "zoomed, boxes %r" % [name for name, on in zip(names, state) if on])
        if len(seen) != 2**n:
            raise Violation("%d settings of %d boxes were reached" % (len(seen), n))
        shard.add("boxes", n)
    before, raysBefore = optics(path), observe.canon(made)
    session(lambda: path.display(raysList=list(made), interactive=True, **options), explore)
    if optics(path) != before or observe.canon(made) != raysBefore:
        raise Violation("displaying changed the path or its rays")
    shard.add("evaluations")
    shard.distinct(("boxes", repr(word), repr(sources), repr(options)))


# ----------------------------------------------------------------
S = ("Space", 8.0)
GLASS = ("Group", [("DI", 1, 1.5, 16.0, 10.0), ("Space", 4.0, 1.5), ("DI", 1.5, 1, -24.0, 10.0)])
LETTERS = {
    "S": S, "s": ("Space", 4.0), "L": ("Lens", 10.0, 12.0), "l": ("Lens", -16.0), "A": ("Aperture", 4.0), "a": ("Aperture", 2.0),
    "T": ("Thick", 1.5, 16.0, -24.0, 3.0, 10.0), "t": ("Flip", ("Thick", 1.75, 12.0, None, 2.0, None)), "B": ("Slab", 1.5, 4.0, 9.0),
    "M": ("Mirror", -32.0, 11.0), "X": ("Matrix", 1, 2, -0.125, 0.75, 2.0, 1, 1, 0, 2.0, 9.0), "D": GLASS, "F": ("Flip", GLASS),
    "G": ("Group", [("Lens", 12.0, 14.0), ("Space", 2.0), ("Aperture", 5.0)]), "C": ("Axicon", 0.0625, 1.5, 10.0), "4": ("4f", 6.0, 4.0, 9.0, 7.0),
    "m": ("Flip", ("Mirror", -32.0, None)), "d": ("DI", 1, 1.5, None, 9.0), "E": ("DI", 1, 1.5, 20.0, 9.0), "N": ("Space", 6.0, 1.5), "U": ("DI", 1.5, 1, -12.0, None)}


def worker(shard):
    import matplotlib
    matplotlib.rcParams["figure.max_open_warning"] = 0
    shard.caseLimit = 150.0

    def words(letters, lengths):
        for n in lengths:
            for w in itertools.product(letters, repeat=n):
                word = [LETTERS[c] for c in w]
                try:
                    ref.children(word)
                except ref.Refused:
                    continue
                yield word

    def plan():
        middle = "SLlAaTtBMXDGF4" + ("mCdEU" if shard.thorough else "")
        small = [w for w in words("SLAT", (1,))] 
        sandwiches = [[S] + w + [("Space", 12.0)] for n in ((1, 2, 3) if shard.thorough else (1, 2)) for w in
                      words(middle if n < 3 else "SLAaTD", (n,))] + \
                     [[LETTERS[c] for c in w] for w in ("SLSAS", "SLSLS", "LSLS", "ASLS", "SALS", "SENUS", "ENUSLS", "SdNUSAS", "SLSASLS", "STStS", "S4SL", "SCS", "L", "SL", "LS",
                                                     "ALS", "XS", "SMSmS", "DS", "GSGS", "SFSDS", "T", "AS", "SlSlS")]
        for word in sandwiches + small:
            for options in ({}, dict(removeBlocked=False), dict(onlyPrincipalAndAxialRays=False)):
                yield ("unasked", word, options), unasked, (word, options, {})
            yield ("object", word), display, (word, [("Object", 3.0, 0.0625, 3, 3, 0)], dict(removeBlocked=False), {})
        some = sandwiches[::14] + sandwiches[-24:] if not shard.thorough else sandwiches
        for word in some:
            for options, attributes in ((dict(limitObjectToFieldOfView=False, onlyPrincipalAndAxialRays=False), dict(objectHeight=3.0)),
                                        (dict(limitObjectToFieldOfView=True, onlyPrincipalAndAxialRays=False), dict(objectHeight=3.0)),
                                        (dict(onlyPrincipalAndAxialRays=False), dict(objectHeight=3.0, showImages=False)),
                                        (dict(onlyPrincipalAndAxialRays=False), dict(showObject=False, showEntrancePupil=True)),
                                        ({}, dict(showEntrancePupil=True, showElementLabels=False)), (dict(removeBlocked=False), dict(showPointsOfInterest=False))):
                yield ("unasked", word, options, attributes), unasked, (word, options, attributes)
            generic = any(k.kind == "Matrix" for kk in ref.children(word) for k in kk)     # these have no reversed form
            ends = [0] if generic else [0] + ([4.0] if word[0] == S else []) + ([float(ref.total(ref.flatten(("Group", word))).L) - 4.0] if word[-1][0] == "Space" and word[-1][1] > 4 and len(word) > 1 else [])
            for z in ends:
                sources = [[("Object", 4.0, 0.0625, 3, 3, z)], [("Object", 1.0, 0.125, 2, 5, z)], [("Lamp", 4.0, 0.125, 3, z)],
                           [("Object", 4.0, 0.0625, 3, 3, z), ("Object", 2.0, 0.03125, 2, 2, 0)], [("Object", 4.0, 0.0625, 2, 2, z), ("Object", 1.0, 0.25, 2, 3, z)],
                           [("Lamp", 4.0, 0.125, 3, z), ("Lamp", 1.0, 0.03125, 3, z)], [("Lamp", 2.0, 0.125, 3, z), ("Object", 3.0, 0.0625, 2, 2, 0)]]
                if z:
                    sources.append([("Object", 4.0, 0.0625, 2, 2, z), ("Object", 1.0, 0.25, 2, 3, z + 0.03125)])
                    sources.append([("Lamp", 4.0, 0.0625, 2, z), ("Lamp", 1.0, 0.25, 2, z + 0.001953125)])
                else:
                    sources += [[("Uniform", 3.0, 0.125)], [("List", ((0.0, 0.0625), (1.0, -0.125), (6.0, 0.0)))],
                                [("Uniform", 3.0, 0.125), ("Uniform", 1.0, 0.0625)], [("List", ((0.0, 0.0625),)), ("List", ((1.0, -0.125), (6.0, 0.0)))],
                                [("Object", 3.0, 0.0625, 2, 2, 0), ("List", ((0.0, 0.0625),)), ("Uniform", 1.0, 0.0625)]]
                for s in sources:
                    for options in (dict(), dict(removeBlocked=False, form="rays" if len(s) == 1 else "both")):
                        yield ("display", word, s, options), display, (word, s, options, {})
                for options, attributes in ((dict(), dict(showObject=False)), (dict(form="rays"), dict(showImages=False)), (dict(form="rays", comments="a\nb"), dict(showPointsOfInterest=False)),
                                            (dict(save=True), dict(showEntrancePupil=True)), (dict(interactive=True), dict(showElementLabels=False))):
                    yield ("display", word, z, options, attributes), display, (word, sources[0], options, attributes)
            for a in (dict(diameter=6.0, fanAngle=0.0625), dict(diameter=1.0, fanAngle=0.25, fanNumber=2, rayNumber=5, removeBlocked=False), dict(diameter=3.0)):
                yield ("with", word, a), withObject, (word, a)
        for word in [[LETTERS[c] for c in w] for w in ("SLS", "SLSAS")]:
            for diameter, rayColors, color, lamp, design, z in itertools.product(
                    (3.0, 0.0), (None, "#310000", "red", (0.2, 0.1, 0.0), ["#320000"], ["#320000", "#330000"], ["#320000", "#330000", "#340000"]),
                    (None, "#350000"), (False, True), ({}, dict(rayColors=["#360000"], lampRayColors=["#370000"], fillObject=False, imageColor="#380000"), dict(fillImage=False)),
                    (0, 3.0)):
                if color is None or not lamp:
                    yield ("colors", word, diameter, rayColors, color, lamp, design, z), colored, (word, diameter, rayColors, color, lamp, design, z)
        for word in [[LETTERS[c] for c in w] for w in ("SLSAS", "SLSLS", "SLS", "ALS", "SDSAS")]:
            end = float(ref.total(ref.flatten(("Group", word))).L) - 3.0
            each = [("Object", 3.0, 0.0625, 2, 2, 0), ("Lamp", 2.0, 0.125, 2, 0)] + ([("Object", 4.0, 0.03125, 2, 2, 3.0), ("Object", 1.0, 0.03125, 2, 2, 3.03125),
                                                                                    ("Lamp", 1.0, 0.0625, 2, 3.0)] if word[0] == S else []) + \
                   [("Object", 2.0, 0.125, 2, 2, end)]
            for n in (1, 2, 3, 4) if shard.thorough else (1, 2, 3):
                for k, sources in enumerate(itertools.permutations(each, n)):
                    if any(s[0] == "Object" for s in sources) and (shard.thorough or n < 2 or word[1:] == [LETTERS[c] for c in "LSAS"] and n < 3 or k % 23 == 0):
                        for options in (dict(removeBlocked=False), {}):
                            yield ("boxes", word, sources, options), boxes, (word, list(sources), options, {})
        for n in (1, 4, 7, 8) if shard.thorough else (1, 7):
            yield ("boxes", n), boxes, ([("Space", 10.0), LETTERS["L"], ("Space", 12.0)], [("Object", 2.0, 0.03125, 2, 2, float(z)) for z in range(n)], {}, {})
        systems = [[S, ("Lens", 6.0, 10.0), ("Space", 12.0), ("Aperture", 3.0), S, ("Lens", 8.0, 6.0), S], [S, ("Lens", 5.0), ("Space", 20.0)],
                   [S, ("Aperture", 3.0), ("Space", 10.0)]]
        steps = list(HISTORY) + list(SETTING) + ["refused"]
        few = ["display", "object", "away", "lamp", "colors", "height", "element", "refused"]
        for word in systems:
            for n, names in ((1, steps), (2, steps), (3, steps if shard.thorough else few)):
                for h in itertools.product(names, repeat=n):
                    if h[-1] in HISTORY and (n < 3 or word is systems[0] or shard.thorough):
                        yield ("history", word, h), history, (word, h)
        from checks import c19
        for i, (name, data) in enumerate(c19.CATALOG.items()):
            if data["kind"] == "Objective":
                for flips, before, rays in itertools.product((0, 1, 2), (0, 10), ([("Object", 1.0, 0.0625, 3, 3, 0)], [("Object", 8.0, 0.5, 2, 3, 0), ("Object", 2.0, 0.25, 2, 2, 0)])):
                    yield ("objective", name, flips, before, rays), objectiveFigure, (name, flips, before, rays)
            elif shard.thorough or i % 8 == 0 or name.startswith("eo."):
                for flips in (0, 1, 2):
                    yield ("lens", name, flips), lensFigure, (name, flips, 15)
        beams = [(0.5, INF, 0.0006328), (2.0, -30.0, 0.001064), (0.05, 12.0, 0.01)]
        lasers = [[LETTERS[c] for c in w] for w in ("S", "SLS", "SLSLS", "STS", "SAS", "SENUS", "DS", "SGS", "SMS", "LS", "SBS", "SlS", "SXS", "S4S", "NUS", "SFS")]
        for word in lasers:
            for choice in [(b,) for b in beams] + list(itertools.permutations(beams, 2)):
                for twice in (1, 2):
                    yield ("laser", word, choice, twice), laser, (word, choice, "list", twice)
            yield ("laser", word, "input"), laser, (word, beams[1:2], "input", 2)
        kinds = ["L", "l", "T", "t", "B", "M", "m", "X", "D", "F", "G", "4", "d", "E", "U", "A"]
        for k in kinds:
            yield ("element", LETTERS[k]), oneElement, (LETTERS[k], None)
        for R1, R2, t, n, diam in itertools.product((16.0, -24.0, None), (20.0, -12.0, None), (1.0, 6.0), (1.5, 1.75), (None, 9.0, 30.0)):
            for spec in (("Thick", n, R1, R2, t, diam), ("Flip", ("Thick", n, R1, R2, t, diam))):
                yield ("element", spec), oneElement, (spec, None)
        for n1, n2, R, diam in itertools.product((1, 1.5), (1, 1.75), (16.0, -24.0, None), (None, 9.0, 40.0)):
            for spec in (("DI", n1, n2, R, diam), ("Flip", ("DI", n1, n2, R, diam))):
                yield ("element", spec), oneElement, (spec, None)
        for fv, bv, n1, n2, L, diam in itertools.product((None, 0, -1.0), (2.0, 3.0), (1, 1.5), (1, 1.25), (0, 2.0), (None, 9.0)):
            spec = ("Matrix", 1, 2, -0.125, F(n1)/F(n2) - F(1, 4), L, n1, n2, fv, bv if fv is not None else None, diam)
            spec = spec[:4] + (float(spec[4]),) + spec[5:]
            yield ("element", spec), oneElement, (spec, None)

    for case, f, args in shard.mine(plan()):
        if shard.full(): return
        shard.run(case, f, shard, *args)
        shard.sample(case)


def run(check):
    check.sharded(worker)
    check.coverage = dict(evaluations=check.counters.get("evaluations", 0), distinct_nontrivial=len(check.hashes), exhaustive=True,
                          lines=check.counters.get("lines", 0), box_settings=check.counters.get("settings", 0), planes=check.counters.get("planes", 0),
                          rule="every system of a gap, one to %d elements of an alphabet and a gap, with and without sources; every source of an alphabet "
                               "at every place, every option; every history of up to 3 displays and settings; every beam through every laser path; every "
                               "element on its own; every setting of the check boxes, reached by clicks" % (3 if check.thorough else 2),
                          samples=check.samples)
    check.assumptions = ["what is drawn is read from the matplotlib figure when it is shown or saved", "drawings farther than 1e5 or smaller than 1e-3 are not judged",
                         "rays that a lamp hides, and places of labels along the axis, are not judged"]
