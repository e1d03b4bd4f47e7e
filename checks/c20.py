"""C20: reading a Zemax file gives the lens the file prescribes."""
import itertools
import os
import tempfile
from fractions import Fraction as F
from mc import glass, ref
from mc.core import Violation

LEVEL = "exploration"
INF = float("inf")

# a surface: (curvature, distance to the next one, glass, half diameter), each as written in the file; None: no such line
FLAT, PLUS, MINUS, WEAK = "0.0", "3.164556962025319997E-01", "-4.48430493273543E-02", "1.25e-3"
SURFACES = [
    (FLAT, "5", None, None), (PLUS, "2.5", "N-BK7", "12.7"), (MINUS, "1.0E+0", "SF5", "12.7"), (MINUS, "10", None, "6.35"),
    (FLAT, "2", "N-SF11", None), (WEAK, "0.125", "n-bak4", "4"), ("0", "0", None, "12.5"), (PLUS, "3", "FUSEDSILICA", None),
    (MINUS, "40", None, None), (WEAK, "4", "N-SF6", "2.00000000E+01"),
]
CORE = [SURFACES[i] for i in (0, 1, 2, 3, 4, 8)]
NAMES = {"N-BK7": "N_BK7", "SF5": "SF5", "N-SF11": "N_SF11", "n-bak4": "N_BAK4", "FUSEDSILICA": "FusedSilica", "N-SF6": "N_SF6", None: "Air"}

UNITS = ["MM X W X CM MR CPMM", "IN X W X CM MR CPMM", None, "mm", "in"]
FILL = [0.55]*21
WAVES = {"one": [0.5876], "three": [0.4861327, 0.5875618, 0.6562725], "three filled": [0.4861327, 0.5875618, 0.6562725] + FILL,
         "one filled": [0.632] + FILL, "infrared": [0.706, 0.855, 1.015] + FILL, "green": [0.55] + FILL, "five": [0.4, 0.45, 0.52, 0.6, 0.7]}
ENCODINGS = ["utf-8", "utf-16", "utf-16-be", "utf-8-sig"]


def text(surfaces, unit, waves, layout):
    """layout: (indentation, order of the lines of a surface, decoration)"""
    indent, order, rich = layout
    lines = ["VERS 171115 \u00d8" if rich else "VERS 171115", "MODE SEQ", "NAME a lens", "NOTE 0 CURV 3 GLAS SF5 DIAM 2"]
    if unit is not None:
        lines.append("UNIT " + unit)
    lines += ["ENPD 3", "GCAT SCHOTT MISC"]
    lines += ["WAVM %d %.17g 1" % (i + 1, w) for i, w in enumerate(waves)]
    lines += ["PWAV %d" % ((len([w for w in waves if w != 0.55] or [1]) + 1)//2)]
    for i, (curvature, distance, mat, half) in enumerate([("0.0", "INFINITY", None, None)] + list(surfaces) + [("0.0", "0", None, None)]):
        lines.append("SURF %d" % i)
        own = ["CURV %s" % curvature + (" 0 0 0 0 \"\"" if rich else ""), "DISZ " + distance]
        if mat is not None:
            own.append("GLAS " + mat + (" 0 0 1.5 40.0 0 0 0" if rich else ""))
        if half is not None:
            own.append("DIAM " + half + " 1 0 0 1 \"\"")
        if rich:
            own.insert(1, "COMM the surface")
            own.insert(0, "TYPE STANDARD")
            own.append("")
            own.append("MEMA 1.5 0 0 0 1 \"\"")
            if i == 1:
                own.insert(0, "STOP")
        if order:
            own.reverse()
        lines += [indent + l for l in own]
    if rich:
        lines += ["TOL TOFF   0   0", "MNUM 1 1", "MOFF   0   1"]
    return lines


def expected(surfaces, unit):
    scale = 25.4 if unit is not None and unit.upper().startswith("IN") else 1.0
    out = []
    for i, (curvature, distance, mat, half) in enumerate([("0.0", "INFINITY", None, None)] + list(surfaces) + [("0.0", "0", None, None)]):
        c = float(curvature)
        out.append((i, INF if c == 0 else scale/c, INF if half is None else 2*float(half)*scale, NAMES[mat], float(distance)*scale))
    return out


def block(surfaces):
    """The first block of glass, with the surface that ends it."""
    out = []
    for s in surfaces:
        if s[3] != "Air":
            out.append(s)
        elif out:
            return out + [s]
    return out


def sameSurfaces(got, want, what):
    if len(got) != len(want):
        raise Violation("%s: %d surfaces, should be %d" % (what, len(got), len(want)))
    for g, w in zip(got, want):
        if g.number != w[0] or type(g.mat).__name__ != w[3]:
            raise Violation("%s: surface %r is read as number %r of %s" % (what, w, g.number, g.mat))
        for name, a, b in (("R", g.R, w[1]), ("diameter", g.diameter, w[2]), ("spacing", g.spacing, w[4])):
            if not ref.close(a, b, 1e-9):
                raise Violation("%s: the %s of surface %d is %r, should be %r" % (what, name, w[0], a, b))


def case(shard, folder, surfaces, unit, waves, encoding, newline, layout):
    import raytracing as rt
    from raytracing.zemax import ZMXReader
    path = os.path.join(folder, "a lens.zmx")
    content = newline.join(text(surfaces, unit, WAVES[waves], layout)) + newline
    data = ("\ufeff" if encoding == "utf-16-be" else "") + content
    with open(path, "wb") as f:
        f.write(data.encode(encoding))
    want = expected(surfaces, unit)
    lens = block(want)
    reader = ZMXReader(path)
    os.remove(path)
    shard.add("evaluations")
    sameSurfaces(reader.surfaces(), want, "surfaces")
    sameSurfaces(reader.lensSurfaces(), lens, "surfaces of the lens")

    real = WAVES[waves]
    while len(real) > 1 and real[-1] == 0.55:
        real = real[:-1]
    design = real[len(real)//2]
    if reader.designWavelength != design or list(reader.designWavelengths()) != real:
        raise Violation("the design wavelength is %r of %r, should be %r" % (reader.designWavelength, reader.designWavelengths(), design))

    n, elements = 1.0, []
    for _, R, diameter, mat, spacing in lens:
        n2 = glass.index(mat, design)
        elements.append(("DI", n, n2, None if R == INF else R, None if diameter == INF else diameter))
        if mat != "Air":
            elements.append(("Space", spacing, n2))
        n = n2
    for group in (reader.matrixGroup(), reader.matrixGroup()):
        if not isinstance(group, rt.MatrixGroup) or len(group.elements) != len(elements):
            raise Violation("the lens has %d elements, should have %d" % (len(group.elements), len(elements)))
        for e, s in zip(group.elements, elements):
            w = ref.single(s)
            kind = rt.DielectricInterface if s[0] == "DI" else rt.Space
            if not isinstance(e, kind):
                raise Violation("%s in the place of %r" % (type(e).__name__, s))
            for name, a, b in (("A", e.A, w.A), ("B", e.B, w.B), ("C", e.C, w.C), ("D", e.D, w.D), ("L", e.L, w.L), ("n1", e.frontIndex, w.n1),
                               ("n2", e.backIndex, w.n2), ("diameter", e.apertureDiameter, INF if w.diam is None else w.diam)):
                if not ref.close(a, b, 1e-6):
                    raise Violation("%s of %r is %r, should be %r" % (name, s, a, float(b)))
            if s[0] == "DI" and not ref.close(e.R, INF if s[3] is None else s[3]):
                raise Violation("the radius of %r is %r" % (s, e.R))
        total = ref.total(ref.flatten(("Group", elements))) if elements else None
        if total:
            scale = max(1, *[abs(float(x)) for x in total.abcd()])
            for name, a, b in (("A", group.A, total.A), ("B", group.B, total.B), ("C", group.C, total.C), ("D", group.D, total.D), ("L", group.L, total.L),
                               ("frontIndex", group.frontIndex, total.n1), ("backIndex", group.backIndex, total.n2)):
                if not ref.close(a, b, scale):
                    raise Violation("%s of the lens is %r, should be %r" % (name, a, float(b)))

    rows = [l.split("\t") for l in reader.prescription().splitlines() if l.strip()][1:]
    if len(rows) != len(lens):
        raise Violation("the prescription has %d lines, should have %d" % (len(rows), len(lens)))
    for row, (_, R, diameter, mat, spacing) in zip(rows, lens):
        cells = [c.strip() for c in row]
        if cells[1].replace("-", "").replace("_", "").lower() != mat.replace("_", "").lower():
            raise Violation("the prescription names %s for %s" % (cells[1], mat))
        for cell, value in ((cells[0], R), (cells[2], spacing), (cells[3], diameter)):
            if float(cell) != value and not abs(float(cell) - value) <= 0.00501:
                raise Violation("the prescription says %s for %r" % (cell, value))
    sameSurfaces(reader.surfaces(), want, "surfaces asked again")
    shard.distinct((tuple(surfaces), unit, waves, encoding, newline, layout))


def unknown(shard, folder, surfaces, position, mat, encoding):
    """A glass that is not known, at any position, is refused."""
    from raytracing.zemax import ZMXReader
    path = os.path.join(folder, "unknown.zmx")
    s = surfaces[position]
    altered = list(surfaces)
    altered[position] = (s[0], s[1], mat, s[3])
    with open(path, "wb") as f:
        f.write("\r\n".join(text(altered, UNITS[0], WAVES["one"], ("  ", False, True))).encode(encoding))
    shard.add("evaluations")
    for ask in ("surfaces", "lensSurfaces", "matrixGroup", "prescription"):
        try:
            got = getattr(ZMXReader(path), ask)()
        except ValueError:
            continue
        raise Violation("%s with the unknown glass %s is accepted: %s" % (ask, mat, got))
    os.remove(path)
    shard.distinct((tuple(altered), encoding))


def interleaved(shard, folder, words, units):
    """Several readers, asked in turn, each answer for their own file."""
    from raytracing.zemax import ZMXReader
    readers = []
    for i, (word, unit) in enumerate(zip(words, units)):
        path = os.path.join(folder, "%d.zmx" % i)
        with open(path, "w") as f:
            f.write("\n".join(text(word, unit, WAVES["three"], ("  ", False, False))))
        readers.append(ZMXReader(path))
    for _ in range(2):
        for r, word, unit in zip(readers, words, units):
            sameSurfaces(r.surfaces(), expected(word, unit), "surfaces of one of several files")
            r.matrixGroup()
    shard.add("evaluations")
    shard.distinct((tuple(words), tuple(units)))


def worker(shard):
    folder = tempfile.mkdtemp()
    simple, rich = ("  ", False, False), ("\t", False, True)
    layouts = [(indent, order, r) for indent in ("", "  ", "\t") for order in (False, True) for r in (False, True)]

    def plan():
        deep = 4 if shard.thorough else 3
        for length in range(0, deep + 1):
            for word in itertools.product(SURFACES if length < 4 else CORE, repeat=length):
                for unit in UNITS[:2]:
                    yield ("word", word, unit), case, (word, unit, "three filled", "utf-16", "\r\n", rich)
        for length in list(range(deep + 1, 41)) + [64, 99, 100, 101, 128, 256] + ([500, 999] if shard.thorough else []):
            for start in range(len(SURFACES)):
                word = tuple((SURFACES[start:] + SURFACES[:start])[i % len(SURFACES)] for i in range(length))
                yield ("long", length, start), case, (word, UNITS[0], "three filled", "utf-16", "\r\n", rich)
        values = ["%s%de%d" % (sign, digit, power) for power in range(-9, 3) for digit in ((1, 2, 3, 5, 7) if shard.thorough else (1, 3, 7)) for sign in ("", "-")]
        for field in range(3):
            for value in values:
                if field and value.startswith("-"):
                    continue
                for mats in ((None, "N-BK7", None), ("SF5", "N-BK7", None)):
                    for place in range(3):
                        word = [(PLUS, "5", mats[0], "4"), (MINUS, "2.5", mats[1], None), (WEAK, "7", mats[2], "3")]
                        s = list(word[place])
                        s[(0, 1, 3)[field]] = value
                        word[place] = tuple(s)
                        for unit in UNITS[:2]:
                            yield ("value", field, value, mats, place, unit), case, (tuple(word), unit, "three", "utf-8", "\n", simple)
        for length in range(0, 3):
            for word in itertools.product(CORE, repeat=length):
                for unit in UNITS:
                    for waves in WAVES:
                        for encoding in ENCODINGS:
                            if not shard.thorough and length == 2 and (waves in ("five", "one filled", "green") or unit in (None, "mm")):
                                continue
                            yield ("options", word, unit, waves, encoding), case, (word, unit, waves, encoding, "\n" if encoding == "utf-8" else "\r\n", rich)
        for word in itertools.product(CORE, repeat=3 if shard.thorough else 2):
            for layout in layouts:
                for newline in ("\n", "\r\n", "\r"):
                    for encoding in ENCODINGS:
                        yield ("layout", word, layout, newline, encoding), case, (word, UNITS[1], "three", encoding, newline, layout)
        for length in (1, 2, 3):
            for word in itertools.product(CORE, repeat=length):
                for position in range(length):
                    for mat in ("N-BK8", "MIRROR", "___BLANK", "UNKNOWN", "SF", "N-BK7X"):
                        yield ("unknown", word, position, mat), unknown, (word, position, mat, "utf-8")
        pair = list(itertools.product(CORE, repeat=2))
        for a, b in itertools.product(pair[::3 if not shard.thorough else 1], repeat=2):
            yield ("several", a, b), interleaved, ([a, b, a], [UNITS[0], UNITS[1], UNITS[1]])

    for name, f, args in shard.mine(plan()):
        if shard.full(): return
        shard.run(name, f, shard, folder, *args)
        shard.sample(name)


def run(check):
    check.sharded(worker)
    check.coverage = dict(evaluations=check.counters.get("evaluations", 0), distinct_nontrivial=len(check.hashes), exhaustive=True,
                          rule="every file of up to %d surfaces of an alphabet of %d (4 of its core), in inches and millimetres; every file of up to 2 "
                               "crossed with units, wavelengths and encodings, and with layouts and line endings; every unknown glass at every position; "
                               "every pair of files read side by side; longer files that repeat the alphabet; every curvature, distance and diameter of 1e-9 to 700 at every surface" % (3, len(SURFACES)) + ("" if check.thorough else " (without the 4)"),
                          samples=check.samples)
    check.assumptions = ["the design wavelength is the middle one of those listed, without the 0.55 that fill the table",
                         "files have at least one wavelength, and UTF-16 files start with their byte order mark",
                         "indices from the published dispersion in mc/glass.py"]
