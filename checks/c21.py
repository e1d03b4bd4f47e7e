"""C21: glass indices are physical and look-ups find the right glass."""
import gc
import itertools
import math
import os
from mc import glass, session
from mc.core import Violation, REPO

IMPORTS = False
LEVEL = "exploration"
WAVELENGTHS = (0.4, 0.4861327, 0.5875618, 0.6562725, 0.855, 1.064, 1.55, 2.0)
TOLERANCES = (None, 0, 1e-6, 1e-4, 0.001, 0.01, 0.05, 0.2, 2)


def refused(f, *args):
    try:
        got = f(*args)
    except ValueError:
        return
    except Exception as e:
        raise Violation("%r fails with %s: %s" % (args, type(e).__name__, e))
    raise Violation("%r is accepted, and gives %r" % (args, got))


def dispersion(shard, name, lo, hi, step):
    """The index of one glass over a range of wavelengths (in units of 10^-5 micrometres)."""
    import numpy as np
    import raytracing.materials as M
    cls = getattr(M, name)
    previous = None
    for k in range(lo, hi + 1, step):
        w = k/100000
        n = cls.n(w)
        shard.add("evaluations")
        if isinstance(n, complex) or not math.isfinite(n):
            raise Violation("the index of %s at %g um is %r" % (name, w, n))
        if name in glass.GLASS:
            want = glass.index(name, w)
            if abs(n - want) > 1e-9*want:
                raise Violation("the index of %s at %g um is %r, should be %r" % (name, w, n, want))
        if w <= 0.75 and name != "Air":
            if n <= 1:
                raise Violation("the index of %s at %g um is %r" % (name, w, n))
            if previous is not None and n >= previous:
                raise Violation("the index of %s does not decrease at %g um" % (name, w))
        previous = n
        if k % 1000 == 0:
            for x in [np.float64(w)] + ([int(w)] if w == int(w) else []):
                if cls.n(x) != n or cls().n(x) != n or cls().n(wavelength=x) != n:
                    raise Violation("the index of %s at %r depends on how it is asked" % (name, x))
    shard.distinct((name, lo))


def constants(shard, name):
    import raytracing.materials as M
    cls = getattr(M, name)
    for m in (cls, cls()):
        V = m.abbeNumber()
        if m.Vd() != V:
            raise Violation("%s: Vd and abbeNumber differ" % name)
        if name == "Air":
            if V not in (0, None):
                raise Violation("the Abbe number of air is %r" % V)
            continue
        if V is None:
            if name in glass.GLASS:
                raise Violation("%s has no Abbe number" % name)
            continue
        computed = (m.n(glass.D_LINE) - 1)/(m.n(glass.F_LINE) - m.n(glass.C_LINE))
        if abs(V - computed) > 0.02:
            raise Violation("%s: the stated Abbe number is %r, its indices give %r" % (name, V, computed))
        if name in glass.GLASS:
            nd, Vd, _ = glass.GLASS[name]
            if abs(m.n(glass.D_LINE) - nd) > 2e-5 or abs(V - Vd) > 0.02:
                raise Violation("%s has index %.5f and Abbe number %r, published are %.5f and %.2f" % (name, m.n(glass.D_LINE), V, nd, Vd))
        shard.add("evaluations")


def units(shard, name, unit, values):
    """Wavelengths that are not in micrometres are refused."""
    import raytracing.materials as M
    cls = getattr(M, name)
    for w in values:
        refused(cls.n, w)
        shard.add("evaluations")
    shard.distinct((name, unit))


def spellings(name, thorough):
    parts = name.split("_")
    for separators in itertools.product(("", "-", "_"), repeat=len(parts) - 1):
        s = parts[0] + "".join(a + b for a, b in zip(separators, parts[1:]))
        letters = [i for i, c in enumerate(s) if c.isalpha()]
        if len(letters) <= (12 if thorough else 5):
            for bits in itertools.product((0, 1), repeat=len(letters)):
                t = list(s)
                for i, b in zip(letters, bits):
                    t[i] = t[i].upper() if b else t[i].lower()
                yield "".join(t)
        else:
            yield from (s, s.lower(), s.upper(), s.title(), s.swapcase())
            for i in letters:
                yield s[:i] + s[i].swapcase() + s[i+1:]


def canonical(s):
    return s.lower().replace("-", "").replace("_", "")


def names(shard, name, thorough):
    import raytracing.materials as M
    from raytracing.materials import Material
    known = {canonical(x): x for x in Material.all()}
    if len(known) != len(Material.all()):
        raise Violation("two materials have the same name: %r" % (Material.all(),))
    cls = getattr(M, name)
    for s in spellings(name, thorough):
        found = Material.findByName(s)
        if type(found) is not cls:
            raise Violation("looking up %r finds %s" % (s, type(found).__name__))
        shard.add("evaluations")
        again = Material.findByName(str(found))
        if type(again) is not cls:
            raise Violation("looking up the printed name %r finds %s" % (str(found), type(again).__name__))
    letters = "ABFKLNSZ01267T"
    base = canonical(name).upper()
    wrong = [base[:i] + base[i+1:] for i in range(len(base))]
    for c in letters:
        for i in range(len(base) + 1):
            wrong += [base[:i] + c + base[i:], base[:i] + c + base[i+1:]]
    wrong += [base + base, base + " ", " " + base, base + "*", ".*", base + ".*", "", "." * len(base), "(" + base, "Material", "object"]
    for s in wrong:
        if canonical(s) not in known:
            refused(Material.findByName, s)
        elif type(Material.findByName(s)).__name__ != known[canonical(s)]:
            raise Violation("looking up %r finds %s" % (s, type(Material.findByName(s)).__name__))
        shard.add("evaluations")
    shard.distinct(("names", name))


def byIndex(shard, n, wavelength, extra=()):
    from raytracing.materials import Material
    for tolerance in TOLERANCES:
        got = Material.findByIndex(n, wavelength) if tolerance is None else Material.findByIndex(n, wavelength, tolerance)
        if tolerance is not None and repr(Material.findByIndex(n=n, wavelength=wavelength, tolerance=tolerance)) != repr(got):
            raise Violation("the answer changes when asked again")
        t = 0.05 if tolerance is None else tolerance
        must, may = set(), set()
        for name, index in [(k, glass.index(k, wavelength)) for k in glass.GLASS] + list(extra):
            d = abs(n - index)
            if d < t - 1e-9:
                must.add(name)
            if d < t + 1e-9:
                may.add(name)
        listed = [x[0] for x in got]
        if len(set(listed)) != len(listed):
            raise Violation("glasses of index %g within %r at %g um: one is listed twice: %r" % (n, tolerance, wavelength, listed))
        own = {x for x in listed if x in glass.GLASS or x in dict(extra)}
        if not must <= own or not own <= may:
            raise Violation("glasses of index %g within %r at %g um are %r, should be %r" % (n, tolerance, wavelength, sorted(own), sorted(must)))
        for name, index, V in got:
            if abs(index - n) > t + 1e-9:
                raise Violation("%s is listed, of index %r" % (name, index))
            if name in glass.GLASS:
                Vd = glass.GLASS[name][1]
                if abs(index - glass.index(name, wavelength)) > 1e-9 or (Vd and abs(V - Vd) > 0.02):
                    raise Violation("%s is listed with index %r and Abbe number %r" % (name, index, V))
        shard.add("evaluations")
    shard.distinct(("index", n, wavelength))


# ---------------------------------------------------------------- histories of the registry of glasses
OPS = [("define", "My_Glass", 1.61), ("define", "My_Glass", 1.72), ("define", "N_BK8", 1.5), ("gc",), ("ask",), ("index",)]


def registry(ops):
    """Runs in a process of its own. Answers None or what is wrong."""
    gc.disable()
    import raytracing.materials as M
    from raytracing.materials import Material
    defined, keep = {}, []
    def look():
        for name, (cls, n) in defined.items():
            for s in (name, name.lower(), name.replace("_", "-"), name.replace("_", "").upper()):
                found = Material.findByName(s)
                if type(found) is not cls or found.n(0.5) != n:
                    return "looking up %r does not find the glass that was defined" % s
                if type(Material.findByName(str(found))) is not cls:
                    return "the printed name %r does not find it" % str(found)
        for name in glass.GLASS:
            if type(Material.findByName(name.replace("_", "-"))) is not getattr(M, name):
                return "looking up %s finds something else" % name
        for name in ("My_Glass", "N_BK8"):
            if name not in defined:
                try:
                    Material.findByName(name)
                    return "%s is found before it is defined" % name
                except ValueError:
                    pass
        listed = Material.all()
        if len(set(listed)) != len(listed) or not set(listed) >= set(glass.GLASS) | set(defined):
            return "the list of materials is %r" % (listed,)
    class S:
        add = distinct = lambda *a: None
    def index():
        for n in (1.5, 1.61, 1.72):
            byIndex(S, n, 0.5875618, [(k, v[1]) for k, v in defined.items()])
    for op in ops + (("ask",), ("index",)):
        if op[0] == "define":
            def make(n):
                return type(op[1], (Material,), dict(n=classmethod(lambda cls, wavelength: n), __module__="__main__"))
            cls = make(op[2])
            keep.append(cls)
            defined[op[1]] = (cls, op[2])
        elif op[0] == "gc":
            gc.collect()
        elif op[0] == "ask":
            bad = look()
            if bad:
                return bad
        else:
            try:
                index()
            except Violation as e:
                return str(e)
    return None


def history(shard, ops):
    answer = session.forked(lambda: registry(ops))
    if answer != ("ok", None):
        raise Violation(str(answer[1]))
    shard.add("evaluations", len(ops) + 2)
    shard.distinct(("registry", ops))


def worker(shard):
    if shard.index % 2:
        gc.collect()
    from raytracing.materials import Material
    available = Material.all()
    missing = [x for x in glass.GLASS if x not in available]
    if missing and shard.index == 0:
        shard.violations.append(dict(message="missing materials: %r" % missing, case=None))
    listed = sorted(set(available))
    nm = [float(x) for x in range(200, 3001, 1 if shard.thorough else 7)] + list(range(300, 3001, 100))

    def plan():
        step = 2 if shard.thorough else 100
        for name in listed:
            for lo in range(40000, 200000, 40000):
                yield (name, "index", lo, lo + 40000), dispersion, (name, lo, lo + 40000, step)
            yield (name, "constants"), constants, (name,)
            yield (name, "nm"), units, (name, "nm", nm)
            yield (name, "m"), units, (name, "m", [x*1e-9 for x in nm])
            yield (name, "mm"), units, (name, "mm", [x*1e-6 for x in nm])
            yield (name, "A"), units, (name, "A", [x*10 for x in nm])
            yield (name, "none"), units, (name, "none", [0, 0.0, -0.5, -500, 1e9])
            yield (name, "names"), names, (name, shard.thorough)
        for k in range(1000, 2001, 1 if shard.thorough else 5):
            for w in WAVELENGTHS:
                yield ("index", k/1000, w), byIndex, (k/1000, w)
        for name in glass.GLASS:
            for w in WAVELENGTHS:
                for d in (0, 1e-5, -1e-5):
                    yield ("index of", name, w, d), byIndex, (glass.index(name, w) + d, w)
        for depth in range(0, 5 if shard.thorough else 4):
            for ops in itertools.product(OPS, repeat=depth):
                yield ("registry",) + ops, history, (ops,)

    for case, f, args in shard.mine(plan()):
        if shard.full(): return
        shard.run(case, f, shard, *args)
        shard.sample(case)


def run(check):
    gc.disable()        # what is not referred to any more may or may not be still there: both are tried
    import raytracing
    import warnings
    warnings.simplefilter("ignore")
    where = os.path.realpath(raytracing.__file__)
    assert where.startswith(os.path.realpath(REPO) + os.sep), where
    check.sharded(worker)
    check.coverage = dict(evaluations=check.counters.get("evaluations", 0), distinct_nontrivial=len(check.hashes), exhaustive=True,
                          rule="every material x every wavelength of 0.4-2 um in steps of %s um, the same wavelengths in nm, mm, m and Angstrom, every "
                               "separator and letter case of every name and every one-character error in it, every index in steps of %s x %d wavelengths x "
                               "%d tolerances, every history of up to %d definitions, collections and look-ups" %
                               ("0.00002" if check.thorough else "0.001", "0.001" if check.thorough else "0.005", len(WAVELENGTHS), len(TOLERANCES), 4 if check.thorough else 3),
                          samples=check.samples)
    check.assumptions = ["published data: the makers' coefficients, index at the d line and Abbe number, in mc/glass.py",
                         "a material that is not in that table is held to the general laws only"]
