"""Reference paraxial optics, in exact rational arithmetic, written from the textbook laws and not from /repo.

An element is described by a spec, a tuple that `real` turns into an object of /repo and `Ref` into the reference:
  ("Space", d, n=1, diameter=None, "ToFocus" or "ToConjugate" if it is one of these)
  ("Lens", f, diameter=None)
  ("Mirror", R, diameter=None)              ("DI", n1, n2, R=None, diameter=None)      (R=None: flat)
  ("Thick", n, R1, R2, t, diameter=None)    ("Slab", n, t, diameter=None)
  ("Aperture", diameter, NA=None)           ("Axicon", alpha, n, diameter=None)
  ("Matrix", A, B, C, D, L, n1, n2, fv, bv, diameter=None)
  ("Group", [specs])                        ("Flip", spec)
  ("4f", f1, f2, d1, d2)                    ("2f", f, d)
"""
from fractions import Fraction as F

INF = float("inf")


def fr(x):
    return x if isinstance(x, F) else F(x)


class Ref:
    """One element as the rest of the system sees it: ABCD, length, media, vertices and how it clips."""
    __slots__ = ("A", "B", "C", "D", "L", "n1", "n2", "fv", "bv", "diam", "na", "kind", "steps", "dev")

    def __init__(self, A, B, C, D, L=0, n1=1, n2=1, fv=None, bv=None, diam=None, na=None, kind="", steps=None, dev=None):
        self.A, self.B, self.C, self.D, self.L = fr(A), fr(B), fr(C), fr(D), fr(L)
        self.n1, self.n2 = fr(n1), fr(n2)
        self.fv = None if fv is None else fr(fv)
        self.bv = None if bv is None else fr(bv)
        self.diam = None if diam is None else fr(diam)
        self.na = None if na is None else fr(na)
        self.kind = kind
        self.steps = steps      # the primitive steps of an element with thickness, for cutting it
        self.dev = None if dev is None else fr(dev)     # deviation of an axicon

    def abcd(self):
        return (self.A, self.B, self.C, self.D)


IDENT = (F(1), F(0), F(0), F(1))


def mul(m2, m1):
    """The matrix of m1 followed by m2."""
    a2, b2, c2, d2 = m2
    a1, b1, c1, d1 = m1
    return (a2*a1 + b2*c1, a2*b1 + b2*d1, c2*a1 + d2*c1, c2*b1 + d2*d1)


def free(d):
    return (F(1), fr(d), F(0), F(1))


def refraction(n1, n2, R):
    n1, n2 = fr(n1), fr(n2)
    power = F(0) if R is None else (n2 - n1) / fr(R)
    return (F(1), F(0), -power/n2, n1/n2)


def product(ms):
    m = IDENT
    for x in ms:
        m = mul(x, m)
    return m


def opt(spec, i, default=None):
    return spec[i] if len(spec) > i else default


class Refused(Exception):
    """The system cannot be built: two neighbours do not agree on the medium between them."""


def expand(spec):
    """4f and 2f systems as the groups they are."""
    if spec[0] == "4f":
        f1, f2, d1, d2 = spec[1:5]
        return ("Group", [("Space", f1), ("Lens", f1, d1), ("Space", f1), ("Space", f2), ("Lens", f2, d2), ("Space", f2)])
    if spec[0] == "2f":
        f, d = spec[1:3]
        return ("Group", [("Space", f), ("Lens", f, d), ("Space", f)])
    return spec


def flatten(spec):
    """The elements (Ref) that a ray meets, in order; Refused if the system cannot be built."""
    spec = expand(spec)
    kind = spec[0]
    if kind == "Group":
        return [e for child in children(spec[1]) for e in child]
    if kind == "Flip":
        return [flip(e) for e in reversed(flatten(spec[1]))]
    return [single(spec)]


def children(specs):
    """The flattened elements of each member of a group. A plain gap takes the medium in front of it; anything
    else must match it."""
    out = []
    n = None
    for s in specs:
        flat = flatten(s)
        t = total(flat)
        if n is not None and t.n1 != n:
            if isSpace(s):
                e = flat[0]
                flat = [Ref(1, e.B, 0, 1, e.L, n, n, diam=e.diam, kind="Space")]
                t = total(flat)
            else:
                raise Refused()
        out.append(flat)
        n = t.n2
    return out


def isSpace(spec):
    return spec[0] == "Space" or (spec[0] == "Flip" and isSpace(spec[1]))


def single(spec):
    kind = spec[0]
    if kind == "Space":
        d, n, diam = spec[1], opt(spec, 2, 1), opt(spec, 3)
        return Ref(1, d, 0, 1, d, n, n, diam=diam, kind="Space")
    if kind == "Lens":
        return Ref(1, 0, -1/fr(spec[1]), 1, 0, fv=0, bv=0, diam=opt(spec, 2), kind="Lens")
    if kind == "Mirror":
        return Ref(1, 0, 2/fr(spec[1]), 1, 0, fv=0, bv=0, diam=opt(spec, 2), kind="Mirror")
    if kind == "DI":
        n1, n2, R = spec[1], spec[2], opt(spec, 3)
        return Ref(*refraction(n1, n2, R), 0, n1, n2, 0, 0, diam=opt(spec, 4), kind="DI", steps=[R])
    if kind in ("Thick", "Slab"):
        if kind == "Slab":
            n, t, diam = spec[1], spec[2], opt(spec, 3)
            R1 = R2 = None
        else:
            n, R1, R2, t, diam = spec[1], spec[2], spec[3], spec[4], opt(spec, 5)
        m = product([refraction(1, n, R1), free(t), refraction(n, 1, R2)])
        return Ref(*m, t, 1, 1, 0, t, diam=diam, kind=kind, steps=[n, R1, R2])
    if kind == "Aperture":
        return Ref(1, 0, 0, 1, 0, diam=spec[1], na=opt(spec, 2), kind="Aperture")
    if kind == "Axicon":
        alpha, n = spec[1], spec[2]
        return Ref(1, 0, 0, 1, 0, diam=opt(spec, 3), kind="Axicon", dev=(fr(n) - 1)*fr(alpha))
    if kind == "Matrix":
        A, B, C, D, L, n1, n2, fv, bv = spec[1:10]
        return Ref(A, B, C, D, L, n1, n2, fv, bv, diam=opt(spec, 10), kind="Matrix")
    raise ValueError(spec)


def flip(e):
    """The same element seen from the other side."""
    if e.kind == "DI":
        R = None if e.steps[0] is None else -e.steps[0]
        return Ref(*refraction(e.n2, e.n1, R), 0, e.n2, e.n1, 0, 0, diam=e.diam, kind="DI", steps=[R])
    if e.kind in ("Thick", "Slab"):
        n, R1, R2 = e.steps
        neg = lambda R: None if R is None else -R
        steps = [n, neg(R2), neg(R1)]
        m = product([refraction(1, n, steps[1]), free(e.L), refraction(n, 1, steps[2])])
        return Ref(*m, e.L, 1, 1, 0, e.L, diam=e.diam, kind=e.kind, steps=steps)
    if e.kind == "Mirror":
        return Ref(1, 0, -e.C, 1, 0, fv=0, bv=0, diam=e.diam, kind="Mirror")
    if e.kind in ("Space", "Lens", "Aperture", "Axicon"):
        return e
    raise ValueError("no reversed form for " + e.kind)


def total(flat):
    """The whole of a sequence of elements, as one Ref."""
    m = product([e.abcd() for e in flat])
    L = sum((e.L for e in flat), F(0))
    z, fv, bv = F(0), None, None
    for e in flat:
        if fv is None and e.fv is not None:
            fv = z + e.fv
        if e.bv is not None:
            bv = z + e.bv
        z += e.L
    n1 = flat[0].n1 if flat else F(1)
    n2 = flat[-1].n2 if flat else F(1)
    return Ref(*m, L, n1, n2, fv, bv, kind="total")


def cut(e, z):
    """(abcd, index) of the part of an element with thickness in front of depth z, 0 <= z < e.L."""
    if e.kind == "Space":
        return free(z), e.n1
    if e.kind in ("Thick", "Slab"):
        n, R1, R2 = e.steps
        return mul(free(z), refraction(1, n, R1)), fr(n)
    if z == 0:
        return IDENT, e.n1
    raise ValueError("cannot cut " + e.kind)


def upTo(flat, z):
    """(abcd, index, length) of everything in front of depth z (what lies exactly at z, or ends there, included)."""
    z = fr(z)
    m, n, rest = IDENT, (flat[0].n1 if flat else F(1)), z
    for e in flat:
        if e.L <= rest:
            m, n, rest = mul(e.abcd(), m), e.n2, rest - e.L
        else:
            c, n = cut(e, rest)
            return mul(c, m), n, z
    return m, n, z - rest


def trace(flat, y, theta, z=0, blocked=False, exitClips=False):
    """Stepwise propagation. Returns the list of (y, theta, z, blocked, diameter met) after every step: one point at
    the input, and for each element its entrance (if it has a length) and its exit. A blocked ray stays where it is.
    exitClips: an element with a length also clips at its exit."""
    y, theta, z = fr(y), fr(theta), fr(z)
    points = [(y, theta, z, blocked)]
    for e in flat:
        wasBlocked = blocked
        if not blocked:
            if e.diam is not None and abs(y) > e.diam/2:
                blocked = True
            if e.na is not None and abs(theta) > e.na:
                blocked = True
        if e.L > 0:
            points.append((y, theta, z, blocked))
            if blocked:
                points.append((y, theta, z, True))
                continue
        if not wasBlocked:
            yIn = y
            y, theta, z = e.A*y + e.B*theta, e.C*y + e.D*theta, z + e.L
            if e.dev is not None:
                theta += -e.dev if yIn > 0 else (e.dev if yIn < 0 else 0)
            if exitClips and e.L > 0 and e.diam is not None and abs(y) > e.diam/2:
                blocked = True
        points.append((y, theta, z, blocked))
    return points


# ---------------------------------------------------------------- the same systems in /repo

def real(spec):
    import raytracing as rt
    kind = spec[0]
    inf = INF
    def d(i):
        v = opt(spec, i)
        return inf if v is None else float(v)
    def r(v):
        return inf if v is None else v
    if kind == "Space":
        if opt(spec, 4):
            before = rt.Lens(f=spec[1]) if spec[4] == "ToFocus" else rt.MatrixGroup([rt.Space(2*spec[1]), rt.Lens(f=spec[1]*2/3)])
            e = getattr(rt, spec[4])(before)
            e.frontIndex = e.backIndex = opt(spec, 2, 1)
            return e
        return rt.Space(d=spec[1], n=opt(spec, 2, 1), diameter=d(3))
    if kind == "Lens":
        return rt.Lens(f=spec[1], diameter=d(2))
    if kind == "Mirror":
        return rt.CurvedMirror(R=spec[1], diameter=d(2))
    if kind == "DI":
        return rt.DielectricInterface(n1=spec[1], n2=spec[2], R=r(opt(spec, 3)), diameter=d(4))
    if kind == "Thick":
        return rt.ThickLens(n=spec[1], R1=r(spec[2]), R2=r(spec[3]), thickness=spec[4], diameter=d(5))
    if kind == "Slab":
        return rt.DielectricSlab(n=spec[1], thickness=spec[2], diameter=d(3))
    if kind == "Aperture":
        return rt.Aperture(diameter=spec[1], NA=inf if opt(spec, 2) is None else spec[2])
    if kind == "Axicon":
        return rt.Axicon(alpha=spec[1], n=spec[2], diameter=d(3))
    if kind == "Matrix":
        A, B, C, D, L, n1, n2, fv, bv = spec[1:10]
        return rt.Matrix(A=A, B=B, C=C, D=D, physicalLength=L, frontIndex=n1, backIndex=n2, frontVertex=fv,
                         backVertex=bv, apertureDiameter=d(10))
    if kind == "Group":
        return rt.MatrixGroup([real(s) for s in spec[1]])
    if kind == "4f":
        f1, f2, d1, d2 = spec[1:5]
        return rt.System4f(f1=f1, f2=f2, diameter1=inf if d1 is None else d1, diameter2=inf if d2 is None else d2)
    if kind == "2f":
        f, dd = spec[1:3]
        return rt.System2f(f=f, diameter=inf if dd is None else dd)
    if kind == "Flip":
        e = real(spec[1])
        e.flipOrientation()
        return e
    raise ValueError(spec)


def close(a, b, scale=1.0, rel=1e-9):
    """a (from /repo) equals b (reference) within rounding."""
    if a is None or b is None:
        return a is None and b is None
    a, b = float(a), float(b)
    if a != a or b != b:
        return False
    if a in (INF, -INF) or b in (INF, -INF):
        return a == b
    return abs(a - b) <= rel*max(abs(a), abs(b), abs(float(scale)))


def fragile(flat, y, theta):
    """Is some decision along the way of this ray (clipped or not, above or below the axis) within rounding of an edge?"""
    y, theta = fr(y), fr(theta)
    tiny = F(1, 10**8)
    for e in flat:
        if e.diam is not None and abs(abs(y) - e.diam/2) < tiny*(1 + abs(y)):
            return True
        if e.na is not None and abs(abs(theta) - e.na) < tiny:
            return True
        if e.dev is not None and abs(y) < tiny:
            return True
        yIn = y
        y, theta = e.A*y + e.B*theta, e.C*y + e.D*theta
        if e.dev is not None:
            theta += -e.dev if yIn > 0 else e.dev
        if e.diam is not None and abs(abs(y) - e.diam/2) < tiny*(1 + abs(y)):
            return True
    return False
