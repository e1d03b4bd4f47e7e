"""What a user can see of a system: the answers to many questions, in a comparable form."""
import math
import raytracing as rt
from raytracing.matrixgroup import MatrixGroup

INF = float("inf")


def canon(x):
    """A value as nested tuples of plain values, independent of the identity of the objects in it."""
    import numpy as np
    if x is None or isinstance(x, (bool, str, bytes)):
        return x
    if isinstance(x, np.ndarray):
        return ("list",) + tuple(canon(v) for v in x)
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, (int, float, np.integer, np.floating)):
        return float(x)
    if isinstance(x, complex):
        return ("complex", x.real, x.imag)
    if isinstance(x, rt.Ray):
        return ("Ray", float(x.y), float(x.theta), float(x.z), bool(x.isBlocked))
    if isinstance(x, rt.GaussianBeam):
        return ("Beam", canon(complex(x.q)), canon(x.n), canon(x.wavelength), canon(x.z), bool(x.isClipped))
    if isinstance(x, rt.Rays):
        return ("Rays",) + tuple(canon(r) for r in x.rays)
    if isinstance(x, rt.Matrix):
        own = ("Matrix", float(x.A), float(x.B), float(x.C), float(x.D), float(x.L), canon(x.frontIndex), canon(x.backIndex),
               canon(x.frontVertex), canon(x.backVertex), canon(x.apertureDiameter), canon(x.apertureNA))
        if isinstance(x, MatrixGroup):
            own += tuple(canon(e) for e in x.elements)
        return own
    if isinstance(x, dict):
        return ("dict",) + tuple((canon(k), canon(v)) for k, v in sorted(x.items(), key=lambda kv: str(kv[0])))
    if isinstance(x, (list, tuple)):
        return ("list",) + tuple(canon(v) for v in x)
    return ("object", type(x).__name__)


def same(a, b, rel=1e-9, ab=1e-9):
    """Two canonical values are equal, numbers within rounding."""
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a != a or b != b:
            return a != a and b != b
        if a in (INF, -INF) or b in (INF, -INF):
            return a == b
        return abs(a - b) <= max(ab, rel*max(abs(a), abs(b)))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y, rel, ab) for x, y in zip(a, b))
    return a == b


def ask(f):
    try:
        return canon(f())
    except Exception as e:
        return ("raises", type(e).__name__)


def ray(y, theta, z=0):
    return rt.Ray(y=y, theta=theta, z=z)


def depths(m):
    zs, z = [0.0], 0.0
    def walk(e):
        nonlocal z
        if isinstance(e, MatrixGroup):
            for x in e.elements:
                walk(x)
            return
        if e.L > 0:
            if isinstance(e, (rt.Space, rt.ThickLens)):
                zs.append(z + e.L/2)
            z += e.L
            zs.append(z)
    walk(m)
    return sorted(set(zs))


def beam(m):
    return rt.GaussianBeam(w=1.5, R=INF, n=m.frontIndex, wavelength=0.0006)


def matrixQueries(m):
    """Questions that any element answers. Returns {name: callable}."""
    q = {}
    q["ABCD"] = lambda: (m.A, m.B, m.C, m.D, m.L, m.determinant, m.isIdentity)
    q["media"] = lambda: (m.frontIndex, m.backIndex, m.frontVertex, m.backVertex)
    q["aperture"] = lambda: (m.hasFiniteApertureDiameter(), m.largestDiameter)
    q["transferMatrix"] = lambda: m.transferMatrix()
    q["transferMatrices"] = lambda: m.transferMatrices()
    q["upTo"] = lambda: [m.transferMatrix(upTo=z) for z in depths(m)]
    q["focal"] = lambda: (m.effectiveFocalLengths(), m.focalDistances(), m.hasPower, m.isImaging)
    q["frontFocalLength"] = lambda: m.frontFocalLength()
    q["backFocalLength"] = lambda: m.backFocalLength()
    q["focusPositions"] = lambda: (m.focusPositions(0), m.focusPositions(7.5))
    q["principalPlanes"] = lambda: (m.principalPlanePositions(0), m.principalPlanePositions(z=-3))
    q["forwardConjugate"] = lambda: m.forwardConjugate()
    q["backwardConjugate"] = lambda: m.backwardConjugate()
    q["magnification"] = lambda: m.magnification()
    q["trace"] = lambda: m.trace(ray(3, 0.0625))
    q["traceBlocked"] = lambda: m.trace(ray(11, -0.25, 2))
    q["traceThrough"] = lambda: m.traceThrough(ray(-1, 0.5))
    q["traceMany"] = lambda: m.traceMany([ray(0, 0.1), ray(5, -0.1), ray(30, 0)])
    q["traceManyThrough"] = lambda: m.traceManyThrough([ray(0, 0.1), ray(5, -0.1), ray(30, 0)], progress=False)
    q["profile"] = lambda: m.profileFromRayTraces(m.traceMany([ray(1, 0.1), ray(5, -0.1), ray(30, 0)]))
    q["timesRay"] = lambda: m*ray(2, 0.125)
    q["timesBeam"] = lambda: m*beam(m)
    q["traceBeam"] = lambda: m.trace(beam(m))
    q["invariant"] = lambda: [m.opticalInvariant(ray(1, 0), ray(0.5, 0.05), z) for z in depths(m)]
    q["pointsOfInterest"] = lambda: m.pointsOfInterest(1.0)
    q["product"] = lambda: m*rt.Space(d=4, n=m.frontIndex)
    q["str"] = lambda: str(m)
    q["halfHeight"] = lambda: m.displayHalfHeight()
    return q


def groupQueries(m):
    q = matrixQueries(m)
    q["len"] = lambda: (len(m), len(list(m)), len(m.elements))
    q["elements"] = lambda: list(m)
    q["items"] = lambda: [m[i] for i in range(-len(m), len(m))]
    q["slices"] = lambda: [m[1:], m[:-1], m[0:1]]
    q["intermediateConjugates"] = lambda: m.intermediateConjugates()
    q["equal"] = lambda: (m == m, m == rt.Matrix(), m != m)
    return q


def imagingQueries(m):
    q = groupQueries(m)
    q["apertureStop"] = lambda: (m.apertureStop(), m.hasApertureStop())
    q["entrancePupil"] = lambda: m.entrancePupil()
    q["fNumber"] = lambda: m.fNumber()
    q["NA"] = lambda: m.NA()
    q["marginalRays"] = lambda: (m.marginalRays(), m.marginalRays(y=1.5), m.axialRay())
    q["chiefRay"] = lambda: (m.chiefRay(y=1.5), m.chiefRay(y=-2))
    q["fieldStop"] = lambda: (m.fieldStop(), m.hasFieldStop())
    q["fieldOfView"] = lambda: (m.fieldOfView(), m.halfFieldOfView())
    q["principalRay"] = lambda: m.principalRay()
    q["imageSize"] = lambda: (m.imageSize(), m.imageSize(useObject=True))
    q["lagrange"] = lambda: m.lagrangeInvariant()
    q["object"] = lambda: (m.objectHeight, m.objectPosition, m.fanAngle, m.fanNumber, m.rayNumber)
    q["subPath"] = lambda: [ask(lambda: m.subPath(z)) for z in depths(m)] + [ask(lambda: m.subPath(z, backwards=True)) for z in depths(m)]
    return q


def laserQueries(m):
    q = groupQueries(m)
    if isinstance(m, rt.LaserCavity):
        q["eigenModes"] = lambda: m.eigenModes()
        q["laserModes"] = lambda: m.laserModes()
        q["isStable"] = lambda: m.isStable
    return q


def queries(m):
    if isinstance(m, rt.ImagingPath):
        return imagingQueries(m)
    if isinstance(m, rt.LaserPath):
        return laserQueries(m)
    if isinstance(m, MatrixGroup):
        return groupQueries(m)
    return matrixQueries(m)


SLOW = ("fieldStop", "fieldOfView", "principalRay", "imageSize", "lagrange")


def signature(m, skip=()):
    """All the answers of a system."""
    return {name: ask(f) for name, f in queries(m).items() if name not in skip}


def difference(a, b, loose=("fieldStop", "fieldOfView", "principalRay", "imageSize", "lagrange")):
    """The first question answered differently, or None."""
    for name in a:
        if name in b and not same(a[name], b[name]):
            return "%s is %s, should be %s" % (name, a[name], b[name])
    missing = set(a) ^ set(b)
    return "different questions %s" % missing if missing else None
