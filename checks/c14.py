"""C14: ray sources produce exactly the advertised rays."""
import collections, itertools, math, os, random
from mc.core import Violation

LEVEL = "model_checking"
INF = float("inf")
HALF = math.pi/2
TOP = 1 - 2**-53        # the largest answer of the random generator


class Exhausted(BaseException):
    pass


class Script:
    """The answers of every random generator of numpy and python, in place of real ones."""

    def __init__(self, answers=None, repeat=False):
        self.answers, self.position, self.repeat = answers, 0, repeat

    def one(self):
        if self.answers is None:        # a sequence that never comes back to the same value
            self.position += 1
            return (self.position*0.6180339887498949 + 0.3) % 1.0
        if self.position >= len(self.answers):
            if not self.repeat:
                raise Exhausted()
            self.position = 0
        self.position += 1
        return self.answers[self.position - 1]

    def draw(self, size=None):
        import numpy as np
        if size is None:
            return self.one()
        return np.array([self.one() for _ in range(int(np.prod(size)))]).reshape(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low)*self.draw(size)

    def install(self):
        import numpy as np
        for name in ("random", "random_sample", "ranf", "sample"):
            setattr(np.random, name, self.draw)
        np.random.rand = lambda *shape: self.draw(shape or None)
        np.random.uniform = self.uniform
        random.random = self.one
        random.uniform = self.uniform


def spaced(low, high, n):
    return [low + (high - low)*i/(n - 1) for i in range(n)] if n > 1 else None


def group(values):
    """Values that are equal within rounding, as one."""
    out = []
    for v in sorted(values):
        if not out or abs(v - out[-1]) > 1e-9:
            out.append(v)
    return out


def isAxis(name, got, low, high, n):
    """got (distinct values) are n evenly spaced values from low to high, both included."""
    if n == 0:
        want = []
    elif low == high:
        want = [low]
    elif n == 1:
        if len(got) != 1 or not min(low, high) - 1e-12 <= got[0] <= max(low, high) + 1e-12:
            raise Violation("%s are %s, should be one value from %r to %r" % (name, got, low, high))
        return got
    else:
        want = sorted(spaced(low, high, n))
    if len(got) != len(want) or any(abs(g - w) > 1e-12*max(1, abs(w)) for g, w in zip(got, want)):
        raise Violation("%s are %s, should be %s" % (name, got, want))
    return want


def deterministic(shard, name, make, count, yRange, M, tRange, N, weight=None):
    rays = make()
    got = [(float(r.y), float(r.theta)) for r in rays]
    shard.add("traces")
    shard.distinct((name, tuple(got)))
    if len(got) != count or len(rays) != count or (hasattr(rays, "count") and not isinstance(rays, list) and rays.count != count):
        raise Violation("%s has %d rays (len %d), should have %d" % (name, len(got), len(rays), count))
    if any(r.isBlocked or r.z != 0 for r in rays):
        raise Violation("%s has rays that are blocked or away from z=0" % name)
    if count == 0:
        return
    ys = isAxis("the heights", group(y for y, t in got), yRange[0], yRange[1], M)
    if weight is None:
        ts = isAxis("the angles", group(t for y, t in got), tRange[0], tRange[1], N)
        each = collections.Counter((round(y, 9), round(t, 9)) for y, t in got)
        times = (1 if yRange[0] != yRange[1] else M)*(1 if tRange[0] != tRange[1] else N)
        for y in ys:
            for t in ts:
                n = sum(1 for a, b in got if abs(a - y) < 1e-9 and abs(b - t) < 1e-9)
                if n != times:
                    raise Violation("%s has %d rays at (%r, %r), should have %d" % (name, n, y, t, times))
    else:
        times = 1 if yRange[0] != yRange[1] else M
        for y in ys:
            for t in (spaced(tRange[0], tRange[1], N) or [tRange[0]]):
                n = sum(1 for a, b in got if abs(a - y) < 1e-9 and abs(b - t) < 1e-9)
                least, most = weight(t)
                if not least*times <= n <= most*times:
                    raise Violation("%s has %d rays at (%r, %r), should have %d" % (name, n, y, t, least*times))
    again = make()
    if [(float(r.y), float(r.theta)) for r in again] != got:
        raise Violation("%s gives other rays the second time" % name)
    if not isinstance(rays, list):
        for i in range(-count, count):
            if (rays[i].y, rays[i].theta) != got[i % count]:
                raise Violation("ray %d of %s is not the one iterated" % (i, name))
        for i in (count, -count - 1):
            try:
                rays[i]
            except IndexError:
                continue
            raise Violation("%s has a ray %d, of %d" % (name, i, count))
    shard.add("transitions", count)


def lambert(I):
    def weight(theta):
        x = I*math.cos(theta)
        return math.floor(x - 1e-9) if x > 0.5 else 0, math.floor(x + 1e-9)
    return weight


def sources(thorough):
    """(name, make, count, yRange, M, thetaRange, N, weight)"""
    import raytracing as rt
    ranges = [(None, 1.0), (None, 2.5), (0, 3.0), (-1.0, 0), (0.5, 2.0), (-3.0, -1.0), (None, 0), (2.0, 2.0)]
    angles = [(None, 0.5), (None, HALF), (0, 0.25), (-0.125, 0), (0.1, 0.3), (-0.75, 0.25), (None, 0)]
    numbers = [1, 2, 3, 5] + ([4, 7, 10] if thorough else [])
    for (y0, y1), (t0, t1), M, N in itertools.product(ranges, angles, numbers, numbers):
        a, b = -y1 if y0 is None else y0, -t1 if t0 is None else t0
        yield ("UniformRays(%r, %r, %r, %r, %d, %d)" % (y1, y0, t1, t0, M, N), lambda y0=y0, y1=y1, t0=t0, t1=t1, M=M, N=N:
               rt.UniformRays(yMax=y1, yMin=y0, thetaMax=t1, thetaMin=t0, M=M, N=N), M*N, (a, y1), M, (b, t1), N, None)
        if y0 is not None and t0 is not None:
            yield ("Ray.fanGroup", lambda y0=y0, y1=y1, t0=t0, t1=t1, M=M, N=N: rt.Ray.fanGroup(y0, y1, M, t0, t1, N), M*N, (a, y1), M, (b, t1), N, None)
            yield ("Ray.fanGroup()", lambda y0=y0, y1=y1, t0=t0, t1=t1, M=M, N=N: rt.Ray.fanGroup(yMin=y0, yMax=y1, M=M, radianMin=t0, radianMax=t1, N=N),
                   M*N, (a, y1), M, (b, t1), N, None)
    for y in (0, 1.5, -3):
        for t0, t1 in ((-0.5, 0.5), (0, 0.25), (0.1, 0.3), (-0.3, -0.1)):
            for N in numbers:
                yield ("Ray.fan", lambda y=y, t0=t0, t1=t1, N=N: rt.Ray.fan(y, t0, t1, N), N, (y, y), 1, (t0, t1), N, None)
    for y0, y1 in ranges:
        a = -y1 if y0 is None else y0
        for M, N, I in itertools.product(numbers, numbers + [4, 6], (1, 2, 10, 37) + ((100, 3) if thorough else ())):
            weight = lambert(I)
            sure = [weight(t) for t in (spaced(-HALF, HALF, N) or [-HALF])]
            if any(lo != hi for lo, hi in sure) and N > 1:
                count = sum(math.floor(I*math.cos(t)) for t in spaced(-HALF, HALF, N))
                if any(abs(I*math.cos(t) - round(I*math.cos(t))) < 1e-9 and abs(t) > 1e-9 and abs(abs(t) - HALF) > 1e-9 for t in spaced(-HALF, HALF, N)):
                    continue        # the cosine times the number is a whole number, within rounding
                count = sum(int(I*math.cos(t) + (1e-12 if abs(t) < 1e-9 else 0)) for t in spaced(-HALF, HALF, N))
            elif N == 1:
                continue            # which single angle is not stated
            else:
                count = sum(lo for lo, hi in sure)
            yield ("LambertianRays(%r, %r, %d, %d, %d)" % (y1, y0, M, N, I), lambda y0=y0, y1=y1, M=M, N=N, I=I:
                   rt.LambertianRays(yMax=y1, yMin=y0, M=M, N=N, I=I), count*M, (a, y1), M, (-HALF, HALF), N, weight)
    for d in (2, 7.5, 0):
        for angle in (0.25, 1.0, 0):
            for H, T in itertools.product(numbers, numbers):
                yield ("ObjectRays(%r, %r, %d, %d)" % (d, angle, H, T), lambda d=d, angle=angle, H=H, T=T: rt.ObjectRays(diameter=d, halfAngle=angle, H=H, T=T, z=3, label="x"),
                       H*T, (-d/2, d/2), H, (-angle, angle), T, None)
                yield ("LampRays(%r, %r, %d, %d)" % (d, angle, H, T), lambda d=d, angle=angle, H=H, T=T: rt.LampRays(diameter=d, NA=angle, N=H, T=T, z=3),
                       H*T, (-d/2, d/2), H, (-angle, angle), T, None)
                yield ("LampRays(H=) (%r, %r, %d, %d)" % (d, angle, H, T), lambda d=d, angle=angle, H=H, T=T: rt.LampRays(diameter=d, NA=angle, H=H, T=T),
                       H*T, (-d/2, d/2), H, (-angle, angle), T, None)


def defaults(shard):
    """The sources as they come, and what they say of themselves."""
    import raytracing as rt
    for name, rays, count, yMax, tMax in (("UniformRays", rt.UniformRays(), 10000, 1, HALF), ("ObjectRays", rt.ObjectRays(diameter=5), 9, 2.5, 1),
                                          ("LampRays", rt.LampRays(diameter=5), 1000, 2.5, 1), ("LambertianRays", rt.LambertianRays(), None, 1, None)):
        if count is not None and len(rays) != count:
            raise Violation("%s() has %d rays, should have %d" % (name, len(rays), count))
        if abs(max(r.y for r in rays) - yMax) > 1e-12 or abs(min(r.y for r in rays) + yMax) > 1e-12:
            raise Violation("the heights of %s() do not reach both ends" % name)
        if tMax is not None and (abs(max(r.theta for r in rays) - tMax) > 1e-12 or abs(min(r.theta for r in rays) + tMax) > 1e-12):
            raise Violation("the angles of %s() do not reach both ends" % name)
    want = 100*sum(int(100*math.cos(t)) for t in spaced(-HALF, HALF, 100))
    if len(rt.LambertianRays()) != want:
        raise Violation("LambertianRays() has %d rays, should have %d" % (len(rt.LambertianRays()), want))
    for make in (lambda: rt.ObjectRays(2, z=7, label="here", color="r", rayColors=["b"]), lambda: rt.LampRays(2, z=7, label="here", rayColors=["b"]),
                 lambda: rt.LampRays(2, z=7, label="here", rayColors=["b"], random=True)):
        rays = make()
        if (rays.z, rays.label, rays.rayColors) != (7, "here", ["b"]):
            raise Violation("a source forgets its place, label or colors")
    for bad in (0, -1):
        for make in (lambda: rt.Ray.fan(0, -1, 1, bad), lambda: rt.Ray.fanGroup(0, 1, bad, -1, 1, 2), lambda: rt.Ray.fanGroup(0, 1, 2, -1, 1, bad)):
            try:
                make()
            except ValueError:
                continue
            raise Violation("a fan of %d rays is not refused" % bad)
    shard.add("traces")


def randomSources(maxCount):
    """name -> (make, heights, angles, law)"""
    import raytracing as rt
    flat = lambda y, t: 1.0
    return {
        "RandomUniformRays": (lambda: rt.RandomUniformRays(yMax=2, thetaMax=0.5, maxCount=maxCount), (-2, 2), (-0.5, 0.5), flat),
        "RandomUniformRays 0..": (lambda: rt.RandomUniformRays(yMax=3, yMin=0, thetaMax=0.75, thetaMin=0, maxCount=maxCount), (0, 3), (0, 0.75), flat),
        "RandomUniformRays off": (lambda: rt.RandomUniformRays(yMax=3, yMin=1, thetaMax=-0.25, thetaMin=-1, maxCount=maxCount), (1, 3), (-1, -0.25), flat),
        "RandomUniformRays ..0": (lambda: rt.RandomUniformRays(yMax=0, yMin=-2, thetaMax=0, thetaMin=-1, maxCount=maxCount), (-2, 0), (-1, 0), flat),
        "RandomLambertianRays": (lambda: rt.RandomLambertianRays(yMax=2, maxCount=maxCount), (-2, 2), (-HALF, HALF), lambda y, t: math.cos(t)),
        "RandomLambertianRays 0..": (lambda: rt.RandomLambertianRays(yMax=2, yMin=0, maxCount=maxCount), (0, 2), (-HALF, HALF), lambda y, t: math.cos(t)),
        "GaussianProfileUniformRays": (lambda: rt.GaussianProfileUniformRays(intensityWidth=1.5, maxCount=maxCount), (-6, 6), (-HALF, HALF),
                                       lambda y, t: math.exp(-y*y/1.5/1.5)),
        "LampRays": (lambda: rt.LampRays(diameter=5, NA=0.5, N=maxCount, random=True), (-2.5, 2.5), (-0.5, 0.5), flat),
    }


def inside(name, r, ys, ts):
    if not (ys[0] - 1e-12 <= r.y <= ys[1] + 1e-12 and ts[0] - 1e-12 <= r.theta <= ts[1] + 1e-12):
        raise Violation("%s gives the ray (%r, %r), outside of the ranges %s and %s" % (name, r.y, r.theta, ys, ts))


def law(shard, name, size):
    """Every triple of random answers of a grid: as many candidates are kept at each height and angle as the law says."""
    make, ys, ts, weight = randomSources(1)[name]
    grid = [(i + 0.5)/size for i in range(size)]
    kept = collections.Counter()
    drawn = set()
    for answers in itertools.product(grid, repeat=3):
        script = Script(answers)
        script.install()
        try:
            r = make()[0]
        except Exhausted:
            r = None
        drawn.add(script.position)
        shard.add("transitions")
        if r is not None:
            inside(name, r, ys, ts)
            kept[(round(r.y, 9), round(r.theta, 9))] += 1
    shard.add("traces", size**3)
    if drawn == {0}:
        return          # the random numbers come from somewhere else
    cells = [(ys[0] + g*(ys[1] - ys[0]), ts[0] + h*(ts[1] - ts[0])) for g in grid for h in grid]
    for y, t in cells:
        w = weight(y, t)
        want = sum(1 for g in grid if g < w)
        got = kept.pop((round(y, 9), round(t, 9)), 0)
        near = any(abs(g - w) < 1e-9 for g in grid)
        shard.distinct((name, y, t))
        if got != want and not near:
            raise Violation("%s keeps %d of %d candidates at height %g and angle %g, should keep %d" % (name, got, size, y, t, want))
    if kept:
        raise Violation("%s gives rays that are not at the heights and angles of the random answers: %s" % (name, sorted(kept)[:3]))


def extremes(shard, name):
    """Whatever the answers, down to 0 and up to almost 1: inside the ranges, and as many as stated."""
    make, ys, ts, weight = randomSources(3)[name]
    for answers in itertools.product((0.0, TOP, 0.5, 2**-60, 0.25), repeat=4):
        script = Script(answers, repeat=True)
        script.install()
        if weight(0, 0.1) != 1 and (all(a > 0.3 for a in answers) or len(set(answers)) < 2):
            continue        # every candidate could be refused for ever
        rays = make()
        got = []
        budget = 0
        def limited(size=None, one=script.one):
            nonlocal budget
            budget += 1
            if budget > 400:
                raise Exhausted()
            return script.one()
        import numpy as np
        np.random.random = limited
        try:
            for r in rays:
                inside(name, r, ys, ts)
                got.append(r)
        except Exhausted:
            continue        # this cycle of answers has no acceptable candidate
        if len(got) != 3:
            raise Violation("%s gives %d rays, should give 3" % (name, len(got)))
        shard.add("traces")
        shard.add("transitions", 3)


class RandomWorld:
    """A real random source and what it has given so far."""

    def __init__(self, name, maxCount):
        Script(None).install()
        make, self.ys, self.ts, _ = randomSources(maxCount)[name]
        self.real, self.n, self.name = make(), maxCount, name
        self.given = {}
        self.iterators = {}

    def give(self, i, r):
        inside(self.name, r, self.ys, self.ts)
        got = (r.y, r.theta)
        if self.given.setdefault(i, got) != got:
            raise Violation("ray %d is %s, and was %s before" % (i, got, self.given[i]))

    def do(self, op):
        kind, args = op[0], op[1:]
        rays, n = self.real, self.n
        if kind == "index":
            i = args[0]
            if -n <= i < n:
                self.give(i % n, rays[i])
            else:
                try:
                    rays[i]
                except IndexError:
                    return
                raise Violation("there is a ray %d, of %d" % (i, n))
        elif kind == "iterate":
            got = list(rays)
            if len(got) != n:
                raise Violation("the iteration gives %d rays, should give %d" % (len(got), n))
            for i, r in enumerate(got):
                self.give(i, r)
        elif kind == "partly":
            for i, r in enumerate(rays):
                self.give(i, r)
                if i == 1: break
        elif kind == "iter":
            self.iterators[args[0]] = [iter(rays), 0]
        elif kind == "next":
            it = self.iterators.get(args[0])
            if it is None:
                return
            try:
                r = next(it[0])
            except StopIteration:
                if it[1] != n:
                    raise Violation("the iteration ends after %d of %d rays" % (it[1], n))
                self.iterators[args[0]] = None
                return
            if it[1] >= n:
                raise Violation("the iteration goes on after the %d rays" % n)
            self.give(it[1], r)
            it[1] += 1
        elif kind == "nested":
            k = 0
            for i, a in enumerate(rays):
                self.give(i, a)
                for j, b in enumerate(rays):
                    self.give(j, b)
                    k += 1
            if k != n*n:
                raise Violation("the nested iteration gives %d pairs, should give %d" % (k, n*n))
        elif kind == "y":
            got = rays.yValues
            if len(got) != n:
                raise Violation("there are %d heights, of %d rays" % (len(got), n))
            for i in range(n):
                if i in self.given and self.given[i][0] != got[i]:
                    raise Violation("the height of ray %d is %r, it was given as %r" % (i, got[i], self.given[i][0]))
                self.give(i, rays[i])
                if self.given[i][0] != got[i]:
                    raise Violation("the height of ray %d is %r, it is given as %r" % (i, got[i], self.given[i][0]))
        elif kind == "histogram":
            if sum(rays.rayCountHistogram()[1]) != n or sum(rays.rayAnglesHistogram(binCount=5)[1]) != n:
                raise Violation("the histograms do not count the %d rays" % n)
        elif kind == "len":
            if (len(rays), rays.count) != (n, n):
                raise Violation("there are %d rays (count %d), should be %d" % (len(rays), rays.count, n))


RANDOM_OPS = [("index", 0), ("index", 1), ("index", 2), ("index", -1), ("index", -3), ("index", 3), ("index", -4), ("iterate",), ("partly",), ("iter", 1), ("next", 1),
              ("iter", 2), ("next", 2), ("nested",), ("y",), ("histogram",), ("len",), ("index", 100)]


def history(shard, name, ops):
    world = RandomWorld(name, 3)
    shard.add("traces")
    for op in ops:
        world.do(op)
        shard.add("transitions")
        shard.distinct((name, op, tuple(sorted(world.given))))
    for op in (("len",), ("iterate",), ("index", 2), ("index", 3), ("index", -3), ("y",), ("iterate",)):
        world.do(op)


def worker(shard):
    import warnings
    warnings.simplefilter("ignore")
    if shard.index == 0:
        shard.run("defaults", defaults, shard)
    for args in shard.mine(sources(shard.thorough)):
        if shard.full(): return
        shard.run([args[0]] + list(args[2:7]), deterministic, shard, *args)
    names = list(randomSources(1))
    for name in shard.mine(names):
        shard.run(["law", name], law, shard, name, 16 if shard.thorough else 10)
        shard.run(["extremes", name], extremes, shard, name)
    def plan():
        for name in names:
            for n in (1, 2, 3):
                for ops in itertools.product(RANDOM_OPS, repeat=n):
                    yield name, ops
        for name in names if shard.thorough else (names[0], names[7]):
            for ops in itertools.product(RANDOM_OPS[:15], repeat=4):
                yield name, ops
    for name, ops in shard.mine(plan()):
        if shard.full(): return
        shard.run([name] + list(ops), history, shard, name, ops)
        shard.sample([name] + list(ops))


def run(check):
    check.sharded(worker)
    check.coverage = dict(states=len(check.hashes), transitions=check.counters.get("transitions", 0),
                          traces_validated_against_impl=check.counters.get("traces", 0), exhaustive=True,
                          bound="every source of a grid of parameters; every triple of random answers of a grid of %d; every history of up to %d of %d ways "
                                "to ask for the rays" % (16 if check.thorough else 10, 4, len(RANDOM_OPS)), samples=check.samples)
    check.assumptions = ["the random numbers come from numpy.random or random", "a single height or angle is anywhere in its range"]
