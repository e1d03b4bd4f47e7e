"""C13: a ray collection answers from the rays it holds now."""
import collections, itertools, os, pickle, time
from mc.core import Violation

LEVEL = "model_checking"
INF = float("inf")

RAYS = {"a": (1.0, 0.125), "b": (-2.5, 0.25), "c": (6.0, -0.5), "d": (1.0, 0.0), "e": (0.25, 0.125)}
BAD = ["notaray", None, 3, (1, 2), [1]]


def ray(name):
    import raytracing as rt
    y, theta = RAYS[name]
    return rt.Ray(y=y, theta=theta)


def contents(text):
    return [RAYS[c] for c in text]


def histogramRange(values, count, low, high):
    """(centres, least counts, most counts): a value within rounding of an edge may be counted on either side."""
    n = 40 if count is None else count
    low = min(values) if low is None else low
    high = max(values) if high is None else high
    if low == high:
        return None, None, None
    width = (high - low)/n
    least, most = [0]*n, [0]*n
    for v in values:
        if v < low or v > high:
            continue
        x = (v - low)/width
        i = min(int(x), n - 1)
        j = round(x)
        if abs(x - j) < 1e-9 and 0 < j < n:
            if v == low + j*width and width*1024 == int(width*1024):
                least[j] += 1; most[j] += 1      # exactly on the edge: it belongs to the bin it starts
            else:
                most[j] += 1; most[j-1] += 1
        else:
            least[i] += 1; most[i] += 1
    return [low + (i + 0.5)*width for i in range(n)], least, most


def checkHistogram(name, answer, values, count, low, high):
    centres, counts = answer
    inside = sum(1 for v in values if (min(values) if low is None else low) <= v <= (max(values) if high is None else high))
    if sum(counts) != inside:
        raise Violation("%s counts %d rays, there are %d in the range" % (name, sum(counts), inside))
    n = 40 if count is None else count
    if len(centres) != n or len(counts) != n:
        raise Violation("%s has %d bins, %d were asked for" % (name, len(counts), n))
    want, least, most = histogramRange(values, count, low, high)
    if want is None:
        return
    for i in range(n):
        if abs(centres[i] - want[i]) > 1e-9*max(1, abs(want[i])):
            raise Violation("bin %d of %s is centred at %r, should be at %r" % (i, name, centres[i], want[i]))
        if not least[i] <= counts[i] <= most[i]:
            raise Violation("bin %d of %s counts %d rays, should be %d" % (i, name, counts[i], least[i]))


HISTOGRAMS = [(None, None, None), (3, -3, 6), (4, None, None), (3, -3, 3), (3, None, 6), (2, -0.5, 0.5), (None, -3, None), (3, 0, 6)]
REFUSED = [(3, 6, -3), (0, -3, 6), (-2, 0, 1)]


class World:
    """A real collection and the plain list it should be, side by side."""

    def __init__(self, start, directory):
        import raytracing as rt
        self.path = os.path.join(directory, "rays.pkl")
        self.other = os.path.join(directory, "other.pkl")
        if os.path.exists(self.path):
            os.remove(self.path)
        self.saved = None
        kind, text = start
        self.model = contents(text)
        given = [ray(c) for c in text]
        self.given = None
        if kind == "none":
            self.real = rt.Rays()
        elif kind == "list":
            self.given = given
            self.real = rt.Rays(given)
        elif kind == "rays=":
            self.real = rt.Rays(rays=tuple(given))
        elif kind == "generator":
            self.real = rt.Rays(r for r in given)
        elif kind == "iterator":
            self.real = rt.Rays(iter(given))
        elif kind == "deque":
            self.real = rt.Rays(collections.deque(given))
        elif kind == "dict":
            self.real = rt.Rays({i: r for i, r in enumerate(given)}.values())
        elif kind == "Rays":
            self.real = rt.Rays(rt.Rays(given))
        elif kind == "uniform":
            self.real = rt.UniformRays(yMax=2, thetaMax=0.5, M=3, N=2)
            self.model = [(y, t) for y in (-2.0, 0.0, 2.0) for t in (-0.5, 0.5)]
        elif kind == "object":
            self.real = rt.ObjectRays(diameter=4, halfAngle=0.5, H=2, T=3)
            self.model = [(y, t) for y in (-2.0, 2.0) for t in (-0.5, 0.0, 0.5)]
        elif kind == "lambertian":
            self.real = rt.LambertianRays(yMax=2, M=2, N=3, I=2)
            self.model = [(y, 0.0) for y in (-2.0, 2.0) for i in range(2)]
        elif kind == "lamp":
            self.real = rt.LampRays(diameter=4, NA=0.5, N=3, T=2)
            self.model = [(y, t) for y in (-2.0, 0.0, 2.0) for t in (-0.5, 0.5)]
        self.iterators = {}

    def is_(self, name, got, want):
        if got != want:
            raise Violation("%s is %s, should be %s" % (name, got, want))

    def pairs(self, rays):
        return [(float(r.y), float(r.theta)) for r in rays]

    def do(self, op):
        import raytracing as rt
        kind, args = op[0], op[1:]
        real, model = self.real, self.model
        if kind == "append":
            real.append(ray(args[0]))
            model.append(RAYS[args[0]])
        elif kind == "append?":
            for bad in BAD:
                try:
                    real.append(bad)
                except TypeError:
                    continue
                raise Violation("%r was accepted as a ray" % (bad,))
        elif kind == "load":
            with open(self.other, "wb") as f:
                pickle.dump([ray(c) for c in args[0]], f)
            real.load(self.other, append=args[1])
            if not args[1]:
                del model[:]
            model += contents(args[0])
            self.iterators = {}
        elif kind == "save":
            real.save(self.path)
            self.saved = list(model)
        elif kind == "reload":
            if self.saved is None:
                try:
                    real.load(self.path, append=args[0])
                except Exception:
                    return
                raise Violation("a file that does not exist was loaded")
            real.load(self.path, append=args[0])
            if not args[0]:
                del model[:]
            model += self.saved
            self.iterators = {}
        elif kind == "load?":
            with open(self.other, "wb") as f:
                pickle.dump([ray("a"), "not a ray"], f)
            try:
                real.load(self.other, append=args[0])
            except Exception:
                return
            raise Violation("a file with something else than rays was loaded")
        elif kind == "y":
            got = real.yValues
            self.is_("yValues", [float(y) for y in got], [y for y, t in model])
            got.append(99); got[:1] = []
        elif kind == "theta":
            got = real.thetaValues
            self.is_("thetaValues", [float(t) for t in got], [t for y, t in model])
            got.reverse(); got.append(99)
        elif kind in ("yHistogram", "thetaHistogram"):
            values = [v[0 if kind == "yHistogram" else 1] for v in model]
            ask = real.rayCountHistogram if kind == "yHistogram" else real.rayAnglesHistogram
            count, low, high = args
            if args in REFUSED:
                try:
                    ask(binCount=count, minValue=low, maxValue=high)
                except Exception:
                    return
                raise Violation("a histogram of %s bins from %s to %s was not refused" % args)
            if not values and (low is None or high is None):
                return
            got = ask(count, low, high) if count is not None and low is not None and high is not None else ask(binCount=count, minValue=low, maxValue=high)
            checkHistogram("%s(%s, %s, %s)" % ((kind,) + args), got, values, count, low, high)
            for x in got:
                if isinstance(x, list):
                    x.append(7); x[0] = -1
        elif kind == "index":
            for i in range(-len(model), len(model)):
                self.is_("ray %d" % i, self.pairs([real[i]]), [model[i]])
            for i in (len(model), -len(model) - 1):
                try:
                    real[i]
                except IndexError:
                    continue
                raise Violation("there is a ray at %d, in a collection of %d" % (i, len(model)))
            self.is_("rays[1:]", self.pairs(real[1:]), model[1:])
        elif kind == "iterate":
            self.is_("the rays iterated", self.pairs(real), model)
        elif kind == "partly":
            for i, r in enumerate(real):
                self.is_("ray %d iterated" % i, self.pairs([r]), [model[i]])
                if i == 1:
                    break
        elif kind == "nested":
            got = [(p, q) for x in real for p in self.pairs([x]) for q in self.pairs(real)]
            self.is_("the pairs of rays iterated", got, list(itertools.product(model, model)))
        elif kind == "zip":
            got = [(p, q) for p, q in zip(self.pairs(iter(real)), self.pairs(iter(real)))]
            both = list(zip(iter(real), iter(real)))
            self.is_("the rays iterated side by side", [self.pairs(b) for b in both], [[m, m] for m in model])
        elif kind == "iter":
            self.iterators[args[0]] = [iter(real), 0]
        elif kind == "next":
            if args[0] in self.iterators and self.iterators[args[0]] is not None:
                it = self.iterators[args[0]]
                try:
                    r = next(it[0])
                except StopIteration:
                    if it[1] < len(model):
                        raise Violation("the iteration ends after %d of %d rays" % (it[1], len(model)))
                    self.iterators[args[0]] = None
                    return
                if it[1] >= len(model):
                    raise Violation("the iteration goes on after the %d rays" % len(model))
                self.is_("ray %d of the iteration" % it[1], self.pairs([r]), [model[it[1]]])
                it[1] += 1
        elif kind == "rays":
            got = real.rays
            self.is_("rays", self.pairs(got), model)
            got.append(ray("c")); got[:1] = []
        elif kind == "given":
            if self.given is not None:
                self.given.append(ray("c")); self.given.reverse()
        elif kind == "trace":
            m = rt.MatrixGroup([rt.Space(d=4), rt.Lens(f=8)])
            got = m.traceManyThrough(real, progress=False)
            self.is_("the rays traced", [(r.y, r.theta) for r in got], [(y + 4*t, t - (y + 4*t)/8) for y, t in model])
        else:
            raise ValueError(kind)

    def observe(self):
        """Everything, twice, in an order that differs the second time."""
        self.is_("the number of rays", (len(self.real), self.real.count), (len(self.model),)*2)
        for op in (("y",), ("theta",), ("yHistogram", None, None, None), ("yHistogram", 3, -3, 6), ("thetaHistogram", 3, -3, 6), ("thetaHistogram", None, None, None),
                   ("iterate",), ("index",), ("y",), ("rays",), ("yHistogram", 3, -3, 3), ("yHistogram", 3, -3, 6), ("thetaHistogram", 2, -0.5, 0.5), ("theta",)):
            self.do(op)


STARTS = [("none", ""), ("list", "ab"), ("generator", "abc"), ("uniform", ""), ("object", ""), ("lamp", ""), ("lambertian", ""), ("Rays", "da"),
          ("iterator", "ca"), ("rays=", "abd"), ("deque", "ea"), ("dict", "bc")]
OPS = [("append", "a"), ("append", "c"), ("y",), ("theta",), ("yHistogram", None, None, None), ("load", "bd", False), ("load", "ce", True), ("iterate",),
       ("thetaHistogram", None, None, None), ("yHistogram", 3, -3, 6), ("yHistogram", 3, -3, 3), ("thetaHistogram", 3, -3, 6), ("save",), ("reload", False),
       ("reload", True), ("append?",), ("load?", False), ("load?", True), ("nested",), ("partly",), ("index",), ("rays",), ("given",), ("load", "", False),
       ("yHistogram", 3, 6, -3), ("thetaHistogram", 3, 6, -3), ("yHistogram", 4, None, None), ("thetaHistogram", 2, -0.5, 0.5), ("zip",), ("trace",),
       ("yHistogram", 0, -3, 6), ("yHistogram", 3, None, 6), ("yHistogram", None, -3, None)]
CORE = [("append", "c"), ("y",), ("theta",), ("yHistogram", None, None, None), ("load", "bd", False), ("load", "ce", True), ("thetaHistogram", 3, -3, 6),
        ("yHistogram", 3, -3, 6), ("partly",), ("save",), ("reload", True), ("yHistogram", 3, 6, -3)]
ITERATION = [("iter", 1), ("next", 1), ("iter", 2), ("next", 2), ("append", "a"), ("iterate",), ("index",), ("y",)]


def case(shard, start, ops, directory):
    world = World(start, directory)
    shard.add("traces")
    for op in ops:
        world.do(op)
        shard.distinct((tuple(world.model), op, start[0]))
        shard.add("transitions")
    world.observe()


def refused(shard):
    """What is not an iterable of rays is refused."""
    import raytracing as rt
    for bad in (3, 2.5, [1, 2], ["a"], [ray("a"), None], "text", (ray("a"), "b"), iter([ray("a"), 3]), object(), ray("a"), [[ray("a")]]):
        try:
            rt.Rays(bad)
        except TypeError:
            continue
        raise Violation("Rays(%r) was accepted" % (bad,))


def histograms(shard, text):
    """Both histograms for every request of a grid, in every order of two requests."""
    import raytracing as rt
    requests = HISTOGRAMS + [(n, lo, hi) for n in (1, 2, 5, 8, 16) for lo, hi in ((-4, 4), (-2.5, 6), (0, 1), (1, 2), (-0.5, 0.25), (7, 9))]
    values = contents(text)
    for first in requests:
        for second in requests:
            rays = rt.Rays([ray(c) for c in text])
            for count, low, high in (first, second):
                checkHistogram("rayCountHistogram(%s, %s, %s)" % (count, low, high), rays.rayCountHistogram(count, low, high), [v[0] for v in values], count, low, high)
                checkHistogram("rayAnglesHistogram(%s, %s, %s)" % (count, low, high), rays.rayAnglesHistogram(count, low, high), [v[1] for v in values], count, low, high)
                shard.add("transitions", 2)
    shard.add("traces")


def worker(shard):
    import warnings
    warnings.simplefilter("ignore")
    time.sleep = lambda seconds: None
    directory = os.path.join(os.environ.get("TMPDIR", "/tmp"), "c13-%d" % shard.index)
    os.makedirs(directory, exist_ok=True)
    if shard.index == 0:
        shard.run("what is refused", refused, shard)
    for text in shard.mine(["".join(p) for n in range(1, 5) for p in itertools.combinations_with_replacement("abcde", n)]):
        if shard.full(): return
        shard.run(["histograms", text], histograms, shard, text)
    def plan():
        for start in STARTS:
            yield start, ()
            for n in (1, 2):
                for ops in itertools.product(OPS, repeat=n):
                    yield start, ops
        for start in STARTS if shard.thorough else STARTS[:4]:
            for ops in itertools.product(OPS, repeat=3):
                yield start, ops
        for start in STARTS[:4]:
            for n in (4, 5) if shard.thorough else (4,):
                for ops in itertools.product(CORE, repeat=n):
                    yield start, ops
        for start in STARTS[1:4]:
            for n in (3, 4, 5, 6) if shard.thorough else (3, 4, 5):
                for ops in itertools.product(ITERATION, repeat=n):
                    yield start, ops
    for start, ops in shard.mine(plan()):
        if shard.full(): return
        shard.run([start] + list(ops), case, shard, start, ops, directory)
        shard.sample([start] + list(ops))


def run(check):
    check.sharded(worker)
    check.coverage = dict(states=len(check.hashes), transitions=check.counters.get("transitions", 0),
                          traces_validated_against_impl=check.counters.get("traces", 0), exhaustive=True,
                          bound="every history of up to 3 of %d operations, %d of %d core operations, and %d of %d interleaved iterations and edits, "
                                "from up to %d kinds of collections, against a plain list" %
                                (len(OPS), 5 if check.thorough else 4, len(CORE), 6 if check.thorough else 5, len(ITERATION), len(STARTS)), samples=check.samples)
    check.assumptions = ["a ray that is modified in place after it was put in the collection is not followed",
                         "a value within rounding of a bin edge may be counted on either side of it"]
