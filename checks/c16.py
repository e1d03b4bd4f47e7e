"""C16: saved systems and rays come back the same, and bad files change nothing."""
import inspect, itertools, os, pickle, time
from mc import ref, observe
from mc.core import Violation
from mc.ref import Refused
from checks import c03
from checks.c03 import Token, rebuilt, apply

LEVEL = "model_checking"
INF = float("inf")

STARTS = [
    [], [("Space", 10), ("Lens", 30, 8)], [("DI", 1, 1.5, 25), ("Space", 5), ("DI", 1.5, 1, -25, 10)],
    [("Space", 2), ("Group", [("Lens", 40), ("Space", 6), ("Group", [("Aperture", 3)])]), ("Flip", ("Thick", 1.5, 20, -40, 3, 20))],
    [("Flip", ("Mirror", 100)), ("DI", 1, 1.5, None), ("Space", 7), ("Matrix", 1, 4, 0, 0.75, 3, 1.5, 2, None, None, 11)],
]
OPS = [("save", "A"), ("load", "A", False), ("load", "A", True), ("save", "B"), ("load", "B", True), ("load", "B", False), ("append", ("Space", 4, 1.5)),
       ("append", ("DI", 1, 1.5, 20)), ("flip",), ("pop", 0), ("ask",), ("append again", 0), ("bad", False), ("bad", True), ("insert", 0, ("Lens", 50))]
CORE = [OPS[i] for i in (0, 1, 2, 4, 7, 8, 9, 10, 11)]


class Store:
    """What the files hold."""
    def __init__(self, directory):
        self.directory, self.files = directory, {}
        for n in "AB":
            if os.path.exists(self.path(n)):
                os.remove(self.path(n))

    def path(self, name):
        return os.path.join(self.directory, name + ".pkl")


def state(m):
    """Everything quick to ask."""
    return observe.signature(m, observe.SLOW + ("subPath",))


def unchanged(what, m, before, ids):
    if ids != [id(e) for e in m.elements]:
        raise Violation("%s was refused, but changed the elements" % what)
    bad = observe.difference(state(m), before)
    if bad:
        raise Violation("%s was refused, but changed the system: %s" % (what, bad))


def tokensOf(snapshot):
    copies = {}
    return [copies.setdefault(key, Token(spec)) for key, spec in snapshot]


def history(shard, cls, start, ops, directory):
    store = Store(directory)
    tokens = [Token(s) for s in start]
    for t in tokens:
        t.obj = ref.real(t.spec)
    m = cls([t.obj for t in tokens])
    model = rebuilt(tokens)
    for op in ops:
        shard.add("transitions")
        kind = op[0]
        if kind == "save":
            before, ids = state(m), [id(e) for e in m.elements]
            m.save(store.path(op[1]))
            if ids != [id(e) for e in m.elements] or observe.difference(state(m), before):
                raise Violation("saving changed the system")
            store.files[op[1]] = [(id(t), t.spec) for t in model]
        elif kind == "load":
            name, append = op[1:]
            before, ids = state(m), [id(e) for e in m.elements]
            saved = store.files.get(name)
            old = [(t, t.spec) for t in model]
            try:
                if saved is None:
                    raise Refused()
                target = rebuilt((model if append else []) + tokensOf(saved))
            except Refused:
                for t, s in old:
                    t.spec = s
                target = None
            try:
                m.load(store.path(name), append=append)
            except Exception as e:
                if target is not None:
                    raise Violation("loading was refused: %s: %s" % (type(e).__name__, e))
                unchanged("the load", m, before, ids)
                shard.add("refused")
                continue
            if target is None:
                raise Violation("a load that should be refused was accepted")
            if append:
                if ids != [id(e) for e in m.elements[:len(ids)]]:
                    raise Violation("loading more elements changed those that were there")
            model = target
        elif kind == "ask":
            observe.signature(m, ("subPath",))
        elif kind == "bad":
            before, ids = state(m), [id(e) for e in m.elements]
            path = os.path.join(store.directory, "bad.pkl")
            with open(path, "wb") as f:
                pickle.dump([ref.real(("Lens", 10)), 3], f)
            try:
                m.load(path, append=op[1])
            except Exception:
                unchanged("the load", m, before, ids)
                continue
            raise Violation("a file with something else than elements was loaded")
        else:
            accepted, model, error = apply(model, m, op)
            if accepted != (error is None):
                raise Violation("%r was %s" % (op, "accepted" if error is None else "refused: %s" % error))
    c03.check(model, m, cls, shard, len(ops) < 3)


def contents():
    """Things that are not a list of elements (nor of rays)."""
    import raytracing as rt
    lens = rt.Lens(f=10)
    return {"a number": 3, "nothing": None, "a text": "text", "bytes": b"abc", "a list of numbers": [1, 2], "one of them a number": [lens, 1], "one of them nothing": [None, lens],
            "one of them a ray": [lens, rt.Ray(1, 0)], "rays and an element": [rt.Ray(1, 0), lens], "a dictionary": {"a": lens}, "a dictionary of numbers": {1: lens},
            "a list in a list": [[lens]], "rays in a list": [[rt.Ray(1, 0)]], "a beam": rt.GaussianBeam(w=1), "a list of beams": [rt.GaussianBeam(w=1)], "a class": rt.Lens,
            "a list of classes": [rt.Lens, rt.Ray], "a set of texts": {"a", "b"}, "a boolean": True, "a number with a comma": 1.5, "a list of texts": ["Lens"],
            "a pair of list": ([lens], [lens]), "one of the last a number": [lens]*3 + ["x"], "a ray": rt.Ray(1, 0), "a glass": [rt.N_BK7()], "rays then a number": [rt.Ray(1, 0), 5]}


def rawFiles(good):
    """Files that are not pickled objects, given what a good one holds."""
    out = {"empty": b"", "zeros": bytes(len(good)), "a text": b"not a pickle at all\n", "json": b'{"mode": "silent"}', "spaces": b"   \n", "a dot": b".", "a script": b"import os\n",
           "a good one behind zeros": b"\0" + good, "binary": bytes(range(256)), "a good one behind a text": b"text\n" + good}
    return out


BADKINDS = ["contents", "raw", "missing", "a folder"]


def badFiles(shard, cls, start, append, directory, thorough):
    """Every prefix of a good file, and every bad file."""
    import raytracing as rt
    m = cls([ref.real(s) for s in start])
    path = os.path.join(directory, "good.pkl")
    other = cls([ref.real(s) for s in (start or [("Space", 3), ("Lens", 12, 4)])])
    other.save(path)
    good = open(path, "rb").read()
    before, ids = state(m), [id(e) for e in m.elements]
    canon = observe.canon(m)
    bad = os.path.join(directory, "bad.pkl")

    def refused(what, data, deep):
        shard.add("transitions")
        if data is not None:
            with open(bad, "wb") as f:
                f.write(data)
        try:
            m.load(bad if data is not None else what, append=append)
        except Exception:
            if ids != [id(e) for e in m.elements] or observe.canon(m) != canon:
                raise Violation("loading %s was refused, but changed the system" % what)
            if deep:
                unchanged("loading %s" % what, m, before, ids)
            shard.distinct((cls.__name__, repr(start), append, what))
            return
        raise Violation("loading %s was not refused" % what)

    for k in range(len(good)):
        refused("the first %d bytes of a file of %d" % (k, len(good)), good[:k], thorough or k % 16 == 0)
    for name, thing in contents().items():
        refused("a file that holds " + name, pickle.dumps(thing), True)
    for name, data in rawFiles(good).items():
        refused("a file that is " + name, data, True)
    refused(os.path.join(directory, "missing.pkl"), None, True)
    refused(directory, None, True)
    if append is False:
        # once the file is right, it can be loaded
        with open(bad, "wb") as f:
            f.write(good)
        m.load(bad)
        d = observe.difference(state(m), state(cls([ref.real(s) for s in (start or [("Space", 3), ("Lens", 12, 4)])])))
        if d:
            raise Violation("the system loaded is not the one saved: " + d)
    shard.add("traces")


def catalog():
    import raytracing as rt
    from raytracing import thorlabs, eo, olympus
    try:
        from raytracing import nikon
        modules = (thorlabs, eo, olympus, nikon)
    except ImportError:
        modules = (thorlabs, eo, olympus)
    for module in modules:
        for name, cls in sorted(vars(module).items()):
            if inspect.isclass(cls) and cls.__module__ == module.__name__:
                yield module.__name__.split(".")[-1] + "." + name, cls


def catalogLens(shard, name, cls, directory):
    """A catalog lens that was saved is the same lens, turned around too."""
    import raytracing as rt
    for flipped in (False, True):
        lens = cls()
        if flipped:
            lens.flipOrientation()
        m = rt.MatrixGroup([rt.Space(d=10), lens, rt.Space(d=5)])
        path = os.path.join(directory, "catalog.pkl")
        before = observe.signature(lens)
        m.save(path)
        loaded = rt.MatrixGroup()
        loaded.load(path)
        back = loaded.elements[1]
        if type(back) is not type(lens) or back.label != lens.label:
            raise Violation("%s comes back as %s %r" % (name, type(back).__name__, back.label))
        for when in ("", " turned around"):
            d = observe.difference(observe.signature(back), observe.signature(lens))
            if d:
                raise Violation("%s comes back%s with another behaviour: %s" % (name, when, d))
            if not when:
                d = observe.difference(observe.signature(lens), before)
                if d:
                    raise Violation("saving %s changed it: %s" % (name, d))
            for e in (back, lens):
                e.flipOrientation()
        d = observe.difference(state(loaded), state(m))
        if d:
            raise Violation("a system with %s comes back with another behaviour: %s" % (name, d))
        shard.add("transitions", 2)
        shard.add("traces")
    shard.distinct(name)


def fullRay(r):
    return (r.y, r.theta, r.z, r.isBlocked, r.apertureDiameter, r.wavelength)


def raySets():
    import raytracing as rt
    blocked = rt.Ray(3, 0.5, z=2, isBlocked=True)
    blocked.apertureDiameter = 4.0
    coloured = rt.Ray(-1, 0.25, wavelength=0.55)
    traced = rt.MatrixGroup([rt.Space(d=10), rt.Aperture(diameter=3), rt.Lens(f=10)]).trace(rt.Ray(2, 0.1))
    return {"none": [], "one": [rt.Ray(1, 0.5)], "all kinds": [rt.Ray(0, 0), blocked, coloured, rt.Ray(1.5, -0.25, z=-3)], "traced": traced, "twice the same": [coloured, coloured]}


def rayCollections(name, rays):
    import raytracing as rt
    return {"Rays": lambda: rt.Rays(list(rays)), "UniformRays": lambda: rt.UniformRays(M=3, N=2), "ObjectRays": lambda: rt.ObjectRays(diameter=2, H=2, T=2),
            "LampRays": lambda: rt.LampRays(diameter=2, N=2, T=3), "LambertianRays": lambda: rt.LambertianRays(M=2, N=3, I=2)}


def raysRoundTrip(shard, setName, kind, append, asked, directory):
    import raytracing as rt
    rays = raySets()[setName]
    source = rt.Rays(list(rays))
    path = os.path.join(directory, "rays.pkl")
    source.save(path)
    if [fullRay(r) for r in source] != [fullRay(r) for r in rays]:
        raise Violation("saving changed the rays")
    target = rayCollections(setName, raySets()["all kinds"])[kind]()
    there = [fullRay(r) for r in target]
    if asked:
        target.yValues, target.thetaValues
        target.rayCountHistogram(3, -3, 3), target.rayAnglesHistogram(3, -1, 1)
    for times in (1, 2):
        target.load(path, append=append)
        want = (there if append else []) + [fullRay(r) for r in rays]*(times if append else 1)
        got = [fullRay(r) for r in target]
        if got != want or len(target) != len(want):
            raise Violation("the collection holds %s, should hold %s" % (got, want))
        if target.yValues != [w[0] for w in want] or target.thetaValues != [w[1] for w in want]:
            raise Violation("the heights or angles are not those of the rays loaded")
        if sum(target.rayCountHistogram(3, -3, 3)[1]) != sum(1 for w in want if -3 <= w[0] <= 3) or \
                sum(target.rayAnglesHistogram(3, -1, 1)[1]) != sum(1 for w in want if -1 <= w[1] <= 1):
            raise Violation("the histograms are not those of the rays loaded")
        shard.add("transitions")
    # a second save and load of the whole
    target.save(path)
    again = rt.Rays()
    again.load(path)
    if [fullRay(r) for r in again] != want:
        raise Violation("the rays saved again come back as others")
    shard.add("traces")
    shard.distinct((setName, kind, append, asked))


def raysBadFiles(shard, kind, append, directory):
    import raytracing as rt
    target = rayCollections("", raySets()["all kinds"])[kind]()
    there = [fullRay(r) for r in target]
    target.yValues, target.thetaValues
    path, bad = os.path.join(directory, "rays.pkl"), os.path.join(directory, "badrays.pkl")
    rt.Rays(raySets()["all kinds"] + raySets()["traced"]).save(path)
    good = open(path, "rb").read()

    def refused(what, data):
        shard.add("transitions")
        if data is not None:
            with open(bad, "wb") as f:
                f.write(data)
        try:
            target.load(bad if data is not None else what, append=append)
        except Exception:
            if [fullRay(r) for r in target] != there or len(target) != len(there) or target.yValues != [t[0] for t in there] or target.thetaValues != [t[1] for t in there]:
                raise Violation("loading %s was refused, but changed the rays" % what)
            shard.distinct((kind, append, what))
            return
        raise Violation("loading %s was not refused" % what)

    for k in range(len(good)):
        refused("the first %d bytes of a file of %d" % (k, len(good)), good[:k])
    for name, thing in contents().items():
        refused("a file that holds " + name, pickle.dumps(thing))
    for name, data in rawFiles(good).items():
        refused("a file that is " + name, data)
    refused(os.path.join(directory, "missing.pkl"), None)
    refused(directory, None)
    shard.add("traces")


def worker(shard):
    import warnings
    import raytracing as rt
    from raytracing.matrixgroup import MatrixGroup
    warnings.simplefilter("ignore")
    time.sleep = lambda seconds: None
    shard.caseLimit = 120
    directory = os.path.join(os.environ.get("TMPDIR", "/tmp"), "c16-%d" % shard.index)
    os.makedirs(directory, exist_ok=True)
    classes = (MatrixGroup, rt.ImagingPath, rt.LaserPath, rt.LaserCavity)
    for name, cls in shard.mine(catalog()):
        if shard.full(): return
        shard.run(["catalog", name], catalogLens, shard, name, cls, directory)
    for cls, start, append in shard.mine(itertools.product(classes, STARTS, (False, True))):
        if shard.full(): return
        if shard.thorough or cls is MatrixGroup or start is STARTS[3]:
            shard.run(["bad files", cls.__name__, start, append], badFiles, shard, cls, start, append, directory, shard.thorough)
    for args in shard.mine(itertools.product(raySets(), rayCollections("", []), (False, True), (False, True))):
        shard.run(["rays"] + list(args), raysRoundTrip, shard, *args, directory)
    for args in shard.mine(itertools.product(rayCollections("", []), (False, True))):
        shard.run(["bad files of rays"] + list(args), raysBadFiles, shard, *args, directory)
    def plan():
        for start in STARTS:
            for cls in classes:
                for n in (1, 2):
                    for ops in itertools.product(OPS, repeat=n):
                        yield cls, start, ops
            for ops in itertools.product(OPS if shard.thorough else CORE, repeat=3):
                yield MatrixGroup, start, ops
            if shard.thorough or start in (STARTS[1], STARTS[4]):
                for ops in itertools.product(CORE[:8] if shard.thorough else CORE[:5], repeat=4):
                    yield rt.ImagingPath, start, ops
    plans = (p for p in plan() if not (("flip",) in p[2] and any(s[0] == "Matrix" for s in p[1])))    # which has no known other side
    for cls, start, ops in shard.mine(plans):
        if shard.full(): return
        shard.run(dict(cls=cls.__name__, start=start, ops=ops), history, shard, cls, start, ops, directory)
        shard.sample(dict(cls=cls.__name__, start=start, ops=ops))


def run(check):
    check.sharded(worker)
    check.coverage = dict(states=len(check.hashes), transitions=check.counters.get("transitions", 0),
                          traces_validated_against_impl=check.counters.get("traces", 0), loads_refused=check.counters.get("refused", 0), exhaustive=True,
                          bound="every history of up to %d saves, loads and edits; every prefix of the files of %d systems and of a set of rays, and every kind of bad file; "
                                "every catalog lens" % (4, len(STARTS)), samples=check.samples)
    check.assumptions = ["a file whose list is empty, or whose iterable gives only elements, is a file of elements", "time.sleep() is replaced by nothing"]
