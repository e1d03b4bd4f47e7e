"""C15: tracing in parallel gives the rays that serial tracing gives."""
import collections, concurrent.futures, concurrent.futures.process, contextlib, io, itertools, multiprocessing, multiprocessing.pool, os, pickle, signal, sys, time
from mc import ref, observe
from mc.core import Violation
from mc.ref import F

LEVEL = "model_checking"
INF = float("inf")

SYSTEMS = {
    "Space": ("Space", 10),
    "narrow": ("Group", [("Space", 10), ("Lens", 20, 6), ("Space", 5)]),
    "nested": ("Group", [("Group", [("DI", 1, 1.5, 20, 9), ("Space", 3)]), ("DI", 1.5, 1, -30, 7)]),
    "thick": ("Thick", 1.5, 20, -40, 5, 5),
    "path": ("path", [("Space", 10), ("Aperture", 4), ("Lens", 30), ("Space", 30)]),
    "Matrix": ("Matrix", 2, 7, 0.25, 1.375, 7, 1, 1, 1, 6, 8),
    "axicon": ("Group", [("Axicon", 0.1, 1.5, 6), ("Space", 4)]),
}
POOL = [(0, 0.125), (1, 0), (2.75, -0.0625), (-3.5, 0.1), (1, 0), (20, 0.5), (0.5, 0.0625), (-1, -0.25), (30, 0), (2, 0.03125)]


def make(name):
    import raytracing as rt
    spec = SYSTEMS[name]
    if spec[0] == "path":
        return rt.ImagingPath([ref.real(s) for s in spec[1]])
    return ref.real(spec)


def flatOf(name):
    spec = SYSTEMS[name]
    return ref.flatten(("Group", spec[1]) if spec[0] == "path" else spec)


class Injected(Exception):
    pass


class Unpicklable(Exception):
    def __reduce__(self):
        raise TypeError("cannot pickle this")


ERRORS = {"Injected": lambda: Injected("injected"), "MemoryError": lambda: MemoryError(), "OSError": lambda: OSError(11, "Resource temporarily unavailable"),
          "PicklingError": lambda: pickle.PicklingError("no"), "broken": lambda: concurrent.futures.process.BrokenProcessPool("a process died"),
          "TypeError": lambda: TypeError("cannot pickle"), "RuntimeError": lambda: RuntimeError("can't start new thread"), "Assertion": lambda: AssertionError()}


class Schedule:
    """Which unit of work ends when, and what fails. Counts what was really used."""
    def __init__(self, order=(), fault=None, error="Injected"):
        self.order, self.fault, self.error = order, fault, error
        self.units = 0
        self.log = []

    def point(self, name):
        self.log.append(name)
        if self.fault == name:
            raise ERRORS[self.error]()


class Task:
    def __init__(self, schedule, index, function, args, kwargs=None):
        self.schedule, self.index = schedule, index
        self.data = pickle.dumps((function, args, kwargs or {}))
        self.done, self.result, self.error = False, None, None

    def run(self):
        """As in a process of its own: it works on copies, and its answer is a copy."""
        if self.done:
            return
        self.done = True
        try:
            self.schedule.point(("unit", self.index))
            function, args, kwargs = pickle.loads(self.data)
            result = function(*args, **kwargs)
            self.schedule.point(("answer", self.index))
            self.result = pickle.loads(pickle.dumps(result))
        except Exception as e:
            self.error = e


class FakePool:
    """multiprocessing.Pool and concurrent.futures.ProcessPoolExecutor, in one process, under a schedule."""
    schedule = None

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, max_workers=None, **kwargs):
        n = processes if processes is not None else max_workers
        if n is not None and n < 1:
            raise ValueError("Number of processes must be at least 1")
        self.s = FakePool.schedule
        self.s.point("create")
        self.tasks = []
        self.closed = False
        self._processes = self._max_workers = n

    def __enter__(self):
        self.s.point("enter")
        return self

    def __exit__(self, *args):
        self.runAll()
        self.closed = True
        if args[0] is None:
            self.s.point("exit")
        return False

    def task(self, function, args, kwargs=None):
        if self.closed:
            raise ValueError("Pool not running")
        self.s.point("submit")
        t = Task(self.s, len(self.tasks), function, args, kwargs)
        self.tasks.append(t)
        self.s.units = max(self.s.units, len(self.tasks))
        return t

    def runAll(self):
        """Every task that was handed in, in the order of the schedule."""
        pending = [t for t in self.tasks if not t.done]
        order = [i for i in self.s.order if i < len(self.tasks)]
        ended = []
        for i in order + list(range(len(self.tasks))):
            t = self.tasks[i]
            if t in pending and t not in ended:
                t.run()
                ended.append(t)
        return ended

    def results(self, tasks):
        self.runAll()
        for t in tasks:
            if t.error is not None:
                raise t.error
        return [t.result for t in tasks]

    def chunked(self, function, argLists, chunksize=None):
        return [self.task(function, args) for args in argLists]

    # multiprocessing.Pool
    def starmap(self, function, iterable, chunksize=None):
        return self.results(self.chunked(function, [tuple(a) for a in iterable]))

    def map(self, function, *iterables, chunksize=None, timeout=None):
        if len(iterables) == 2 and isinstance(iterables[1], int):
            iterables = iterables[:1]
        tasks = self.chunked(function, list(zip(*iterables)))
        if self.isExecutor:
            def lazily():
                for t in tasks:
                    self.runAll()
                    if t.error is not None:
                        raise t.error
                    yield t.result
            return lazily()
        return self.results(tasks)

    def imap(self, function, iterable, chunksize=1):
        tasks = self.chunked(function, [(a,) for a in iterable])
        def lazily():
            self.runAll()
            for t in tasks:
                if t.error is not None:
                    raise t.error
                yield t.result
        return lazily()

    def imap_unordered(self, function, iterable, chunksize=1):
        self.chunked(function, [(a,) for a in iterable])
        def lazily():
            for t in self.runAll():
                if t.error is not None:
                    raise t.error
                yield t.result
        return lazily()

    def apply_async(self, function, args=(), kwds=None, callback=None, error_callback=None):
        t = self.task(function, tuple(args), kwds)
        pool = self
        class Result:
            def get(self, timeout=None):
                for x in pool.runAll():
                    if x.callback and x.error is None:
                        x.callback(x.result)
                    if x.error_callback and x.error is not None:
                        x.error_callback(x.error)
                if t.error is not None:
                    raise t.error
                return t.result
            def wait(self, timeout=None):
                try:
                    self.get()
                except Exception:
                    pass
            def ready(self):
                return True
            def successful(self):
                return t.error is None
        t.callback, t.error_callback = callback, error_callback
        return Result()

    def apply(self, function, args=(), kwds=None):
        return self.apply_async(function, args, kwds).get()

    def map_async(self, function, iterable, chunksize=None, callback=None, error_callback=None):
        tasks = self.chunked(function, [(a,) for a in iterable])
        return self.deferred(tasks)

    def starmap_async(self, function, iterable, chunksize=None, callback=None, error_callback=None):
        return self.deferred(self.chunked(function, [tuple(a) for a in iterable]))

    def deferred(self, tasks):
        pool = self
        class Result:
            def get(self, timeout=None):
                return pool.results(tasks)
            def wait(self, timeout=None):
                pool.runAll()
            def ready(self):
                return True
        return Result()

    # concurrent.futures
    def submit(self, function, *args, **kwargs):
        t = self.task(function, args, kwargs)
        future = concurrent.futures.Future()
        original = t.run
        def run():
            original()
            if not future.done():
                if t.error is not None:
                    future.set_exception(t.error)
                else:
                    future.set_result(t.result)
        t.run = run
        pool = self
        class Lazy(concurrent.futures.Future):
            pass
        get = future.result
        future.result = lambda timeout=None: (pool.runAll(), get(timeout))[1]
        future.set_running_or_notify_cancel()
        return future

    def close(self): pass
    def join(self): self.runAll()
    def terminate(self): self.closed = True
    def shutdown(self, wait=True, cancel_futures=False):
        self.runAll()
        self.closed = True

    isExecutor = False


class FakeExecutor(FakePool):
    isExecutor = True

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), max_tasks_per_child=None):
        super().__init__(processes=max_workers)


def asCompleted(futures, timeout=None):
    for f in list(futures):
        try:
            f.result()
        except Exception:
            pass
    return iter(list(futures))


@contextlib.contextmanager
def controlled(schedule, cpus=3):
    """No process is started: the pools are simulated, and obey the schedule."""
    FakePool.schedule = schedule
    saved = []
    fakes = [(multiprocessing, "Pool", FakePool), (multiprocessing.pool, "Pool", FakePool), (multiprocessing.pool, "ThreadPool", FakePool),
             (concurrent.futures, "ProcessPoolExecutor", FakeExecutor), (concurrent.futures.process, "ProcessPoolExecutor", FakeExecutor),
             (concurrent.futures, "ThreadPoolExecutor", FakeExecutor), (concurrent.futures, "as_completed", asCompleted)]
    originals = {id(getattr(m, n)): fake for m, n, fake in fakes}
    def cpuCount():
        schedule.point("cpu_count")
        return cpus
    try:
        for m, n, fake in fakes + [(multiprocessing, "cpu_count", cpuCount), (os, "cpu_count", lambda: cpus)]:
            saved.append((m, n, getattr(m, n)))
            setattr(m, n, fake)
        for name, module in list(sys.modules.items()):
            if name.startswith("raytracing."):
                for k, v in list(vars(module).items()):
                    if id(v) in originals and callable(v):
                        saved.append((module, k, v))
                        setattr(module, k, originals[id(v)])
        yield
    finally:
        for m, n, v in reversed(saved):
            setattr(m, n, v)


def rayList(indices):
    import raytracing as rt
    return [rt.Ray(y=POOL[i][0], theta=POOL[i][1]) for i in indices]


class Once:
    """An iterable that can be gone through only once."""
    def __init__(self, rays):
        self.rays, self.position = rays, 0
    def __iter__(self):
        return self
    def __next__(self):
        if self.position >= len(self.rays):
            raise StopIteration
        self.position += 1
        return self.rays[self.position - 1]


def forms(rays):
    import raytracing as rt
    return {"list": lambda: rays, "tuple": lambda: tuple(rays), "Rays": lambda: rt.Rays(rays), "generator": lambda: (r for r in rays), "once": lambda: Once(rays),
            "map": lambda: map(lambda r: r, rays)}


def expected(name, indices):
    """The rays that come out, from the reference model."""
    out = collections.Counter()
    flat = flatOf(name)
    for i in indices:
        end = ref.trace(flat, *map(F, POOL[i]))[-1]
        if not end[3]:
            out[tuple(round(float(x), 9) + 0.0 for x in end[:3])] += 1
    return out


def counted(rays):
    import raytracing as rt
    if not isinstance(rays, rt.Rays):
        raise Violation("the answer is a %s" % type(rays).__name__)
    out = collections.Counter()
    for r in rays:
        if r.isBlocked:
            raise Violation("a blocked ray comes out")
        out[tuple(round(float(x), 9) + 0.0 for x in (r.y, r.theta, r.z))] += 1
    if sum(out.values()) != len(rays):
        raise Violation("the answer iterates over %d rays and has %d" % (sum(out.values()), len(rays)))
    return out


def compare(what, got, want):
    if got != want:
        raise Violation("%s: lost %s, added %s" % (what, list((want - got).elements())[:5], list((got - want).elements())[:5]))


def case(shard, name, indices, form, processes, schedule, cpus, progress=False):
    m = make(name)
    rays = rayList(indices)
    given = forms(rays)[form]()
    before = observe.canon(rays)
    shard.add("traces")
    kwargs = dict(progress=progress)
    if processes is not None:
        kwargs["processes"] = processes
    with controlled(schedule, cpus), contextlib.redirect_stdout(io.StringIO()):
        got = m.traceManyThroughInParallel(given, **kwargs)
    shard.distinct((name, tuple(indices), processes, tuple(schedule.log)))
    shard.add("transitions", len(schedule.log))
    want = expected(name, indices)
    compare("parallel tracing", counted(got), want)
    compare("serial tracing", counted(m.traceManyThrough(rayList(indices), progress=False)), want)
    if observe.canon(rays) != before:
        raise Violation("the rays sent in were changed")
    if form == "Rays" and (len(given) != len(indices) or observe.canon(list(given)) != before):
        raise Violation("the collection sent in was changed")
    if form == "list" and len(given) != len(indices):
        raise Violation("the list sent in was changed")
    return schedule


def sources(shard):
    """The ready-made sources, which are rays too."""
    import raytracing as rt
    for make_ in (lambda: rt.UniformRays(yMax=4, thetaMax=0.25, M=5, N=3), lambda: rt.ObjectRays(diameter=6, H=3, T=5), lambda: rt.LampRays(diameter=6, N=4, T=3),
                  lambda: rt.RandomUniformRays(yMax=4, maxCount=13), lambda: rt.RandomLambertianRays(yMax=3, maxCount=7), lambda: rt.LampRays(diameter=6, N=9, random=True)):
        for name in ("narrow", "path"):
            for processes in (1, 2, 3, 4, 20):
                rays = make_()
                with controlled(Schedule()):
                    got = make(name).traceManyThroughInParallel(rays, progress=False, processes=processes)
                compare("parallel tracing", counted(got), counted(make(name).traceManyThrough(rays, progress=False)))
                shard.add("traces")


def real(shard, name, indices, processes):
    """With real processes."""
    m = make(name)
    got = m.traceManyThroughInParallel(rayList(indices), progress=False, processes=processes)
    compare("parallel tracing in real processes", counted(got), expected(name, indices))
    shard.add("real")


def killed(shard, processes, when):
    """A worker process that dies, in the middle of its work."""
    import raytracing as rt
    parent = os.getpid()
    Doomed.parent, Doomed.when = parent, when
    m = rt.MatrixGroup([Doomed(d=10), rt.Lens(f=20, diameter=6)])
    got = m.traceManyThroughInParallel(rayList(range(6)), progress=False, processes=processes)
    compare("tracing with a worker that dies", counted(got), counted(rt.MatrixGroup([rt.Space(d=10), rt.Lens(f=20, diameter=6)]).traceManyThrough(rayList(range(6)), progress=False)))
    shard.add("real")


def defineDoomed():
    global Doomed
    import raytracing as rt
    class Doomed(rt.Space):
        parent, when = None, None
        def trace(self, ray):
            if os.getpid() != self.parent and ray.y == POOL[self.when][0]:
                os.kill(os.getpid(), signal.SIGKILL)
            return super().trace(ray)
    Doomed.__qualname__ = "Doomed"
    Doomed.__module__ = __name__


def worker(shard):
    import warnings
    warnings.simplefilter("ignore")
    names = list(SYSTEMS)
    if shard.index == 0:
        shard.run("sources", sources, shard)
    def plan():
        top = 7 if shard.thorough else 6
        # every number of rays and processes, every order of completion
        for name in names if shard.thorough else names[:5]:
            for n in range(0, top + 1):
                for processes in (1, 2, 3, 4):
                    units = processes
                    for order in itertools.permutations(range(units)):
                        for form in ("list", "generator") if order == tuple(range(units)) else ("list",):
                            yield name, tuple(range(n)), form, processes, order, None, "Injected", 3
        for n in (0, 1, 5, 9):
            for processes in (5, 6, 8, None):
                for order in ((), tuple(reversed(range(9))), (3, 1, 4, 0, 2, 5)):
                    for cpus in (1, 3, 8) if processes is None else (3,):
                        for form in ("list", "Rays", "once"):
                            yield "narrow", tuple(range(n)), form, processes, order, None, "Injected", cpus
        # every choice of up to four rays with repetitions
        for n in (1, 2, 3):
            for indices in itertools.product((0, 2, 3, 5), repeat=n):
                for processes in (1, 2, 3):
                    yield "path", indices, "list", processes, (), None, "Injected", 3
        # every way of giving the rays, every failure
        faults = ["create", "enter", "submit", "exit", "cpu_count"] + [(k, i) for k in ("unit", "answer") for i in range(4)]
        for name in ("narrow", "thick", "axicon"):
            for form in ("list", "tuple", "Rays", "generator", "once", "map"):
                for processes in (1, 2, 4, None):
                    for fault in faults:
                        for error in ERRORS if shard.thorough or form in ("list", "generator") else ("Injected", "broken"):
                            for order in ((), (3, 2, 1, 0), (1, 3, 0, 2)) if form in ("list", "generator") else ((),):
                                yield name, (0, 2, 3, 5, 6, 7, 1), form, processes, order, fault, error, 4
    for name, indices, form, processes, order, fault, error, cpus in shard.mine(plan()):
        if shard.full(): return
        shard.run(dict(system=name, rays=indices, given=form, processes=processes, order=order, fault=fault, error=error, cpus=cpus),
                  case, shard, name, indices, form, processes, Schedule(order, fault, error), cpus, fault is None and len(indices) == 5)
        shard.sample((name, indices, form, processes, order, str(fault)))


def realWorker(shard):
    """One process at a time, real ones."""
    import warnings
    warnings.simplefilter("ignore")
    defineDoomed()
    shard.caseLimit = 60
    for name in ("narrow", "nested", "path"):
        for processes in (1, 2, 3, 4, None):
            for n in (0, 1, 4, 9):
                shard.run(["real processes", name, processes, n], real, shard, name, tuple(range(n)), processes)
                if shard.full(): return
    for processes in (1, 2, 3):
        for when in (0, 3, 5) if shard.thorough else (3,):
            shard.run(["a worker dies", processes, when], killed, shard, processes, when)
            if shard.full(): return


def run(check):
    check.sharded(worker)
    check.sharded(realWorker, 1)
    check.coverage = dict(states=len(check.hashes), transitions=check.counters.get("transitions", 0),
                          traces_validated_against_impl=check.counters.get("traces", 0), runs_with_real_processes=check.counters.get("real", 0), exhaustive=True,
                          bound="every number of rays up to %d and processes up to 4 in every order of completion; every point of failure (creation, entry, submission, each "
                                "unit, each answer, exit, number of processors) with %d kinds of errors, for every way of giving the rays" %
                                (7 if check.thorough else 6, len(ERRORS)), samples=check.samples)
    check.assumptions = ["the order of the rays may differ (documented)", "the pool is one of multiprocessing or concurrent.futures, simulated in one process with arguments "
                         "and answers copied by pickling; a smaller set runs with real processes"]
