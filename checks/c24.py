"""C24: the last warning mode chosen decides which messages are shown."""
import itertools, json, os, shutil, tempfile, warnings
from mc import session
from mc.core import Violation
from mc.session import KINDS

LEVEL = "model_checking"
IMPORTS = False

MODES = ["beginner", "expert", "silent"]
STARTS = [None, "beginner", "expert", "silent"]
# a choice of mode, saved or not, or messages that are shown or not
CHOICES = [(m, saved) for m in MODES for saved in (False, True)]
WAYS = ["positional", "keyword", "default"]
SAME = [("same",) + (k,) for k in KINDS]       # a message that is the same every time
LIBRARY = {"BeginnerHint": ["imageSize", "unstable"], "ExpertNote": ["objective", "pool"], "UserWarning": ["step"], "DeprecationWarning": ["fan", "fanAngle"]}


def library(rt, name):
    """Something that makes the package itself say something."""
    if name == "imageSize":
        rt.ImagingPath([rt.Space(d=20), rt.Lens(f=10), rt.Space(d=20)]).imageSize()
    elif name == "unstable":
        rt.LaserCavity([rt.Space(d=10), rt.Lens(f=1)]).display()
    elif name == "objective":
        rt.Objective(f=10, NA=0.5, focusToFocusLength=60, backAperture=10, workingDistance=5)
    elif name == "pool":
        def fails(*args, **kwargs):
            raise OSError("no process")
        import concurrent.futures, multiprocessing
        saved = concurrent.futures.ProcessPoolExecutor, multiprocessing.Pool
        try:
            concurrent.futures.ProcessPoolExecutor = multiprocessing.Pool = fails
            rt.Space(d=10).traceManyThroughInParallel([rt.Ray(1, 0)], progress=False, processes=1)
        finally:
            concurrent.futures.ProcessPoolExecutor, multiprocessing.Pool = saved
    elif name == "step":
        g = rt.MatrixGroup([rt.Space(d=10), rt.Space(d=5), rt.Space(d=6)])
        g[0:2:2] = rt.Space(d=3)
    elif name == "fan":
        rt.Ray.fan(1, -0.1, 0.1, 3)
    elif name == "fanAngle":
        rt.ImagingPath().fanAngle = 0.1


def choose(rt, mode, saved, way):
    f = dict(beginner=rt.beginnerMode, expert=rt.expertMode, silent=rt.silentMode)[mode]
    if way == "positional":
        f(saved)
    elif way == "keyword" or saved:
        f(saveToPrefs=saved)
    else:
        f()


def begin(home, expert=None):
    os.environ["HOME"] = home
    os.environ.pop("RAYTRACING_EXPERT", None)
    os.chdir(home)
    def nothing():
        raise OSError("no network")
    session.Network(nothing).install()
    with session.quiet():
        import raytracing as rt
    return rt


def batch(folder, stored, histories):
    """One import for many histories, which continue it each in a process of its own."""
    home(folder, stored)
    rt = begin(folder)
    answers = []
    for ops in histories:
        home(folder, stored)
        answers.append(session.forked(play, folder, ops, rt))
    return answers


def play(home, ops, rt=None):
    """In a session: the messages shown after each operation."""
    rt = rt or begin(home)
    recorder = session.Recorder()
    log = []
    if ops and ops[0] == "again":
        log.append(session.battery(rt, recorder, "start "))
        ops = ops[1:]
    for i, op in enumerate(ops):
        if op[0] in MODES:
            choose(rt, op[0], op[1], WAYS[op[2]])
            log.append(session.battery(rt, recorder, "message %d " % i) if op[3] else None)
        elif op[0] == "same":
            recorder.take()
            session.emit(rt, op[1], "the same " + op[1])
            log.append([k for k, _ in recorder.take()])
        elif op[0] == "library":
            with session.quiet():
                recorder.take()
                library(rt, op[1])
                first = [k for k, _ in recorder.take()]
                library(rt, op[1])
            log.append((first, [k for k, _ in recorder.take()]))
    try:
        with open(os.path.join(home, ".config", session.NAME)) as f:
            stored = json.load(f).get("mode")
    except OSError:
        stored = None
    return log, stored


def expected(mode, kind):
    """How many of two messages of a kind, not seen before, are shown: a set."""
    if mode == "silent" or mode == "expert" and kind == "BeginnerHint":
        return {0}
    if mode == "beginner":
        return {2} if kind == "BeginnerHint" else {1, 2}
    return {1}


def judge(what, mode, shown):
    if not isinstance(shown, dict):
        raise Violation("%s: %s" % (what, shown))
    for kind in KINDS:
        if shown[kind] not in expected(mode, kind):
            raise Violation("%s, in %s mode, two %ss are shown %d times" % (what, mode, kind, shown[kind]))


def home(folder, stored):
    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(folder + "/.config")
    d = {"lastVersionCheck": "2999-01-01T00:00:00.5", "other": 1}
    if stored is not None:
        d["mode"] = stored
    with open(os.path.join(folder, ".config", session.NAME), "w") as f:
        json.dump(d, f)


def history(shard, folder, stored, ops, next_, answer=None):
    if answer is None:
        home(folder, stored)
        answer = session.forked(play, folder, ops)
    if answer[0] != "ok":
        raise Violation("failed: %s" % (answer[1:],))
    log, on = answer[1]
    mode = stored or "beginner"
    saved = stored or "beginner"        # a first session stores the mode it starts in
    seen = set()                        # the kinds whose usual message was shown since the mode was chosen
    ever = set()
    i0 = 0
    if ops and ops[0] == "again":
        judge("at the start", mode, log[0])
        i0 = 1
    for i, op in enumerate(ops[i0:], i0):
        shard.add("transitions")
        what = "after %s" % (ops[: i + 1],)
        if op[0] in MODES:
            mode = op[0]
            if op[1]:
                saved = op[0]
            seen = set()
            if op[3]:
                judge(what, mode, log[i])
        elif op[0] == "same":
            kind = op[1]
            count = len(log[i])
            if any(k != kind for k in log[i]) or count > 1:
                raise Violation("%s: %s shown" % (what, log[i]))
            if mode == "silent" or mode == "expert" and kind == "BeginnerHint":
                want = {0}
            elif kind == "BeginnerHint":
                want = {1}
            elif kind not in ever:
                want = {1}
            elif mode == "expert" and kind in seen:
                want = {0}
            else:
                want = {0, 1}
            if count not in want:
                raise Violation("%s, in %s mode: the %s is %sshown" % (what, mode, kind, "" if count else "not "))
            if count:
                seen.add(kind)
                ever.add(kind)
        elif op[0] == "library":
            kind = op[2]
            first, second = log[i]
            mine = [first.count(kind), second.count(kind)]
            if mode == "silent" and (first or second) or mode == "expert" and ("BeginnerHint" in first + second):
                raise Violation("%s, in %s mode: %s shown" % (what, mode, first + second))
            if mode == "beginner" and kind == "BeginnerHint" and not all(mine):
                raise Violation("%s, in beginner mode: the hint of %s is shown %s times" % (what, op[1], mine))
            if mode != "silent" and not (mode == "expert" and kind == "BeginnerHint") and op[1] not in ever and not mine[0]:
                raise Violation("%s, in %s mode: the message of %s is not shown" % (what, mode, op[1]))
            if mode == "expert" and mine[1]:
                raise Violation("%s, in expert mode: the message of %s is shown again" % (what, op[1]))
            if mine[0]:
                ever.add(op[1])
    if stored is not None or any(o[0] in MODES and o[1] for o in ops):
        if on != saved:
            raise Violation("after %s: the stored mode is %r instead of %r" % (ops, on, saved))
    shard.distinct((stored, mode, saved, tuple(sorted(seen))))
    if next_:
        answer = session.forked(play, folder, ["again"])
        if answer[0] != "ok":
            raise Violation("the next session failed: %s" % (answer[1:],))
        judge("in the session after %s" % (ops,), saved, answer[1][0][0])
        shard.add("sessions")


def choices(n):
    """Every history of n choices, with the messages looked at after each, or after the last only."""
    for seq in itertools.product(CHOICES, repeat=n):
        for looked in (True, False):
            if n == 1 and not looked:
                continue
            yield [(m, s, i % 3, looked or i == n - 1) for i, (m, s) in enumerate(seq)]


def plan(thorough):
    lib = [("library", name, kind) for kind, names in LIBRARY.items() for name in names]
    for stored in STARTS:
        yield stored, ["again"], True
        for l in lib:
            yield stored, [l], False
        for s in itertools.product(SAME, repeat=2):
            yield stored, list(s), False
        for n in (1, 2, 3) + ((4, 5) if thorough else ()):
            if n > 3 and stored not in (None, "silent"):
                continue
            for ops in choices(n):
                yield stored, ops, n <= 2 or thorough and n <= 3
                if n <= 2:
                    yield stored, ["again"] + ops, False
        for way in range(3):
            for m, s in CHOICES:
                yield stored, [(m, s, way, True)], True
        # messages of the package itself
        for n in (1, 2):
            for seq in itertools.product(CHOICES[::2] if n == 2 else CHOICES, repeat=n):
                for l in lib:
                    yield stored, [l] + [(m, s, 0, False) for m, s in seq] + [l], False
                    yield stored, [(m, s, 0, False) for m, s in seq] + [l], False
        # the same message in between
        for kind in KINDS:
            e = ("same", kind)
            for n in range(2, 7 if thorough else 6):
                for seq in itertools.product([(m, False, 0, False) for m in MODES] + [e], repeat=n):
                    if e in seq and stored in (None, "expert") + (("silent", "beginner") if thorough else ()):
                        yield stored, list(seq), False


def histories(shard):
    session.preload()
    folder = os.path.join(tempfile.mkdtemp(), "home")
    shard.caseLimit = 120
    waiting = {s: [] for s in STARTS}
    def flush(stored):
        many = waiting[stored]
        waiting[stored] = []
        if not many:
            return
        got = []
        def one():
            answer = session.forked(batch, folder, stored, many)
            if answer[0] != "ok":
                raise Violation("the session failed: %s" % (answer[1:],))
            got.extend(answer[1])
        shard.run(dict(stored=stored, many=len(many)), one)
        for ops, answer in zip(many, got):
            shard.run(dict(stored=stored, ops=ops), history, shard, folder, stored, ops, False, answer)
    for stored, ops, next_ in shard.mine(plan(shard.thorough)):
        if next_:
            shard.run(dict(stored=stored, ops=ops), history, shard, folder, stored, ops, next_)
        else:
            waiting[stored].append(ops)
            if len(waiting[stored]) >= 60:
                flush(stored)
        if shard.full():
            return
    for stored in STARTS:
        flush(stored)
    shard.sample("stored %s: %s" % (stored, ops))


def run(check):
    session.preload()
    check.sharded(histories)
    c = check.counters
    n = 5 if check.thorough else 3
    check.coverage = dict(
        states=len(check.hashes), transitions=c.get("transitions", 0), traces_validated_against_impl=check.cases, next_sessions=c.get("sessions", 0), exhaustive=True,
        bound="every sequence of up to %d choices of mode (saved or not), from each stored mode, each kind of message looked at after each choice or after the last; every sequence of up to %d choices and messages "
              "of one kind; the messages of the package itself around up to 2 choices" % (n, 6 if check.thorough else 5),
        rule="each history is a session of its own (a process that imports the package); the model is the last mode chosen",
        samples=check.samples)
    check.assumptions = [
        "Only the categories of messages of the package and of the standard deprecation and user warnings are judged.",
        "In beginner mode, messages other than hints may be shown once or each time; a message already shown may or may not be shown again after the mode was chosen anew.",
    ]
