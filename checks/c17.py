"""C17: preferences survive crashes and other sessions without losing keys."""
import collections, ctypes, errno, itertools, json, os, shutil, signal, subprocess, sys, tempfile
from mc.core import Violation, VERIF, alarm

LEVEL = "fault_enumeration"
NAME = "ca.dcclab.python.raytracing.json"
MISSING = object()

# what the file may hold at the start, and the preferences that it means
STARTS = {
    "missing": (None, {}),
    "nothing": ("{}", {}),
    "two keys": ('{"a": 1, "z": [1, {"b": null}]}', {"a": 1, "z": [1, {"b": None}]}),
    "empty": ("", {}),
    "cut": ('{"a": 1, "b', {}),
    "a list": ("[1, 2]", {}),
}
V1, V2 = "first", {"n": [1.5, None, True], "\u00e9": "\u03bb\n"}

# per object: what is called, given the object
SETS = [("set", "a", V1), ("set", "a", V2), ("set", "b", 2), ("update", {"a": 3, "c": [1]}), ("kwargs", {"b": 4}), ("pairs", {"c": 5}), ("setdefault", "a", 6), ("ior", {"b": 7})]
DELS = [("del", "a"), ("pop", "a"), ("pop", "b", 8), ("popitem",), ("clear",), ("reset",)]
READS = [("get", "a"), ("get", "b", 9), ("in", "a"), ("item", "a"), ("read",)]
REFUSED = [("set", "a", object), ("update", {"b": 1, "c": object}), ("set", "b", {1, 2})]
OTHERS = [("sync",), ("mutate", "a"), ("new",), ("new", {"b": 10})]
ALL = SETS + DELS + READS + REFUSED + OTHERS
FEW = [SETS[0], SETS[2], SETS[3], DELS[0], DELS[1], DELS[5], READS[0], READS[3], OTHERS[0], OTHERS[2], SETS[6]]


def value(v):
    """The values that cannot be written are made for the occasion."""
    if v is object:
        return object()
    if isinstance(v, dict):
        return {k: value(x) for k, x in v.items()}
    return v


def writable(v):
    try:
        json.dumps(value(v))
        return True
    except TypeError:
        return False


def model(content, op):
    """The preferences afterwards, and what is answered (an exception type when refused)."""
    kind, args = op[0], op[1:]
    new = json.loads(json.dumps(content))
    if kind == "set":
        if not writable(args[1]):
            return content, TypeError
        new[args[0]] = args[1]
    elif kind in ("update", "kwargs", "pairs", "ior"):
        if not writable(args[0]):
            return content, TypeError
        new.update(args[0])
    elif kind == "setdefault":
        return new, new.setdefault(args[0], args[1])
    elif kind == "del":
        if args[0] not in new:
            return content, KeyError
        del new[args[0]]
    elif kind == "pop":
        if args[0] not in new and len(args) == 1:
            return content, KeyError
        return new, new.pop(*args)
    elif kind == "popitem":
        if not new:
            return content, KeyError
        return new, ("one of",)
    elif kind in ("clear", "reset"):
        new = {}
    elif kind == "get":
        return content, content.get(*args)
    elif kind == "in":
        return content, args[0] in content
    elif kind == "item":
        return content, content.get(args[0], KeyError)
    elif kind == "new" and args:
        new.update(args[0])
    return new, None


def perform(p, op):
    kind, args = op[0], op[1:]
    if kind == "set":
        p[args[0]] = value(args[1])
    elif kind == "update":
        p.update(value(args[0]))
    elif kind == "kwargs":
        p.update(**args[0])
    elif kind == "pairs":
        p.update(list(args[0].items()))
    elif kind == "ior":
        p |= args[0]
    elif kind == "setdefault":
        return p.setdefault(*args)
    elif kind == "del":
        del p[args[0]]
    elif kind == "pop":
        return p.pop(*args)
    elif kind == "popitem":
        return p.popitem()
    elif kind == "clear":
        p.clear()
    elif kind == "reset":
        p.resetPreferences()
    elif kind == "get":
        return p.get(*args)
    elif kind == "in":
        return args[0] in p
    elif kind == "item":
        return p[args[0]]
    elif kind == "read":
        p.readFromDisk()
    elif kind == "sync":
        p.readFromDisk()
        p.writeToDisk()
    elif kind == "mutate":
        v = p.get(args[0])
        if isinstance(v, dict):
            v["more"] = 1
        elif isinstance(v, list):
            v.append(1)


class Home:
    """A home directory with a preferences file in it."""
    def __init__(self, folder, start):
        self.folder = folder
        shutil.rmtree(folder, ignore_errors=True)
        os.makedirs(folder + "/.config")
        self.path = os.path.join(folder, ".config", NAME)
        os.environ["HOME"] = folder
        text, self.content = STARTS[start] if isinstance(start, str) else start
        self.text, self.meaning = text, self.content
        if text is not None:
            with open(self.path, "w") as f:
                f.write(text)

    def means(self, content):
        """Whether the file holds exactly these preferences (one that was damaged at the start may stay as it was)."""
        raw = self.raw()
        on = parsed(raw)
        return same(on, content) if on is not None else raw == self.text and same(content, self.meaning)

    def raw(self):
        """What the file holds; MISSING when there is none."""
        try:
            with open(self.path) as f:
                return f.read()
        except FileNotFoundError:
            return MISSING


def same(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


def parsed(raw):
    """The preferences in the file, None when it is not a complete one."""
    if raw is MISSING:
        return {}
    try:
        v = json.loads(raw)
    except ValueError:
        return None
    return v if isinstance(v, dict) else None


def look(what, p, content, by):
    for k in sorted(set(content) | {"a", "b", "c", "z"}):
        if k in content:
            if k not in p:
                raise Violation("%s: %s does not find %r" % (what, by, k))
            if not same(p[k], content[k]) or not same(p.get(k), content[k]):
                raise Violation("%s: %s finds %r for %r, instead of %r" % (what, by, p.get(k), k, content[k]))
        else:
            if k in p:
                raise Violation("%s: %s still finds %r" % (what, by, k))
            if p.get(k) is not None or p.get(k, 12) != 12:
                raise Violation("%s: %s finds %r for %r, which is not there" % (what, by, p.get(k), k))
            try:
                p[k]
            except KeyError:
                pass
            else:
                raise Violation("%s: %s finds %r, which is not there" % (what, by, k))


def history(shard, Preferences, folder, start, ops):
    """ops: (object, operation). Every object is made at its first use."""
    home = Home(folder, start)
    content = home.content
    objects = {}
    for i, (who, op) in enumerate(ops):
        shard.add("transitions")
        if who not in objects:
            objects[who] = Preferences()
        if op[0] == "new":
            objects[who] = Preferences(*op[1:])
        after, answer = model(content, op)
        try:
            got = None if op[0] == "new" else perform(objects[who], op)
            error = None
        except Exception as e:
            got, error = None, e
        what = "after %s" % (ops[: i + 1],)
        if isinstance(answer, type):
            if error is None:
                raise Violation("%s: nothing was refused (%s expected)" % (what, answer.__name__))
            if answer is KeyError and not isinstance(error, KeyError):
                raise Violation("%s: %s instead of KeyError" % (what, error))
        elif error is not None:
            raise Violation("%s: %s: %s" % (what, type(error).__name__, error))
        elif answer == ("one of",):
            k, v = got
            if k not in content or not same(content[k], v):
                raise Violation("%s: %r is not one of %r" % (what, got, content))
            del after[k]
        elif answer is not None and not same(got, answer):
            raise Violation("%s: the answer is %r instead of %r" % (what, got, answer))
        content = after
    what = "after %s" % (ops,)
    for who, p in objects.items():
        look(what, p, content, "object %s" % who)
    look(what, Preferences(), content, "a new session")
    if not home.means(content):
        raise Violation("%s: the file holds %r instead of %r" % (what, home.raw(), content))
    shard.distinct((json.dumps(content, sort_keys=True), len(objects)))


def enumerate_(thorough):
    """(start, history): everything up to a depth, richer where it is shorter."""
    for start in STARTS:
        for n in (1, 2):
            for ops in itertools.product(ALL, repeat=n):
                for who in itertools.product((0, 1), repeat=n):
                    if who[0] == 0:
                        yield start, list(zip(who, ops))
    for start in (["two keys", "missing", "cut"] if thorough else ["two keys"]):
        for ops in itertools.product(ALL if thorough else FEW, repeat=3):
            for who in itertools.product((0, 1, 2), repeat=3):
                if all(w <= max((-1,) + who[:i]) + 1 for i, w in enumerate(who)):
                    yield start, list(zip(who, ops))
    if thorough:
        for start in ("two keys", "missing"):
            for ops in itertools.product(FEW, repeat=4):
                for who in itertools.product((0, 1), repeat=4):
                    if who[0] == 0:
                        yield start, list(zip(who, ops))
    else:
        for ops in itertools.product([FEW[0], FEW[1], FEW[3], FEW[5], FEW[7]], repeat=4):
            for who in itertools.product((0, 1), repeat=4):
                if who[0] == 0:
                    yield "two keys", list(zip(who, ops))


def histories(shard):
    from raytracing.preferences import Preferences
    os.fsync = lambda fd: None          # the disk may take its time: nothing is crashed here
    folder = tempfile.mkdtemp()
    for start, ops in shard.mine(enumerate_(shard.thorough)):
        shard.run(dict(start=start, ops=[(w, repr(o)) for w, o in ops]), history, shard, Preferences, folder, start, ops)
        shard.add("histories")
        if shard.full():
            return
    shard.sample("%s %s" % (start, ops))


# ---- crashes and errors: run by crashes(), in a process with mc/crashfs.c preloaded ----

BIG = {"k%d" % i: "x" * 100 for i in range(200)}        # more than one buffer
CRASHSTARTS = {"missing": (None, {}), "two keys": STARTS["two keys"], "cut": STARTS["cut"], "nothing": STARTS["nothing"], "big": (json.dumps(BIG), BIG), "link": STARTS["two keys"]}
CRASHOPS = [("set", "a", V1), ("set", "b", V2), ("update", {"a": 3, "c": [1]}), ("update", BIG), ("del", "a"), ("pop", "z", 1), ("reset",), ("clear",), ("sync",), ("new",), ("new", {"b": 10}),
            ("setdefault", "c", 6), ("ior", {"b": 7}), ("kwargs", {"b": 1}), ("popitem",)]
FOLLOW = [("set", "q", "later"), ("del", "a"), ("reset",), ("get", "a")]
ERRORS = (errno.ENOSPC, errno.EACCES, errno.EIO)


def library():
    lib = ctypes.CDLL(None)
    lib.crashfs_name.restype = ctypes.c_char_p
    lib.crashfs_size.restype = ctypes.c_long
    return lib


def arm(lib, home, at, mode, part=0, error=0):
    lib.crashfs_arm(os.path.realpath(home.folder).encode(), at, mode, ctypes.c_long(part), error)


def begin(folder, start):
    home = Home(folder, CRASHSTARTS[start])
    if start == "link":
        other = os.path.join(folder, "elsewhere.json")
        os.rename(home.path, other)
        os.symlink(other, home.path)
    return home


def doIt(Preferences, made, op):
    if op[0] == "new":
        return Preferences(*op[1:])
    p = made if made is not None else Preferences()
    try:
        return perform(p, op)
    except KeyError:
        if op[0] not in ("del", "popitem", "pop"):      # they may find nothing to remove
            raise


def steps(lib, Preferences, folder, start, op, made):
    """The file-system steps of the operation: (name, size)."""
    home = begin(folder, start)
    p = Preferences() if made else None
    arm(lib, home, -1, 0)
    doIt(Preferences, p, op)
    n = lib.crashfs_disarm()
    return [(lib.crashfs_name(i).decode(), lib.crashfs_size(i)) for i in range(n)]


def inChild(function):
    """Run in a forked child: its exit code (77: crashed where it was told to; 0: done; 3: refused)."""
    pid = os.fork()
    if pid == 0:
        code = 4
        try:
            function()
            code = 0
        except Exception:
            code = 3
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(status)


def judge(what, Preferences, home, old, new, rawOld, follow, mustBeNew=False, mustBeOld=False):
    raw = home.raw()
    on = parsed(raw)
    isOld = raw is rawOld or raw == rawOld or (on is not None and same(on, old))
    isNew = on is not None and any(same(on, n) for n in new)
    if not isOld and not isNew:
        raise Violation("%s: the file is neither the previous nor the new one: %r" % (what, raw if raw is MISSING else raw[:200]))
    if mustBeNew and not isNew:
        raise Violation("%s: it ended without error, and is not in the file: %r" % (what, raw if raw is MISSING else raw[:200]))
    content = on if isNew else old
    look(what, Preferences(), content, "a new session")
    # and life goes on
    after, answer = model(content, follow)
    try:
        perform(Preferences(), follow)
    except KeyError:
        if answer is not KeyError:
            raise
    look("%s, then %s" % (what, follow), Preferences(), after, "a new session")
    if not home.means(after):
        raise Violation("%s, then %s: the file holds %r" % (what, follow, home.raw()))


def outcomes(content, op):
    """The possible new states."""
    after, _ = model(content, op)
    if op[0] == "popitem" and content:
        return [{k: v for k, v in content.items() if k != gone} for gone in content]
    return [after]


def prefixes(size, thorough):
    if size <= 0:
        return [0]
    if size <= 40 or (thorough and size <= 4000):
        return list(range(size + 1))
    return sorted({0, 1, 2, 3, size // 4, size // 3, size // 2, size - 2, size - 1, size, 4096, 8192} & set(range(size + 1)))


def crash(shard, lib, Preferences, folder, start, op, made, at, part, follow, twice=None):
    home = begin(folder, start)
    p = Preferences() if made else None
    rawOld, old = home.raw(), home.content
    new = outcomes(old, op)
    def run():
        arm(lib, home, at, 0, part)
        doIt(Preferences, p, op)
    code = inChild(run)
    if code not in (77, 0):
        raise Violation("the operation failed before the crash (%d)" % code)
    shard.add("crashes" if code == 77 else "uncrashed")
    shard.distinct((home.raw() if home.raw() is not MISSING else None, tuple(sorted(os.listdir(home.folder + "/.config")))[:1]))
    what = "%s of %s ended at step %d after %d bytes" % (op, start, at, part)
    if twice is not None:
        # the next session ends in the middle of its own write too
        def again():
            arm(lib, home, twice[0], 0, twice[1])
            perform(Preferences(), ("set", "q", 1))
        states = [old] + new
        code = inChild(again)
        if code not in (77, 0):
            raise Violation("%s: the next session fails (%d)" % (what, code))
        shard.add("double")
        new = new + [dict(s, q=1) for s in states]
        what += ", and the next one at %s" % (twice,)
    judge(what, Preferences, home, old, new, rawOld, follow)


def fail(shard, lib, Preferences, folder, start, op, made, at, part, error, follow):
    """A step fails: the operation may be refused, but it is all or nothing."""
    home = begin(folder, start)
    p = Preferences() if made else None
    rawOld, old = home.raw(), home.content
    arm(lib, home, at, 2, part, error)
    try:
        doIt(Preferences, p, op)
        refused = False
    except OSError:
        refused = True
    finally:
        lib.crashfs_disarm()
    shard.add("errors")
    what = "%s of %s with %s at step %d" % (op, start, errno.errorcode[error], at)
    if p is not None and not refused:
        look(what, p, parsed(home.raw()) or {}, "the same object")
    judge(what, Preferences, home, old, outcomes(old, op), rawOld, follow, mustBeNew=not refused and op[0] not in ("new", "sync") and outcomes(old, op) != [old])


def short(shard, lib, Preferences, folder, start, op, at, part):
    """The system writes less than it was asked to."""
    home = begin(folder, start)
    rawOld, old = home.raw(), home.content
    arm(lib, home, at, 3, part)
    try:
        doIt(Preferences, None, op)
    finally:
        lib.crashfs_disarm()
    shard.add("short")
    judge("%s of %s with a short write at step %d" % (op, start, at), Preferences, home, old, outcomes(old, op), rawOld, FOLLOW[0], mustBeNew=True)


def crashPlan(lib, Preferences, folder, thorough):
    for start in CRASHSTARTS:
        for op in CRASHOPS:
            for made in ((False, True) if op[0] != "new" else (False,)):
                for at, (name, size) in enumerate(steps(lib, Preferences, folder, start, op, made)):
                    cuts = prefixes(size, thorough) if name == "write" else [0]
                    for j, part in enumerate(cuts):
                        for follow in (FOLLOW if thorough or name != "write" else [FOLLOW[j % len(FOLLOW)]]):
                            yield "crash", (start, op, made, at, part, follow)
                        if name == "write" and part and j % 5 == 1:
                            yield "short", (start, op, at, part) if not made else None
                    for error in ERRORS:
                        for part in ([0, size // 2] if name == "write" and size > 1 else [0]):
                            yield "fail", (start, op, made, at, part, error, FOLLOW[at % len(FOLLOW)])
                yield "crash", (start, op, made, -1, 0, FOLLOW[0])
    # twice in a row: the second ends at every step too
    second = steps(lib, Preferences, folder, "two keys", ("set", "q", 1), False)
    for start in ("two keys", "missing", "cut"):
        for op in CRASHOPS[:8] if thorough else (CRASHOPS[0], CRASHOPS[4]):
            for at, (name, size) in enumerate(steps(lib, Preferences, folder, start, op, False)):
                for part in ({0, size // 2, size} if name == "write" else {0}):
                    for at2, (name2, size2) in enumerate(second + [("more", 0)] * 2):
                        for part2 in ({0, size2 // 2, size2} if name2 == "write" else {0}):
                            yield "twice", (start, op, False, at, part, FOLLOW[0], (at2, part2))


def crashes(shard):
    from raytracing.preferences import Preferences
    lib = library()
    folder = tempfile.mkdtemp()
    for kind, args in shard.mine(x for x in crashPlan(lib, Preferences, folder, shard.thorough) if x[1] is not None):
        function = dict(crash=crash, twice=crash, fail=fail, short=short)[kind]
        shard.run(dict(kind=kind, args=repr(args)), function, shard, lib, Preferences, folder, *args)
        if shard.full():
            return
    shard.sample("%s %s" % (kind, args))


def run(check):
    if os.environ.get("VERIF_CRASHFS") is None:
        # start again with the file-system steps under control
        so = os.path.join(tempfile.gettempdir(), "crashfs.so")
        subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", so, os.path.join(VERIF, "mc", "crashfs.c"), "-ldl"], check=True)
        env = dict(os.environ, LD_PRELOAD=so, VERIF_CRASHFS=so)
        sys.stdout.flush()
        os.execve(sys.executable, [sys.executable] + sys.argv, env)
    os.environ.pop("LD_PRELOAD", None)
    check.sharded(crashes)
    c = check.counters
    faulted = c.get("crashes", 0)
    if not faulted and not check.violations:
        check.violations.append(dict(message="no crash was injected: the writes are not seen", case=None))
    check.sharded(histories)
    c = check.counters
    check.coverage = dict(
        evaluations=check.cases, distinct_nontrivial=len(check.hashes), exhaustive=True,
        crashes=faulted, double_crashes=c.get("double", 0), injected_errors=c.get("errors", 0), short_writes=c.get("short", 0),
        histories=c.get("histories", 0), transitions=c.get("transitions", 0),
        faults="the process ends before each file-system step (open for writing, write with torn prefixes, fsync, rename, unlink, truncate, mkdir...) of each operation, as counted by a preloaded "
               "library; each step fails with ENOSPC, EACCES or EIO; writes are cut short; and two crashes in a row",
        bound="histories of 1 and 2 of %d operations by 2 objects from %d starting files; 3 by 3 objects and 4 by 2 of a smaller alphabet (quick) or 3 of all and 4 of %d (thorough); crashes of %d operations from "
              "%d starting files, torn after every byte up to 40 bytes (4000 when thorough)" % (len(ALL), len(STARTS), len(FEW), len(CRASHOPS), len(CRASHSTARTS)),
        rule="every history and every crash point of the bound; those that leave different files or objects are counted once as distinct. A model of one shared dictionary; after each history every object and a new session find exactly its keys and values, and the file holds it",
        samples=check.samples)
    check.assumptions = [
        "Operations of different objects follow one another (no two processes write at the same instant).",
        "The process dies, not the machine: what was written before is what is read after. Loss of the disk cache is not modelled.",
        "writeToDisk() with an outdated memory, and len() or iteration without a read before, are not claimed.",
    ]
