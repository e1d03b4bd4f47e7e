"""C18: importing the package always succeeds, whatever the start-up environment."""
import datetime, io, itertools, json, os, re, shutil, socket, ssl, stat, sys, tempfile, urllib.error, warnings
from mc import session
from mc.core import Violation
from mc.session import Response

LEVEL = "model_checking"
IMPORTS = False
CURRENT = None          # the version of the package, read from it


def ago(**k):
    return datetime.datetime.now() - datetime.timedelta(**k)


UNKNOWN = object()
# what is stored as the date of the last check -> whether it is more than a day old or unknown
DATES = {
    "none": (lambda: UNKNOWN, True),
    "now": (lambda: datetime.datetime.now().isoformat(), False),
    "an hour ago": (lambda: ago(hours=1).isoformat(), False),
    "an hour ago, whole seconds": (lambda: ago(hours=1).replace(microsecond=0).isoformat(), False),
    "an hour ago, a space between": (lambda: ago(hours=1).isoformat(sep=" "), False),
    "almost a day ago": (lambda: ago(hours=23, minutes=55).isoformat(), False),
    "a little more than a day ago": (lambda: ago(hours=24, minutes=5).isoformat(), True),
    "two days ago": (lambda: ago(days=2).isoformat(), True),
    "a month ago": (lambda: ago(days=31).isoformat(), True),
    "a month and an hour ago": (lambda: ago(days=30, hours=1).isoformat(), True),
    "a year ago": (lambda: ago(days=365, hours=1).isoformat(), True),
    "ten years ago, whole seconds": (lambda: ago(days=3650).replace(microsecond=0).isoformat(), True),
    "tomorrow": (lambda: ago(hours=-30).isoformat(), False),
    "in a year": (lambda: ago(days=-365).isoformat(), False),
    "a word": (lambda: "yesterday", True),
    "empty": (lambda: "", True),
    "a number": (lambda: 1700000000.5, True),
    "nothing": (lambda: None, True),
    "a list": (lambda: [2020, 1, 1], True),
    "a dictionary": (lambda: {"year": 2020}, True),
    "impossible": (lambda: "2021-02-30T25:00:00.000000", True),
    "cut": (lambda: "2021-02-", True),
}
MODES = {"none": UNKNOWN, "beginner": "beginner", "expert": "expert", "silent": "silent"}
ODDMODES = {"unknown": "guru", "a number": 3, "null": None, "a list": ["expert"], "empty": "", "a dictionary": {}}

# what the file holds when it is not a dictionary with a mode and a date
DEEP = "[" * 100000
BAD = {
    "empty": b"", "spaces": b" \n\t ", "cut": b'{"mode": "exp', "a word": b"mode", "a list": b"[1, 2]", "a text": b'"expert"', "a number": b"12", "true": b"true", "null": b"null",
    "binary": bytes(range(256)), "zeros": bytes(64), "latin": '{"mode": "\u00e9"}'.encode("latin-1"), "utf-16": '{"mode": "expert"}'.encode("utf-16"), "deep": DEEP.encode(),
    "deep dictionary": (b'{"a":' * 100000), "two documents": b'{"mode": "expert"} {"mode": "silent"}', "a comma too many": b'{"mode": "expert",}', "comments": b'# nothing\n{}',
    "mark": b"\xef\xbb\xbf{}", "long number": b"1" * 100000, "infinite": b"Infinity", "NaN": b"NaN", "a list of modes": b'["mode", "lastVersionCheck"]', "pickle": b"\x80\x04}\x94.", "python": b"{'mode': 'expert'}",
}
OTHERS = {"theme": "dark", "list": [1, {"x": None}], "number": 1.5}


def newer(*more):
    return lambda: Response(json.dumps({"releases": {v: [] for v in ("0.1", "99.1", CURRENT) + more}}).encode())


def releases(*versions):
    return lambda: Response(json.dumps({"releases": {v: [] for v in versions}}).encode())


def raising(make):
    def outcome():
        raise make()
    return outcome


# what the network answers -> the version to announce, None for none
NETWORKS = {
    "newer": (newer(), "99.1"),
    "newer, listed first": (lambda: releases("99.1", "0.1", CURRENT)(), "99.1"),
    "same": (lambda: releases("0.1", CURRENT)(), None),
    "older": (lambda: releases("0.1", "0.9.9", "1.0")(), None),
    "no release": (releases(), None),
    "no network": (raising(lambda: urllib.error.URLError(socket.gaierror(-3, "Temporary failure in name resolution"))), None),
    "timeout": (raising(lambda: urllib.error.URLError(socket.timeout("timed out"))), None),
    "timeout while reading": (lambda: Response(b"{}", socket.timeout("The read operation timed out")), None),
    "reset": (raising(lambda: ConnectionResetError(104, "Connection reset by peer")), None),
    "reset while reading": (lambda: Response(b"{}", ConnectionResetError(104, "Connection reset by peer")), None),
    "no certificate": (raising(lambda: urllib.error.URLError(ssl.SSLCertVerificationError(1, "certificate verify failed"))), None),
    "ssl error": (raising(lambda: ssl.SSLError(1, "wrong version number")), None),
    "not found": (raising(lambda: urllib.error.HTTPError("https://pypi.org", 404, "Not Found", {}, io.BytesIO(b""))), None),
    "server error": (raising(lambda: urllib.error.HTTPError("https://pypi.org", 503, "Unavailable", {}, io.BytesIO(b"<html>"))), None),
    "a page": (lambda: Response(b"<html>Please log in</html>"), None),
    "nothing": (lambda: Response(b""), None),
    "cut": (lambda: Response(b'{"releases": {"99.'), None),
    "not a dictionary": (lambda: Response(b"[1, 2]"), None),
    "no releases": (lambda: Response(b'{"info": {}}'), None),
    "releases is a list": (lambda: Response(b'{"releases": ["99.1"]}'), False),
    "releases is null": (lambda: Response(b'{"releases": null}'), None),
    "binary": (lambda: Response(bytes(range(128, 256))), None),
    "a bad version": (lambda: Response(b'{"releases": {"not a version": []}}'), None),
    "bad protocol": (raising(lambda: __import__("http.client").client.BadStatusLine("?")), None),
    "cut short": (raising(lambda: __import__("http.client").client.IncompleteRead(b"{")), None),
    "no memory": (raising(lambda: MemoryError()), None),
    "a library fails": (raising(lambda: AttributeError("no")), None),
}
FEWNETWORKS = ("newer", "same", "no network")


def start(home, network, expert, config):
    """The session: run in a process of its own. What the user sees of it."""
    os.environ["HOME"] = home
    os.environ.pop("RAYTRACING_EXPERT", None)
    if expert is not None:
        os.environ["RAYTRACING_EXPERT"] = expert
    os.chdir(os.path.join(home, "here"))
    if config == "no packaging":
        sys.modules["packaging"] = sys.modules["packaging.version"] = None
    if config == "strict":
        warnings.simplefilter("error")
    if config == "home missing":
        os.environ["HOME"] = home + "/nowhere"
    if config == "home a file":
        os.environ["HOME"] = home + "/file"
    if config == "home relative":
        os.environ["HOME"] = "."
    net = session.Network(NETWORKS[network][0])
    net.install()
    session.dropPrivileges()
    with session.quiet() as out:
        import raytracing as rt
    recorder = session.Recorder()
    shown = session.battery(rt, recorder, "message ")
    return dict(attempts=net.attempts, output=out.getvalue(), shown=shown, mode=session.modeOf(shown), works=(rt.Space(d=10) * rt.Ray(1, 0.1)).y)


def prepare(folder, content, config):
    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(folder + "/here")
    open(folder + "/file", "w").close()
    path = os.path.join(folder, ".config", session.NAME)
    if config == "no folder":
        return path
    if config == "folder a file":
        open(folder + "/.config", "w").close()
        return path
    os.makedirs(folder + "/.config")
    if config == "a folder":
        os.mkdir(path)
    elif config == "dangling link":
        os.symlink(folder + "/nothing", path)
    elif config == "link to itself":
        os.symlink(path, path)
    elif config == "link":
        with open(folder + "/other.json", "wb") as f:
            f.write(content)
        os.symlink(folder + "/other.json", path)
    elif content is not None:
        with open(path, "wb") as f:
            f.write(content)
    if config == "unreadable":
        os.chmod(path, 0)
    elif config == "read only":
        os.chmod(path, 0o444)
    elif config == "read-only folder":
        os.chmod(folder + "/.config", 0o555)
    elif config == "closed folder":
        os.chmod(folder + "/.config", 0)
    elif config == "all read only":
        os.chmod(path, 0o444)
        os.chmod(folder + "/.config", 0o555)
    elif config == "no folder, read-only home":
        shutil.rmtree(folder + "/.config")
        os.chmod(folder, 0o555)
    return path


def restore(folder):
    for p in (folder, folder + "/.config"):
        if os.path.isdir(p) and not os.path.islink(p):
            os.chmod(p, 0o755)


# where the preferences cannot be found or kept -> whether the stored content can be read, whether it can be written
CONFIGS = {
    "plain": (True, True), "link": (True, True), "no folder": (False, True), "folder a file": (False, None), "a folder": (False, None), "dangling link": (False, None), "link to itself": (False, None),
    "unreadable": (False, None), "read only": (True, None), "read-only folder": (True, None), "closed folder": (False, None), "all read only": (True, False), "no folder, read-only home": (False, None),
    "home missing": (False, None), "home a file": (False, None), "home relative": (None, None), "no packaging": (True, True), "strict": (True, True),
}


def stored(folder, path):
    try:
        with open(path) as f:
            v = json.load(f)
        return v if isinstance(v, dict) else None
    except (OSError, ValueError, RecursionError):
        return None


def checkOutput(what, network, attempted, output, config):
    announce = NETWORKS[network][1]
    if config == "no packaging" or announce is False:
        return
    latest = announce if attempted else None
    if latest is not None:
        if latest not in output:
            raise Violation("%s: the release %s is not announced: %r" % (what, latest, output))
    elif "99.1" in output or re.search(r"\bavailable\b", output, re.I):
        raise Violation("%s: an update is announced: %r" % (what, output))


def case(shard, folder, content, due, mode, network, expert, config="plain", others=None):
    """content: the bytes in the file, None for no file; due: whether a check is due; mode: the stored one (None: none)."""
    path = prepare(folder, content, config)
    readable, writable = CONFIGS[config]
    if readable is False:
        due, mode, others = True, None, None
    before = (open(path, "rb").read() if readable and os.path.exists(path) else None)
    wantMode = "expert" if expert is not None else mode or "beginner"
    try:
        for again in (False, True):
            what = "importing again" if again else "importing"
            answer = session.forked(start, folder, network, expert if not again else None, config)
            shard.add("imports")
            if answer[0] != "ok":
                raise Violation("%s failed: %s" % (what, answer[1:]))
            a = answer[1]
            if a["works"] != 2.0:
                raise Violation("%s: the package does not work" % what)
            if not again or mode is not None and expert is None:
                wanted = wantMode if not again else mode
                if readable is None:
                    wanted = "expert" if expert is not None and not again else "beginner"
                if a["mode"] != wanted:
                    raise Violation("%s: the mode is %s (%s) instead of %s" % (what, a["mode"], a["shown"], wanted))
            if not again and readable is not None and config != "no packaging":
                if (a["attempts"] > 0) != due:
                    raise Violation("%s: the version was %schecked" % (what, "" if a["attempts"] else "not "))
            if again and writable and a["attempts"]:
                raise Violation("the version was checked again at the next import")
            checkOutput(what, network, a["attempts"] > 0, a["output"], config)
            if a["attempts"] == 0 and a["output"].strip() and config != "no packaging":
                raise Violation("%s: says %r" % (what, a["output"]))
            if writable:
                restore(folder)
                now = stored(folder, path)
                if now is None:
                    raise Violation("%s: the preferences are lost: %r" % (what, open(path, "rb").read()[:200] if os.path.exists(path) else None))
                for k, v in (others or {}).items():
                    if now.get(k, UNKNOWN) != v:
                        raise Violation("%s: the preference %r is %r instead of %r" % (what, k, now.get(k), v))
                if mode is not None and expert is None and now.get("mode") != mode:
                    raise Violation("%s: the stored mode is now %r" % (what, now.get("mode")))
            elif writable is False:
                restore(folder)
                if open(path, "rb").read() != before:
                    raise Violation("%s: a read-only file was changed" % what)
            shard.distinct((a["mode"], a["attempts"] > 0, network, config, due))
            if not writable:
                return
    finally:
        restore(folder)


def text(mode, date, others=None):
    d = dict(others or {})
    if mode is not UNKNOWN:
        d["mode"] = mode
    if date is not UNKNOWN:
        d["lastVersionCheck"] = date
    return json.dumps(d).encode()


def plan(thorough):
    """(description, thunk that makes the arguments of case): dates are made when they are used."""
    experts = (None, "1") + (("", "0") if thorough else ())
    # every mode x date x network x environment
    for (m, mode), (d, (date, due)), n, e in itertools.product(MODES.items(), DATES.items(), NETWORKS, experts):
        if not thorough and n not in FEWNETWORKS and (d not in ("none", "two days ago", "an hour ago") or e):
            continue
        if not thorough and m == "silent" and n not in FEWNETWORKS:
            continue
        yield dict(mode=m, date=d, network=n, expert=e), lambda mode=mode, date=date, due=due, n=n, e=e: (text(mode, date(), OTHERS), due, None if mode is UNKNOWN else mode, n, e, "plain", OTHERS)
    # other modes: they are none of ours
    for (m, mode), d, n, e in itertools.product(ODDMODES.items(), ("none", "an hour ago", "two days ago"), FEWNETWORKS, experts):
        date, due = DATES[d]
        yield dict(oddmode=m, date=d, network=n, expert=e), lambda mode=mode, date=date, due=due, n=n, e=e: (text(mode, date(), OTHERS), due, None, n, e, "plain", OTHERS)
    # no file, and files that are not ours
    for (b, content), n, e in itertools.product([("missing", None)] + list(BAD.items()), NETWORKS if thorough else FEWNETWORKS, experts):
        yield dict(file=b, network=n, expert=e), lambda content=content, n=n, e=e: (content, True, None, n, e)
    # every prefix of a good file
    good = lambda: text("expert", DATES["an hour ago"][0](), {"a": 1})
    for i in range(len(good())):
        for e in experts:
            yield dict(prefix=i, expert=e), lambda i=i, e=e: (good()[:i], True, None, "same", e)
    # where it cannot be kept
    for c in CONFIGS:
        contents = [(m, d) for m in MODES for d in ("none", "an hour ago", "two days ago", "a word")]
        for (m, d), n, e in itertools.product(contents, NETWORKS if thorough else FEWNETWORKS, experts):
            if not thorough and n == "same" and d != "two days ago":
                continue
            date, due = DATES[d]
            yield dict(config=c, mode=m, date=d, network=n, expert=e), lambda m=m, date=date, due=due, n=n, e=e, c=c: (
                text(MODES[m], date(), OTHERS), due, None if MODES[m] is UNKNOWN else m, n, e, c, OTHERS)
        if c in ("read only", "read-only folder", "all read only", "link", "unreadable"):
            for b, content in BAD.items():
                yield dict(config=c, file=b), lambda content=content, c=c: (content, True, None, "no network", None, c)


def imports(shard):
    session.preload()
    folder = os.path.join(tempfile.mkdtemp(), "home")
    for description, make in shard.mine(plan(shard.thorough)):
        shard.run(description, lambda: case(shard, folder, *make()))
        if shard.full():
            return
    shard.sample(description)


POOL = ["1.3.2", "1.3.12", "1.3.11", "1.10.0", "2.0", "1.3.9", "0.9", "1.3.12.1", "1.3.13"]
CURRENTS = ["1.3.12", "1.3.2", "2.0", "0.9", "1.3.9", "1.10.0"]


def number(version):
    parts = [int(x) for x in version.split(".")]
    while parts and parts[-1] == 0:
        parts.pop()
    return parts


def asked(lists):
    """In a session: what checkLatestVersion answers for each list of releases."""
    os.environ["HOME"] = tempfile.mkdtemp()
    os.makedirs(os.environ["HOME"] + "/.config")
    now = []
    net = session.Network(lambda: releases(*now[0])())
    net.install()
    with session.quiet():
        import raytracing.utils as utils
    answers = []
    for current, versions in lists:
        now[:] = [versions]
        with session.quiet() as out:
            answer = utils.checkLatestVersion(currentVersion=current)
        answers.append((answer, out.getvalue()))
    return answers


def orders(shard):
    """Every list of releases of the pool, in every order."""
    session.preload()
    n = 4 if shard.thorough else 3
    lists = [(c, v) for c in CURRENTS for k in range(1, n + 1) for v in itertools.permutations(POOL, k)]
    lists = list(shard.mine(lists))
    def one():
        answer = session.forked(asked, lists)
        if answer[0] != "ok":
            raise Violation("the version check failed: %s" % (answer[1:],))
        for (current, versions), (got, out) in zip(lists, answer[1]):
            shard.add("orders")
            latest = max(versions, key=number)
            newerExists = number(latest) > number(current)
            if bool(got) != newerExists:
                raise Violation("releases %s, current %s: the answer is %s" % (versions, current, got))
            if newerExists and latest not in out or not newerExists and re.search(r"\bavailable\b", out, re.I):
                raise Violation("releases %s, current %s: says %r" % (versions, current, out))
    shard.caseLimit = 300
    shard.run(dict(lists=len(lists), first=lists[0]), one)


def version():
    """The version of the package."""
    os.environ["HOME"] = tempfile.mkdtemp()
    os.makedirs(os.environ["HOME"] + "/.config")
    session.Network(raising(lambda: OSError())).install()
    with session.quiet():
        import raytracing
    return raytracing.__version__


def run(check):
    global CURRENT
    session.preload()
    answer = session.forked(version)
    if answer[0] != "ok":
        check.violations.append(dict(message="importing failed: %s" % (answer[1:],), case="no preferences"))
        return
    CURRENT = answer[1]
    check.sharded(imports)
    check.sharded(orders)
    c = check.counters
    check.coverage = dict(
        states=len(check.hashes), transitions=c.get("imports", 0), traces_validated_against_impl=check.cases, release_lists=c.get("orders", 0), exhaustive=True,
        environments=check.cases,
        bound="%d stored modes x %d dates of the last check x %d network outcomes x environment (quick: all outcomes for 3 dates, 3 outcomes for the others; thorough: the full product); %d files that are not "
              "preferences, every prefix of a good file; %d places and permissions; every list of up to %d releases of a pool of %d, in every order, for %d current versions" %
              (len(MODES) + len(ODDMODES), len(DATES), len(NETWORKS), len(BAD), len(CONFIGS), 4 if check.thorough else 3, len(POOL), len(CURRENTS)),
        rule="each environment is a process in which the package is imported, and again where the preferences can be kept; the mode is judged from the messages that are shown",
        samples=check.samples)
    check.assumptions = [
        "The network is replaced at urllib's OpenerDirector and at the sockets; the rest of the import is the real one.",
        "File permissions are those of Linux, for a process without the privilege to ignore them.",
        "Pre-releases and lists that hold a version that cannot be read are not judged, beyond not failing.",
        "The clock is the real one: the dates are chosen relative to it, and dates within five minutes of a day are not tried.",
    ]
