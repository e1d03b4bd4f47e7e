"""Sessions: the package imported in a process of its own, with an environment of our choosing."""
import contextlib, ctypes, io, os, pickle, sys, warnings

NAME = "ca.dcclab.python.raytracing.json"


def preload():
    """Everything the package imports, but not the package, so that its import is all that a session does."""
    import numpy, matplotlib, matplotlib.pyplot, matplotlib.patches, matplotlib.path, matplotlib.transforms, matplotlib.widgets
    import concurrent.futures, concurrent.futures.process, multiprocessing, multiprocessing.pool, urllib.request, ssl, json, tempfile, platform, pickle, datetime, packaging.version
    import importlib
    for name in ("matplotlib.backends.backend_agg", "re", "csv", "struct", "cmath", "typing", "inspect", "http.client", "socket", "email.parser"):
        importlib.import_module(name)
    assert not any(m == "raytracing" or m.startswith("raytracing.") for m in sys.modules)


class Header(ctypes.Structure):
    _fields_ = [("version", ctypes.c_uint32), ("pid", ctypes.c_int)]


class Data(ctypes.Structure):
    _fields_ = [("effective", ctypes.c_uint32), ("permitted", ctypes.c_uint32), ("inheritable", ctypes.c_uint32)]


def dropPrivileges():
    """From now on file permissions apply to this process, even to root."""
    libc = ctypes.CDLL(None, use_errno=True)
    header, data = Header(0x20080522, 0), (Data * 2)()
    libc.capget(ctypes.byref(header), data)
    for bit in (0, 1, 2, 3):        # CHOWN, DAC_OVERRIDE, DAC_READ_SEARCH, FOWNER
        data[0].effective &= ~(1 << bit)
        data[0].permitted &= ~(1 << bit)
        data[0].inheritable &= ~(1 << bit)
    libc.capset(ctypes.byref(header), data)


def forked(function, *args):
    """What function answers, in a forked process: ('ok', answer), ('exception', text) or ('died', status)."""
    sys.stdout.flush(); sys.stderr.flush()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                answer = ("ok", function(*args))
            except BaseException as e:
                import traceback
                answer = ("exception", "%s: %s" % (type(e).__name__, e), traceback.format_exc())
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(answer))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("died", status)


class Network:
    """Stands for the network: every attempt is counted, and gets the outcome of our choosing."""
    def __init__(self, outcome):
        self.outcome, self.attempts = outcome, 0

    def install(self):
        import http.client, socket, urllib.request
        network = self
        def open_(opener, request, data=None, timeout=None):
            network.attempts += 1
            return network.outcome()
        urllib.request.OpenerDirector.open = open_
        def refuse(*args, **kwargs):
            network.attempts += 1
            raise OSError(101, "Network is unreachable")
        socket.create_connection = socket.getaddrinfo = refuse
        socket.socket.connect = refuse
        http.client.HTTPConnection.request = refuse


class Response(io.BytesIO):
    status = code = 200
    headers = {}
    def __init__(self, content, error=None):
        super().__init__(content)
        self.error = error
    def read(self, *args):
        if self.error is not None:
            raise self.error
        return super().read(*args)
    def getcode(self): return 200
    def info(self): return {}
    def geturl(self): return "https://pypi.org/pypi/raytracing/json"


@contextlib.contextmanager
def quiet():
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        yield out


class Recorder:
    """What warnings are shown to the user."""
    def __init__(self):
        self.shown = []
        def show(message, category, filename, lineno, file=None, line=None):
            self.shown.append((category.__name__, str(message)))
        warnings.showwarning = show

    def take(self):
        shown, self.shown = self.shown, []
        return shown


KINDS = ("BeginnerHint", "ExpertNote", "UserWarning", "DeprecationWarning")


def emit(rt, kind, text):
    """A message of this kind, always from the same place."""
    category = dict(BeginnerHint=rt.utils.BeginnerHint, ExpertNote=rt.utils.ExpertNote, UserWarning=UserWarning, DeprecationWarning=DeprecationWarning)[kind]
    warnings.warn(text, category)


def battery(rt, recorder, text):
    """Each kind of message, twice: what was shown of it (0, 1 or 2 times)."""
    out = {}
    for kind in KINDS:
        recorder.take()
        emit(rt, kind, text + kind)
        emit(rt, kind, text + kind)
        shown = recorder.take()
        if any(s != (kind, text + kind) for s in shown):
            return "%s shown for %s" % (shown, kind)
        out[kind] = len(shown)
    return out


def modeOf(shown):
    """The mode a battery was shown in; None if it is no mode."""
    if not isinstance(shown, dict):
        return None
    hint, others = shown["BeginnerHint"], [shown[k] for k in KINDS[1:]]
    if hint == 2 and all(n >= 1 for n in others):
        return "beginner"
    if hint == 0 and all(n == 1 for n in others):
        return "expert"
    if hint == 0 and not any(others):
        return "silent"
    return None
