"""C25: the command line runs the examples asked for, and each shows what it shows on its own, whatever ran before."""
import contextlib
import io
import itertools
import os
import pickle
import re
import sys
from mc import observe
from mc.core import Violation

LEVEL = "exploration"
SLOW = ("fig6-lsmConfocalpinhole", "fig8-widefield")


def isolated(f, *args):
    """The value of f in a process of its own."""
    sys.stdout.flush()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                answer = ("value", f(*args))
            except BaseException as e:
                answer = ("error", "%s: %s" % (type(e).__name__, e))
            with os.fdopen(w, "wb") as out:
                out.write(pickle.dumps(answer))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise Violation("the process died")
    kind, value = pickle.loads(data)
    if kind == "error":
        raise Violation(value)
    return value


def snapshot(figure):
    """What a figure shows, in data units; places of texts depend on what else is on the page."""
    out = []
    for axes in figure.axes:
        lines = [(str(l.get_color()), l.get_linestyle(), [float(v) for v in l.get_xdata()], [float(v) for v in l.get_ydata()]) for l in axes.lines if l.get_visible()]
        shapes = [(tuple(p.get_edgecolor()), bool(p.get_fill()), [[float(v) for v in row] for row in p.get_path().vertices]) for p in axes.patches
                  if p.get_visible() and not hasattr(p, "_posA_posB")]
        texts = sorted(t.get_text() for t in axes.texts if t.get_visible())
        if lines or shapes or texts:
            out.append([axes.get_title(), axes.get_xlabel(), axes.get_ylabel(), lines, shapes, texts])
    return observe.canon(out)


@contextlib.contextmanager
def recorded(figures):
    import matplotlib.figure
    import matplotlib.pyplot as plt
    show, save = plt.show, matplotlib.figure.Figure.savefig

    def shown(*args, **kwargs):
        for n in plt.get_fignums():
            figures.append(snapshot(plt.figure(n)))
        plt.close("all")
    try:
        plt.show = shown
        matplotlib.figure.Figure.savefig = lambda self, *a, **k: figures.append(snapshot(self))
        with open(os.devnull, "w") as nowhere, contextlib.redirect_stderr(nowhere):
            yield
    finally:
        plt.show, matplotlib.figure.Figure.savefig = show, save
        plt.close("all")


def once(entry):
    """What an example prints and shows."""
    import random
    import numpy
    random.seed(1)
    numpy.random.seed(1)
    figures, text = [], io.StringIO()
    with recorded(figures), contextlib.redirect_stdout(text):
        entry["code"](comments=None)
    return text.getvalue(), figures


def number(text):
    """Printed text up to the last digits of its numbers."""
    text = re.sub(r" at 0x[0-9a-f]+", "", text)
    return re.sub(r"\d+\.\d+(e[-+]?\d+)?", lambda m: "%.6g" % float(m.group()), text)


def same(a, b):
    return number(a[0]) == number(b[0]) and len(a[1]) == len(b[1]) and all(observe.same(x, y, 1e-9, 1e-9) for x, y in zip(a[1], b[1]))


def after(shard, entries, first, others, alone):
    """The others, each after the first."""
    def go():
        found, n = [], 0
        for other in others:
            for name in first + (other,):
                n += 1
                if not same(once(entries[name]), alone[name]):
                    found.append((name, n))
        return found, n
    found, n = isolated(go)
    shard.add("evaluations", n)
    for name, n in found:
        raise Violation("%s does not show what it shows on its own, after %r and others" % (name, first))
    for other in others:
        shard.distinct(first + (other,))


# ---------------------------------------------------------------- the command line
def command(argv, entries, stubs):
    """What a command does: (exit status, standard output, the examples that were run, commands of the system)."""
    def go():
        import runpy
        from raytracing import examples
        ran, system, figures, text = [], [], [], io.StringIO()
        if stubs:
            for e in examples.short:
                e["code"] = lambda comments=None, name=e["name"]: (ran.append(name), print("<<%s>>" % name))
        else:
            for e in examples.short:
                e["code"] = lambda comments=None, name=e["name"], code=e["code"]: (ran.append(name), print("<<%s>>" % name), code(comments=comments))
        os.system = lambda c: system.append(c) or 0
        sys.argv = ["raytracing"] + argv
        status = 0
        with recorded(figures), contextlib.redirect_stdout(text):
            try:
                runpy.run_module("raytracing.__main__", run_name="__main__")
            except SystemExit as e:
                status = e.code or 0
            except Exception as e:
                status = "%s: %s" % (type(e).__name__, e)
        return status, text.getvalue(), ran, system, figures
    return isolated(go)


def plain(text):
    return re.sub(r"\x1b\[[\d;]*m", "", text)


def runs(shard, wanted, argv, names, sources):
    status, text, ran, system, figures = command(argv, names, True)
    if status or ran != wanted or system:
        raise Violation("%r runs %r%s instead of %r" % (argv, ran, "" if not status else " and ends with %r" % (status,), wanted))
    at, text = 0, plain(text)
    for name in wanted:
        # the source, then what the example prints, in this order
        for piece in (sources[name].strip(), "<<%s>>" % name):
            at = text.find(piece, at)
            if at < 0:
                raise Violation("%r: the source or the output of %s is not printed in its place" % (argv, name))
            at += len(piece)
    if text.count("<<") != len(wanted):
        raise Violation("%r: outputs %r" % (argv, re.findall("<<.*>>", text)))
    shard.add("evaluations")
    shard.distinct(tuple(argv))


def shows(shard, numbers, names, alone):
    """The real examples, from the command line: the same figures but for the listing."""
    argv = ["-e", ",".join(str(n) for n in numbers)]
    status, text, ran, system, figures = command(argv, names, False)
    wanted = [f for n in numbers for f in alone[names[n - 1]][1]]
    if status or len(figures) != len(wanted):
        raise Violation("%r shows %d figures, status %r" % (argv, len(figures), status))
    for n in numbers:
        if number(alone[names[n - 1]][0].strip()) not in number(plain(text)):
            raise Violation("%r: the output of example %d is not printed" % (argv, n))
    for f, w in zip(figures, wanted):
        if not observe.same(f[:len(w)], w, 1e-9, 1e-9):
            raise Violation("%r: a figure differs from the one that the example shows on its own" % argv)
    shard.add("evaluations")
    shard.distinct(tuple(argv))


def refuses(shard, argv, names):
    status, text, ran, system, figures = command(argv, names, True)
    if ran or not status:
        raise Violation("%r names no example, but %r are run" % (argv, ran))
    shard.add("evaluations")
    shard.distinct(tuple(argv))


def listing(shard, argv, names, titles):
    status, text, ran, system, figures = command(argv, names, True)
    if status or ran or system:
        raise Violation("%r runs %r, status %r" % (argv, ran, status))
    lines = [l for l in text.splitlines() if re.match(r"\s*\d+\.", l)]
    want = [(i + 1, n, titles[n]) for i, n in enumerate(names)]
    if len(lines) != len(want) or any(not re.match(r"\s*%d\.\s+%s(\.py)?\s" % (i, re.escape(n)), l) or t not in l for l, (i, n, t) in zip(lines, want)):
        raise Violation("%r lists %r, the examples are %r" % (argv, lines, want))
    shard.add("evaluations")
    shard.distinct(tuple(argv))


def hierarchy(shard, argv, names):
    import gc
    import raytracing as rt
    status, text, ran, system, figures = command(argv, names, True)
    if status or ran or system:
        raise Violation("%r runs %r, status %r" % (argv, ran, status))
    got = re.findall(r'"(\w+)"\s*->\s*"(\w+)"', text)
    classes = [c for c in gc.get_objects() if isinstance(c, type) and (issubclass(c, rt.Rays) or issubclass(c, rt.Matrix)) and c.__module__.startswith("raytracing")]
    want = [(b.__name__, c.__name__) for c in classes for b in c.__bases__ if b in classes]
    if sorted(got) != sorted(want):
        raise Violation("%r draws %r, missing are %r" % (argv, sorted(set(got) - set(want)), sorted(set(want) - set(got))))
    if text.count("digraph") != text.count("}") or text.count("{") != text.count("}"):
        raise Violation("the graph is not closed")
    shard.add("evaluations")
    shard.distinct(tuple(argv))


def worker(shard):
    import glob
    import raytracing
    from raytracing import examples
    shard.caseLimit = 400.0 if not shard.thorough else 850.0
    here = os.path.join(os.path.dirname(raytracing.__file__), "examples")
    names = sorted(n for n in (os.path.basename(f)[:-3] for f in glob.glob(here + "/*.py")) if re.match(r"ex\d+$|fig", n))
    entries = {e["name"]: e for e in examples.short}
    texts = {n: open("%s/%s.py" % (here, n)).read() for n in names}
    titles = {n: eval(re.search(r"^TITLE\s*=\s*(.*)$", t, re.M).group(1)) for n, t in texts.items()}
    sources = {n: t[:t.rindex("if __name__")] for n, t in texts.items()}

    if [e["name"] for e in examples.short] != names:
        raise Violation("the examples are %r, the files %r" % ([e["name"] for e in examples.short], names))
    fast = [n for n in names if shard.thorough or n not in SLOW]
    if shard.thorough:
        fast = [n for n in names if n != "fig8-widefield"]
    alone = {}
    for n in fast:
        if n not in SLOW or shard.index == 0:
            alone[n] = isolated(once, entries[n])
    quick = [n for n in fast if n not in SLOW]
    if shard.index == 0:
        for n in fast:
            if not alone[n][0].strip() and not alone[n][1]:
                shard.violations.append(dict(message="%s shows nothing" % n, case=n))

    def plan():
        N = len(names)
        yield ("list",), listing, (["-l"], names, titles)
        yield ("list", "long"), listing, (["--list"], names, titles)
        for a in ("-c", "--classes"):
            yield ("classes", a), hierarchy, ([a], names)
        yield ("all",), runs, (names, [], names, sources)
        yield ("all", "-e"), runs, (names, ["-e", "all"], names, sources)
        yield ("none",), runs, ([], ["-e", ""], names, sources)
        for n in (1, 2) if not shard.thorough else (1, 2, 3):
            for numbers in itertools.product(range(1, N + 1), repeat=n):
                if n < 3 or sum(numbers) % 7 == 0:
                    option = ("-e", "--examples")[sum(numbers) % 2]
                    yield ("run",) + numbers, runs, ([names[i - 1] for i in numbers], [option, ",".join(str(i) for i in numbers)], names, sources)
        for bad in ("0", str(N + 1), "-1", "99", "1,0", "0,1", "%d,1" % (N + 1), "1,99", "x", "1,x", "1.5"):
            yield ("bad", bad), refuses, (["--examples=" + bad], names)
        index = [names.index(n) + 1 for n in quick]
        for n in index:
            yield ("show", n), shows, ([n], names, alone)
        for a, b in zip(index, index[7:] + index[:7]):
            yield ("show", a, b), shows, ([a, b], names, alone)
        for n in quick:
            half = len(quick)//2
            for part in (quick[:half], quick[half:]):
                yield ("after", n, part[0]), after, (entries, (n,), part, alone)
        if shard.thorough:
            for a, b in itertools.product(quick, repeat=2):
                yield ("after", a, b), after, (entries, (a, b), quick, alone)

    for case, f, args in shard.mine(plan()):
        if shard.full(): return
        shard.run(case, f, shard, *args)
        shard.sample(case)
    if shard.thorough and shard.index == 0:
        for n in SLOW[:1]:
            shard.run(("after", n), after, shard, entries, (n,), quick[:3], alone)


def run(check):
    check.sharded(worker)
    check.coverage = dict(evaluations=check.counters.get("evaluations", 0), distinct_nontrivial=len(check.hashes), exhaustive=True,
                          rule="every list of up to %d examples on the command line and every other request of an alphabet; every example after every %s of examples in "
                               "one process, %s excepted" % (3 if check.thorough else 2, "pair" if check.thorough else "one", ", ".join(SLOW)),
                          samples=check.samples)
    check.assumptions = ["random numbers start from the same seed each time an example runs",
                         "an example is judged by what it prints and by the lines, shapes and texts of its figures"]
