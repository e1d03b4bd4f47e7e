"""C03: editing a system is list editing, and a refused edit changes nothing."""
import itertools
from mc import ref, observe
from mc.core import Violation
from mc.ref import Refused

LEVEL = "model_checking"

FOCUS, CONJUGATE = ("Space", 4, 1, None, "ToFocus"), ("Space", 6, 1, None, "ToConjugate")
NEAR, NEARER = ("Space", 4, 1.5009765625), ("Space", 3, 1.5 + 2.0**-30)     # almost the index of the glass
NEAROUT = ("DI", 1.5009765625, 1, -30)
BAD = "not an element"
S, L = ("Space", 4), ("Lens", 50, 12)
IN, OUT = ("DI", 1, 1.5, 20), ("DI", 1.5, 1, -30, 9)
NEST = ("Group", [("Space", 3), ("Lens", -20)])
GLASSNEST = ("Group", [("DI", 1.5, 1.25, None), ("Space", 2), ("DI", 1.25, 1.5, 15)])

STARTS = [
    [], [("Space", 10), ("Lens", 30)], [("DI", 1, 1.5, 25), ("Space", 5), ("DI", 1.5, 1, -25, 10)],
    [("Space", 2), ("Group", [("Lens", 40), ("Space", 6)]), ("Thick", 1.5, 20, -40, 3, 20)],
    [("Mirror", 100), ("DI", 1, 1.5, None), ("Space", 7)],
]


def operations(rich):
    for x in (S, L, IN, OUT, NEST, GLASSNEST, BAD, None, FOCUS, NEAR, NEAROUT) + \
            ((("Thick", 1.6, None, -30, 4), ("Mirror", -80), CONJUGATE, NEARER, ("Group", [NEAR])) if rich else ()):
        yield ("append", x)
    yield ("append again", 0)
    if rich: yield ("append again", -1)
    for i in (-9, -1, 0, 1, 9) + ((-2, 2) if rich else ()):
        for x in (S, IN, [L, S]) + (([IN, OUT], [S, BAD], [IN, S, L], BAD, [NEST], [], [IN, NEAR, OUT], [IN, NEAROUT], FOCUS) if rich or i in (0, -1) else ()):
            yield ("insert", i, x)
    for i in (-9, -1, 0, 1, 9) + ((-2, 2) if rich else ()):
        for x in (S, OUT) + ((L, [S, IN], [IN, L], BAD, [], [IN, CONJUGATE], NEAR) if rich or i in (0, -1) else ()):
            yield ("set", i, x)
    for a, b in ((0, 1), (1, None), (None, None), (-1, None), (5, 9), (2, 1), (None, -1)):
        for x in ([S, L], []) + ((L, [IN], [S, BAD]) if rich else ()):
            yield ("slice", a, b, x)
    for i in (-1, 0, 1, 9) + ((-9, -2) if rich else ()):
        yield ("pop", i)
    yield ("flip",)


class Token:
    """One member of the model's list; the same object may be a member several times."""
    __slots__ = ("spec", "obj")

    def __init__(self, spec, obj=None):
        self.spec, self.obj = spec, obj


def indices(spec):
    t = ref.total(ref.flatten(spec))
    return t.n1, t.n2


def rebuilt(tokens):
    """What the list becomes once every gap has taken the medium in front of it: [(token, spec)], or Refused."""
    out, n = [], None
    specs = {}
    for t in tokens:
        if t.spec in (BAD, None):
            raise Refused()
        spec = specs.get(id(t), t.spec)
        n1, n2 = indices(spec)
        if n is not None and n1 != n:
            if not ref.isSpace(spec):
                raise Refused()
            inner = spec
            while inner[0] == "Flip":
                inner = inner[1]
            spec = ("Space", inner[1], float(n)) + tuple(inner[3:])
            n1 = n2 = n
            if id(t) in specs:
                t = Token(spec)     # it cannot be in two media at once: a copy of it takes the second place
        specs[id(t)] = spec
        out.append(t)
        n = n2
    for t in out:
        t.spec = specs[id(t)]
    return out


def makeTokens(x):
    items = x if isinstance(x, list) else [x]
    tokens = [Token(s) for s in items]
    for t in tokens:
        t.obj = t.spec if t.spec in (BAD, None) else ref.real(t.spec)
    return tokens


def apply(model, group, op):
    """Returns (accepted by the model, the model's new list, exception of the implementation or None)."""
    kind = op[0]
    real = None
    old = [(t, t.spec) for t in model]
    try:
        if kind == "append":
            new = makeTokens(op[1])
            real = lambda: group.append(new[0].obj)
            target = model + new
        elif kind == "append again":
            if not model:
                return True, model, None
            t = model[op[1]]
            obj = group.elements[op[1]]
            real = lambda: group.append(obj)
            target = model + [t]
        elif kind == "insert":
            new = makeTokens(op[2])
            arg = [t.obj for t in new] if isinstance(op[2], list) else new[0].obj
            real = lambda: group.insert(op[1], arg)
            target = list(model)
            target[op[1]:op[1]] = new
        elif kind == "set":
            new = makeTokens(op[2])
            arg = [t.obj for t in new] if isinstance(op[2], list) else new[0].obj
            real = lambda: group.__setitem__(op[1], arg)
            model[op[1]]
            i = range(len(model))[op[1]]
            target = model[:i] + new + model[i+1:]
        elif kind == "slice":
            new = makeTokens(op[3])
            arg = [t.obj for t in new] if isinstance(op[3], list) else new[0].obj
            real = lambda: group.__setitem__(slice(op[1], op[2]), arg)
            target = list(model)
            target[op[1]:op[2]] = new
        elif kind == "pop":
            real = lambda: group.pop(op[1])
            target = list(model)
            target.pop(op[1])
        elif kind == "flip":
            real = group.flipOrientation
            target = model[::-1]
            for t in {id(t): t for t in model}.values():
                t.spec = t.spec[1] if t.spec[0] == "Flip" else ("Flip", t.spec)
        after = rebuilt(target)
        accepted = True
    except (Refused, IndexError):
        for t, spec in old:
            t.spec = spec
        after, accepted = model, False
    try:
        result = real()
        error = None
    except Exception as e:
        error, result = e, None
    if kind == "pop" and accepted and error is None:
        if result is not model[op[1]].obj and model[op[1]].obj is not None:
            raise Violation("pop(%d) did not return the element that was there" % op[1])
    return accepted, after, error


def normal(spec):
    """Flip(Space) is Space, and so on, so that a fresh one can be built."""
    return spec


def check(model, group, cls, shard, deep):
    if len(group.elements) != len(model) or len(group) != len(model):
        raise Violation("the system has %d elements, should have %d" % (len(group.elements), len(model)))
    for i, (t, e) in enumerate(zip(model, group.elements)):
        if t.obj is None:
            t.obj = e
        if t.obj is not e:
            raise Violation("element %d of the system is not the one that was put there" % i)
    specs = [t.spec for t in model]
    flat = ref.flatten(("Group", specs))
    total = ref.total(flat)
    for name, got, want in (("A", group.A, total.A), ("B", group.B, total.B), ("C", group.C, total.C), ("D", group.D, total.D),
                            ("L", group.L, total.L), ("frontIndex", group.frontIndex, total.n1 if flat else None),
                            ("backIndex", group.backIndex, total.n2 if flat else None),
                            ("frontVertex", group.frontVertex, total.fv), ("backVertex", group.backVertex, total.bv)):
        if want is None and name in ("frontIndex", "backIndex"):
            want = 1
        if not ref.close(got, want):
            raise Violation("%s of the system is %r, should be %r" % (name, got, None if want is None else float(want)))
    fresh = cls([ref.real(s) for s in specs])
    skip = observe.SLOW if not deep else ()
    bad = observe.difference(observe.signature(group, skip), observe.signature(fresh, skip))
    if bad:
        raise Violation("unlike a fresh system: " + bad)
    for a, b in zip(group.elements, fresh.elements):
        bad = observe.difference(dict(e=observe.canon(a)), dict(e=observe.canon(b)))
        if bad:
            raise Violation("unlike the element of a fresh system: " + bad)
    shard.distinct(repr(specs))
    shard.add("traces")


def history(shard, cls, start, ops, deep):
    tokens = [Token(s) for s in start]
    for t in tokens:
        t.obj = ref.real(t.spec)
    group = cls([t.obj for t in tokens])
    model = rebuilt(tokens)
    for i, op in enumerate(ops):
        last = i == len(ops) - 1
        before = observe.signature(group, observe.SLOW) if last else None
        ids = [id(e) for e in group.elements]
        accepted, model, error = apply(model, group, op)
        if accepted and error is not None:
            raise Violation("%r was refused: %s: %s" % (op, type(error).__name__, error))
        if not accepted and error is None:
            raise Violation("%r was accepted" % (op,))
        if not accepted:
            shard.add("refused")
            if ids != [id(e) for e in group.elements]:
                raise Violation("%r was refused, but changed the elements" % (op,))
            if last:
                bad = observe.difference(observe.signature(group, observe.SLOW), before)
                if bad:
                    raise Violation("%r was refused, but changed the system: %s" % (op, bad))
        shard.add("transitions")
    check(model, group, cls, shard, deep)


def worker(shard):
    import raytracing as rt
    from raytracing.matrixgroup import MatrixGroup
    small, rich = list(operations(False)), list(operations(True))

    def plan():
        for start in STARTS:
            yield MatrixGroup, start, (), True
            for op in rich:
                for cls in (MatrixGroup, rt.ImagingPath, rt.LaserPath, rt.LaserCavity):
                    yield cls, start, (op,), True
            for ops in itertools.product(rich if shard.thorough else small, repeat=2):
                yield MatrixGroup, start, ops, False
        short = [op for i, op in enumerate(small) if op[0] in ("append", "flip", "append again", "pop") or
                 (op[0] in ("insert", "set") and op[1] in (-1, 0, 1)) or op[0] == "slice" and op[1] in (1, -1)]
        if not shard.thorough:
            short = [op for op in short if op in (("append", S), ("append", IN), ("append", OUT), ("append", NEAR), ("append", FOCUS), ("append again", 0), ("append", NEST), ("flip",),
                                                   ("pop", 0), ("pop", -1), ("insert", 0, S), ("insert", 1, IN), ("insert", -1, [L, S]),
                                                   ("set", -1, S), ("set", 0, OUT), ("slice", 1, None, []), ("slice", -1, None, [S, L]))]
        for start in STARTS:
            for ops in itertools.product(short, repeat=3):
                yield MatrixGroup, start, ops, False
        if shard.thorough:
            for start in STARTS[:3]:
                for ops in itertools.product(short[::2][:16], repeat=4):
                    yield rt.ImagingPath, start, ops, False

    for cls, start, ops, deep in shard.mine(plan()):
        if shard.full(): return
        shard.run(dict(cls=cls.__name__, start=start, ops=ops), history, shard, cls, start, ops, deep)
        shard.sample(dict(cls=cls.__name__, start=start, ops=ops))


def run(check):
    check.sharded(worker)
    check.coverage = dict(states=len(check.hashes), transitions=check.counters.get("transitions", 0),
                          traces_validated_against_impl=check.counters.get("traces", 0), histories=check.cases,
                          refused_edits=check.counters.get("refused", 0), exhaustive=True,
                          bound="every history of up to %s edits (append, insert, replace at a position or range, remove, turn around; valid and refused) "
                                "from %d starting systems" % ("2 edits of the full alphabet, 3 and 4" if check.thorough else "2 edits of the alphabet, 3 of the core of it", len(STARTS)),
                          samples=check.samples)
    check.assumptions = ["the oracle is a Python list of element descriptions, with exact rational optics"]
