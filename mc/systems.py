"""Enumeration of systems: sequences of element specs, nestings, and helpers shared by the checks."""
import itertools
from . import ref


def words(alphabet, depth, least=1):
    """Every sequence of elements up to a depth, shortest first."""
    for n in range(least, depth + 1):
        yield from itertools.product(alphabet, repeat=n)


def media(word, start=None):
    """Can the members of word follow each other (spaces take the medium in front of them)?"""
    try:
        ref.children(word)
        return True
    except ref.Refused:
        return False


def nestings(word):
    """The flat group, every grouping of consecutive members into one sub-group, and groups of groups."""
    w = list(word)
    yield ("Group", w)
    n = len(w)
    for i in range(n):
        for j in range(i + 1, n + 1):
            yield ("Group", w[:i] + [("Group", w[i:j])] + w[j:])
            if i == 0 and 1 < j < n:
                yield ("Group", [("Group", w[:j]), ("Group", w[j:])])
            if j - i == 2:
                yield ("Group", w[:i] + [("Group", [w[i], ("Group", [w[i+1]])])] + w[j:])


CELLS = [
    [("Space", 10), ("Lens", 50)],
    [("Lens", 20, 12), ("Space", 10), ("Aperture", 8), ("Space", 10)],
    [("DI", 1, 1.5, None), ("Space", 6, 1.5), ("DI", 1.5, 1, None, 9), ("Space", 4), ("Lens", 40), ("Space", 6)],
    [("Space", 16), ("Lens", 16, 14), ("Space", 16)],
    [("Thick", 1.5, 32, -32, 4, 10), ("Space", 12)],
    [("Space", 10), ("Lens", 50), ("Space", 8), ("Slab", 1.5, 6), ("Space", 16), ("Lens", 16, 14), ("Space", 32), ("Lens", 16), ("Aperture", 6), ("Space", 16),
     ("Thick", 1.5, 32, -32, 4, 10), ("Space", 12), ("Space", 4)],
]


def long(least, most=24, more=(32, 48)):
    """Long systems: every length of every repeated cell (stable ones, so that rounding does not grow)."""
    for cell in CELLS:
        for n in list(range(least, most + 1)) + list(more):
            yield tuple(cell[i % len(cell)] for i in range(n))
