""" helpers shared by the checks; everything goes through the public classes """
from lib.oracle import SPACES

LOW = ['g', 'p', 'h', 'v', 'c', 'a']
UP = ['G', 'P', 'H', 'V', 'C', 'A']
ALL = SPACES
CLS = {'so': 'IndicesSpinOrbital', 'si': 'IndicesSpinIntegrated', 'sa': 'IndicesSpinAdapted',
       'asymm': 'IndicesAntisymmetric'}
LABELS = {'so': LOW, 'si': ALL, 'sa': ALL, 'asymm': ALL}


def distinct(S, xs):
    for i in range(len(xs)):
        for j in range(i):
            S.assume(S.not_(xs[i] == xs[j]))


def make(S, kind, xs):
    return getattr(S.R, CLS[kind])(xs)


def idx_list(S, prefix, n, kind, distinct_=True, hi=None, labels=None, eager_hi=1):
    xs = S.indices(prefix, n, labels or LABELS[kind], 0, hi, eager_hi)
    if distinct_:
        distinct(S, xs)
    return xs


def lt(S, a, b):
    """ reference order of two indices """
    ra, rb = S.rank(a.space), S.rank(b.space)
    return S.any([ra < rb, S.all([S.eq(ra, rb), a.number < b.number])])


def same(S, a, b):
    return S.all([S.eq(a.space, b.space), S.eq(a.number, b.number)])


def seq_same(S, xs, ys):
    xs, ys = list(xs), list(ys)
    if len(xs) != len(ys):
        return False
    return S.all([same(S, a, b) for a, b in zip(xs, ys)])


def seq_lt(S, xs, ys):
    """ reference order of index lists: size, then lexicographic """
    xs, ys = list(xs), list(ys)
    if len(xs) != len(ys):
        return len(xs) < len(ys)
    out = False
    for a, b in reversed(list(zip(xs, ys))):
        out = S.any([lt(S, a, b), S.all([same(S, a, b), out])])
    return out


def sign_even(S, conds, sign):
    """ sign is +1 iff an even number of conds hold, and -1 otherwise """
    odd = False
    for c in conds:
        odd = S.not_(S.iff(odd, c)) if not S.concrete else (bool(odd) != bool(c))
    return S.any([S.all([S.not_(odd), S.eq(sign, 1)]), S.all([odd, S.eq(sign, -1)])])


def inversions(S, xs):
    xs = list(xs)
    return [lt(S, xs[j], xs[i]) for i in range(len(xs)) for j in range(i + 1, len(xs))]


def sorted_strict(S, xs):
    xs = list(xs)
    return S.all([lt(S, a, b) for a, b in zip(xs, xs[1:])])


def is_rearrangement(S, xs, ys):
    """ ys is a rearrangement of the distinct indices xs """
    xs, ys = list(xs), list(ys)
    if len(xs) != len(ys):
        return False
    return S.all([S.any([same(S, a, b) for b in ys]) for a in xs])
