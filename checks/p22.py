""" Integer partitions and separations: complete, valid, without repetition. """
from lib.harness import Scenario


def partitions(S):
    n = S.pick('n', list(range(1, S.p['max'] + 1)))
    out = [list(p) for p in S.R.integer_partition_mod.integer_partition(n)]
    for p in out:
        S.check(sum(p) == n and all(x >= 1 for x in p) and all(a >= b for a, b in zip(p, p[1:])), f'{p} is no partition of {n}')
    S.check(len(set(map(tuple, out))) == len(out), f'a partition of {n} is repeated')
    m = S.pick('m', list(range(1, n + 1)))
    xs = [S.int(f'x{k}', 1, n) for k in range(m)]
    S.assume(S.all([S.eq(sum(xs), n)] + [a >= b for a, b in zip(xs, xs[1:])]))
    S.check(S.any([S.all([S.eq(a, b) for a, b in zip(xs, p)]) for p in out if len(p) == m]),
            f'every partition of {n} into {m} parts is generated')


def separation(S):
    n = S.pick('n', list(range(0, S.p['max'] + 1)))
    zero = S.flag('zero')
    out = S.R.integer_partition_mod.integer_separation(n, zero) if zero else \
        S.R.integer_partition_mod.integer_separation(n)
    lo = 0 if zero else 1
    for i, j in out:
        S.check(i + j == n and i >= lo and j >= lo, f'({i},{j}) does not separate {n}')
    S.check(len(set(out)) == len(out), 'a separation is repeated')
    i, j = S.int('i', lo, n + 1), S.int('j', lo, n + 1)
    S.assume(S.eq(i + j, n))
    S.check(S.any([S.all([S.eq(i, a), S.eq(j, b)]) for a, b in out]), f'every separation of {n} is generated')


def scenarios(tier):
    t = tier == 'thorough'
    return [Scenario('partitions', partitions, 'n up to %d, symbolic parts' % (12 if t else 9), max=12 if t else 9),
            Scenario('separation', separation, 'n up to %d, symbolic parts' % (40 if t else 16), max=40 if t else 16)]
