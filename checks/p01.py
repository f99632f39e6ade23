""" Index: total order, equality, hash, spin mapping, name parsing. """
from lib.harness import Scenario
from lib.oracle import SPACES, PRIORITY

ASSUMPTIONS = ['hash is modelled as a free injective function of the hashed structure']


def _key_lt(S, a, b):
    """ a < b by (space order, number), read through the public accessors """
    if S.concrete or not S.lazy:
        return (PRIORITY[a.space], a.number) < (PRIORITY[b.space], b.number)
    pa, pb = S.rank(a.space), S.rank(b.space)
    return S.any([pa < pb, S.all([S.eq(pa, pb), a.number < b.number])])


def order(S):
    """ one total order, consistent over the six comparison operators, for any two/three index names """
    a, b, c = S.index('a', SPACES), S.index('b', SPACES), S.index('c', SPACES)
    same = S.all([S.eq(a.space, b.space), S.eq(a.number, b.number)])
    lt, gt = a < b, a > b
    S.check(S.iff(a == b, same), 'equal iff same space and number')
    S.check(S.iff(a != b, S.not_(a == b)), '!= is the negation of ==')
    S.check(S.iff(lt, _key_lt(S, a, b)), '< follows (space order, number)')
    S.check(S.iff(gt, _key_lt(S, b, a)), '> follows (space order, number)')
    S.check(S.iff(a <= b, S.not_(gt)), '<= is not >')
    S.check(S.iff(a >= b, S.not_(lt)), '>= is not <')
    S.check(S.implies(S.all([a <= b, b <= c]), a <= c), 'transitive')


def hashing(S):
    """ equal indices (any digit strings) hash alike and behave as one dictionary key """
    R = S.R
    n1, n2 = S.name('x', SPACES, (1, 2, 3)), S.name('y', SPACES, (1, 2, 3))
    a, b = R.Index(n1), R.Index(n2)
    S.check(S.implies(a == b, S.same_hash(S.hash_of(a), S.hash_of(b))), 'equal indices have equal hashes')
    S.check(S.iff(a == b, len({a, b}) == 1), 'a set holds equal indices once')


def spin(S):
    """ alpha/beta mapping """
    a = S.index('a', SPACES)
    b, c = a.to_beta(), a.to_alpha()
    S.check(S.all([b.is_beta(), S.not_(c.is_beta())]), 'spin of mapped index')
    S.check(S.all([S.eq(b.number, a.number), S.eq(c.number, a.number)]), 'spin mapping keeps the number')
    S.check(b.to_alpha() == c, 'beta then alpha')
    S.check(c.to_beta() == b, 'alpha then beta')
    S.check(S.iff(a.is_beta(), a == b), 'beta index is fixed by to_beta')
    S.check(S.iff(S.not_(a.is_beta()), a == c), 'alpha index is fixed by to_alpha')
    S.check(S.eq(b.space.lower(), c.space), 'spin mapping keeps the orbital space')


ALPHA = 'gphvcaGPHVCAxZ0b1 _-.9'


def parse(S):
    """ a name is accepted iff it is one space label followed by decimal digits; accepted names read back """
    R = S.R
    n = S.pick('n', [0, 1, 2, 3])
    s = ''.join(S.pick(f'ch{k}', list(S.p['alpha'] if k == 0 else S.p['tail'])) for k in range(n))
    ok = n >= 2 and s[0] in SPACES and all(ch in '0123456789' for ch in s[1:])
    if n == 0:
        S.check(S.raises((ValueError, IndexError, TypeError), lambda: R.Index(s)), 'empty name accepted')
        return
    bad = S.raises((ValueError, TypeError), lambda: R.Index(s))
    S.check(bad == (not ok), f'acceptance of the name {s!r}')
    if ok:
        i = R.Index(s)
        S.check(i.space == s[0] and i.number == int(s[1:]) and str(i) == s, f'name {s!r} read back')


def scenarios(tier):
    t = tier == 'thorough'
    return [
        Scenario('order', order, '12 spaces, unbounded numbers, triples'),
        Scenario('hashing', hashing, '12 spaces, digit strings up to length 3 (leading zeros included)'),
        Scenario('spin', spin, '12 spaces, unbounded numbers'),
        Scenario('parse', parse, 'strings up to length 3 over a 22 (head) x 5..9 (tail) letter alphabet',
                 alpha=ALPHA, tail='0a9 -_1G.' if t else '09a -'),
    ]
