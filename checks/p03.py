""" Coherent total order, equality and hash for index lists, pairs, tensors, operators and terms. """
from lib.harness import Scenario
from checks.common import *

ASSUMPTIONS = ['hash is modelled as a free injective function of the hashed structure',
               'floating-point coefficients are modelled as reals']


def laws(S, x, y, z, same_xy):
    e = x == y
    S.check(S.iff(e, same_xy), '== iff the same content')
    S.check(S.iff(x != y, S.not_(e)), '!= is the negation of ==')
    lt_, gt_ = x < y, x > y
    S.check(S.any([lt_, gt_, e]), 'any two objects are comparable')
    S.check(S.not_(S.all([lt_, gt_])), '< and > exclude each other')
    S.check(S.implies(e, S.not_(S.any([lt_, gt_]))), '== excludes < and >')
    S.check(S.iff(x <= y, S.not_(gt_)), '<= is not >')
    S.check(S.iff(x >= y, S.not_(lt_)), '>= is not <')
    S.check(S.iff(y < x, gt_), 'y < x iff x > y')
    if z is not None:
        S.check(S.implies(S.all([lt_, y < z]), x < z), '< is transitive')


def indices_order(S):
    kind = S.p['kind']
    objs, lists = [], []
    for nm, n in zip('xyz', S.p['sizes']):
        l = idx_list(S, nm, n, kind)
        lists.append(l)
        objs.append(make(S, kind, l))
    x, y = objs[0], objs[1]
    sm = seq_same(S, lists[0], lists[1])
    laws(S, x, y, objs[2] if len(objs) > 2 else None, sm)
    S.check(S.implies(sm, S.same_hash(S.hash_of(x), S.hash_of(y))), 'equal lists have equal hashes')
    if S.p['sizes'][0] != S.p['sizes'][1]:
        S.check(S.iff(x < y, len(lists[0]) < len(lists[1])), 'shorter list first')


def pair_order(S):
    kind, what = S.p['kind'], S.p['what']
    R = S.R
    objs, parts = [], []
    for nm, (nu, nl) in zip('xyz', S.p['sizes']):
        us, ls = idx_list(S, nm + 'u', nu, kind), idx_list(S, nm + 'l', nl, kind)
        if what == 'pair':
            o, tag = R.IndicesPair(make(S, kind, us), make(S, kind, ls)), ()
        elif what == 'op':
            o, tag = R.SQ(make(S, kind, us), make(S, kind, ls)), ()
        else:
            name = S.pick(nm + 'name', ['X', 'Y'])
            pr = S.int(nm + 'pr', -2, 2, eager=(0, 1))
            o = R.Tensor(make(S, kind, us), make(S, kind, ls), name=name, priority=pr)
            tag = (name, pr)
        objs.append(o)
        parts.append((us, ls, tag))
    sm = S.all([seq_same(S, parts[0][0], parts[1][0]), seq_same(S, parts[0][1], parts[1][1])]
               + [S.eq(a, b) for a, b in zip(parts[0][2], parts[1][2])])
    laws(S, objs[0], objs[1], objs[2] if len(objs) > 2 else None, sm)
    S.check(S.implies(sm, S.same_hash(S.hash_of(objs[0]), S.hash_of(objs[1]))), 'equal objects have equal hashes')


def tensor_classes(S):
    """ tensors of any class: equality is name, priority and indices, whatever the class """
    R = S.R
    objs, keys = [], []
    for nm in 'xy':
        k = S.pick(nm + 'cls', ['H', 'T', 'L', 'C', 'K', '-'])
        name, pr = S.pick(nm + 'name', ['X', 'H']), S.pick(nm + 'pr', [0, 1, 10])
        u, l = S.pick(nm + 'idx', [('a0', 'a1'), ('a1', 'a0'), ('a0', 'a10'), ('h0', 'a0')] if k in 'LC' else [('a0', 'a1'), ('a1', 'a0'), ('h0', 'p0')])
        cls = {'H': R.HamiltonianTensor, 'T': R.ClusterAmplitude, 'L': R.Cumulant, 'C': R.HoleDensity, 'K': R.Kronecker, '-': R.Tensor}[k]
        objs.append(cls(R.IndicesSpinOrbital(u), R.IndicesSpinOrbital(l), name=name, priority=pr))
        keys.append((name, pr, u, l))
    x, y = objs
    laws(S, x, y, None, keys[0] == keys[1])
    S.check(keys[0] != keys[1] or S.same_hash(S.hash_of(x), S.hash_of(y)), 'equal tensors have equal hashes')
    S.check(len({x, y}) == (1 if keys[0] == keys[1] else 2), 'a set holds equal tensors once')


def _term(S, nm):
    """ c H^{..}_{..} [T] [L] a^{..}_{..}: small family with shared labels """
    R = S.R
    kind = S.pick(nm + 'kind', ['H', 'HT', 'HL'])
    u, l = S.pick(nm + 'ops', [(['p0'], ['h0']), (['g0'], ['g1']), (['p1'], ['h0'])])
    c = S.real(nm + 'c', eager=(1.0, -1.0, 0.5, -0.5, 2.0))
    if kind == 'H':
        ts = [R.HamiltonianTensor(l, u)]
    elif kind == 'HT':
        ts = [R.HamiltonianTensor(l + ['h9'], u + ['p9']), R.ClusterAmplitude(['p9'], ['h9'], name=S.pick(nm + 'tn', ['T', 'S']))]
        ts = [R.HamiltonianTensor(l + ['p9'], u + ['h9']), R.ClusterAmplitude(['h9'], ['p9'], name=ts[1].name)]
    else:
        ts = [R.HamiltonianTensor(l + ['a9'], u + ['a8']), R.Cumulant(['a8'], ['a9'])]
    if len(ts) > 1 and S.flag(nm + 'rev'):
        ts = ts[::-1]
    return R.Term(ts, R.SQ(u, l), c), (kind, tuple(u), tuple(l), tuple(sorted(t.name for t in ts))), c


def term_order(S):
    a, ka, ca = _term(S, 'x')
    b, kb, cb = _term(S, 'y')
    if S.p['n'] == 3:
        c, kc, cc = _term(S, 'z')
    else:
        c = None
    weak = ka == kb
    S.check(a.almost_equal(b) == weak, 'almost_equal iff same tensors and operator')
    S.check(S.implies(S.all([weak, S.eq(ca, cb)]), a == b), 'same content and coefficient are equal')
    S.check(S.implies(a == b, weak), 'terms with different tensors or operator are unequal')
    S.check(S.iff(a != b, S.not_(a == b)), '!= is the negation of ==')
    lt_, gt_ = a < b, a > b
    S.check(S.not_(S.all([lt_, gt_])), '< and > exclude each other')
    S.check(S.any([lt_, gt_, S.all([weak, S.eq(ca, cb)])]), 'different terms are ordered')
    S.check(S.iff(a <= b, S.not_(gt_)), '<= is not >')
    S.check(S.iff(a >= b, S.not_(lt_)), '>= is not <')
    big = 0.001
    S.check(S.implies(S.all([weak, S.any([ca - cb > big, cb - ca > big]), abs(ca) < 100, abs(cb) < 100]),
                      S.not_(a == b)), 'clearly different coefficients are unequal')
    if c is not None:
        S.check(S.implies(S.all([lt_, b < c]), a < c), '< is transitive')


def term_hash(S):
    """ equal terms hash alike whatever order their tensors were given in """
    R = S.R
    a, ka, ca = _term(S, 'x')
    c = S.pick('cc', [1.0, -0.25, 1 / 3, 0.1])
    t = R.Term(a.list_of_tensors, a.sq_op, c)
    p = S.perm('p', len(a.list_of_tensors))
    u = R.Term([a.list_of_tensors[k] for k in p], a.sq_op.clone(), c)
    S.check(t == u, 'tensor order does not matter')
    S.check(hash(t) == hash(u) and t.hash_term() == u.hash_term(), 'equal terms have equal hashes')
    S.check(len({t, u}) == 1, 'a set holds equal terms once')


def spellings(S):
    """ different spellings of one number name the same index """
    R = S.R
    kind, what = S.pick('kind', ['so', 'si', 'sa', 'asymm']), S.p['what']
    us, ls = (S.pick(n, [[], ['v0'], ['a1', 'a0'], ['c1', 'v10', 'v9']]) for n in 'ul')
    respell = lambda nm, xs: [x[0] + S.pick(f'{nm}{k}', ['', '0', '00']) + x[1:] for k, x in enumerate(xs)]
    if what == 'list':
        vs, ms = respell('u', us), ls
    elif S.flag('upper'):
        vs, ms = respell('u', us), ls
    else:
        vs, ms = us, respell('l', ls)
    if kind == 'asymm' and what != 'list':
        kind = 'so'
    def obj(u, l):
        u, l = make(S, kind, [R.Index(i) for i in u]), make(S, kind, [R.Index(i) for i in l])
        return {'list': lambda: u, 'pair': lambda: R.IndicesPair(u, l), 'op': lambda: R.SQ(u, l), 'tensor': lambda: R.Tensor(u, l, name='X')}[what]()
    x, y = obj(us, ls), obj(vs, ms)
    laws(S, x, y, None, True)
    S.check(S.same_hash(S.hash_of(x), S.hash_of(y)), f'hash of {us} {ls} and {vs} {ms}')
    S.check(len({x, y}) == 1, 'a set holds equal objects once')


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    for kind in ('so', 'si', 'sa'):
        for sizes in [(1, 1, 1), (2, 2), (1, 2), (0, 1)] + ([(2, 2, 2), (3, 3)] if t else []):
            out.append(Scenario(f'list-{kind}-{"".join(map(str, sizes))}', indices_order,
                                f'{kind} lists of sizes {sizes}', kind=kind, sizes=sizes))
    for what in ('pair', 'op', 'tensor'):
        for kind in (('so', 'si') if what != 'tensor' or t else ('so',)):
            for sizes in [((1, 1), (1, 1)), ((1, 0), (0, 1))] + ([((1, 1),) * 3, ((2, 1), (2, 1)), ((2, 2), (2, 2))] if t and kind == 'so' else []) \
                    + ([((1, 1),) * 3] if kind == 'so' and what == 'op' and not t else []):
                out.append(Scenario(f'{what}-{kind}-{"-".join("%d%d" % s for s in sizes)}', pair_order,
                                    f'{what} with {kind} indices of sizes {sizes}', kind=kind, what=what, sizes=sizes))
    out.append(Scenario('tensor-classes', tensor_classes, 'pairs of tensors of any class, equal or different names', lazy=False))
    out += [Scenario(f'spellings-{w}', spellings, 'numbers written with leading zeros', lazy=False, what=w) for w in ('list', 'pair', 'op', 'tensor')]
    out.append(Scenario('term', term_order, 'pairs of terms from a 21-member family, any real coefficient', n=2))
    if t:
        out.append(Scenario('term3', term_order, 'triples of terms from a 21-member family, any real coefficient', n=3))
    out.append(Scenario('term-hash', term_hash, 'terms of the family, all tensor orders', n=2))
    return out
