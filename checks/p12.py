""" Contracted products and commutators against the Wick expansion evaluated in a finite orbital basis. """
from fractions import Fraction
from lib.harness import Scenario
from lib import oracle as O, repo
from checks import algebra as A
from checks.termgen import coefficient

ASSUMPTIONS = ['scale factor or one coefficient is a real number with 0.001 <= |c| <= 1000, the others are fixed dyadic numbers',
               'operators conserve the particle number and carry no repeated index',
               'amplitudes with only active indices are zero (the code removes them)']
FIX = [0.5, -3.0, 1.25]


def build(S, spec, start=0, gap=0):
    """ spec: list of (name, kind, upper label choices, lower label choices, coefficient) -> terms, exprs """
    R = S.R
    n = sum(len(u) + len(l) for _, _, u, l in spec)
    nums = [(k * 5 + 2) % (n + 1 if (n + 1) % 5 else n + 2) for k in range(n)]
    terms, exprs, k = [], [], 0
    for t, (name, kind, up, lo) in enumerate(spec):
        labs = []
        for j, opts in enumerate(up + lo):
            s = opts[0] if len(opts) == 1 else S.pick(f's{t}{j}', list(opts))
            labs.append((s, nums[k] + start + t * gap))
            k += 1
        u, l = labs[:len(up)], labs[len(up):]
        if kind == 'T':
            for side in (u, l):
                es = [set(O.elem(s)) for s, _ in side]
                es = [e for e in es if e != {'a'}]
                S.assume(not (any(e <= {'c', 'a'} for e in es) and any(e <= {'a', 'v'} for e in es)))
        exprs.append(A.expr(name, kind, u, l))
        nm = lambda side: [f'{s}{n_}' for s, n_ in side]
        ten = R.Tensor.make_tensor(kind, nm(u), nm(l), 'so', name)
        terms.append((ten, R.SQ(nm(l), nm(u))))
    return terms, exprs


def symbolic_coeffs(S, n):
    """ (scale, coefficients): exactly one of them symbolic """
    which = S.pick('sym', S.p.get('sym', list(range(n + 1))))
    vals = [coefficient(S, 'c') if k == which else FIX[k] if k < 3 else 2.0 for k in range(n + 1)]
    return vals[0], vals[1:]


def connected_accept(n, sets, blocks):
    return any(len(b[1]) == 1 for b in blocks) and O.connected(n, sets)


def bounds(S, exprs):
    n = sum(len(e.cre) + len(e.ann) for e in exprs)
    w = S.p.get('window', 'sym')
    if w == 'sym':
        return S.int('lo', 0, n, eager=(0, 2)), S.int('hi', 0, n, eager=(2, n))
    return S.pick('win', w)


def by_open(items):
    out = {}
    for c, e in items:
        out.setdefault(len(e.cre) + len(e.ann), []).append((c, e))
    return out


def compare(S, M, got, want, factor, lo, hi, msg):
    """ got: terms of the code; want: [(number, Expr)] without window; factor multiplies want """
    R = S.R
    bo = by_open(want)
    terms = {}
    for t in got:
        terms.setdefault(t.sq_op.n_ops, []).append(t)
    for n in sorted(set(bo) | set(terms)):
        inside = bool(S.all([lo <= n, n <= hi]))
        ref = [(factor, A.values(M, bo.get(n, ())))] if inside else []
        O.same_value(S, ref, O.terms_value(R, M, terms.get(n, ())), f'{msg}: {n} open indices')
    S.check(True, msg)


def unchanged(S, terms, snap):
    R = S.R
    for t, (c, k) in zip(terms, snap):
        S.check(S.eq(t.coeff, c), 'the coefficient of an input term is changed')
        S.check(t.hash_term() == k, 'an input term is changed')


def chooser(S):
    cnt = [0]

    def f(res):
        cnt[0] += 1
        if len(res) < 2:
            return res
        k = S.pick(f'sched{cnt[0]}', [0, 1, 2] if len(res) > 2 else [0, 1])
        return [res, res[::-1], res[1::2] + res[::2]][k]
    return f


def run_product(S):
    R = S.R
    raw, exprs = build(S, S.p['spec'])
    scale, cs = symbolic_coeffs(S, len(raw))
    terms = [R.Term([t], op, c) for (t, op), c in zip(raw, cs)]
    if S.p.get('perm'):
        p = S.perm('order', len(terms))
        terms, exprs = [terms[k] for k in p], [exprs[k] for k in p]
    snap = [(t.coeff, t.hash_term()) for t in terms]
    comm = S.pick('comm', S.p.get('comm', [False, True]))
    max_cu = S.pick('cu', S.p.get('cu', [1, 2]))
    herm = S.pick('herm', S.p.get('herm', [True]))
    expand = S.pick('expand', S.p.get('expand', [True]))
    lo, hi = bounds(S, exprs)
    np_ = S.pick('np', S.p.get('np', [1]))
    repo.StubPool.chooser = chooser(S) if np_ > 1 and not S.concrete else None
    got = R.phys.contract_terms(terms, max_cu, hi, lo, scale, comm, expand, np_, herm)
    unchanged(S, terms, snap)
    M = O.Model(S.p.get('sizes'), hermitian=herm)
    want = A.times(exprs, max_cu, 0, 99, connected_accept if comm else None)
    factor = scale
    for c in cs:
        factor = factor * c
    compare(S, M, got, want, factor, lo, hi, 'product')


def run_commutator(S):
    R = S.R
    raw, exprs = build(S, S.p['spec'])
    scale, cs = symbolic_coeffs(S, len(raw))
    terms = [R.Term([t], op, c) for (t, op), c in zip(raw, cs)]
    if S.p.get('swap') and S.flag('swap'):
        terms, exprs = terms[::-1], exprs[::-1]
    snap = [(t.coeff, t.hash_term()) for t in terms]
    comm = S.pick('comm', S.p.get('comm', [True]))
    max_cu = S.pick('cu', S.p.get('cu', [1, 2]))
    herm = S.pick('herm', S.p.get('herm', [True]))
    expand = S.pick('expand', S.p.get('expand', [True]))
    lo, hi = bounds(S, exprs)
    np_ = S.pick('np', S.p.get('np', [1]))
    repo.StubPool.chooser = chooser(S) if np_ > 1 and not S.concrete else None
    got = R.phys.single_commutator(terms[0], terms[1], max_cu, hi, lo, scale, comm, expand, np_, herm)
    unchanged(S, terms, snap)
    M = O.Model(S.p.get('sizes'), hermitian=herm)
    want = A.commutator([(1, exprs[0])], [(1, exprs[1])], max_cu, 0, 99)
    compare(S, M, got, want, scale * cs[0] * cs[1], lo, hi, 'commutator')
    keys = [t.hash_term() for t in got]
    S.check(len(set(keys)) == len(keys), 'like terms are left uncombined')


class Piece(list):
    """ a piece of the contractions that counts as a full batch """
    def __len__(self):
        return max(100000, list.__len__(self))


def run_batches(S):
    """ many contractions: handled in several batches, cut anywhere """
    R = S.R
    name, mods = 'compute_operator_contractions', [R.phys, R.sqc]
    saved = [(m, getattr(m, name)) for m in mods if hasattr(m, name)]
    real = getattr(R.sqc, name)
    cut, full = S.pick('cut', S.p['cut']), S.pick('full', ['none', 'first', 'last', 'all'])

    def pieces(*args, **kwargs):
        items = [x for batch in real(*args, **kwargs) for x in batch]
        parts = [items[k::cut] for k in range(cut)]
        for k, part in enumerate(parts):
            yield Piece(part) if full == 'all' or (full == 'first' and k == 0) or (full == 'last' and k == cut - 1) else part
    for m, _ in saved:
        setattr(m, name, pieces)
    try:
        (run_product if S.flag('product') else run_commutator)(S)
    finally:
        for m, f in saved:
            setattr(m, name, f)


def run_scalar(S):
    """ products with at most one operator, and commutators with a number """
    R = S.R
    c, s = coefficient(S, 'c'), S.pick('scale', [1.0, -0.5])
    h = R.Term([R.Tensor.make_tensor('H', 'v0', 'c0'), R.Tensor.make_tensor('T', 'c0', 'v0')], R.SQ('', ''), c)
    x = R.Term([R.Tensor.make_tensor('T', 'c5', 'v5')], R.SQ('v5', 'c5'), 2.0)
    one = R.Term([], R.SQ('', ''), 0.75)
    items = S.pick('which', [[h], [x], [h, x], [x, h], [h, h], [one], [one, x], [x, one], [h, one]])
    items = [R.Term(t.list_of_tensors, t.sq_op, t.coeff) for t in items]
    if items[0] is not None and len(items) == 2 and items[0].sq_op.n_ops == items[1].sq_op.n_ops:
        items[1] = one if items[1].n_tensors == 0 else R.Term([R.Tensor.make_tensor('H', 'v1', 'c1'), R.Tensor.make_tensor('T', 'c1', 'v1')], R.SQ('', ''), 4.0)
    got = R.phys.contract_terms(items, scale_factor=s, for_commutator=S.flag('comm'))
    M = O.Model({'c': 2, 'a': 1, 'v': 2})
    exprs = [O.expr_of_term(R, t) for t in items]
    f = s
    for t in items:
        f = f * t.coeff
    compare(S, M, got, A.times(exprs, 1, 0, 99), f, 0, 99, 'product with a number')
    if len(items) == 2 and not (items[0].sq_op.n_ops and items[1].sq_op.n_ops):
        got = R.phys.single_commutator(items[0], items[1], scale_factor=s)
        O.same_value(S, [], O.terms_value(R, M, got), 'commutator with a number')


def run_linear(S):
    """ linear_commutator of sums, linear_commutator_amp """
    R = S.R
    raw, exprs = build(S, S.p['spec'])
    nl = S.p['n_left']
    scale, cs = symbolic_coeffs(S, len(raw))
    terms = [R.Term([t], op, c) for (t, op), c in zip(raw, cs)]
    snap = [(t.coeff, t.hash_term()) for t in terms]
    lo, hi = bounds(S, [exprs[0], exprs[-1]])
    cu = S.pick('cu', S.p.get('cu', [1, 2]))
    herm = S.pick('herm', S.p.get('herm', [True]))
    comm = S.pick('comm', S.p.get('comm', [True]))
    np_ = S.pick('np', S.p.get('np', [1]))
    repo.StubPool.chooser = chooser(S) if np_ > 1 and not S.concrete else None
    M = O.Model(S.p.get('sizes'), hermitian=herm)
    got = R.phys.linear_commutator(terms[:nl], terms[nl:], scale, lo, hi, cu, np_, comm, hermitian_tensor=herm)
    unchanged(S, terms, snap)
    # reference per pair of terms, so that the symbolic factor stays outside
    items = []
    for i in range(nl):
        for j in range(nl, len(terms)):
            items.append((scale * cs[i] * cs[j], A.commutator([(1, exprs[i])], [(1, exprs[j])], cu, 0, 99)))
    opens = {}
    for t in got:
        opens.setdefault(t.sq_op.n_ops, []).append(t)
    ns = set(opens) | {len(e.cre) + len(e.ann) for _, it in items for _, e in it}
    for n in sorted(ns):
        inside = bool(S.all([lo <= n, n <= hi]))
        ref = [(f, A.values(M, [x for x in it if len(x[1].cre) + len(x[1].ann) == n])) for f, it in items] if inside else []
        O.same_value(S, ref, O.terms_value(R, M, opens.get(n, ())), f'commutator of sums: {n} open indices')
    keys = [t.hash_term() for t in got]
    S.check(len(set(keys)) == len(keys), 'like terms are left uncombined')


def run_amp(S):
    R = S.R
    raw, exprs = build(S, S.p['spec'])
    scale, cs = symbolic_coeffs(S, len(raw))
    terms = [R.Term([t], op, c) for (t, op), c in zip(raw, cs)]
    unitary, sr = S.flag('unitary'), S.flag('sr')
    start = S.pick('start', [8, 20])
    cu = S.pick('cu', S.p.get('cu', [1, 2]))
    lo, hi = bounds(S, [exprs[0], exprs[0]])
    levels = S.pick('levels', S.p.get('levels', [(1,)]))
    herm = S.pick('herm', S.p.get('herm', [True]))
    M = O.Model(S.p.get('sizes'), hermitian=herm)
    got = R.phys.linear_commutator_amp(terms, list(levels), scale, lo, hi, start, unitary=unitary, max_cu=cu, single_reference=sr, hermitian_tensor=herm)
    from checks.p13 import reference_T
    t1 = reference_T(levels, sr, unitary)
    items = [(scale * c, A.commutator([(1, e)], t1, cu, 0, 99)) for c, e in zip(cs, exprs)]
    opens = {}
    for t in got:
        opens.setdefault(t.sq_op.n_ops, []).append(t)
    ns = set(opens) | {len(e.cre) + len(e.ann) for _, it in items for _, e in it}
    for n in sorted(ns):
        inside = bool(S.all([lo <= n, n <= hi]))
        ref = [(f, A.values(M, [x for x in it if len(x[1].cre) + len(x[1].ann) == n])) for f, it in items] if inside else []
        O.same_value(S, ref, O.terms_value(R, M, opens.get(n, ())), f'commutator with amplitudes: {n} open indices')


def scenarios(tier):
    t = tier == 'thorough'
    G = 'gphvca'
    H1 = lambda u=G, l=G: ('H', 'H', [u], [l])
    T1 = lambda u='hca', l='pva': ('T', 'T', [u], [l])
    s211 = {'c': 1, 'a': 1, 'v': 1}
    out = [
        Scenario('scalar', run_scalar, 'at most one operator'),
        Scenario('product-1x1', run_product, 'two one-body operators', spec=[H1('gva' if not t else G, 'gha'), ('V', 'H', ['gp'], ['gcv'])], cu=[2], sym=[0], window=[(0, 99)]),
        Scenario('product-window', run_product, 'two one-body operators, any window', spec=[H1('g', 'g'), ('V', 'H', ['h'], ['p'])], expand=[True, False], herm=[True, False]),
        Scenario('product-2x1', run_product, 'two-body with one-body operator', spec=[('H', 'H', ['g', 'a'], ['h', 'p']), T1('h', 'p')], sym=[0, 1], window=[(0, 99), (2, 4)], cu=[1, 3],
                 herm=[True, False], perm=True),
        Scenario('product-3', run_product, 'three one-body operators in any order', spec=[H1('g', 'h'), T1('ha', 'p'), ('S', 'T', ['h'], ['pa'])], perm=True, cu=[1, 2], sym=[0, 3], window=[(0, 4)]),
        Scenario('product-4', run_product, 'four one-body operators of core and virtual orbitals', spec=[('H', 'H', ['v'], ['c']), ('V', 'H', ['c'], ['v']), ('W', 'H', ['v'], ['cv']), ('S', 'T', ['c'], ['v'])],
                 perm=True, comm=[False], cu=[1, 2], sym=[0], window=[(0, 99), (8, 8)], sizes={'c': 1, 'a': 0, 'v': 1} if not t else None),
        Scenario('commutator-1x1', run_commutator, 'two one-body operators, any spaces', spec=[H1(), T1('hc' if not t else 'hca', 'pv' if not t else 'pva')], cu=[1, 2], sym=[0],
                 window=[(0, 99)], swap=True),
        Scenario('commutator-window', run_commutator, 'two one-body operators, any window', spec=[H1('g', 'g'), T1('h', 'p')], cu=[1, 2], swap=True, comm=[True, False], expand=[True, False]),
        Scenario('commutator-2x1', run_commutator, 'two-body with one-body operator', spec=[('H', 'H', ['gp', 'g'], ['gh', 'g']), T1('hc', 'p')], cu=[1, 3], sym=[0, 2],
                 window=[(0, 99), (0, 2)], swap=True),
        Scenario('commutator-2x2', run_commutator, 'two-body with two-body operator', spec=[('H', 'H', ['g', 'g'] if t else ['p', 'p'], ['h', 'g'] if t else ['h', 'h']), ('T', 'T', ['h', 'h'], ['p', 'p'])],
                 cu=[2] if not t else [1, 2, 3], sym=[0], window=[(0, 4)] if not t else [(0, 4), (2, 99)], sizes=s211 if not t else None),
        Scenario('commutator-general', run_commutator, 'operators that are not amplitudes', spec=[('H', 'H', ['a', 'v'], ['c', 'a']), ('H', 'H', ['c', 'a'], ['a', 'v'])],
                 cu=[2, 4], sym=[0], window=[(0, 99)], herm=[True, False], swap=True),
        Scenario('schedules', run_commutator, 'several worker processes, any completion order', spec=[('H', 'H', ['g', 'a'], ['h', 'p']), T1('h', 'p')],
                 cu=[2], sym=[0], window=[(0, 99)], np=[2, 3], herm=[True, False], sizes=s211),
        Scenario('batches', run_batches, 'contractions handled in several batches', spec=[('H', 'H', ['g', 'a'], ['h', 'p']), T1('h', 'p')],
                 cut=[1, 2, 3], comm=[True], cu=[2], sym=[0], window=[(0, 99)], np=[1, 2] if t else [1], herm=[True, False] if t else [False], sizes=s211),
        Scenario('sums', run_linear, 'commutator of sums', spec=[H1('g', 'g'), ('V', 'H', ['h'], ['h']), T1('h', 'p'), T1('p', 'h')], n_left=2, sym=[0, 1, 4],
                 herm=[True, False], window=[(0, 99), (0, 2), (2, 2)]),
        Scenario('sums-all', run_linear, 'commutator of sums, worker processes, all contractions', spec=[H1('a', 'v'), ('V', 'H', ['h'], ['a']), T1('h', 'p')], n_left=2, sym=[2],
                 herm=[True, False], comm=[True, False], np=[1, 2], window=[(0, 99)]),
        Scenario('amplitudes', run_amp, 'commutator with built cluster operators', spec=[H1('gv', 'gc')], sym=[0, 1], window=[(0, 99), (0, 0), (2, 2)]),
        Scenario('amplitudes-h', run_amp, 'commutator with built cluster operators, tensors that are not Hermitian', spec=[H1('p', 'h')], sym=[0], window=[(0, 99)], herm=[False]),
        Scenario('amplitudes-2', run_amp, 'commutator with built double excitations', spec=[('H', 'H', ['v', 'g'], ['c', 'c'])] if t else [H1('v', 'g')], sym=[0], window=[(0, 99)],
                 levels=[(2,), (1, 2)], cu=[2], sizes=s211),
    ]
    return out
