""" Nested commutators and BCH expansions against the reference algebra in a finite orbital basis. """
from fractions import Fraction
from math import factorial
from lib.harness import Scenario
from lib import oracle as O
from checks import algebra as A
from checks.p12 import build, symbolic_coeffs, unchanged

ASSUMPTIONS = ['amplitudes with only active indices are zero (the code removes them)',
               'single-reference: the active space is empty',
               'the operators handed to the recursive commutator carry index numbers beyond those of the intermediates (others are refused)',
               'nested commutators of four or more operators are covered for single-reference clusters only (see the known finding of P06)']


def n_open(e):
    return len(e.cre) + len(e.ann)


def compare(S, M, got, factor, items, lo, hi, msg):
    R = S.R
    opens, ref = {}, {}
    for t in got:
        opens.setdefault(t.sq_op.n_ops, []).append(t)
    for c, e in items:
        ref.setdefault(n_open(e), []).append((c, e))
    for n in sorted(set(opens) | set(ref)):
        inside = bool(S.all([lo <= n, n <= hi]))
        r = [(factor, A.values(M, ref.get(n, ())))] if inside else []
        O.same_value(S, r, O.terms_value(R, M, opens.get(n, ())), f'{msg}: {n} open indices')
    keys = [t.hash_term() for t in got]
    S.check(len(set(keys)) == len(keys), f'{msg}: like terms are left uncombined')


def merge(items):
    """ add up equal expressions (up to names of labels kept as is) """
    return items


def recursive(S):
    R = S.R
    raw, exprs = build(S, S.p['spec'], gap=12)
    scale, cs = symbolic_coeffs(S, len(raw))
    terms = [R.Term([t], op, c) for (t, op), c in zip(raw, cs)]
    snap = [(t.coeff, t.hash_term()) for t in terms]
    n = len(terms) - 1
    cus = [S.pick(f'cu{k}', S.p['cu']) for k in range(n)]
    wins = [S.pick(f'win{k}', S.p['win']) for k in range(n)]
    sym = S.pick('symwin', list(range(n)) if S.p.get('symwin') else [None])
    if sym is not None:
        wins[sym] = (S.int('lo', 0, 4, eager=(0, 2)), S.int('hi', 0, 4, eager=(2, 4)))
    comm = S.pick('comm', [True] if not S.p.get('comm') else [True, False])
    a_cu = cus[0] if len(set(cus)) == 1 and S.flag('scalar_cu') else cus
    a_win = wins[0] if sym is None and len(set(wins)) == 1 and S.flag('scalar_win') else wins
    got = R.phys.recursive_single_commutator(terms, a_cu, a_win, for_commutator=comm)
    unchanged(S, terms, snap)
    S.check(sorted(got.keys()) == list(range(1, n + 1)), 'one entry per level')
    M = O.Model(S.p.get('sizes'), hermitian=True)
    left = [(1, exprs[0])]
    factor = cs[0]
    for k in range(1, n + 1):
        factor = factor * cs[k]
        lo, hi = wins[k - 1]
        items = A.commutator(left, [(1, exprs[k])], cus[k - 1], 0, 99)
        compare(S, M, got[k], factor, items, lo, hi, f'nested commutator {k}')
        left = [(c, e) for c, e in items if bool(S.all([lo <= n_open(e), n_open(e) <= hi]))]


def bad_sizes(S):
    R = S.R
    t = [R.Term_mod.cluster_operator(1, start=k) for k in range(4)]
    n = S.pick('n', [1, 2, 3, 4])
    ncu = S.pick('ncu', [0, 1, 2, 3])
    nwin = S.pick('nwin', [0, 1, 2, 3])
    ok = n >= 2 and ncu == n - 1 and nwin == n - 1
    call = lambda: R.phys.recursive_single_commutator(t[:n], [1] * ncu, [(0, 0)] * nwin)
    S.check(S.raises(ValueError, call) != ok, 'wrong numbers of levels are refused')
    lev = S.pick('lev', [1, 2])
    ok = ncu == lev and nwin == lev
    if not ok:
        S.check(S.raises(ValueError, lambda: R.phys.bch_cc_rsc(lev, [1], [1] * ncu, [(0, 0)] * nwin, single_reference=True)),
                'wrong numbers of levels are refused')


def words(expr, a, b):
    """ polynomial in two non-commuting symbols -> {word: integer} """
    from sympy import Add, Mul, Pow
    out = {}
    expr = expr.doit().expand()
    for x in (expr.args if isinstance(expr, Add) else [expr]):
        c, w = 1, []
        for f in (x.args if isinstance(x, Mul) else [x]):
            base, n = f.args if isinstance(f, Pow) else (f, 1)
            if f.is_number:
                c = c * f
            else:
                w += ['a' if base == a else 'b' if base == b else str(base)] * int(n)
        w = ''.join(w)
        out[w] = out.get(w, 0) + int(c)
    return {w: c for w, c in out.items() if c}


def formal(S):
    """ nested commutator of two symbols: [[..[A, B], ..], B] = sum_k (-1)^k n!/(k! (n-k)!) B^k A B^(n-k) """
    from sympy.physics.quantum import Operator
    R = S.R
    n = S.pick('n', S.p['n'])
    a, b = Operator('A'), Operator('B')
    got = words(R.phys.sympy_nested_commutator_recursive(n, a, b), a, b)
    want = {'b' * k + 'a' + 'b' * (n - k): (-1) ** k * factorial(n) // (factorial(k) * factorial(n - k)) for k in range(n + 1)}
    S.check(got == want, f'formal nested commutator of level {n}: {got}')


def reference_H(ranks=(1, 2)):
    out = []
    for k in ranks:
        up, lo = [('g', i) for i in range(k, 2 * k)], [('g', i) for i in range(k)]
        out.append((Fraction(1, factorial(k) ** 2), A.expr('H', 'H', up, lo)))
    return out


def reference_T(levels, sr, unitary):
    h, p = ('c', 'v') if sr else ('h', 'p')
    out = []
    for k in levels:
        hs, ps = [(h, i) for i in range(k)], [(p, i) for i in range(k)]
        out.append((Fraction(1, factorial(k) ** 2), A.expr('T', 'T', hs, ps)))
        if unitary:
            out.append((Fraction(-1, factorial(k) ** 2), A.expr('T', 'T', hs, ps, hs, ps)))
    return out


def sizes(S, sr):
    return S.p.get('sizes_sr', {'c': 2, 'a': 0, 'v': 2}) if sr else S.p.get('sizes', {'c': 1, 'a': 1, 'v': 1})


def bch(S):
    R = S.R
    p = S.p
    sr, unitary, levels = S.pick('ref', p['ref'])
    n = S.pick('n', p['n'])
    cus = [S.pick(f'cu{k}', p['cu']) for k in range(n)]
    wins = [S.pick(f'win{k}', p['win']) for k in range(n)]
    herm = S.pick('herm', p.get('herm', [True]))
    sym = S.pick('symwin', list(range(n)) if p.get('symwin') else [None])
    if sym is not None:
        wins[sym] = (S.int('lo', 0, 4, eager=(0, 2)) if p['symwin'] != 'hi' else 0, S.int('hi', 0, 4, eager=(2, 4)))
    got = R.phys.bch_cc_rsc(n, levels, list(cus), list(wins), single_reference=sr, unitary=unitary, hermitian_tensor=herm)
    S.check(sorted(got.keys()) == list(range(n + 1)), 'one entry per level')
    M = O.Model(sizes(S, sr), hermitian=herm)
    amps = reference_T(levels, sr, unitary)
    left = reference_H()
    compare(S, M, got[0], 1, left, 0, 99, 'level 0 is the Hamiltonian')
    for k in range(1, n + 1):
        lo, hi = wins[k - 1]
        items = A.commutator(left, amps, cus[k - 1], 0, 99, Fraction(1, k))
        compare(S, M, got[k], 1, items, lo, hi, f'BCH level {k}')
        left = [(c, e) for c, e in items if bool(S.all([lo <= n_open(e), n_open(e) <= hi]))]


def steps(S):
    """ every level of the expansion is the commutator of the previous one with cluster operators of fresh indices """
    R, p = S.R, S.p
    sr, unitary, levels = S.pick('ref', p['ref'])
    win = S.pick('win', p['win'])
    n = S.pick('n', p['n'])
    got = R.phys.bch_cc_rsc(n, levels, 1, win, single_reference=sr, unitary=unitary)
    for k in range(1, n + 1):
        amps = R.phys.cluster_operators(levels, start=60, unitary=unitary, single_reference=sr)
        out = []
        for l in got[k - 1]:
            for a in amps:
                out += R.phys.single_commutator(l, a, 1, win[1], win[0], 1.0 / k)
        want = {t.hash_term(): t.coeff for t in R.phys.combine_terms(out)}
        have = {t.hash_term(): t.coeff for t in got[k]}
        S.check(len(have) == len(got[k]), f'level {k}: like terms are left uncombined')
        S.check(have.keys() == want.keys() and all(abs(have[x] - want[x]) < 1e-9 for x in have), f'level {k} is not the commutator of level {k - 1} with the cluster operators')


def nested(S):
    R = S.R
    p = S.p
    sr, unitary, levels = S.pick('ref', p['ref'])
    n = S.pick('n', p['n'])
    cu = S.pick('cu', p['cu'])
    comm = S.pick('comm', p.get('comm', [True]))
    expand = S.pick('expand', p.get('expand', [True]))
    herm = S.pick('herm', p.get('herm', [True]))
    if p.get('symwin') == 'hi':
        lo, hi = 0, S.int('hi', 0, 9, eager=(2, 9))
    elif p.get('symwin'):
        lo, hi = S.int('lo', 0, 4, eager=(0, 2)), S.int('hi', 0, 4, eager=(2, 4))
    else:
        lo, hi = S.pick('win', p['win'])
    got = R.phys.nested_commutator_cc(n, levels, cu, hi, lo, comm, expand, sr, unitary, 1, herm)
    M = O.Model(sizes(S, sr), hermitian=herm)
    amps = reference_T(levels, sr, unitary)
    items = reference_H()
    for k in range(1, n + 1):
        last = k == n and not p.get('symwin')
        items = A.commutator(items, amps, cu, lo if last else 0, hi if last else 99, Fraction(1, k))
    compare(S, M, got, 1, items, lo, hi, f'nested commutator {n}')


def scenarios(tier):
    t = tier == 'thorough'
    SR, MR = True, False
    H1 = ('H', 'H', ['g'], ['g'])
    T = lambda nm='T', h='h', p='p': (nm, 'T', [h], [p])
    out = [
        Scenario('sizes', bad_sizes, 'numbers of levels'),
        Scenario('formal', formal, 'nested commutators of two symbols up to level seven (ten)', n=list(range(1, 8 if not t else 11)), lazy=False),
        Scenario('recursive-2', recursive, 'two levels, one-body, any window in one level', spec=[H1, T(), T('S', 'h', 'pv')], cu=[1, 2], win=[(0, 99)], sym=[2], symwin=True),
        Scenario('recursive-flat', recursive, 'two levels, one-body, fixed windows', spec=[('H', 'H', ['h'], ['g']), T(), ('S', 'T', ['p'], ['h'])], cu=[1, 2], win=[(0, 4), (0, 2)], sym=[1], comm=True),
        Scenario('recursive-h2', recursive, 'two levels, two-body Hamiltonian', spec=[('H', 'H', ['p', 'p'], ['h', 'h']), T(), T('S')], cu=[1, 2], win=[(0, 2), (2, 99)], sym=[3],
                 sizes={'c': 1, 'a': 1, 'v': 1}),
        Scenario('bch-sr', bch, 'single-reference', ref=[(SR, False, [1]), (SR, True, [1]), (SR, False, [1, 2])], n=[1, 2], cu=[1], symwin='hi', win=[(0, 4), (2, 6)]),
        Scenario('bch-sr-u', bch, 'single-reference, unitary doubles', ref=[(SR, True, [2]), (SR, True, [1, 2])], n=[1], cu=[1], symwin='hi', win=[(0, 4)]),
        Scenario('nested-sr-u', nested, 'single-reference, unitary doubles', ref=[(SR, True, [2]), (SR, True, [1, 2])], n=[1], cu=[1], symwin='hi'),
        Scenario('bch-mr', bch, 'multireference singles', ref=[(MR, False, [1]), (MR, True, [1])], n=[1], cu=[2], symwin=True, win=[(0, 4)], herm=[True]),
        Scenario('nested-sr', nested, 'single-reference', ref=[(SR, False, [1]), (SR, True, [1]), (SR, False, [2])], n=[1, 2], cu=[1], symwin=True),
        Scenario('nested-sr-t3', nested, 'single-reference, unitary triples, two levels, energy', ref=[(SR, True, [3])], n=[2], cu=[1], win=[(0, 0)], sizes_sr={'c': 3, 'a': 0, 'v': 3}),
        Scenario('nested-sr-u3', nested, 'single-reference, unitary singles, three levels', ref=[(SR, True, [1])], n=[3], cu=[1], comm=[False], win=[(0, 0)] if not t else [(0, 0), (2, 2)]),
        Scenario('steps', steps, 'single-reference, singles and triples, two levels, step by step', ref=[(SR, False, [1, 3])] if not t else [(SR, False, [1, 3]), (SR, False, [3]), (SR, True, [1, 2])], n=[2],
                 win=[(8, 8)] if not t else [(8, 8), (6, 10)], lazy=False),
        Scenario('nested-mr', nested, 'multireference singles', ref=[(MR, False, [1]), (MR, True, [1])], n=[1, 2], cu=[1, 2], symwin='hi', comm=[True],
                 expand=[True]),
    ]
    if t:
        out += [
            Scenario('recursive-3', recursive, 'three levels', spec=[H1, T(), T('S'), T('X')], cu=[1, 2], win=[(0, 99), (2, 4)], sym=[0]),
            Scenario('bch-mr-2', bch, 'multireference, two levels', ref=[(MR, False, [1]), (MR, True, [1])], n=[2], cu=[1, 2], win=[(0, 4), (2, 2)]),
            Scenario('bch-mr-d', bch, 'multireference doubles', ref=[(MR, False, [2]), (MR, False, [1, 2])], n=[1], cu=[1, 2, 3], win=[(0, 4), (2, 6)]),
            Scenario('nested-sr-3', nested, 'single-reference, three and four levels', ref=[(SR, False, [1]), (SR, False, [1, 2])], n=[3, 4], cu=[1], win=[(0, 4)]),
            Scenario('nested-mr-all', nested, 'all contractions', ref=[(MR, False, [1]), (MR, True, [1])], n=[1, 2], cu=[1, 2], win=[(0, 4)], comm=[False, True]),
        ]
    return out
