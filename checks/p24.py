""" Malformed input is refused with an error, well-formed input is accepted. """
from lib.harness import Scenario
from lib import oracle as O
from checks.common import *

ASSUMPTIONS = ['refused: any Python exception; accepted: no exception and the given content is stored']


def refused(S, fn):
    """ (True, None) if fn raises an ordinary exception, else (False, result) """
    try:
        out = fn()
    except Exception:
        return True, None
    return False, out


def expect(S, fn, bad, msg):
    r, out = refused(S, fn)
    S.check(S.iff(r, bad) if not S.concrete else r == bool(bad), f'{msg}: {"refused" if r else "accepted"}')
    return out


def beta(S, i):
    return S.any([S.eq(i.space, s) for s in UP])


def lists(S):
    """ index lists: distinct indices, spin orbitals in lowercase """
    kind, n = S.p['kind'], S.pick('n', [0, 1, 2, 3])
    xs = idx_list(S, 'i', n, 'si', distinct_=False)
    bad = [same(S, xs[i], xs[j]) for i in range(n) for j in range(i)]
    if kind == 'so':
        bad += [beta(S, i) for i in xs]
    via = S.flag('via')
    mk = (lambda: S.R.Indices.make_indices(xs, kind)) if via else (lambda: make(S, kind, xs))
    out = expect(S, mk, S.any(bad), f'{kind} list')
    if out is not None:
        S.check(len(out) == n and out.size == n, 'number of indices')
        S.check(seq_same(S, out, xs), 'the indices are kept in order')
        S.check(isinstance(out, getattr(S.R, CLS[kind])), 'the requested kind')


BAD = [None, 3, 2.5, ['g0', 3], ['g0', None], ['x0'], ['g'], [''], ['g0', ''], 'g0,,g1', 'g0 g1', 'g0;g1', 'g-1', ['g1.0'], ['0g'], 'g0,', {'g0'}, ['gg0'], [['g0']]]
GOOD = [('g0,g1', 'g0 g1'), ('g0 , a12', 'g0 a12'), (['g0', 'g1'], 'g0 g1'), (('v1', 'v0'), 'v1 v0'), ('', ''), ([], ''), ((), ''), ('c3', 'c3')]


def spelled(S):
    R = S.R
    kind = S.pick('kind', ['so', 'si', 'sa', 'asymm', 'spin-orbital', 'spin-integrated', 'spin-adapted', 'antisymmetric', 'xx', 'SO', '', None])
    ok = kind in ('so', 'si', 'sa', 'asymm', 'spin-orbital', 'spin-integrated', 'spin-adapted', 'antisymmetric')
    if S.flag('good'):
        arg, want = S.pick('arg', GOOD)
        out = expect(S, lambda: R.Indices.make_indices(arg, kind), not ok, f'{arg!r} as {kind!r}')
        if out is not None:
            S.check([str(i) for i in out] == want.split(), f'{arg!r} read as {out}')
            S.check(type(out) is getattr(R, CLS[{'spin-orbital': 'so', 'spin-integrated': 'si', 'spin-adapted': 'sa', 'antisymmetric': 'asymm'}.get(kind, kind)]),
                    f'{kind} gives the wrong kind of list')
    else:
        arg = S.pick('arg', BAD)
        expect(S, lambda: R.Indices.make_indices(arg, kind), True, f'{arg!r} as {kind!r}')


def pairs(S):
    """ upper and lower indices are given in the same form """
    R = S.R
    form = {'str': lambda x: ','.join(x), 'list': list, 'tuple': tuple, 'so': R.IndicesSpinOrbital, 'si': R.IndicesSpinIntegrated,
            'sa': R.IndicesSpinAdapted, 'asymm': R.IndicesAntisymmetric}
    fu, fl = S.pick('fu', sorted(form)), S.pick('fl', sorted(form))
    nu, nl = S.pick('nu', [0, 1, 2]), S.pick('nl', [0, 1, 2])
    up, lo = ['c0', 'h1'][:nu], ['v0', 'c0'][:nl]
    cls = S.pick('cls', ['IndicesPair', 'SQ', 'Tensor'])
    typ = S.pick('typ', ['so', 'si', 'sa'])
    out = expect(S, lambda: getattr(R, cls)(form[fu](up), form[fl](lo), typ), fu != fl, f'{cls} of {fu} and {fl}')
    if out is not None:
        S.check([str(i) for i in out.upper_indices] == up and [str(i) for i in out.lower_indices] == lo, 'the indices are kept')
        S.check((out.n_upper, out.n_lower, out.size) == (nu, nl, nu + nl), 'sizes')
        want = getattr(R, CLS[fu if fu in CLS else typ])
        S.check(out.indices_type is want, 'kind of indices')
        body = expect(S, lambda: out.n_body, nu != nl, 'rank of an unbalanced pair')
        S.check(nu != nl or body == nu, 'rank')
        expect(S, out.is_spin_conserving, nu != nl, 'spin balance of an unbalanced pair')
        if cls == 'SQ':
            S.check(out.is_particle_conserving() == (nu == nl) and out.is_empty() == (nu + nl == 0), 'particle conservation')


CLASS = {'H': 'HamiltonianTensor', 'T': 'ClusterAmplitude', 'L': 'Cumulant', 'C': 'HoleDensity', 'K': 'Kronecker', 'X': 'Tensor'}
ALIAS = {'H': ['H', 'Hamiltonian', 'HamiltonianTensor'], 'T': ['t', 'T', 'cluster_amplitude'], 'L': ['L', 'lambda', 'cumulant'],
         'C': ['C', 'eta', 'hole_density'], 'K': ['K', 'delta', 'Kronecker']}


def tensors(S):
    """ every tensor class accepts exactly its ranks, spins and orbital spaces """
    R, k, (nu, nl) = S.R, S.p['cls'], S.p['n']
    typ = S.p['typ']
    ls = {'so': LOW, 'si': ALL}[typ] if not S.p.get('labels') else list(S.p['labels'])
    up = S.indices('u', nu, ls, 0, 1)
    lo = S.indices('l', nl, ls, 0, 1)
    distinct(S, up)
    distinct(S, lo)
    nb = [sum_if(S, [beta(S, i) for i in side]) for side in (up, lo)]
    bad = []
    if k != 'X':
        if nu != nl or (k in 'CK' and nu != 1):
            bad.append(True)
        bad.append(S.not_(S.eq(nb[0], nb[1])))
    if k == 'T':
        for side in (up, lo):
            hole = S.any([S.any([S.eq(i.space, s) for s in 'hcHC']) for i in side])
            part = S.any([S.any([S.eq(i.space, s) for s in 'pvPV']) for i in side])
            bad.append(S.all([hole, part]))
    via = S.flag('alias') if k != 'X' else False
    mk = getattr(R, CLASS[k])
    if via:
        al = S.pick('which', ALIAS[k])
        mk = lambda *a: R.Tensor.make_tensor(al, *a)
    out = expect(S, lambda: mk(up, lo, typ), S.any(bad), f'{CLASS[k]} with {nu}/{nl} indices')
    if out is not None:
        S.check(seq_same(S, out.upper_indices, up) and seq_same(S, out.lower_indices, lo), 'the indices are kept')
        S.check(type(out) is getattr(R, CLASS[k]), 'the requested tensor')
        if k != 'X':
            S.check(out.name == k, 'default name')


def sum_if(S, cs):
    if S.concrete:
        return sum(bool(c) for c in cs)
    z, x = S.z3, S.x
    return x.SymInt(z.Sum([z.IntVal(0)] + [z.If(x._b(c), 1, 0) for c in cs]))


def labelled(S):
    R = S.R
    k = S.pick('cls', sorted(CLASS))
    name = S.pick('name', ['T', 'W', 'S1', None, 3, ['T']])
    prio = S.pick('prio', [0, 1, -1, 7, 1.5, '1', None])
    out = expect(S, lambda: getattr(R, CLASS[k])('a0', 'a1', 'so', name, prio), not (isinstance(name, str) and isinstance(prio, int)),
                 f'name {name!r}, priority {prio!r}')
    if out is not None:
        S.check(out.name == name and out.priority == prio, 'name and priority are kept')
        t = out.from_indices('a1', 'a2')
        S.check(t.name == name and t.priority == prio and type(t) is type(out), 'a tensor with other indices keeps name, priority and class')
    expect(S, lambda: R.Tensor.make_tensor(S.pick('kind', ['h', 'Q', '', None, 'tensor']), 'a0', 'a1'), True, 'unknown tensor')


def connected(S):
    """ a term is accepted exactly if all indices occur in pairs """
    R = S.R
    shape = S.p['shape']
    names = S.p['names']
    seq = []
    ts = []
    for q, (nu, nl) in enumerate(shape):
        up = [S.pick(f'u{q}.{k}', names) for k in range(nu)]
        lo = [S.pick(f'l{q}.{k}', S.p.get('lnames', names)) for k in range(nl)]
        S.assume(len(set(up)) == nu and len(set(lo)) == nl)
        ts.append((up, lo))
    count, diag = {}, set()
    for up, lo in ts:
        for i in up + lo:
            count[i] = count.get(i, 0) + 1
        diag |= set(up) & set(lo)
    bad = any(n != 2 for i, n in count.items() if i not in diag) or any(count[i] % 2 for i in diag)
    c = S.real('c', eager=(1.0, -0.5))
    S.assume(S.all([c >= -1000, c <= 1000]))
    out = expect(S, lambda: R.Term([R.Tensor(u, l) for u, l in ts[1:]], R.SQ(*ts[0]), c), bad, f'term {ts}')
    if out is not None:
        S.check(S.eq(out.coeff, c), 'the coefficient is kept')
        S.check(sorted(str(i) for i in out.indices_set) == sorted(count), 'the indices of the term')
        S.check({str(i): n for i, n in out.diagonal_indices.items()} == {i: count[i] for i in diag}, 'the diagonal indices')
        nxt = out.next_index_number
        for s in 'gphvca':
            used = [int(i[1:]) for i in count if i[0] == s]
            S.check(nxt[s] == (max(used) + 1 if used else 0), 'the next free number of every space')


def parts(S):
    """ types of the parts of a term """
    R = S.R
    H = lambda typ='so': R.Tensor.make_tensor('H', 'g0', 'g1', typ)
    op = lambda typ='so': R.SQ('g1', 'g0', typ)
    what = S.pick('what', ['op', 'tensor', 'kind', 'coeff', 'setter', 'mixed'])
    if what == 'op':
        x = S.pick('x', ['op', 'tensor', 'pair', 'none', 'text', 'list'])
        arg = {'op': op(), 'tensor': R.Tensor('g1', 'g0'), 'pair': R.IndicesPair('g1', 'g0'), 'none': None, 'text': 'a', 'list': ['g1', 'g0']}[x]
        expect(S, lambda: R.Term([H()], arg), x != 'op', f'operator given as {x}')
    elif what == 'tensor':
        x = S.pick('x', ['tensor', 'pair', 'op', 'none', 'text'])
        arg = {'tensor': H(), 'pair': R.IndicesPair('g0', 'g1'), 'op': R.SQ('g0', 'g1'), 'none': None, 'text': 'H'}[x]
        expect(S, lambda: R.Term([arg], op()), x != 'tensor', f'tensor given as {x}')
    elif what == 'kind':
        a, b = S.pick('a', ['so', 'si', 'sa']), S.pick('b', ['so', 'si', 'sa'])
        expect(S, lambda: R.Term([H(a)], op(b)), a != b, f'{a} tensor with {b} operator')
        c = S.pick('c', ['so', 'si', 'sa'])
        fac = lambda: R.Term([R.Tensor.make_tensor('H', 'v0', 'c0', a), R.Tensor.make_tensor('T', 'c0', 'v0', c)], R.SQ.make_empty(b))
        expect(S, fac, not a == b == c, f'{a} and {c} tensors in a {b} scalar')
        expect(S, lambda: R.Term([R.Tensor.make_tensor('H', 'v0', 'v0', a)], R.SQ.make_empty(b)), a != b, f'{a} tensor in a {b} scalar')
    elif what == 'mixed':
        a, b = S.pick('a', ['so', 'si', 'sa']), S.pick('b', ['so', 'si', 'sa'])
        fac = lambda: R.Term([R.Tensor.make_tensor('H', 'g0', 'g1', a), R.Tensor.make_tensor('t', 'g1', 'g2', b)], R.SQ('g2', 'g0', 'so'))
        expect(S, fac, (a, b) != ('so', 'so'), f'{a} and {b} tensors')
    else:
        c = S.pick('c', [1, 0, -2, 0.5, '0.25', 'x', '', None, [1.0], True])
        bad = c in ('x', '', None) or isinstance(c, list)
        if what == 'coeff':
            out = expect(S, lambda: R.Term([H()], op(), c), bad, f'coefficient {c!r}')
        else:
            out = R.Term([H()], op(), 3.0)

            def put():
                out.coeff = c
            expect(S, put, bad, f'coefficient set to {c!r}')
            if bad:
                S.check(out.coeff == 3.0, 'a refused coefficient is not stored')
        if not bad:
            S.check(out.coeff == float(c) and isinstance(out.coeff, float), 'the coefficient is a float')


def partitions(S):
    """ partitions into groups of indices that belong to the list """
    from checks.p19 import set_partitions
    R, kind = S.R, S.p['kind']
    n = S.pick('n', S.p['n'])
    xs = idx_list(S, 'i', n, kind)
    a = make(S, kind, xs)
    part = [[xs[k] for k in g] for g in S.pick('p', set_partitions(list(range(n))))]
    y = S.index('y', LABELS[kind], eager_hi=1)
    where = S.pick('where', ['nowhere', 'alone'] + [(b, k, how) for b in range(len(part)) for k in range(len(part[b])) for how in ('replace', 'insert')])
    foreign = S.not_(S.any([same(S, y, x) for x in xs]))
    if where == 'nowhere':
        foreign = False
    else:
        S.assume(foreign)               # an index given twice is not a question of membership
        if where == 'alone':
            part = part + [[y]]
        else:
            b, k, how = where
            part[b] = part[b][:k] + [y] + part[b][k + (how == 'replace'):]
    what = S.pick('what', ['n_multiset_permutation', 'exist_permute_format', 'latex_permute_format', 'ambit_permute_format'])
    if what in ('latex_permute_format', 'ambit_permute_format'):
        call = lambda: list(getattr(a, what)(part))
        if where == 'nowhere' and not S.concrete:
            return                      # the text of symbolic labels is the subject of P19
    else:
        call = lambda: getattr(a, what)(part)
    expect(S, call, foreign if where != 'nowhere' else False, f'{what} with partition {part} of {xs}')


def compared(S):
    """ objects of different kinds are not comparable """
    R = S.R
    objs = {
        'index': R.Index('g0'), 'text': 'g0', 'number': 1,
        'so': R.IndicesSpinOrbital('g0,g1'), 'si': R.IndicesSpinIntegrated('g0,g1'), 'sa': R.IndicesSpinAdapted('g0,g1'),
        'pair': R.IndicesPair('g0', 'g1'), 'tensor': R.Tensor('g0', 'g1'), 'op': R.SQ('g0', 'g1'),
        'pair-si': R.IndicesPair('g0', 'g1', 'si'), 'tensor-si': R.Tensor('g0', 'g1', 'si'), 'op-si': R.SQ('g0', 'g1', 'si'),
        'term': R.Term([R.Tensor('g0', 'g1')], R.SQ('g1', 'g0')), 'list': [R.Index('g0')], 'none': None}
    fam = {'index': 'index', 'so': 'so', 'si': 'si', 'sa': 'sa', 'tensor': 'tensor', 'op': 'op', 'tensor-si': 'tensor-si', 'op-si': 'op-si', 'term': 'term'}
    left = S.pick('left', sorted(fam))
    right = S.pick('right', sorted(objs))
    how = S.pick('how', ['==', '!=', '<', '<=', '>', '>='])
    import operator
    f = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}[how]
    if left == 'term' and how in ('<', '<=', '>', '>=') and right not in ('term',):
        pass
    expect(S, lambda: f(objs[left], objs[right]), left != right, f'{left} {how} {right}')


def drivers(S):
    R = S.R
    H = R.Term_mod.hamiltonian_operator
    T = R.Term_mod.cluster_operator
    h, t = H(1), T(1, 4, hole_label='c', particle_label='v')
    si = R.Term([R.Tensor.make_tensor('H', 'g0', 'g1', 'si')], R.SQ('g1', 'g0', 'si'))
    what = S.pick('what', ['contract', 'recursive', 'bch', 'nested', 'ops', 'term', 'spin', 'excite'])
    P = R.phys
    if what == 'contract':
        x = S.pick('x', ['ok', 'empty', 'text', 'op', 'none', 'si'])
        arg = {'ok': [h, t], 'empty': [], 'text': [h, 'T'], 'op': [h, t.sq_op], 'none': [h, None], 'si': [si, si]}[x]
        expect(S, lambda: P.contract_terms(arg, 1, 0), x != 'ok', f'contraction of {x}')
    elif what == 'recursive':
        n = S.pick('n', [0, 1, 2, 3])
        terms = [h, t, T(1, 8, hole_label='c', particle_label='v')][:n]
        cu = S.pick('cu', [1, [1], [1, 1], [1, 1.5], ['1'], []])
        op = S.pick('op', [(0, 0), [(0, 2)], [(0, 2), (0, 0)], [(0, 1, 2)], [(0,)], [(0, 0.5)], [('0', 2)], []])
        bad = n < 2 or (not isinstance(cu, int) and (len(cu) != n - 1 or not all(isinstance(i, int) for i in cu)))
        bad = bad or (not isinstance(op, tuple) and (len(op) != n - 1 or any(len(o) != 2 or not all(isinstance(i, int) for i in o) for o in op)))
        out = expect(S, lambda: P.recursive_single_commutator(terms, cu, op), bad, f'{n} terms, levels {cu}, windows {op}')
        S.check(bad or sorted(out) == list(range(1, n)), 'levels are reported')
    elif what == 'bch':
        lev = S.pick('lev', [0, 1, 1.0, '1', None])
        cl = S.pick('cl', [[1], [1.0], ['1'], (1,)])
        cu = S.pick('cu', [1, [1], [1, 1], [1.5], []])
        op = S.pick('op', [(0, 0), [(0, 0)], [(0, 1, 2)], [(0, 0.5)], []])
        bad = not isinstance(lev, int) or not all(isinstance(i, int) for i in cl)
        bad = bad or (not isinstance(cu, int) and (len(cu) != lev or not all(isinstance(i, int) for i in cu)))
        bad = bad or (not isinstance(op, tuple) and (len(op) != lev or any(len(o) != 2 or not all(isinstance(i, int) for i in o) for o in op)))
        out = expect(S, lambda: P.bch_cc_rsc(lev, cl, cu, op, single_reference=True), bad, f'level {lev!r}, clusters {cl}, cumulants {cu}, windows {op}')
        S.check(bad or sorted(out) == list(range(0, lev + 1)), 'levels are reported')
    elif what == 'nested':
        lev = S.pick('lev', [1, 1.0, '1', None])
        cl = S.pick('cl', [[1], [1.0], ['1'], (1,), 1, None])
        bad = not isinstance(lev, int) or not isinstance(cl, (list, tuple)) or not all(isinstance(i, int) for i in cl)
        expect(S, lambda: P.nested_commutator_cc(lev, cl, 1, 0, single_reference=True), bad, f'level {lev!r}, clusters {cl!r}')
    elif what == 'ops':
        x = S.pick('x', ['ok', 'tensor', 'pair', 'si', 'sa', 'text'])
        a = R.SQ('v0', 'c0')
        b = {'ok': R.SQ('c1', 'v1'), 'tensor': R.Tensor('c1', 'v1'), 'pair': R.IndicesPair('c1', 'v1'), 'si': R.SQ('c1', 'v1', 'si'),
             'sa': R.SQ('c1', 'v1', 'sa'), 'text': 'c1'}[x]
        cu = S.pick('cu', [1, 2, 1.0, '2', None])
        first = S.flag('first')
        fn = S.pick('fn', ['compute_elementary_contractions_list', 'compute_elementary_contractions_categorized'])
        expect(S, lambda: getattr(R.sqc, fn)([b, a] if first else [a, b], cu), x != 'ok' or not isinstance(cu, int), f'{fn} of {x}, level {cu!r}')
    elif what == 'term':
        x = S.pick('x', ['C', 'O1', 3, None, ['C']])
        expect(S, lambda: t.ambit(x), not isinstance(x, str), f'target name {x!r}')
        d = R.Term([R.Tensor.make_tensor('H', 'a0', 'a0')], R.SQ('a0', 'a0'))
        expect(S, d.canonicalize, True, 'canonical form of a term with diagonal indices')
        n = S.pick('rank', [1, 2])
        expect(S, lambda: list(H(n).make_one_body_diagonal(False)), n != 1, f'diagonal part of a {n}-body operator')
    elif what == 'spin':
        typ = S.pick('typ', ['so', 'si', 'sa'])
        x = R.Term([R.Tensor.make_tensor('t', 'c0', 'v0', typ)], R.SQ('v0', 'c0', typ))
        expect(S, lambda: list(x.generate_spin_cases_naive()), typ != 'so', f'spin integration of {typ}')
        expect(S, lambda: list(x.sq_op.generate_spin_cases()), typ != 'so', f'spin cases of a {typ} operator')
        expect(S, lambda: list(x.list_of_tensors[0].generate_spin_cases()), typ != 'so', f'spin cases of a {typ} tensor')
        expect(S, lambda: list(x.generate_singlet_adaptation()), typ != 'si', f'spin adaptation of {typ}')
        nu, nl = S.pick('nu', [0, 1, 2]), S.pick('nl', [0, 1, 2])
        op = R.SQ(['c0', 'c1'][:nu], ['v0', 'v1'][:nl])
        expect(S, lambda: list(op.generate_spin_cases(True)), nu != nl, 'spin-conserving cases of an unbalanced operator')
        S.check(len(list(op.generate_spin_cases(False))) == 2 ** (nu + nl), 'all spin cases')
        nb = S.pick('nb', [0, 1, 2, 3, -1, 1.0, '1'])
        expect(S, lambda: list(R.IndicesSpinOrbital(['c0', 'c1'][:nu]).generate_spin_cases(nb)), not isinstance(nb, int) or nb > nu or nb < 0,
               f'{nb!r} beta indices of {nu}')
    else:
        part = S.pick('part', ['ok', 'text', 'foreign'])
        i = R.IndicesSpinOrbital('c0,c1')
        p = {'ok': [[R.Index('c0')], [R.Index('c1')]], 'text': [['c0'], ['c1']], 'foreign': [[R.Index('c0')], [R.Index('c2')]]}[part]
        for f in ('exist_permute_format', 'latex_permute_format', 'n_multiset_permutation'):
            expect(S, lambda: getattr(i, f)(p), part != 'ok', f'{f} with {part} partition')
        expect(S, lambda: list(i.ambit_permute_format(p)), part != 'ok', f'permutations with {part} partition')
        sp = S.pick('sp', [['c'], ['c', 'a'], ['x'], ['c', 'cc'], []])
        out = expect(S, lambda: i.count_index_space(sp), any(s not in O.SPACES for s in sp), f'count of {sp}')
        S.check(out is None or out == (2 if 'c' in sp else 0), 'count of indices in spaces')


def scenarios(tier):
    t = tier == 'thorough'
    out = [Scenario('list-' + k, lists, 'up to three indices, any spaces and numbers', kind=k) for k in ('so', 'si', 'sa', 'asymm')]
    out += [Scenario('spelled', spelled, 'spellings of index lists and of their kinds'),
            Scenario('pairs', pairs, 'all combinations of container forms, up to two indices per side'),
            Scenario('labelled', labelled, 'names and priorities of tensors'),
            Scenario('parts', parts, 'types of the parts of a term and of coefficients'),
            Scenario('compared', compared, 'all pairs of kinds of objects, all comparisons'),
            Scenario('drivers', drivers, 'arguments of the drivers')]
    out += [Scenario('partitions-' + k, partitions, 'all partitions of up to three (four) indices, a foreign index anywhere', kind=k, n=[1, 2, 3] if not t else [0, 1, 2, 3, 4]) for k in ('so', 'si', 'asymm')]
    for k in CLASS:
        for n in [(0, 0), (1, 1), (2, 1), (1, 2), (0, 1), (2, 2)]:
            if n == (0, 0) and k in 'CK' or not t and n == (0, 1):
                pass
            out.append(Scenario(f'tensor-{k}-{n[0]}{n[1]}-si', tensors, 'all labels of both spins', cls=k, n=n, typ='si',
                                labels=None if n != (2, 2) or t else 'gpvcaPVCA' if k == 'T' else 'gvcGV'))
    out.append(Scenario('tensor-T-33-so', tensors, 'all spin-orbital labels', cls='T', n=(3, 3), typ='so', labels='gpvca' if t else 'pca'))
    if t:
        out.append(Scenario('tensor-T-33-si', tensors, 'labels of both spins', cls='T', n=(3, 3), typ='si', labels='vcaVC'))
    nm = ['g0', 'g1', 'a0', 'a11']
    for name, shape, names in [('op+1', [(1, 1), (1, 1)], nm), ('op+2', [(0, 0), (1, 1), (1, 1)], nm), ('op+2+1', [(1, 1), (1, 1), (1, 1)], nm[:3]),
                               ('2-body', [(1, 1), (2, 2)], nm if t else nm[:3]), ('op2+1', [(2, 1), (2, 1)], nm if t else nm[:3]), ('empty', [(0, 0), (2, 2)], nm)]:
        out.append(Scenario('connected-' + name, connected, f'any assignment of {len(names)} indices to the slots', shape=shape, names=names))
    out.append(Scenario('connected-4', connected, 'four one-body objects, two or three indices to choose from per slot', shape=[(1, 1)] * 4, names=['g0', 'g1'], lnames=['g1', 'a0']))
    out.append(Scenario('connected-4-empty', connected, 'four one-body tensors, no operator', shape=[(0, 0)] + [(1, 1)] * 4, names=['g0', 'a1'], lnames=['a0', 'g0']))
    if t:
        out.append(Scenario('connected-2+2', connected, 'any assignment of four indices', shape=[(0, 0), (2, 2), (2, 2)], names=['g0', 'g1', 'a0', 'a11']))
        out.append(Scenario('connected-3', connected, 'any assignment of three indices', shape=[(1, 1), (1, 1), (1, 1), (1, 1)], names=['g0', 'g1', 'a0']))
    return out
