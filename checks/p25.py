""" Copies and conjugates are independent of the original; read-only operations leave objects untouched. """
from lib.harness import Scenario
from lib import oracle as O
from checks.common import *
from checks import termgen as G

ASSUMPTIONS = ['simplify, canonicalize* and the coefficient setter may rewrite the term they are called on, nothing else',
               'a rewritten term is compared by value elsewhere (P08, P09)']


def iterate(S):
    """ any interleaving of iterators over one object """
    R, kind = S.R, S.p['kind']
    n = S.pick('n', S.p['ns'])
    xs = [R.Index(x) for x in ['v3', 'c1', 'v2']][:n] if n < 3 else idx_list(S, 'i', n, kind, labels=['a'], hi=2)
    I = make(S, kind, xs)
    its = [iter(I), None, None]
    pos = [0, None, None]
    for step in range(S.p['steps']):
        k = S.pick(f'k{step}', [0, 1, 2][:S.p['its']])
        if pos[k] is None or S.pick(f'r{step}', [0, 1]) == 1:
            its[k], pos[k] = iter(I), 0
            continue
        try:
            got = next(its[k])
        except StopIteration:
            S.check(pos[k] == n, 'an iteration ends early')
            its[k], pos[k] = None, None
            continue
        S.check(pos[k] < n, 'an iteration does not end')
        S.check(same(S, got, xs[pos[k]]), 'an iteration is disturbed by another one')
        pos[k] += 1
    S.check(len(I) == n and seq_same(S, I, xs), 'the list is changed by iterating')
    for k in range(n):
        S.check(same(S, I[k], xs[k]), 'access by position')
    S.check(len([(a, b) for a in I for b in I]) == n * n, 'nested iterations')


LIST_OPS = ['clone', 'canonicalize', 'text', 'hash', 'compare', 'add', 'overlap', 'spins', 'member', 'permutation', 'edit-copy', 'slice']


def list_history(S):
    R, kind = S.R, S.p['kind']
    n = S.p['n']
    xs = [R.Index(x) for x in ['c1', 'a0', 'v2']][:n]
    order = S.perm('o', n)
    xs = [xs[k] for k in order]
    I = make(S, kind, xs)
    other = make(S, kind, [R.Index('g7'), R.Index('c1')])
    snap = lambda o: [O.ix(i) for i in o]
    si, so = snap(I), snap(other)
    keep = []
    for step in range(S.p['steps']):
        op = S.pick(f'op{step}', LIST_OPS)
        if op == 'clone':
            c = I.clone()
            S.check(type(c) is type(I) and c is not I and snap(c) == si and c == I, 'a clone equals the original')
            keep.append(c)
        elif op == 'canonicalize':
            c, s = I.canonicalize()
            S.check(type(c) is type(I) and c is not I, 'the sorted list is a new list of the same kind')
        elif op == 'text':
            I.latex(), I.ambit(), repr(I), str(I), I.latex(True)
        elif op == 'hash':
            hash(I), {I: 1}
        elif op == 'compare':
            I == other, I < other, I >= other, I != other
        elif op == 'add':
            if S.concrete or True:
                try:
                    c = I + make(S, kind, [R.Index('g5')])
                    S.check(snap(c) == si + [('g', 5)] and type(c) is type(I), 'joined lists')
                except ValueError:
                    S.check(False, 'joining distinct indices is refused')
        elif op == 'overlap':
            S.check(I.any_overlap(other) == (('c', 1) in si), 'overlap of two lists')
        elif op == 'spins':
            if kind == 'so':
                S.check(len(list(I.generate_spin_cases())) == 2 ** n, 'spin cases')
        elif op == 'member':
            S.check(R.Index('c1') in I, 'membership')
            S.check(R.Index('g9') not in I, 'membership of a foreign index')
        elif op == 'permutation':
            r = make(S, kind, list(reversed(xs)))
            S.check(I.is_permutation(r) and not I.is_permutation(other), 'permutation test')
            I.count_permutations(r)
        elif op == 'slice':
            S.check([O.ix(i) for i in I[:2]] == si[:2], 'slices')
        else:
            c = make(S, kind, xs)
            xs2 = list(c)
            xs2.append(R.Index('g3'))
            xs2.reverse()
            S.check(snap(c) == si, 'editing a list made from the indices changes them')
        S.check(snap(I) == si and I.size == n and len(I.indices_set) == n, f'{op} changes the list')
        S.check(snap(other) == so, f'{op} changes another list')
        S.check(all(snap(c) == si for c in keep), f'{op} changes a clone')


def given_list(S):
    """ the list an object was built from may be changed afterwards """
    R = S.R
    kind = S.pick('kind', ['so', 'si', 'sa', 'asymm'])
    xs = [R.Index('c0'), R.Index('v1')] if S.flag('idx') else ['c0', 'v1']
    what = S.pick('what', ['list', 'pair', 'term'])
    edit = S.pick('edit', ['append', 'reverse', 'clear', 'replace'])
    ys = ['c1', 'v2']
    ts = [R.Tensor.make_tensor('H', 'g0', 'g1'), R.Tensor.make_tensor('t', 'g1', 'g2')]
    if what == 'list':
        o, given = make(S, kind, xs), xs
        snap = lambda: [O.ix(i) for i in o]
    elif what == 'pair':
        o, given = R.SQ(xs, ys, kind), xs
        snap = lambda: [O.ix(i) for i in o.indices()]
    else:
        o, given = R.Term(ts, R.SQ('g2', 'g0'), 0.5), ts
        snap = lambda: (repr(O.expr_of_term(R, o).tensors), [O.ix(i) for i in o.sq_op.indices()])
    before = snap()
    n = len(given)
    if edit == 'append':
        given.append(given[0])
    elif edit == 'reverse':
        given.reverse()
    elif edit == 'clear':
        given.clear()
    else:
        given[0] = given[1]
    S.check(snap() == before, 'an object changes with the list it was built from')


def conjugate(S):
    """ operators: conjugation exchanges creators and annihilators and undoes itself """
    R, kind = S.R, S.p['kind']
    nu, nl = S.p['n']
    up, lo = idx_list(S, 'u', nu, kind), idx_list(S, 'l', nl, kind)
    cls = S.p['cls']
    I, J = make(S, kind, up), make(S, kind, lo)
    o = getattr(R, cls)(I, J)
    hc = S.flag('hc')
    c = o.clone(hc)
    a, b = (lo, up) if hc else (up, lo)
    S.check(type(c) is type(o) and c is not o, 'a copy is a new object of the same class')
    S.check(S.all([seq_same(S, c.upper_indices, a), seq_same(S, c.lower_indices, b)]), 'conjugation exchanges the sides, a plain copy keeps them')
    d = c.clone(hc)
    S.check(S.all([seq_same(S, d.upper_indices, up), seq_same(S, d.lower_indices, lo)]), 'conjugating twice gives the original')
    S.check(S.all([seq_same(S, o.upper_indices, up), seq_same(S, o.lower_indices, lo)]), 'the original is changed')
    S.check(d == o, 'conjugating twice gives an equal object')
    S.check(c.indices_type is o.indices_type, 'the kind of indices is kept')


def tensor_copy(S):
    R = S.R
    k = S.pick('cls', ['H', 'T', 'L', 'C', 'K', 'X'])
    typ = S.pick('typ', ['so', 'si', 'sa'])
    name, prio = S.pick('name', ['W', 'T']), S.pick('prio', [0, 3])
    cls = getattr(R, {'H': 'HamiltonianTensor', 'T': 'ClusterAmplitude', 'L': 'Cumulant', 'C': 'HoleDensity', 'K': 'Kronecker', 'X': 'Tensor'}[k])
    n = 1 if k in 'CK' else S.pick('n', [1, 2])
    up, lo = S.perm('u', n), S.perm('l', n)
    up, lo = [f'a{i}' for i in up], [f'a{i + 5}' for i in lo]
    t = cls(up, lo, typ, name, prio)
    snap = lambda x: (type(x), x.name, x.priority, [str(i) for i in x.upper_indices], [str(i) for i in x.lower_indices], x.indices_type)
    want = (cls, name, prio, up, lo, getattr(R, CLS[typ]))
    S.check(snap(t) == want, 'content of the tensor')
    for step in range(2):
        op = S.pick(f'op{step}', ['clone', 'from', 'canon', 'text', 'spins', 'down', 'hash', 'overlap', 'expand', 'list'])
        if op == 'clone':
            c = t.clone()
            S.check(c is not t and snap(c) == want and c == t, 'a clone equals the tensor')
        elif op == 'from':
            c = t.from_indices([f'c{i}' for i in range(n)], [f'c{i + 3}' for i in range(n)], typ)
            S.check(snap(c)[:3] == want[:3] and c.indices_type is t.indices_type and [str(i) for i in c.indices()] == [f'c{i}' for i in range(n)] + [f'c{i + 3}' for i in range(n)],
                    'a tensor with other indices keeps class, name, priority')
        elif op == 'canon':
            c, s = t.canonicalize()
            S.check(snap(c)[:3] == want[:3] and c.indices_type is t.indices_type, 'sorting keeps class, name, priority and kind')
            S.check(typ != 'sa' or (snap(c) == want and s == 1), 'spin-adapted indices keep their order')
        elif op == 'text':
            t.latex(), t.ambit(), t.ambit(False), repr(t), t.latex(True)
        elif op == 'spins':
            if typ == 'so':
                for c in t.generate_spin_cases():
                    S.check(snap(c)[:3] == want[:3], 'a spin case keeps class, name, priority')
        elif op == 'down':
            if n == 1 and k in 'LCK':
                t.downgrade_indices()
        elif op == 'hash':
            hash(t), t == t.clone(), t < t.clone()
        elif op == 'overlap':
            S.check(t.any_overlapped_indices(cls(up, lo, typ)), 'overlap')
        elif op == 'expand':
            if k == 'C' and typ == 'so':
                t.expand()
        else:
            t.indices().append('x')
            t.indices(False).clear()
            s = t.indices_set
            s.clear()
            t.diagonal_indices().add('x')
        S.check(snap(t) == want, f'{op} changes the tensor')


SHAPES = {'so': [('H:01/23 T:2/0 L:4/3 a:4/1', 'pgcaa'), ('H:01/23 T:24/05 a:35/14', 'pvhhcv'), ('T:0/1 K:1/2 a:2/0', 'hpvv'), ('H:01/23 C:0/4 T:25/46 a:36/15'.replace('C:0/4', 'C:4/0') .replace('T:25/46', 'T:25/46') if False else 'H:0/1 T:1/2 a:2/0', 'ghp'),
                 ('H:01/23 T:23/01', 'vpch'), ('H:01/23 T:2/0 T:3/1', 'vvcc')],
          'si': [('H:01/23 T:23/01', 'vVcC'), ('T:01/23 a:23/01', 'cCvV'), ('H:0/1 T:1/2 a:2/0', 'gCV'.replace('g', 'G'))],
          'sa': [('H:01/23 T:23/01', 'vvcc'), ('T:01/23 a:23/01', 'ccvv')]}
READ = ['copy', 'latex', 'ambit', 'hash', 'compare', 'spins', 'adapt', 'excite', 'diag', 'ddca', 'grad', 'hess', 'paths', 'partition', 'simple-copy', 'contract', 'void', 'combine']
WRITE = ['simplify', 'canonicalize', 'canonicalize_simple', 'canonicalize_sympy', 'coeff', 'void_self']


def term_history(S):
    """ a term, a copy of it, and a sequence of operations on either """
    R, typ = S.R, S.p['typ']
    text, spaces = S.pick('shape', SHAPES[typ][:S.p.get('shapes')])
    sk = G.Skel(text)
    lab = {i: (s, k) for k, (i, s) in enumerate(zip(sk.ids, spaces))}
    c = G.coefficient(S)
    A = G.term(R, sk, lab, c, typ)
    flip, hc = S.flag('flip'), S.flag('hc')
    B = R.Term.from_term(A, flip, hc)

    def snap(t):
        ex = O.expr_of_term(R, t)
        return (repr(ex.tensors), ex.cre, ex.ann, sorted(O.ix(i) for i in t.indices_set), sorted((O.ix(i), n) for i, n in t.diagonal_indices.items()) if t.diagonal_indices else [],
                [type(x).__name__ for x in t.list_of_tensors], t.sq_op.indices_type.__name__, {str(k): v for k, v in t.next_index_number.items() if v})
    sa, sb = snap(A), snap(B)
    S.check(sorted(sa[5]) == sorted(sb[5]) and sa[0] == sb[0], 'a copy has the same tensors')
    S.check((sb[1], sb[2]) == ((sa[2], sa[1]) if hc else (sa[1], sa[2])), 'the operator of the copy is conjugated on request only')
    S.check(S.eq(B.coeff, -c if flip else c), 'the sign of the copy is flipped on request only')
    S.check(S.eq(A.coeff, c), 'the original keeps its coefficient')
    obj, snaps, cs = {'A': A, 'B': B}, {'A': sa, 'B': sb}, {'A': c, 'B': B.coeff}
    n_ops = S.p['steps']
    for step in range(n_ops):
        # the last operation may be any, earlier ones are those that could leave traces
        op = S.pick(f'op{step}', READ + WRITE if step < n_ops - 1 else WRITE + ['contract', 'combine', 'spins', 'excite', 'grad'])
        who = S.pick(f'who{step}', ['A', 'B'])
        t = obj[who]
        S.assume(t.n_tensors > 0)          # a void term has nothing left to work on
        if op == 'simple-copy':
            x = R.Term.from_term(t)
            x.simplify()
            x.coeff = 77.0
        elif op == 'copy':
            x = R.Term.from_term(t)
            S.check(snap(x) == snap(t), 'a copy equals the term')
            x.canonicalize_simple()
        elif op == 'latex':
            if S.concrete:
                t.latex(), repr(t), t.latex(True, False, True, True)
        elif op == 'ambit':
            if S.concrete:
                t.ambit(), t.ambit('O', True)
        elif op == 'hash':
            if S.concrete:
                hash(t)
            t.hash_term()
        elif op == 'compare':
            t == A, t < B, t >= A, t != B, t.almost_equal(B)
        elif op == 'spins':
            if typ == 'so':
                list(t.generate_spin_cases_naive())
        elif op == 'adapt':
            if typ == 'si':
                list(t.generate_singlet_adaptation())
        elif op == 'excite':
            if typ == 'so' and t.sq_op.n_ops:
                t.make_excitation(False)
        elif op == 'diag':
            if typ == 'so' and t.sq_op.n_ops == 2:
                list(t.make_one_body_diagonal(False))
        elif op == 'ddca':
            if typ == 'so' and t.sq_op.n_ops:
                list(t.expand_composite_indices(False))
        elif op == 'grad':
            if t.sq_op.is_empty():
                list(t.gradient_t())
        elif op == 'hess':
            try:
                t.diagonal_hessian_t()
            except (ValueError, NotImplementedError):
                pass                        # not defined for every term
        elif op == 'paths':
            list(t.contraction_paths()), t.optimal_contraction_cost()
        elif op == 'partition':
            t.perm_partition_open(), t.is_void(), t.is_possible_excitation(), t.comparison_tuple
        elif op == 'contract':
            if typ == 'so' and not any(isinstance(x, R.Kronecker) for x in t.list_of_tensors):   # no chains of deltas
                q = R.Term_mod.cluster_operator(1, 20, hole_label='c', particle_label='v')
                sq = snap(q)
                R.phys.contract_terms([t, q], 1, 8)
                S.check(snap(q) == sq and q.coeff == 1.0, 'contraction changes its second factor')
        elif op == 'void':
            t.void()
        elif op == 'combine':
            R.phys.combine_terms([A, B, A])
        elif op == 'coeff':
            t.coeff = 5.0
        else:
            getattr(t, op)()
        for w in 'AB':
            if w == who and op in WRITE:
                snaps[w], cs[w] = snap(obj[w]), obj[w].coeff
                continue
            S.check(snap(obj[w]) == snaps[w], f'{op} on {who} changes {w}')
            S.check(S.eq(obj[w].coeff, cs[w]), f'{op} on {who} changes the coefficient of {w}')
    for w in 'AB':
        S.check(len(obj[w].list_of_tensors) == obj[w].n_tensors, 'number of tensors')


CASES = [('H:c1,a0/v1,a0', 'v1/c1'), ('H:c1/v1', 'v1/c1'), ('H:v1,a0/v1,a0', 'v1/v1'), ('H:v1,c1/v1,c1', '/'), ('H:c1/v1 T:v1/c1', '/'), ('H:v1/v1', 'v1/v1'),
         ('H:c1,a0/v1,a0 H:a0/a0', 'v1/c1'), ('H:a0/a0', '/'), ('H:a0,a1/a0,a1', 'a0,a1/a0,a1'), ('H:a0,a1/a2,a1', 'a2/a0')]


def term_copy(S):
    """ copies of terms with any operator, also one with the same index on both sides """
    R, typ = S.R, S.p['typ']
    names = S.p['names']
    nu, nl = S.pick('n', S.p['n'])
    pick = lambda nm, n: [S.pick(f'{nm}{k}', names) for k in range(n)]
    up, lo = pick('u', nu), pick('l', nl)
    S.assume(len(set(up)) == nu and len(set(lo)) == nl)
    c = G.coefficient(S)
    op = R.SQ(up, lo, typ)
    A = R.Term([R.Tensor(lo, up, typ, 'X')], op, c)
    flip, hc = S.flag('flip'), S.flag('hc')
    B = R.Term.from_term(A, flip, hc)
    side = lambda x: [str(i) for i in x]
    S.check((side(A.sq_op.cre_ops), side(A.sq_op.ann_ops)) == (up, lo), 'the operator of the original is kept')
    S.check((side(B.sq_op.cre_ops), side(B.sq_op.ann_ops)) == ((lo, up) if hc else (up, lo)), 'the operator of the copy is conjugated on request only')
    S.check(S.all([S.eq(A.coeff, c), S.eq(B.coeff, -c if flip else c)]), 'coefficients')
    S.check([(side(t.upper_indices), side(t.lower_indices)) for t in B.list_of_tensors] == [(lo, up)], 'the tensors are kept')
    S.check({str(i) for i in B.indices_set} == set(up) | set(lo), 'indices of the copy')
    S.check({str(i) for i in B.diagonal_indices} == set(up) & set(lo), 'diagonal indices of the copy')
    d = B.sq_op.clone(hc)
    S.check((side(d.cre_ops), side(d.ann_ops)) == (up, lo), 'conjugation undoes itself')


def shared_parts(S):
    """ operators and tensors used in several terms, also with the same index on both sides """
    R = S.R
    c = G.coefficient(S)
    cases = [S.pick(f'case{k}', CASES) for k in range(S.p['n'])]
    parts, want = {}, {}

    def part(text, mk):
        if text not in parts:
            parts[text] = mk()
            u, _, l = text.partition(':')[2].partition('/')
            u, l = u.split(',') if u else [], l.split(',') if l else []
            want[text] = (u, l, sorted(set(u) & set(l)), sorted(set(u) | set(l)))
        return parts[text]
    snap = lambda p: ([str(i) for i in p.upper_indices], [str(i) for i in p.lower_indices], sorted(str(i) for i in p.diagonal_indices()), sorted(str(i) for i in p.indices_set))
    made = []
    tsnap = lambda t: (sorted((x.name, *snap(x)) for x in t.list_of_tensors), snap(t.sq_op), sorted(str(i) for i in t.indices_set), sorted((str(i), n) for i, n in t.diagonal_indices.items()))
    for step, (ts, op) in enumerate(cases):
        tens = [part(x, lambda: {'H': R.HamiltonianTensor, 'T': R.ClusterAmplitude}[x[0]](*x[2:].split('/'))) for x in ts.split()]
        o = part('a:' + op, lambda: R.SQ(*op.split('/')))
        t = R.Term(tens, o, c)
        how = S.pick(f'how{step}', ['plain', 'copy', 'conjugate', 'void', 'read'])
        if how == 'copy':
            made.append((R.Term.from_term(t), tsnap(t)))
        elif how == 'conjugate':
            R.Term.from_term(t, hc=True)
        elif how == 'void':
            R.Term.from_term(t).void_self()
        elif how == 'read':
            for p in parts.values():
                p.diagonal_indices(), p.indices(), hash(p), p.clone()
        labs = [i for x in ts.split() + ['a:' + op] for side in x[2:].split('/') for i in side.split(',') if i]
        dia = {i for x in ts.split() + ['a:' + op] for i in want[x][2]}
        S.check(tsnap(t)[2:] == (sorted(set(labs)), sorted((i, labs.count(i)) for i in dia)), f'indices of the term {ts} {op}')
        made.append((t, tsnap(t)))
        for x, p in parts.items():
            S.check(snap(p) == want[x], f'{x} after {cases[:step + 1]} ({how}): {snap(p)}')
        for t, s in made:
            S.check(tsnap(t) == s and bool(S.eq(t.coeff, c)), f'an earlier term after {cases[:step + 1]} ({how})')


def scenarios(tier):
    t = tier == 'thorough'
    out = [Scenario('iterate-' + k, iterate, f'{3 if t else 2} iterators over up to three indices, {6 if t else 5} steps in any order', kind=k, its=3 if t else 2,
                    ns=[0, 1, 2, 3], steps=6 if t else 5)
           for k in ('so', 'si', 'sa')]
    out += [Scenario(f'list-{k}', list_history, 'all sequences of list operations', kind=k, n=3 if k == 'so' else 2, steps=3 if t else 2) for k in ('so', 'si', 'sa', 'asymm')]
    out.append(Scenario('given', given_list, 'changes to the lists given to constructors'))
    for cls in ('SQ', 'IndicesPair'):
        for kind in ('so', 'si', 'sa'):
            for n in [(1, 1), (2, 1), (0, 2), (2, 2)] + ([(3, 2)] if t else []):
                out.append(Scenario(f'conjugate-{cls}-{kind}-{n[0]}{n[1]}', conjugate, 'any spaces and numbers', cls=cls, kind=kind, n=n))
    out.append(Scenario('shared-parts', shared_parts, f'{3 if t else 2} terms built from shared operators and tensors', n=3 if t else 2))
    out += [Scenario('copy-' + typ, term_copy, 'operators of up to three (four) labels with any repetitions between the sides', typ=typ,
                     names=['v0', 'c0', 'a10', 'a9'] if typ != 'si' else ['v0', 'V0', 'A10', 'c0'], n=[(0, 0), (0, 1), (1, 1), (2, 1), (2, 2)] + ([(1, 3), (3, 3)] if t else [])) for typ in ('so', 'si', 'sa')]
    out.append(Scenario('tensor', tensor_copy, 'all pairs of tensor operations'))
    for typ in ('so', 'si', 'sa'):
        out.append(Scenario(f'term-{typ}', term_history, 'all sequences of two operations on a term or its copy', typ=typ, steps=2))
        if t:
            out.append(Scenario(f'term3-{typ}', term_history, 'all sequences of three operations on a term or its copy', typ=typ, steps=3, shapes=1))
    return out
