""" The generated tensor statements compute the term. """
from fractions import Fraction
from math import factorial
from lib.harness import Scenario
from lib import oracle as O
from lib import ambit as A
from checks.termgen import *

ASSUMPTIONS = ['coefficients are real numbers with 0.001 <= |c| <= 1000; text of a coefficient is exact for denominators up to 10^6 '
               '(Fraction.limit_denominator of a symbolic real is the identity for limits of at least 10^6)',
               'the target C satisfies  1/(n_cre! n_ann!) sum C[ann, cre] {a^cre_ann} = term; spin-integrated targets store one order of the spins',
               'an amplitude is stored with its hole indices first; tensors are real and Hermitian',
               'values are compared as polynomials in the tensor elements over the listed finite orbital sets',
               'ambit(init_temp=False, declared_temp=False, ignore_permutations=False) does not print permutations (pinned by a test)']
KINDS = {'H': 'H', 'T': 'T', 'L': 'L', 'S': 'T', 'X': 'T', 'V': 'H', 'F': 'H'}


def target_name(name, nc, na):
    return f'{name}{na}' if nc == na else f'{name}_{na}_{nc}'


def run(S):
    R, typ = S.R, S.p.get('typ', 'so')
    sk = Skel(S.pick('shape', S.p['shapes']))
    lab = labels(S, sk, S.p['spaces'], perm=S.pick('perm', S.p.get('perm', ['shuf', 'rev', 'dense'])))
    valid(S, sk, lab, typ)
    c = coefficient(S) if not S.p.get('coeffs') else S.pick('c', S.p['coeffs'])
    t = term(R, sk, lab, c, typ)
    before = t.hash_term()
    name = S.pick('name', S.p.get('names', ['C', 'X9_'][:1]))
    opt = S.pick('opt', S.p.get('opt', ['default', 'declared', 'ignore', 'ignore-declared']))
    kw = {'default': {}, 'declared': dict(init_temp=False), 'ignore': dict(ignore_permutations=True),
          'ignore-declared': dict(ignore_permutations=True, init_temp=False),
          'ignore-target': dict(ignore_permutations=True, init_temp=False, declared_temp=False)}[opt]
    text = t.ambit(name=name, **kw) if name != 'C' or S.flag('byname') else t.ambit(**kw)
    nc, na = len(sk.op[0]), len(sk.op[1])
    target = target_name(name, nc, na)
    M = O.Model(S.p['sizes'], hermitian=True, t_active_zero=False, spin=typ == 'si', adapted=typ == 'sa')
    I = A.Interp(S, M, KINDS, [target] + ([] if kw.get('init_temp', True) else ['temp']))
    try:
        I.run(text)
    except A.BadProgram as e:
        S.check(False, f'program for {show(lab)} is malformed: {e}\n{text}')
        return
    if typ == 'sa':
        sort = lambda seq: (1, tuple(seq))
        weight = A.weight_so
    else:
        sort, weight = O.parity_sort, (A.weight_si if typ == 'si' else A.weight_so)
    val = M.value(ref(sk, lab))
    if not opt.startswith('ignore') or 'temp =' not in text and 'temp[' not in text:
        # every permutation is printed (or none is needed)
        arr = I.vars[target]
        if not opt.startswith('ignore'):
            O.same_value(S, [(c, val)], A.operator_value(arr, na, weight, sort), f'program for {show(lab)}')
            if typ != 'sa' and S.p.get('antisym', True):
                O.same_value(S, A.antisymmetry(arr, na), [], f'target of {show(lab)} is not antisymmetric')
    if opt.startswith('ignore'):
        # what is accumulated, times the number of permutations left out, gives the operator
        arr = I.vars[target] + I.vars.get('temp', [])
        S.check(not (I.vars[target] and I.vars.get('temp')), 'one statement')
        if typ == 'so':
            parts = nperm(sk, lab)
            O.same_value(S, [(c, val)], [(k * parts, v) for k, v in A.operator_value(arr, na, weight, sort)], f'unpermuted program for {show(lab)}')
    S.check(t.hash_term() == before and S.eq(t.coeff, c), 'the term is changed')


def naming(S):
    """ the stored tensor is named after its ranks and indexed by its indices in the stated order """
    R, typ = S.R, S.pick('typ', ['so', 'si', 'sa'])
    heads = []
    cls = S.pick('cls', ['X', 'H', 'T', 'L', 'C', 'K'])
    for j in 'xy':
        nu, nl = S.pick('n' + j, [(n, n) for n in range(1, 4)] + ([(0, 1), (1, 0), (1, 2), (2, 1), (3, 1), (1, 3), (2, 3)] if cls == 'X' else []))
        if cls in 'CK' and nu != 1:
            S.assume(False)
        hs, ps = 'c0 h10 a2'.split()[:nu], 'v0 p10 a3'.split()[:nl]
        if cls == 'L':
            hs, ps = 'a0 h10 a2'.split()[:nu], 'a3 p10 g0'.split()[:nl]
        elif cls == 'T' and S.flag('down' + j):
            hs, ps = ps, hs
        elif cls in 'CK':
            hs, ps = ['a0'], ['p10']
        t = R.Tensor(hs, ps, typ, 'Q') if cls == 'X' else R.Tensor.make_tensor(cls, hs, ps, typ)
        uf = S.flag('upper_first' + j)
        text = t.ambit(uf) if not uf or S.flag('explicit' + j) else t.ambit()
        head, rest = text.split('[', 1)
        if cls == 'T':
            uf = hs[0][0] in 'cha'          # holes first
        S.check(A.split_idx('[' + rest) == tuple(O.ix(R.Index(i)) for i in (hs + ps if uf else ps + hs)), f'indices of {text}')
        heads.append((head, (nu, nl)))
    S.check((heads[0][0] == heads[1][0]) == (heads[0][1] == heads[1][1]), f'names of tensors of different ranks: {heads}')


def nperm(sk, lab):
    """ number of permutations of open indices that are not antisymmetries of a single tensor """
    out = 1
    for side in sk.op:
        if len(side) < 2:
            continue
        groups = {}
        for i in side:
            k = next(k for k, (_, u, l) in enumerate(sk.tensors) if i in u + l)
            groups.setdefault((k, lab[i][0]), []).append(i)
        n = factorial(len(side))
        for g in groups.values():
            n //= factorial(len(g))
        out *= n
    return out


def scenarios(tier):
    t = tier == 'thorough'
    two = {'c': 2, 'a': 1, 'v': 2}
    coeffs = [1.0, -1.0, 0.5, -0.25, 1 / 3, -1 / 36, 1 / 144, 1 / 576, -1 / 14400, 5 / 12, 2.0, 1 / 518400, -7.0, 1 / 6]
    return [
        Scenario('naming', naming, 'all pairs of ranks up to three', lazy=False),
        Scenario('scalar', run, 'no operator', text=True, shapes=['H:01/23 T:23/01', 'H:01/23 T:2/0 T:3/1', 'H:0/1 T:1/0', 'H:01/23 T:32/01'],
                 spaces={'0': 'va', '1': 'vp', '2': 'ca', '3': 'ch'}, sizes=two, opt=['default', 'declared', 'ignore'], names=['C', 'X']),
        Scenario('one-body', run, 'one-body operators', text=True, shapes=['H:0/1 a:1/0', 'T:0/1 a:1/0', 'T:1/0 a:0/1', 'H:01/23 T:34/10 a:2/4', 'H:01/23 T:2/0 a:3/1', 'H:0/1 L:1/2 T:2/3 a:3/0'],
                 spaces={'0': 'gva', '1': 'gpv', '2': 'ca', '3': 'hc', '4': 'c'}, sizes=two, opt=['default', 'ignore-target']),
        Scenario('two-body', run, 'two-body operators', text=True, shapes=['H:01/23 a:23/01', 'H:01/23 a:32/01', 'T:0/2 T:1/3 a:23/01', 'T:0/2 T:1/3 a:32/01', 'H:04/23 T:1/4 a:23/01', 'H:04/25 T:51/43 a:32/10'],
                 spaces={'0': 'gca', '1': 'cga', '2': 'vp', '3': 'va', '4': 'p', '5': 'h'} if t else {'0': 'ga', '1': 'cg', '2': 'vp', '3': 'va', '4': 'v', '5': 'c'}, sizes=two if t else {'c': 1, 'a': 1, 'v': 1}),
        Scenario('two-body-same', run, 'two-body operators with several orbitals per space', text=True, shapes=['H:01/23 a:23/01', 'T:0/2 T:1/3 a:32/01', 'H:04/23 T:1/4 a:23/01', 'H:04/25 T:51/43 a:32/10', 'T:01/23 a:23/01', 'T:23/01 a:01/23'],
                 spaces={'0': 'c', '1': 'c', '2': 'v', '3': 'v', '4': 'v', '5': 'c'}, sizes={'c': 2, 'a': 0, 'v': 2}, names=['C', 'X']),
        Scenario('three-body', run, 'three-body operators', text=True, shapes=['T:012/345 a:345/012', 'T:01/34 T:2/5 a:345/012', 'T:0/3 T:1/4 T:2/5 a:543/012', 'H:06/34 T:12/65 a:345/120'],
                 spaces={'0': 'c', '1': 'c', '2': 'ca', '3': 'v', '4': 'v', '5': 'va', '6': 'v'}, sizes={'c': 2, 'a': 1, 'v': 2}, perm=['shuf'],
                 opt=['default', 'ignore'] if not t else ['default', 'declared', 'ignore', 'ignore-declared']),
        Scenario('spin-integrated', run, 'spin-integrated labels', text=True, shapes=['H:01/23 a:23/01', 'H:01/23 a:32/01', 'T:0/2 T:1/3 a:23/01', 'H:04/25 T:51/43 a:32/10', 'H:01/23 T:23/01'],
                 spaces={'0': 'cC', '1': 'cC', '2': 'vV', '3': 'vV', '4': 'vV', '5': 'cC'}, sizes={'c': 2, 'a': 0, 'v': 2}, typ='si', opt=['default', 'declared']),
        Scenario('spin-integrated-3', run, 'three-body, spin-integrated labels', text=True, shapes=['T:01/34 T:2/5 a:345/012', 'T:012/345 a:345/012'],
                 spaces={k: 'cC' if k < '3' else 'vV' for k in '012345'}, sizes={'c': 2, 'a': 0, 'v': 2}, typ='si', opt=['default']),
        Scenario('spin-adapted', run, 'spin-adapted labels', text=True, shapes=['H:01/23 a:23/01', 'H:01/23 a:32/01', 'T:0/2 T:1/3 a:23/01', 'H:01/23 T:23/01', 'H:01/23 T:32/01'],
                 spaces={'0': 'c', '1': 'ca', '2': 'v', '3': 'va'}, sizes={'c': 2, 'a': 1, 'v': 2}, typ='sa', opt=['default', 'declared']),
        Scenario('odd', run, 'operators that do not conserve particles', text=True, shapes=['H:01/23 T:2/0 a:31/', 'H:01/23 a:230/1', 'H:01/23 a:3/012', 'H:01/23 a:/0123', 'H:01/23 a:2301/', 'H:01/23 a:03/12'],
                 spaces={'0': 'c', '1': 'ca', '2': 'v', '3': 'v'}, sizes={'c': 1, 'a': 1, 'v': 2}, antisym=False, opt=['default', 'declared']),
        Scenario('coefficients', run, 'printed form of typical coefficients', text=True, shapes=['H:0/1 T:1/0', 'T:0/2 T:1/3 a:23/01', 'H:01/23 a:23/01'], coeffs=coeffs,
                 spaces={'0': 'v', '1': 'c', '2': 'v', '3': 'a'}, sizes={'c': 1, 'a': 1, 'v': 1}, perm=['shuf'], opt=['default']),
    ]
