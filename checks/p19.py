""" Printed formulas can be read back. """
import contextlib
import io
import re
from fractions import Fraction
from itertools import permutations
from lib.harness import Scenario
from lib import oracle as O
from checks.termgen import *

ASSUMPTIONS = ['coefficients are real numbers with 0.001 <= |c| <= 1000; text of a coefficient is exact for denominators up to 10^6',
               'P(i j / k) stands for the signed sum over all distinct distributions of the listed indices that keep the order inside a group',
               'values are compared as polynomials in the tensor elements over the listed finite orbital sets']

IDX = re.compile(r'^([A-Za-z])_\{(\d+)\}$')
OBJ = re.compile(r'^(?P<name>[A-Za-z]\w*?)\^\{(?P<up>(?:\s*[A-Za-z]_\{\d+\})*)\s*\}_\{(?P<lo>(?:\s*[A-Za-z]_\{\d+\})*)\s*\}')
PERM = re.compile(r'^\{\\cal P\}\s*\((?P<body>[^()]*)\)')


class Unreadable(Exception):
    pass


def idx_list(text):
    out = []
    for k in text.split():
        m = IDX.match(k)
        if not m:
            raise Unreadable(f'bad index {k!r}')
        out.append((m.group(1), int(m.group(2))))
    return tuple(out)


def number(S, text):
    m = re.match(r'^(-?)(\d+)(?:/(\d+))?$', text)
    if m:
        f = Fraction(int(m.group(2)), int(m.group(3) or 1))
        return -f if m.group(1) else f
    m = re.match('^\u27e6n(\\d+)\u27e7(?:/\u27e6d(\\d+)\u27e7)?$', text)
    if not m:
        raise Unreadable(f'bad coefficient {text!r}')
    from lib import symx
    e = symx.SymFraction.registry[f'\u27e6n{m.group(1)}\u27e7'][1]
    if m.group(2) is None:
        S.check(symx.SymBool(symx.z3.IsInt(e)), 'the denominator of the coefficient is printed')
    elif m.group(2) != m.group(1):
        raise Unreadable('inconsistent fraction')
    return symx.SymReal(e)


def read(S, text, dollar=False, delimiter=False, backslash=False):
    """ (coefficient, [partitions], [(name, up, lo)], (cre, ann)) """
    t = text.strip()
    if dollar:
        if not (t.startswith('$') and t.endswith('$')):
            raise Unreadable('no $')
        t = t[1:-1].strip()
    if '$' in t:
        raise Unreadable('stray $')
    if backslash:
        if not t.endswith('\\\\'):
            raise Unreadable('no line end')
        t = t[:-2].strip()
    head, _, t = t.partition(' ')
    c = number(S, head)
    t = t.strip()
    if delimiter:
        if not t.startswith('&'):
            raise Unreadable('no &')
        t = t[1:].strip()
    perms, tens, op = [], [], None
    while t:
        m = PERM.match(t)
        if m:
            if tens:
                raise Unreadable('permutation after a tensor')
            perms.append([idx_list(g) for g in m.group('body').split('/')])
            t = t[m.end():].strip()
            continue
        m = OBJ.match(t)
        if not m or op is not None:
            raise Unreadable(f'cannot read {t!r}')
        up, lo = idx_list(m.group('up')), idx_list(m.group('lo'))
        if m.group('name') == 'a':
            op = (up, lo)
        else:
            tens.append((m.group('name'), up, lo))
        t = t[m.end():].strip()
    return c, perms, tens, op or ((), ())


def distributions(side, part):
    """ signed distributions of the groups of part over the places of side """
    flat = [i for g in part for i in g]
    out = []
    for p in permutations(range(len(flat))):
        seq = [flat[k] for k in p]
        if any([seq.index(a) for a in g] != sorted(seq.index(a) for a in g) for g in part):
            continue
        out.append((O.parity([side.index(x) for x in seq]), tuple(seq)))
    return out


def make(S):
    R, typ = S.R, S.p.get('typ', 'so')
    sk = Skel(S.pick('shape', S.p['shapes']))
    lab = labels(S, sk, S.p['spaces'], perm=S.pick('perm', S.p.get('perm', ['shuf', 'rev', 'dense'])), shift=S.pick('shift', S.p.get('shift', [0, 8])))
    valid(S, sk, lab, typ)
    c = coefficient(S) if not S.p.get('coeffs') else S.pick('c', S.p['coeffs'])
    return R, typ, sk, lab, c, term(R, sk, lab, c, typ)


def content(sk, lab, t):
    """ tensors in the order of the term, from the skeleton """
    f = lambda ids: tuple(lab[i] for i in ids)
    return sorted((n, f(u), f(l)) for n, u, l in sk.tensors), (f(sk.op[0]), f(sk.op[1]))


def formula(S):
    R, typ, sk, lab, c, t = make(S)
    before = t.hash_term()
    kw = {k: S.flag(k) for k in S.p.get('flags', ['dollar', 'delimiter', 'backslash'])}
    pf = S.pick('permute', [True, False, None])
    text = t.latex(**kw) if pf is None else t.latex(permute_format=pf, **kw)
    try:
        k, perms, tens, op = read(S, text, kw.get('dollar'), kw.get('delimiter'), kw.get('backslash'))
    except Unreadable as e:
        S.check(False, f'{text!r}: {e}')
        return
    wt, wop = content(sk, lab, t)
    S.check(sorted(tens) == wt, f'tensors of {show(lab)}')
    S.check(op == wop, f'operator of {show(lab)}')
    if pf is False:
        S.check(not perms, 'no permutation asked for')
        S.check(S.zero(k - S.num(c)), f'coefficient of {show(lab)}')
    else:
        n, lists = 1, [[(1, op[0])], [(1, op[1])]]
        for p in perms:
            s = sorted(i for g in p for i in g)
            if s == sorted(op[0]) and (s != sorted(op[1]) or len(lists[0]) == 1):
                side = 0
            elif s == sorted(op[1]):
                side = 1
            else:
                S.check(False, f'permutation {p} of indices that are not open')
                return
            S.check(len(lists[side]) == 1, 'one permutation per side')
            lists[side] = distributions(list(op[side]), p)
            S.check(len(lists[side]) > 1, 'trivial permutations are not printed')
        M = O.Model(S.p['sizes'], hermitian=False, t_active_zero=False, spin=typ == 'si', adapted=typ == 'sa')
        ts = [O.Ten(KIND.get(nm, 'X'), nm, u, l) for nm, u, l in tens]
        got = [(k, M.value(O.Expr(ts, cr, an)), s1 * s2) for s1, cr in lists[0] for s2, an in lists[1]]
        O.same_value(S, [(c, M.value(ref(sk, lab)))], [(x * s, v) for x, v, s in got], f'formula of {show(lab)}')
        if typ == 'so':
            from checks.p18 import nperm
            S.check(len(got) == nperm(sk, lab), 'every permutation that is not a symmetry of one tensor is printed')
    S.check(t.hash_term() == before and S.eq(t.coeff, c), 'the term is changed')


def text_forms(S):
    """ str, hash_term and the tensors' own forms """
    R, typ, sk, lab, c, t = make(S)
    wt, wop = content(sk, lab, t)
    try:
        k, perms, tens, op = read(S, str(t))
        S.check(not perms and sorted(tens) == wt and op == wop and bool(S.zero(k - S.num(c))), f'str of {show(lab)}')
        _, _, tens, op = read(S, '1 ' + t.hash_term())
        S.check(sorted(tens) == wt and op == wop, f'coefficient-free form of {show(lab)}')
        for x in t.list_of_tensors:
            d = S.flag(f'd{x.name}{x.upper_indices[0].space}{x.upper_indices[0].number}') if typ == 'so' and x is t.list_of_tensors[0] else False
            one = x.latex(dollar=d).strip()
            if d:
                S.check(one.startswith('$') and one.endswith('$'), 'math mode')
                one = one.strip('$').strip()
            _, _, tens, _ = read(S, '1 ' + one)
            S.check(tens == [(x.name, tuple(map(O.ix, x.upper_indices)), tuple(map(O.ix, x.lower_indices)))], 'form of a tensor')
        for side in (t.sq_op.cre_ops, t.sq_op.ann_ops):
            if len(side):
                S.check(idx_list(side.latex().strip()[1:-1]) == tuple(map(O.ix, side)), 'form of an index list')
                S.check(side.ambit() == ','.join(f'{i.space}{i.number}' for i in side), 'form of an index list')
    except Unreadable as e:
        S.check(False, f'{show(lab)}: {e}')


def set_partitions(ids):
    if not ids:
        return [[]]
    out = []
    for p in set_partitions(ids[1:]):
        out.append([[ids[0]]] + p)
        out += [p[:k] + [[ids[0]] + p[k]] + p[k + 1:] for k in range(len(p))]
    return out


def operators(S):
    """ the permutation form of an operator for any two partitions of its indices """
    R = S.R
    nums = [S.pick(f'o{k}', S.p['nums']) for k in range(2)]
    sides, parts = [], []
    for k, side in enumerate(('cre', 'ann')):
        n = S.pick(f'n{k}', S.p['n'])
        sp = [S.pick(f'{side}{j}', S.p['spaces']) for j in range(n)]
        S.assume(n > 0)
        sides.append([(s, nums[k] + j) for j, s in enumerate(sp)])
        parts.append(S.pick(f'p{k}', set_partitions(list(range(n)))))
    op = R.SQ(*[[f'{s}{i}' for s, i in side] for side in sides])
    groups = [[[side[j] for j in g] for g in p] for side, p in zip(sides, parts)]
    args = [[[R.Index(f'{s}{i}') for s, i in g] for g in p] for p in groups]
    n, text, body = op.latex_permute_format(*args)
    want, count = [], 1
    for side, p in zip(sides, groups):
        m = len(distributions(side, p))
        count *= m
        if len(p) > 1:
            want.append(sorted(map(tuple, p)))
    try:
        _, perms, tens, got = read(S, f'1 {text} {body}')
    except Unreadable as e:
        S.check(False, f'{text!r} {body!r}: {e}')
        return
    S.check(not tens and got == tuple(map(tuple, sides)), f'operator of {sides}')
    S.check(n == count, f'number of permutations of {groups}: {n}')
    S.check([sorted(p) for p in perms] == want, f'permutations of {groups}: {text!r}')


def listing(S):
    """ print_terms_latex shows every term once """
    R = S.R
    n = S.pick('n', S.p['n'])
    ts, want = [], []
    for k in range(n):
        sk = Skel(S.pick(f'shape{k}', S.p['shapes']))
        lab = labels(S, sk, S.p['spaces'], perm='shuf', prefix=f's{k}')
        valid(S, sk, lab)
        c = [0.25, -1.0, 1 / 3][k]
        t = term(R, sk, lab, c)
        ts.append(t)
        want.append((content(sk, lab, t), Fraction(c).limit_denominator(10 ** 6)))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        R.phys.print_terms_latex(ts)
    got, inside, blocks = [], False, []
    try:
        for line in out.getvalue().split('\n'):
            l = line.strip()
            if l == '\\begin{align}':
                S.check(not inside, 'environments are not nested')
                inside, cur = True, []
            elif l == '\\end{align}':
                S.check(inside and cur, 'environments are not empty')
                S.check(len({x[1] for x in cur}) == 1, 'one block per environment')
                blocks.append(cur[0][1])
                inside = False
            elif l:
                S.check(inside, 'every formula is inside an environment')
                k, perms, tens, op = read(S, l, delimiter=True, backslash=l.endswith('\\\\'))
                m = 1
                for p in perms:
                    m *= len(distributions([i for g in p for i in g], p))
                got.append(((sorted(tens), op), k * m))
                cur.append((l, tuple(s for s, _ in op[1] + op[0])))
    except Unreadable as e:
        S.check(False, f'{e}\n{out.getvalue()}')
        return
    S.check(not inside, 'environments are closed')
    S.check(len(blocks) == len(set(blocks)), 'one environment per block')
    S.check(sorted(map(repr, got)) == sorted(map(repr, want)), f'every term is printed once:\n{out.getvalue()}')


def scenarios(tier):
    t = tier == 'thorough'
    two = {'c': 2, 'a': 1, 'v': 2}
    coeffs = [1.0, -1.0, 0.5, -0.25, 1 / 3, -1 / 36, 1 / 144, 1 / 576, -1 / 14400, 5 / 12, 2.0, 1 / 518400, -7.0, 1 / 6]
    return [
        Scenario('scalar', formula, 'no operator', text=True, shapes=['H:01/23 T:23/01', 'H:01/23 T:2/0 T:3/1', 'H:0/1 T:1/0', 'H:01/23 L:24/35 T:35/24'.replace('H:01/23 L:24/35 T:35/24', 'H:01/23 L:23/45 T:45/01')],
                 spaces={'0': 'va', '1': 'vp', '2': 'ca', '3': 'ch', '4': 'h', '5': 'a'}, sizes=two, perm=['shuf']),
        Scenario('one-body', formula, 'one-body operators', text=True, shapes=['H:0/1 a:1/0', 'H:01/23 T:34/10 a:2/4', 'H:0/1 L:1/2 T:2/3 a:3/0'],
                 spaces={'0': 'gva', '1': 'gpv', '2': 'ca', '3': 'hc', '4': 'c'}, sizes=two, flags=['dollar']),
        Scenario('two-body', formula, 'two-body operators', text=True, shapes=['H:01/23 a:23/01', 'H:01/23 a:32/01', 'T:0/2 T:1/3 a:23/01', 'T:0/2 T:1/3 a:32/01', 'H:04/23 T:1/4 a:23/01', 'H:04/25 T:51/43 a:32/10'],
                 spaces={'0': 'gca' if t else 'gc', '1': 'cga' if t else 'ca', '2': 'vp', '3': 'va', '4': 'p', '5': 'h'}, sizes=two if t else {'c': 1, 'a': 1, 'v': 1}, flags=['delimiter']),
        Scenario('three-body', formula, 'three-body operators', text=True, shapes=['T:012/345 a:345/012', 'T:01/34 T:2/5 a:345/012', 'T:0/3 T:1/4 T:2/5 a:543/012', 'H:06/34 T:12/65 a:345/120'],
                 spaces={'0': 'c', '1': 'c', '2': 'ca', '3': 'v', '4': 'v', '5': 'va', '6': 'v'}, sizes=two, flags=['dollar', 'delimiter', 'backslash'] if t else ['backslash'], perm=['shuf']),
        Scenario('spin-integrated', formula, 'spin-integrated labels', text=True, shapes=['H:01/23 a:23/01', 'T:0/2 T:1/3 a:32/01', 'H:01/23 T:23/01'],
                 spaces={'0': 'cC', '1': 'cC', '2': 'vV', '3': 'vV'}, sizes={'c': 2, 'a': 0, 'v': 2}, typ='si', flags=['dollar']),
        Scenario('spin-adapted', formula, 'spin-adapted labels', text=True, shapes=['H:01/23 a:23/01', 'T:0/2 T:1/3 a:32/01', 'H:01/23 T:23/01'],
                 spaces={'0': 'c', '1': 'ca', '2': 'v', '3': 'v'}, sizes={'c': 2, 'a': 1, 'v': 2}, typ='sa', flags=['dollar']),
        Scenario('odd', formula, 'operators that do not conserve particles', text=True, shapes=['H:01/23 T:2/0 a:31/', 'H:01/23 a:230/1', 'H:01/23 a:/0123', 'H:01/23 a:2301/'],
                 spaces={'0': 'c', '1': 'ca', '2': 'v', '3': 'v'}, sizes={'c': 1, 'a': 1, 'v': 2}, flags=['dollar']),
        Scenario('coefficients', formula, 'printed form of typical coefficients', text=True, shapes=['H:0/1 T:1/0', 'T:0/2 T:1/3 a:23/01', 'H:01/23 a:23/01'], coeffs=coeffs,
                 spaces={'0': 'v', '1': 'c', '2': 'v', '3': 'a'}, sizes={'c': 1, 'a': 1, 'v': 1}, perm=['shuf'], shift=[0], flags=[]),
        Scenario('forms', text_forms, 'str and the forms of the parts', text=True, shapes=['H:0/1 T:1/0', 'T:0/2 T:1/3 a:23/01', 'H:01/23 a:23/01', 'H:01/23 T:2/0 a:31/'],
                 spaces={'0': 'cg', '1': 'c', '2': 'v', '3': 'ap'}, perm=['shuf'], shift=[0, 8, 97]),
        Scenario('forms-spin', text_forms, 'str and the forms of the parts, spin labels', text=True, shapes=['H:0/1 T:1/0', 'T:0/2 T:1/3 a:23/01', 'H:01/23 a:23/01'],
                 spaces={'0': 'cC', '1': 'cC', '2': 'vV', '3': 'aA'}, perm=['shuf'], typ='si'),
        Scenario('operators', operators, 'operators with any partition of their indices, also the same indices on both sides', text=True, n=[1, 2] if not t else [1, 2, 3], spaces='ac' if not t else 'acv', nums=[0, 9]),
        Scenario('operators-large', operators, 'operators with four (five) indices, any partition', text=True, n=[1, 5] if not t else [1, 4, 5], spaces='c', nums=[0, 9]),
        Scenario('listing', listing, 'printed lists of up to two (three) terms', text=True, n=[0, 1, 2] if not t else [0, 1, 2, 3], shapes=['H:0/1 T:1/0', 'T:0/2 T:1/3 a:23/01', 'H:01/23 a:23/01', 'H:01/23 T:2/0 a:3/1'],
                 spaces={'0': 'vc' if t else 'c', '1': 'c', '2': 'v', '3': 'av'}),
    ]
