""" Combining like terms: sum kept, no duplicates, cancelled terms dropped, order and input untouched. """
from lib.harness import Scenario
from lib import oracle as O

ASSUMPTIONS = ['coefficients are reals in [-1000, 1000]; a total below 1e-12 may be treated as zero or not',
               'the terms of a list are canonical, i.e. equal terms are written identically']


def T(R, ts, op, c, typ='so'):
    return R.Term([R.Tensor.make_tensor(k, u, l, typ, n) for k, n, u, l in ts], R.SQ(op[0], op[1], typ), c)


# families of terms that resemble each other: (type, tensors, operator)
FAM = {
    'operator': [('so', [('t', 'T', 'h0,h1', 'p0,p1')], ('p0,p1', 'h0,h1')),
                 ('so', [('t', 'T', 'h0,h1', 'p0,p1')], ('h0,h1', 'p0,p1')),
                 ('so', [('t', 'T', 'h0,h1', 'p0,p1')], ('p1,p0', 'h0,h1')),
                 ('so', [('t', 'T', 'h0,h1', 'p0,p1')], ('p0,p1', 'h1,h0')),
                 ('so', [('t', 'T', 'h0,h1', 'p0,p1')], ('p0,p1,h0,h1', ''))],
    'tensor': [('so', [('H', 'H', 'g0', 'g1')], ('g1', 'g0')),
               ('so', [('H', 'H', 'g1', 'g0')], ('g1', 'g0')),
               ('so', [('H', 'F', 'g0', 'g1')], ('g1', 'g0')),
               ('so', [('t', 'T', 'g0', 'g1')], ('g1', 'g0')),
               ('so', [('H', 'H', 'g1', 'g11')], ('g11', 'g1'))],
    'product': [('so', [('H', 'H', 'v0,v1', 'c0,c1'), ('t', 'T', 'c0', 'v0'), ('t', 'T', 'c1', 'v1')], ('', '')),
                ('so', [('H', 'H', 'v0,v1', 'c0,c1'), ('t', 'T', 'c0', 'v1'), ('t', 'T', 'c1', 'v0')], ('', '')),
                ('so', [('H', 'H', 'v0,v1', 'c0,c1'), ('t', 'T', 'c0,c1', 'v0,v1')], ('', '')),
                ('so', [('H', 'H', 'v0', 'c0'), ('t', 'T', 'c0', 'v0')], ('', '')),
                ('so', [('H', 'H', 'v0,v1', 'c0,c1'), ('t', 'T', 'c0', 'v0'), ('t', 'S', 'c1', 'v1')], ('', '')),
                ('so', [('H', 'H', 'v0', 'c0'), ('t', 'T', 'c0,c1', 'v0,v1')], ('v1', 'c1'))],
    'spin': [('si', [('t', 'T', 'c0,C0', 'v0,V0')], ('v0,V0', 'c0,C0')),
             ('si', [('t', 'T', 'c0,c1', 'v0,v1')], ('v0,v1', 'c0,c1')),
             ('si', [('t', 'T', 'C0,C1', 'V0,V1')], ('V0,V1', 'C0,C1')),
             ('si', [('t', 'T', 'c0', 'v0')], ('v0', 'c0')),
             ('si', [('t', 'T', 'C0', 'V0')], ('V0', 'C0'))],
    'density': [('so', [('H', 'H', 'a0,a1', 'a2,a3'), ('L', 'L', 'a2,a3', 'a0,a1')], ('', '')),
                ('so', [('H', 'H', 'a0,a1', 'a2,a3'), ('L', 'L', 'a2', 'a0'), ('L', 'L', 'a3', 'a1')], ('', '')),
                ('so', [('H', 'H', 'a0', 'a1'), ('L', 'L', 'a1', 'a0')], ('', '')),
                ('so', [('H', 'H', 'h0', 'h1'), ('L', 'L', 'h1', 'h0')], ('', ''))],
}


def content(R, t):
    ex = O.expr_of_term(R, t)
    return (tuple(sorted((x.kind, x.name, x.up, x.lo) for x in ex.tensors)), ex.cre, ex.ann)


def run(S):
    R = S.R
    fam = FAM[S.p['family']]
    terms, keys = [], []
    pat = S.pick('pattern', S.p['patterns']) if S.p.get('patterns') else None
    n = len(pat) if pat else S.p['n']
    for k in range(n):
        # which term: non-decreasing choices are enough, the list order is chosen separately
        lo = keys[-1] if keys else 0
        w = lo + S.pick(f'w{k}', list(range(len(fam) - lo))) if not pat else int(pat[k])
        keys.append(w)
        c = S.real(f'c{k}', eager=(1.0, -1.0, 0.5))
        S.assume(S.all([c >= -1000, c <= 1000]))
        typ, ts, op = fam[w]
        terms.append(T(R, ts, op, c, typ))
    coeffs = [t.coeff for t in terms]
    order = S.perm('p', n) if not pat else sorted(range(n), key=lambda k: (k * 5 + 3) % 11)
    given = [terms[k] for k in order]
    before = [content(R, t) for t in given]
    out = R.phys.combine_terms(given)
    S.check(len(given) == n and all(a is b for a, b in zip(given, [terms[k] for k in order])), 'the input list is changed')
    S.check([content(R, t) for t in given] == before, 'an input term is changed')
    S.check(S.all([S.eq(t.coeff, c) for t, c in zip(terms, coeffs)]), 'the coefficient of an input term is changed')
    got = {}
    for t in out:
        k = content(R, t)
        S.check(k not in got, 'like terms are left uncombined')
        got[k] = t.coeff
    for w in sorted(set(keys)):
        typ, ts, op = fam[w]
        key = content(R, T(R, ts, op, 1.0, typ))
        tot = sum(c for c, k in zip(coeffs, keys) if k == w)
        if key in got:
            S.check(S.zero(got[key] - tot, 1), 'the coefficient of a combined term is the sum of the coefficients')
            S.check(S.not_(S.eq(tot, 0.0)), 'a cancelled term is kept')
        else:
            S.check(S.all([tot < 1e-12, tot > -1e-12]), 'a term whose coefficients do not cancel is dropped')
    S.check(len(got) <= len(set(keys)), 'a term appears that was not in the input')
    for a, b in zip(out, out[1:]):
        S.check(a < b, 'the combined terms are sorted')
    for t in out:
        S.check(not any(t is x for x in terms), 'an input term is handed out again')


def trivial(S):
    R = S.R
    S.check(R.phys.combine_terms([]) == [], 'nothing to combine')
    bad = S.pick('bad', [None, 1, 'x'])
    S.check(S.raises((ValueError, TypeError), lambda: R.phys.combine_terms(bad)), 'not a list of terms')


def scenarios(tier):
    t = tier == 'thorough'
    out = [Scenario('trivial', trivial, 'empty and malformed lists')]
    for f in FAM:
        out.append(Scenario(f'three-{f}', run, 'three terms of the family in any order, any coefficients', family=f, n=3))
        out.append(Scenario(f'long-{f}', run, 'lists of four to ten terms with chosen repetitions, any coefficients', family=f,
                            patterns=['0011', '0123', '001122', '0001', '000000000001', '01' * 10] + (['00011222', '0102301230', '30211203'] if t else [])))
        if t:
            out.append(Scenario(f'four-{f}', run, 'four terms of the family in any order, any coefficients', family=f, n=4))
    return out
