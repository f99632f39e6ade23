""" compare operator contractions of the code with the reference Wick expansion """
from lib import oracle as O, repo
from lib.oracle import elem
from checks.common import *


def make_ops(S, spec, prefix='x'):
    """ spec: list of (cre label choices, ann label choices); returns R.SQ list and per-site tables """
    R = S.R
    ops, table, k = [], {}, 0
    for o, (cre, ann) in enumerate(spec):
        parts = []
        for side in (cre, ann):
            xs = []
            for labs in side:
                if isinstance(labs, int):           # diagonal: same index as an earlier site
                    xs.append(xs_all[labs])
                    continue
                i = S.index(f'{prefix}{k}', labs, S.p.get('numbers', list(range(50)))[k],
                            S.p.get('numbers', list(range(50)))[k], 0)
                k += 1
                xs.append(i)
            parts.append(xs)
            if side is cre:
                xs_all = xs
        ops.append(R.SQ(R.IndicesSpinOrbital(parts[0]), R.IndicesSpinOrbital(parts[1])))
    return ops


def pool_args(S):
    """ number of processes, batch size and completion order of the tasks """
    if 'np' not in S.p:
        return ()
    np_, bs = S.pick('np', S.p['np']), S.pick('bs', S.p['bs'])
    if not S.concrete:
        def order(res):
            if len(res) < 2:
                return res
            k = S.pick('sched', [0, 1, 2])
            return [res, res[::-1], res[1::2] + res[::2]][k]
        repo.StubPool.chooser = order
    return np_, bs


def tok(i):
    return str(i.name)


def norm(kind_blocks, cre, ann, sign):
    """ normal form: blocks with sorted tokens, operator with sorted tokens, sign """
    out = []
    for kind, us, ls in kind_blocks:
        su, u = O.parity_sort(us)
        sl, l = O.parity_sort(ls)
        sign *= su * sl
        out.append((kind, u, l))
    sc, c = O.parity_sort(cre)
    sa, a = O.parity_sort(ann)
    return (tuple(sorted(out)), c, a), sign * sc * sa


def kind_of(R, t):
    if isinstance(t, R.HoleDensity):
        return 'C'
    if isinstance(t, R.Kronecker):
        return 'K'
    if isinstance(t, R.Cumulant):
        return 'L'
    return '?'


def code_result(S, batches):
    R = S.R
    out = {}
    for batch in batches:
        for sign, dens, sq in batch:
            key, s = norm([(kind_of(R, t), [tok(i) for i in t.upper_indices], [tok(i) for i in t.lower_indices])
                           for t in dens], [tok(i) for i in sq.cre_ops], [tok(i) for i in sq.ann_ops], int(sign))
            out[key] = out.get(key, 0) + s
    return out


def spaces_of(ops):
    sp = {}
    for op in ops:
        for i in list(op.cre_ops) + list(op.ann_ops):
            sp[tok(i)] = str(i.space)
    return sp


def zero_block(kind, u, l, sp):
    if len(u) > 1:
        return any(sp[x] in 'cv' for x in u + l)
    common = set(elem(sp[u[0]])) & set(elem(sp[l[0]]))
    return not (common - {'L': {'v'}, 'C': {'c'}, 'K': set()}[kind])


def reference(ops, max_cu, expand, accept=None):
    """ {normal form: sign} of the reference expansion; accept(op_sets, blocks) filters """
    sp = spaces_of(ops)
    plain = [([(sp[tok(i)], tok(i)) for i in op.cre_ops], [(sp[tok(i)], tok(i)) for i in op.ann_ops]) for op in ops]
    out = {}
    meta = {}
    for sign, blocks, cre, ann, opsets in O.wick(plain, max_cu, 0, 10 ** 6):
        if accept is not None and not accept(opsets, blocks):
            continue
        bl = [(k, [x[1] for x in u], [x[1] for x in l]) for k, u, l in blocks]
        c, a = [x[1] for x in cre], [x[1] for x in ann]
        variants = [(sign, bl)]
        if expand:
            for j, b in enumerate(bl):
                if b[0] == 'C':
                    variants = [(s * f, v[:j] + [(kk,) + tuple(b[1:])] + v[j + 1:])
                                for s, v in variants for f, kk in ((1, 'K'), (-1, 'L'))]
        for s, v in variants:
            if any(zero_block(k, tuple(u), tuple(l), sp) for k, u, l in v):
                continue
            key, s2 = norm(v, c, a, s)
            out[key] = out.get(key, 0) + s2
            meta[key] = opsets
    return out, sp, meta


def n_open(key):
    return len(key[1]) + len(key[2])


def compare(S, got, want, sp, lo, hi, msg):
    """ got == want restricted to lo <= open <= hi (lo, hi may be symbolic) """
    got = {k: v for k, v in got.items() if v and not any(zero_block(*b, sp) for b in k[0])}
    sizes = {}
    for k in set(got) | set(want):
        sizes.setdefault(n_open(k), []).append(k)
    for n, keys in sorted(sizes.items()):
        inside = S.all([lo <= n, n <= hi])
        right = [k for k in keys if got.get(k, 0) != want.get(k, 0)]
        S.check(S.implies(inside, not right), f'{msg}: {n} open indices: ' + describe(right, got, want) if right else msg)
        extra = [k for k in keys if got.get(k, 0)]
        S.check(S.implies(S.not_(inside), not extra), f'{msg}: {n} open indices outside the window')


def describe(keys, got, want):
    return '; '.join(f'{k}: code {got.get(k, 0)}, expected {want.get(k, 0)}' for k in keys[:3])
