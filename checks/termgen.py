"""
Terms from skeletons such as 'H:01/23 T:2/0 a:3/1' (name:upper/lower, one character per index; 'a' is the operator,
a:cre/ann).  The label of every index is chosen by the solver-driven driver; numbers follow a fixed shuffle or a chosen
permutation.  The reference value is built from the skeleton, not from the Term.
"""
from fractions import Fraction
from lib import oracle as O

KIND = {'H': 'H', 'T': 'T', 'L': 'L', 'K': 'K', 'C': 'C'}
SHUF = {}


class Skel:
    def __init__(self, text):
        self.tensors, self.op = [], ((), ())
        for part in text.split():
            name, rest = part.split(':')
            u, l = rest.split('/')
            if name == 'a':
                self.op = (tuple(u), tuple(l))
            else:
                self.tensors.append((name, tuple(u), tuple(l)))
        ids = []
        for _, u, l in self.tensors:
            ids += u + l
        ids += self.op[0] + self.op[1]
        self.ids = sorted(set(ids))


def labels(S, sk, spaces, default='g', perm=None, prefix='s', shift=0):
    """ {id: (space, number)}; spaces: {id: string of allowed labels} """
    out, count = {}, {}
    n = len(sk.ids)
    order = list(range(n))
    if perm == 'all':
        order = S.perm(prefix + '.num', n)
    elif perm == 'rev':
        order = list(reversed(order))
    elif perm == 'shuf':
        order = sorted(order, key=lambda k: (k * 7 + 3) % (n + 1 if (n + 1) % 7 else n + 2))
    elif perm == 'dense':
        return dense(labels(S, sk, spaces, default, 'shuf', prefix, shift))
    for k, i in enumerate(sk.ids):
        opts = list(spaces.get(i, default))
        s = opts[0] if len(opts) == 1 else S.pick(f'{prefix}.{i}', opts)
        out[i] = (s, order[k] + shift)
    return out


def dense(lab):
    """ renumber so that every space counts 0, 1, ... (keeps the order of the numbers) """
    out = {}
    by = {}
    for i, (s, n) in lab.items():
        by.setdefault(s, []).append((n, i))
    for s, l in by.items():
        for k, (n, i) in enumerate(sorted(l)):
            out[i] = (s, k)
    return out


def ref(sk, lab):
    ts = [O.Ten(KIND.get(n, 'T' if n in ('T1', 'S', 'X') else 'X'), n, [lab[i] for i in u], [lab[i] for i in l]) for n, u, l in sk.tensors]
    return O.Expr(ts, [lab[i] for i in sk.op[0]], [lab[i] for i in sk.op[1]])


def tensor(R, name, up, lo, typ='so'):
    up, lo = [f'{s}{n}' for s, n in up], [f'{s}{n}' for s, n in lo]
    if len(up) != len(lo):
        return R.Tensor(up, lo, typ, name)
    if name in KIND:
        return R.Tensor.make_tensor(name, up, lo, typ)
    if name in ('T1', 'S', 'X'):
        return R.Tensor.make_tensor('T', up, lo, typ, name)
    return R.Tensor.make_tensor('H', up, lo, typ, name)


def term(R, sk, lab, coeff=1.0, typ='so', order=None):
    ts = [tensor(R, n, [lab[i] for i in u], [lab[i] for i in l], typ) for n, u, l in sk.tensors]
    if order is not None:
        ts = [ts[k] for k in order]
    f = lambda ids: [f'{lab[i][0]}{lab[i][1]}' for i in ids]
    return R.Term(ts, R.SQ(f(sk.op[0]), f(sk.op[1]), typ), coeff)


def coefficient(S, name='coeff'):
    """ a real number away from the rounding threshold of the code """
    c = S.real(name, eager=(1.0, -0.375))
    S.assume(S.any([S.all([c >= 0.001, c <= 1000]), S.all([c <= -0.001, c >= -1000])]))
    return c


def show(lab):
    return ' '.join(f'{i}={s}{n}' for i, (s, n) in sorted(lab.items()))


def valid(S, sk, lab, typ='so'):
    """ assume that every tensor is one the constructors accept and that no density vanishes by orbital space """
    for n, u, l in sk.tensors:
        if typ == 'si' and len(u) == len(l):
            S.assume(sum(lab[i][0].isupper() for i in u) == sum(lab[i][0].isupper() for i in l))
        if n in 'LKC':
            com = set.intersection(*[set(O.elem(lab[i][0].lower())) for i in u + l])
            S.assume(bool(com - {'L': {'v'}, 'C': {'c'}, 'K': set()}[n]) if len(u) == 1 else
                     all('a' in O.elem(lab[i][0].lower()) for i in u + l))
        if n in ('T', 'S', 'X'):
            for side in (u, l):
                es = [set(O.elem(lab[i][0].lower())) for i in side]
                es = [e for e in es if e != {'a'}]
                S.assume(not (any(e <= {'c', 'a'} for e in es) and any(e <= {'a', 'v'} for e in es)))
