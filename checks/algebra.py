""" Reference algebra of operator expressions: lists of (coefficient, oracle Expr). """
from fractions import Fraction
from lib import oracle as O


def relabel(ex, tag):
    """ make the labels of an expression distinct from those of others: numbers become tuples """
    f = lambda i: (i[0], (tag, i[1]))
    return O.Expr([O.Ten(t.kind, t.name, map(f, t.up), map(f, t.lo)) for t in ex.tensors], map(f, ex.cre), map(f, ex.ann), ex.mult)


def flatten(ex):
    """ numbers back to integers """
    names = {}

    def f(i):
        return (i[0], names.setdefault(i, len(names)))
    return O.Expr([O.Ten(t.kind, t.name, map(f, t.up), map(f, t.lo)) for t in ex.tensors], map(f, ex.cre), map(f, ex.ann), ex.mult)


def times(exprs, max_cu, lo, hi, accept=None):
    """ Wick expansion of a product of expressions -> [(sign, Expr)] with lo <= open <= hi (concrete numbers) """
    exprs = [relabel(e, k) for k, e in enumerate(exprs)]
    tens = [t for e in exprs for t in e.tensors]
    ops = [(e.cre, e.ann) for e in exprs if e.cre or e.ann]
    out = []
    if not ops:
        return [(1, flatten(O.Expr(tens, (), ())))] if lo <= 0 else []
    for sign, blocks, cre, ann, sets in O.wick(ops, max_cu, lo, hi):
        if accept is not None and not accept(len(ops), sets, blocks):
            continue
        out.append((sign, flatten(O.Expr(tens + [O.Ten(k, k, u, l) for k, u, l in blocks], cre, ann))))
    return out


def commutator(left, right, max_cu, lo, hi, scale=1):
    """ left, right: [(number, Expr)] """
    out = []
    for cl, el in left:
        for cr, er in right:
            out += [(scale * cl * cr * s, e) for s, e in times([el, er], max_cu, lo, hi)]
            out += [(-scale * cl * cr * s, e) for s, e in times([er, el], max_cu, lo, hi)]
    return out


def expr(name, kind, up, lo, cre=None, ann=None):
    """ tensor^{up}_{lo} a^{lo}_{up} unless another operator is given """
    return O.Expr([O.Ten(kind, name, up, lo)], lo if cre is None else cre, up if ann is None else ann)


def values(M, items):
    """ merge [(number, Expr)] into one value dictionary with Fraction coefficients """
    out = {}
    for c, e in items:
        for op, d in M.value(e).items():
            o = out.setdefault(op, {})
            for m, k in d.items():
                o[m] = o.get(m, 0) + c * k
    return {op: {m: k for m, k in d.items() if k} for op, d in out.items()}


def window(val_by_open):
    pass
