""" Contraction orders and their costs. """
from lib.harness import Scenario
from lib import oracle as O
from checks.common import *
from checks.termgen import *

ASSUMPTIONS = ['the cost of an order is the most expensive of its pairwise contractions (all indices of both factors), its storage the largest intermediate or result',
               'costs are compared by the number of indices, then virtual, core, active ones (composite particle labels count as virtual, hole labels as core)']


def key(count):
    """ (total, virtual, core, active) """
    v = c = a = 0
    for s, n in count.items():
        s = s.lower()
        if s in 'ch':
            c += n
        elif s == 'a':
            a += n
        else:
            v += n
    return (v + c + a, v, c, a)


def count(labels):
    out = {}
    for s, _ in labels:
        out[s.lower()] = out.get(s.lower(), 0) + 1
    return out


def trees(leaves):
    """ all binary trees over the leaves (unordered): frozensets of frozensets """
    if len(leaves) == 1:
        return [leaves[0]]
    out = []
    first, rest = leaves[0], leaves[1:]
    for m in range(2 ** len(rest) - 1):
        left = [first] + [x for k, x in enumerate(rest) if m >> k & 1]
        right = [x for k, x in enumerate(rest) if not m >> k & 1]
        for a in trees(left):
            for b in trees(right):
                out.append(frozenset((a, b)))
    return out


def cost(tree, sets):
    """ (open labels, largest compute key with count, largest storage) """
    if not isinstance(tree, frozenset):
        return sets[tree], None, None
    a, b = tuple(tree)
    sa, ca, ta = cost(a, sets)
    sb, cb, tb = cost(b, sets)
    comp, store = [x for x in (ca, cb) if x], [x for x in (ta, tb) if x]
    comp.append(key(count(sa | sb)))
    store.append(key(count(sa ^ sb)))
    return sa ^ sb, max(comp), max(store)


def ckey(c):
    return key(dict(c.raw_counter))


def to_tree(path, leaf):
    if isinstance(path, tuple):
        a, b = path
        return frozenset((to_tree(a, leaf), to_tree(b, leaf)))
    return leaf[id(path)]


def setup(S):
    R, typ = S.R, S.p.get('typ', 'so')
    if 'topo' in S.p:
        names = 'QRUW'
        if S.p.get('names'):
            names = ''.join(names[k] for k in S.perm('names', 4))
        sk = Skel(topo_shape(S.pick('shape', S.p['topo']), names))
    else:
        sk = Skel(S.pick('shape', S.p['shapes']))
    lab = labels(S, sk, S.p['spaces'], perm='shuf')
    valid(S, sk, lab, typ)
    t = term(R, sk, lab, 1.0, typ)
    ts = t.list_of_tensors
    leaf = {id(x): k for k, x in enumerate(ts)}
    sets = [frozenset(map(O.ix, x.indices())) for x in ts]
    S.check(sorted(map(sorted, sets)) == sorted(sorted(lab[i] for i in u + l) for _, u, l in sk.tensors), 'indices of the tensors')
    return R, sk, lab, t, leaf, sets


def paths(S):
    R, sk, lab, t, leaf, sets = setup(S)
    n = len(sets)
    before = repr([x.latex() for x in t.list_of_tensors])
    seen = set()
    for comp, store, path in t.contraction_paths():
        if n == 1:
            S.check(ckey(comp) == key(count(sets[0])) and ckey(store) == key(count(sets[0])), 'cost of a single tensor')
            continue
        try:
            tr = to_tree(path, leaf)
        except (KeyError, ValueError, TypeError):
            S.check(False, f'path {path} is not a nesting of pairs of tensors')
            return
        op, c, s = cost(tr, sets)
        S.check(op == frozenset(lab[i] for i in sk.op[0] + sk.op[1]), 'a path contracts every tensor')
        S.check(ckey(comp) == c, f'compute cost of a path of {show(lab)}: {comp} instead of {c}')
        S.check(ckey(store) == s, f'storage cost of a path of {show(lab)}: {store} instead of {s}')
        S.check(comp.raw_counter.keys() <= {s.lower() for s, _ in lab.values()} | {'v', 'c'}, 'labels of the cost')
        seen.add(tr)
    if n > 1:
        S.check(seen == set(trees(list(range(n)))), 'every contraction order is considered')
    S.check(repr([x.latex() for x in t.list_of_tensors]) == before, 'the term is changed')


def optimum(S):
    R, sk, lab, t, leaf, sets = setup(S)
    n = len(sets)
    (comp, p1), (store, p2) = t.optimal_contraction_cost()
    if n == 1:
        S.check(ckey(comp) == key(count(sets[0])) and ckey(store) == key(count(sets[0])), 'cost of a single tensor')
        return
    all_ = [cost(x, sets) for x in trees(list(range(n)))]
    S.check(ckey(comp) == min(c for _, c, _ in all_), f'cheapest order of {show(lab)}')
    S.check(ckey(store) == min(s for _, _, s in all_), f'smallest order of {show(lab)}')
    S.check(cost(to_tree(p1, leaf), sets)[1] == ckey(comp), 'the order returned has the cost returned')
    S.check(cost(to_tree(p2, leaf), sets)[2] == ckey(store), 'the order returned has the storage returned')


# index -> the two tensors that carry it (4 is the operator); the cheapest and the smallest order differ in these
TOPO = [[(1, 3), (3, 1), (3, 1), (2, 3), (0, 1), (0, 4), (0, 4)], [(3, 2), (3, 0), (0, 3), (3, 0), (1, 2), (0, 4)],
        [(0, 2), (1, 3), (2, 3), (1, 3), (1, 4), (2, 0), (3, 1)], [(3, 4), (2, 1), (0, 3), (1, 2), (0, 2), (3, 0), (3, 0)],
        [(0, 3), (3, 2), (1, 2), (2, 1), (1, 4), (1, 2)], [(1, 3), (2, 0), (3, 1), (2, 1), (3, 1), (3, 4)],
        [(2, 0), (2, 0), (1, 2), (0, 4), (1, 3), (3, 1), (1, 3), (0, 2)], [(3, 0), (3, 1), (1, 0), (0, 4), (0, 2), (2, 1), (3, 4)],
        [(0, 3), (2, 0), (1, 2), (0, 3), (2, 1), (4, 0), (1, 4)], [(0, 1), (1, 2), (2, 3), (3, 0), (0, 2), (1, 3)]]


def topo_shape(inc, names):
    parts = [[[], []] for _ in range(5)]
    for i, (a, b) in enumerate(inc):
        parts[a][0].append(str(i))
        parts[b][1].append(str(i))
    return ' '.join(f'{n}:{"".join(u)}/{"".join(l)}' for n, (u, l) in zip(names + 'a', parts) if u or l)


def pair_cost(S):
    """ cost of one contraction, any indices """
    R = S.R
    na, nb = S.pick('n', S.p['n'])
    labs = S.p['labels']
    xs, ys = idx_list(S, 'x', na, 'si', labels=labs), idx_list(S, 'y', nb, 'si', labels=labs)
    shared = [x for x in xs if S.any([same(S, x, y) for y in ys])]
    xo = [x for x in xs if not any(x is s for s in shared)]
    yo = [y for y in ys if not S.any([same(S, x, y) for x in xs])]
    only = xo + yo
    ind = R.IndicesSpinIntegrated
    t = R.Term([R.Tensor(ind(xs), ind([])), R.Tensor(ind([]), ind(ys))], R.SQ(ind(yo), ind(xo)), 1.0)
    paths = list(t.contraction_paths())
    S.check(len(paths) == 1, 'orders of two tensors')
    comp, store, path = paths[0]
    S.check(set(map(id, path)) == set(map(id, t.list_of_tensors)), 'the order names both tensors')
    for c, items in ((comp, only + shared), (store, only)):
        v = [0, 0, 0]
        for i in items:
            s = str(i.space).lower()
            v[1 if s in 'ch' else 2 if s == 'a' else 0] += 1
        S.check(list(c.parsed_counter) == v and c.overall_scaling == sum(v), 'counts of a contraction')


def scenarios(tier):
    t = tier == 'thorough'
    sp = {'0': 'vca', '1': 'vp', '2': 'ch', '3': 'ca', '4': 'ca', '5': 'va', '6': 'c', '7': 'v', '8': 'c', '9': 'v'}
    return [
        Scenario('pair', pair_cost, 'one contraction of up to two and two indices, any spaces and numbers', n=[(0, 0), (1, 0), (1, 1), (2, 1), (2, 2)] if t else [(0, 0), (1, 0), (1, 1), (2, 1)],
                 labels=['v', 'c', 'a', 'C', 'h', 'p'] if t else ['v', 'c', 'a', 'C']),
        Scenario('paths-2', paths, 'one or two tensors', shapes=['H:01/23 a:23/01', 'H:01/23 T:23/01', 'H:01/23 T:24/05 a:35/41', 'H:0/1 T:2/3 a:13/02'], spaces=sp),
        Scenario('paths-3', paths, 'three tensors', shapes=['H:01/23 T:2/0 T:3/1', 'H:01/23 T:24/05 T:36/17 a:75/46', 'T:2/0 T:3/1 T:4/5 a:015/234', 'H:0/1 L:3/2 T:2/0 a:1/3'], spaces=sp),
        Scenario('paths-4', paths, 'four tensors', shapes=['H:01/23 T:2/0 T:34/15 T:6/7 a:57/46', 'H:01/23 T:24/01 T:3/5 T:6/7 a:57/46', 'H:01/23 T:2/0 T:3/1 T:46/57 a:57/46'], spaces=dict(sp, **{'0': 'va', '1': 'v', '2': 'c'})),
        Scenario('optimum-3', optimum, 'up to three tensors', shapes=['H:01/23 a:23/01', 'H:01/23 T:23/01', 'H:01/23 T:2/0 T:3/1', 'H:01/23 T:24/05 T:36/17 a:75/46', 'H:01/23 T:24/01 T:3/5 a:5/4', 'H:0/1 L:3/2 T:2/0 a:1/3'], spaces=sp),
        Scenario('optimum-4', optimum, 'four tensors', shapes=['H:01/23 T:2/0 T:34/15 T:6/7 a:57/46', 'H:01/23 T:24/01 T:3/5 T:6/7 a:57/46', 'H:01/23 T:24/05 T:3689/1579 T:6/8 a:7/4' if False else 'H:01/23 T:2/0 T:3/1 T:46/57 a:57/46'], spaces=dict(sp, **{'0': 'va', '1': 'v', '2': 'c'})),
        Scenario('tradeoff', optimum, 'four tensors whose cheapest and smallest orders differ, core and virtual labels', topo=TOPO, spaces={str(i): 'cv' if i < 5 or t else 'v' for i in range(8)}),
        Scenario('tradeoff-order', optimum, 'the same, tensors in any order', topo=TOPO, names=True, spaces={str(i): 'cv' if i in (2, 4) else 'cav'[i % 3] for i in range(8)}),
        Scenario('spin-one', paths, 'one tensor with spin-integrated labels', shapes=['H:0/2 a:2/0', 'H:01/23 a:23/01', 'H:02/13 a:31/20'], typ='si', spaces={k: 'vV' if k in '015' else 'cCA' for k in '012345'}),
        Scenario('spin', paths, 'spin-integrated labels', shapes=['H:01/23 T:2/0 T:3/1', 'H:01/23 T:24/05 T:36/17 a:75/46'], typ='si', spaces={'0': 'vV', '1': 'vV', '2': 'cC', '3': 'cC', '4': 'cA', '5': 'vV', '6': 'cC', '7': 'v'}),
    ] + ([Scenario('optimum-5', optimum, 'five tensors', shapes=['H:01/23 T:2/0 T:34/15 T:6/7 T:8/9 a:579/468', 'H:01/23 T:2/0 T:3/1 T:4/5 T:68/79 a:579/468'], spaces=dict(sp, **{'0': 'va', '1': 'v', '2': 'c'})),
          Scenario('paths-5', paths, 'five tensors', shapes=['H:01/23 T:2/0 T:34/15 T:6/7 T:8/9 a:579/468'], spaces=dict(sp, **{'0': 'va', '1': 'v', '2': 'c', '3': 'c', '4': 'c'}))] if t else [])
