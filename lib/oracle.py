"""
Reference semantics of the algebra, written from the definitions and independent of the code under test.

A Term stands for   coeff * sum_{indices} (product of tensor elements) * {a^upper_lower}
evaluated in a finite orbital basis.  The value is a polynomial in the independent tensor elements, per
normal-ordered operator string.  Two expressions are equal for every value of every tensor iff their
polynomials have the same coefficients; the caller hands these coefficients to the solver.
"""
from fractions import Fraction
from itertools import combinations, permutations, product

SPACES = ['g', 'p', 'h', 'v', 'c', 'a', 'G', 'P', 'H', 'V', 'C', 'A']
ELEM = {'g': 'cav', 'p': 'av', 'h': 'ca', 'v': 'v', 'c': 'c', 'a': 'a'}
PRIORITY = {s: i for i, s in enumerate(SPACES)}


def elem(space):
    """ elementary subspaces of a label; beta labels give uppercase letters """
    e = ELEM[space.lower()]
    return e.upper() if space.isupper() else e


def parity_sort(seq):
    """ (sign, sorted tuple) of a sequence; sign 0 if there is a repetition """
    seq = list(seq)
    sign = 1
    n = len(seq)
    for i in range(n):
        for j in range(n - 1 - i):
            if seq[j] > seq[j + 1]:
                seq[j], seq[j + 1] = seq[j + 1], seq[j]
                sign = -sign
            elif seq[j] == seq[j + 1]:
                return 0, tuple(seq)
    return sign, tuple(seq)


def parity(perm):
    """ sign of a permutation given as a list of distinct comparable things """
    perm = list(perm)
    inv = sum(1 for i in range(len(perm)) for j in range(i + 1, len(perm)) if perm[i] > perm[j])
    return -1 if inv % 2 else 1


# ----------------------------------------------------------------------------------- plain expressions
class Ten:
    """ kind in K, L, C, H, T, X (X: any other name); upper/lower are tuples of (space, number). """
    __slots__ = ('kind', 'name', 'up', 'lo')

    def __init__(self, kind, name, up, lo):
        self.kind, self.name, self.up, self.lo = kind, name, tuple(up), tuple(lo)

    def __repr__(self):
        return f"{self.name}{self.up}{self.lo}"


class Expr:
    """ tensors, operator (cre, ann), integer multiplicity """
    __slots__ = ('tensors', 'cre', 'ann', 'mult')

    def __init__(self, tensors, cre, ann, mult=1):
        self.tensors, self.cre, self.ann, self.mult = list(tensors), tuple(cre), tuple(ann), mult


def ix(i):
    return (str(i.space), int(i.number))


def ten_of(R, t):
    kinds = [('K', R.Kronecker), ('L', R.Cumulant), ('C', R.HoleDensity), ('T', R.ClusterAmplitude),
             ('H', R.HamiltonianTensor)]
    for k, c in kinds:
        if isinstance(t, c):
            return Ten(k, t.name, map(ix, t.upper_indices), map(ix, t.lower_indices))
    return Ten('X', t.name, map(ix, t.upper_indices), map(ix, t.lower_indices))


def expr_of(R, tensors, sq_op, mult=1):
    return Expr([ten_of(R, t) for t in tensors], map(ix, sq_op.upper_indices), map(ix, sq_op.lower_indices), mult)


def expr_of_term(R, term):
    return expr_of(R, term.list_of_tensors, term.sq_op)


# ----------------------------------------------------------------------------------- evaluation
class Model:
    """
    sizes: number of orbitals per elementary space, e.g. {'c': 1, 'a': 2, 'v': 1}
    hermitian: every tensor is invariant under exchange of its upper and lower indices
    t_active_zero: amplitudes with only active indices are zero
    spin: orbitals carry a spin; lowercase labels denote alpha orbitals, uppercase beta ones
          ('so' labels denote both spins when so=True)
    """

    def __init__(self, sizes=None, hermitian=True, t_active_zero=True, spin=False, so=False, adapted=False):
        self.sizes = sizes or {'c': 1, 'a': 2, 'v': 1}
        self.hermitian, self.t0 = hermitian, t_active_zero
        self.spin, self.so, self.adapted = spin, so, adapted
        self.tables = {}
        self.values = {}
        self.cache = {}

    def orbitals(self, space):
        """ orbitals are (elementary label, number); uppercase label = beta """
        out = []
        for e in elem(space):
            for k in range(self.sizes[e.lower()]):
                out.append((e, k))
        if self.so:
            assert space.islower()
            out = out + [(e.upper(), k) for e, k in out]
        return out

    # tensor element -> list of (coefficient, variable or None)
    def element(self, t, up, lo):
        k = t.kind
        if self.spin and not self.adapted:
            if sum(e.isupper() for e, _ in up) != sum(e.isupper() for e, _ in lo):
                return ()
        if k == 'K':
            return ((1, None),) if up == lo else ()
        if k == 'C':
            out = [(1, None)] if up == lo else []
            return tuple(out + [(-c, v) for c, v in self.element(Ten('L', 'L', t.up, t.lo), up, lo)])
        if k == 'L':
            sp = [e.lower() for e, _ in up + lo]
            if len(up) == 1:
                if 'v' in sp:
                    return ()
                if 'c' in sp:
                    return ((2 if self.adapted == 'trace' else 1, None),) if up == lo else ()
            elif any(s != 'a' for s in sp):
                return ()
        if k == 'T' and self.t0 and all(e.lower() == 'a' for e, _ in up + lo):
            return ()
        if self.adapted:
            return ((1, self._adapted_var(t, up, lo)),)
        su, u = parity_sort(up)
        sl, l = parity_sort(lo)
        if su == 0 or sl == 0:
            return ()
        if self.hermitian and len(u) == len(l) and l < u:
            u, l = l, u
        return ((su * sl, (t.name, u, l)),)

    def _adapted_var(self, t, up, lo):
        pairs = sorted(zip(up, lo))
        u, l = tuple(p[0] for p in pairs), tuple(p[1] for p in pairs)
        if self.hermitian:
            pairs2 = sorted(zip(lo, up))
            u2, l2 = tuple(p[0] for p in pairs2), tuple(p[1] for p in pairs2)
            if (u2, l2) < (u, l):
                u, l = u2, l2
        return (t.name, u, l)

    def table(self, t):
        """ all nonzero elements: list of (orbital per index (upper then lower), ((coef, var), ...)) """
        labels = t.up + t.lo
        # repeated labels inside a tensor must agree
        pos = {}
        for i, lab in enumerate(labels):
            pos.setdefault(lab, []).append(i)
        key = (t.kind, t.name, len(t.up), tuple(s for s, _ in labels), tuple(sorted(map(tuple, pos.values()))))
        tab = self.tables.get(key)
        if tab is None:
            tab = []
            for orbs in product(*[self.orbitals(s) for s, _ in labels]):
                if any(orbs[p[0]] != orbs[q] for p in pos.values() for q in p[1:]):
                    continue
                el = self.element(t, orbs[:len(t.up)], orbs[len(t.up):])
                if el:
                    tab.append((orbs, el))
            self.tables[key] = tab
        return tab

    def value(self, ex):
        """ {(cre orbitals, ann orbitals): {monomial: int}} """
        key = (tuple(sorted((t.kind, t.name, t.up, t.lo) for t in ex.tensors)), ex.cre, ex.ann)
        if key in self.cache:
            return self.cache[key]
        tensors = self._order(ex.tensors)
        out = {}
        seen = set()
        for t in tensors:
            seen.update(t.up + t.lo)
        free = [i for i in dict.fromkeys(ex.cre + ex.ann) if i not in seen]
        plans = []
        assigned = {}
        for t in tensors:
            labels = t.up + t.lo
            known = [k for k, lab in enumerate(labels) if lab in assigned]
            for lab in labels:
                assigned[lab] = 1
            idx = {}
            for orbs, el in self.table(t):
                idx.setdefault(tuple(orbs[k] for k in known), []).append((orbs, el))
            plans.append((labels, known, idx))
        n = len(plans)
        env = {}

        def emit(coef, mono):
            for orbs in product(*[self.orbitals(s) for s, _ in free]):
                for lab, o in zip(free, orbs):
                    env[lab] = o
                if self.adapted:
                    sc, cre, sa, ann = 1, tuple(env[i] for i in ex.cre), 1, tuple(env[i] for i in ex.ann)
                else:
                    sc, cre = self.sort_op([env[i] for i in ex.cre])
                    sa, ann = self.sort_op([env[i] for i in ex.ann])
                if sc == 0 or sa == 0:
                    continue
                m = tuple(sorted(mono))
                d = out.setdefault((cre, ann), {})
                d[m] = d.get(m, 0) + coef * sc * sa

        def rec(k, coef, mono):
            if k == n:
                emit(coef, mono)
                return
            labels, known, idx = plans[k]
            for orbs, el in idx.get(tuple(env[labels[q]] for q in known), ()):
                for lab, o in zip(labels, orbs):
                    env[lab] = o
                for c, v in el:
                    rec(k + 1, coef * c, mono if v is None else mono + (v,))

        rec(0, 1, ())
        out = {k: {m: c for m, c in d.items() if c} for k, d in out.items()}
        out = {k: d for k, d in out.items() if d}
        if len(self.cache) > 4000:
            self.cache.clear()
        self.cache[key] = out
        return out

    def sort_op(self, seq):
        return parity_sort(seq)

    @staticmethod
    def _order(tensors):
        """ join order: greedy by shared labels, small tensors first """
        left = sorted(tensors, key=lambda t: (len(t.up) + len(t.lo), t.kind, t.name, t.up, t.lo))
        out, seen = [], set()
        while left:
            best = max(range(len(left)), key=lambda k: (sum(l in seen for l in left[k].up + left[k].lo), -k))
            t = left.pop(best)
            out.append(t)
            seen.update(t.up + t.lo)
        return out


def collect(items):
    """
    items: iterable of (coefficient, value dict); returns {(op, monomial): [(int, coefficient), ...]}.
    """
    out = {}
    for coef, val in items:
        for op, d in val.items():
            for m, c in d.items():
                out.setdefault((op, m), []).append((c, coef))
    return out


def same_value(S, left, right, msg, key=None):
    """
    Assert  sum(left) == sum(right)  for every tensor value; left/right: lists of (coefficient, value dict).
    Coefficients may be symbolic: the solver decides the coefficient identities.
    """
    items = collect([(S.num(c), v) for c, v in left] + [(-S.num(c), v) for c, v in right])
    conds = {}
    for k, terms in items.items():
        sig = tuple((c, id(x)) for c, x in terms)
        if sig in conds:
            continue
        tot = 0
        scale = 0
        for c, x in terms:
            tot = tot + c * x
            if isinstance(x, Fraction):
                scale += abs(c * x)
        conds[sig] = (S.zero(tot, scale), k)
    if S.concrete:
        for c, k in conds.values():
            S.check(c, f'{msg} (operator {k[0]}, monomial {k[1]})', key)
        S.check(True, msg, key)
    else:
        S.check(S.all([c for c, _ in conds.values()]), msg, key)


def terms_value(R, M, terms):
    return [(t.coeff, M.value(expr_of_term(R, t))) for t in terms]


# ----------------------------------------------------------------------------------- Wick's theorem
def may_overlap(s1, s2):
    return bool(set(elem(s1)) & set(elem(s2)))


def wick(ops, max_cu, min_open, max_open, filter_spaces=True):
    """
    Generalised Wick expansion of a product of normal-ordered operators ops = [(cre, ann), ...] with
    labels (space, number).  Yields (sign, blocks, cre, ann): blocks are ('L'|'C', uppers, lowers).
    Blocks: 1-cumulant (creation left of annihilation, different operators), hole density (annihilation left of
    creation, different operators), k-cumulant with 2 <= k <= max_cu legs not all from one operator.
    """
    sites = []                       # operator string: (kind, label, op)
    for o, (cre, ann) in enumerate(ops):
        sites += [('u', i, o) for i in cre]
        sites += [('l', i, o) for i in reversed(ann)]
    n = len(sites)
    cres = [k for k in range(n) if sites[k][0] == 'u']
    anns = [k for k in range(n) if sites[k][0] == 'l']

    def nonzero_pair(kind, a, b):
        sa, sb = sites[a][1][0], sites[b][1][0]
        common = set(elem(sa)) & set(elem(sb))
        return bool(common - ({'v'} if kind == 'L' else {'c'}))

    blocks = []                      # (kind, cre sites, ann sites)
    for a in cres:
        for b in anns:
            if sites[a][2] == sites[b][2]:
                continue
            kind = 'L' if sites[a][2] < sites[b][2] else 'C'
            if not filter_spaces or nonzero_pair(kind, a, b):
                blocks.append((kind, (a,), (b,)))
    ok = [k for k in range(n) if not filter_spaces or 'a' in elem(sites[k][1][0])]
    for lev in range(2, max_cu + 1):
        for us in combinations([k for k in cres if k in ok], lev):
            for ls in combinations([k for k in anns if k in ok], lev):
                if len({sites[k][2] for k in us + ls}) > 1:
                    blocks.append(('L', us, ls))
    by_first = {}
    for b in blocks:
        by_first.setdefault(min(b[1] + b[2]), []).append(b)

    out = []

    def rec(k, used, chosen):
        if k == n:
            n_open = n - len(used)
            if min_open <= n_open <= max_open:
                out.append(list(chosen))
            return
        rec(k + 1, used, chosen)                      # site k open or already used
        if k in used:
            return
        for b in by_first.get(k, ()):
            s = set(b[1] + b[2])
            if not (s & used):
                rec(k + 1, used | s, chosen + [b])

    rec(0, frozenset(), [])
    # "site k open" must not also be taken when k is used: rec above visits (k+1) once per state, and a
    # block is added only at its first site, so every set of disjoint blocks appears exactly once.
    for chosen in out:
        order = []
        for kind, us, ls in chosen:
            if kind == 'C':
                order += [ls[0], us[0]]
            else:
                order += list(us) + list(reversed(ls))
        used = {k for b in chosen for k in b[1] + b[2]}
        cre = [k for k in cres if k not in used]
        ann = [k for k in anns if k not in used]
        cre.sort(key=lambda k: (PRIORITY[sites[k][1][0]], sites[k][1][1]))
        ann.sort(key=lambda k: (PRIORITY[sites[k][1][0]], sites[k][1][1]))
        order += cre + list(reversed(ann))
        sign = parity(order)
        yield (sign, [(kind, tuple(sites[k][1] for k in us), tuple(sites[k][1] for k in ls)) for kind, us, ls in chosen],
               tuple(sites[k][1] for k in cre), tuple(sites[k][1] for k in ann),
               [frozenset(sites[k][2] for k in b[1] + b[2]) for b in chosen])


def connected(n_ops, op_sets):
    comp = list(range(n_ops))

    def find(i):
        while comp[i] != i:
            i = comp[i]
        return i
    for s in op_sets:
        s = sorted(s)
        for k in s[1:]:
            comp[find(k)] = find(s[0])
    return len({find(i) for i in range(n_ops)}) == 1
