"""
A small evaluator for the generated tensor-contraction statements: builds, zeroing, scaling, += -= *= = of sums of
products of numbers and labelled tensors.  Tensors are evaluated over the finite orbital sets of an oracle Model.
"""
import re
from fractions import Fraction
from math import factorial
from lib import oracle as O

TOK = re.compile(r'\s*(?:(?P<num>\d+(?:\.\d*)?(?:[eE][-+]?\d+)?)|(?P<sym>\u27e6[nd]\d+\u27e7)(?:\.0*)?|(?P<name>[A-Za-z_]\w*)\s*(?P<idx>\[\s*"[^"]*"\s*\])?'
                 r'|(?P<op>[-+*/()]))')
STMT = re.compile(r'^\s*(?:[A-Za-z_:]+\s+)?(?P<name>[A-Za-z_]\w*)\s*(?P<idx>\[\s*"[^"]*"\s*\])?\s*(?P<op>\+=|-=|\*=|=)\s*(?P<rhs>.*)$', re.S)
BUILD = re.compile(r'^\s*ambit::BlockedTensor::build\(\s*ambit::CoreTensor\s*,\s*"(?P<label>[^"]*)"\s*,\s*\{(?P<blocks>[^}]*)\}\s*\)\s*$')


class BadProgram(Exception):
    pass


def raw_model(M):
    """ the same tensors, but the 'operator' is an ordered tuple of orbitals """
    import copy
    r = copy.copy(M)
    r.cache = {}
    r.sort_op = lambda seq: (1, tuple(seq))
    return r


def split_idx(text):
    body = text.strip()[1:-1].strip().strip('"')
    out = []
    for k in body.split(','):
        k = k.strip()
        m = re.match(r'^([A-Za-z])(\d+)$', k)
        if not m:
            raise BadProgram(f'bad index {k!r} in {text}')
        out.append((m.group(1), int(m.group(2))))
    return tuple(out)


class Interp:
    def __init__(self, S, M, kind=None, targets=()):
        """ kind: base name -> oracle kind; targets: names that exist (zero) before the program starts """
        self.S, self.M = S, raw_model(M)
        self.kind = kind or {}
        self.vars = {n: [] for n in targets}      # name -> list of (coefficient, {orbital tuple: {monomial: int}})
        self.blocks = {}                          # declared blocks of built tensors
        self.rank = {}
        self.declared = set()
        self.calls = []

    # -------------------------------------------------------------------------------- expressions
    def number(self, tok):
        from lib import symx
        role, e = symx.SymFraction.registry[tok]
        return role, tok[2:-1], e

    def parse(self, text):
        """ list of (coefficient, [(name, idx or None)]) """
        toks, pos = [], 0
        text = text.strip()
        while pos < len(text):
            m = TOK.match(text, pos)
            if not m or m.end() == pos:
                raise BadProgram(f'cannot read {text[pos:]!r}')
            toks.append((m.lastgroup if m.lastgroup != 'idx' else 'name', m))
            pos = m.end()
        self.t, self.k = toks, 0
        out = self.sum()
        if self.k != len(toks):
            raise BadProgram(f'trailing text in {text!r}')
        return out

    def peek(self):
        return self.t[self.k][1].group('op') if self.k < len(self.t) else None

    def sum(self):
        out = self.prod()
        while self.peek() in ('+', '-'):
            op = self.peek()
            self.k += 1
            r = self.prod()
            out = out + (r if op == '+' else [(-c, f) for c, f in r])
        return out

    def prod(self):
        out = self.atom()
        while self.peek() in ('*', '/'):
            op = self.peek()
            self.k += 1
            r = self.atom()
            if op == '*':
                out = [(self.mul(a, b), f + g) for a, f in out for b, g in r]
            else:
                if len(r) != 1 or r[0][1]:
                    raise BadProgram('division by a tensor')
                out = [(self.div(a, r[0][0]), f) for a, f in out]
        return out

    @staticmethod
    def plain(x):
        if isinstance(x, tuple):
            raise BadProgram('numerator or denominator of the coefficient used alone')
        return x

    def mul(self, a, b):
        return self.plain(a) * self.plain(b)

    def div(self, a, b):
        if isinstance(b, tuple):
            if isinstance(a, tuple) and a[0] == 'n' and b[0] == 'd' and a[1] == b[1]:
                return a[2]
            raise BadProgram('inconsistent fraction')
        if isinstance(a, tuple):
            raise BadProgram('inconsistent fraction')
        return a / b

    def atom(self):
        if self.k >= len(self.t):
            raise BadProgram('expression ends early')
        kind, m = self.t[self.k]
        self.k += 1
        if m.group('num'):
            return [(Fraction(m.group('num')), [])]
        if m.group('sym'):
            from lib import symx
            tok = m.group('sym')
            role, e = symx.SymFraction.registry[tok]
            val = symx.SymReal(e)
            nxt = self.peek()
            if role == 'n' and not (nxt == '/' and self.t[self.k + 1][1].group('sym')):
                # printed without denominator: the code found it to be an integer
                self.S.check(symx.SymBool(symx.z3.IsInt(e)), 'the denominator of the coefficient is printed')
                return [(val, [])]
            return [((role, tok[2:-1], val), [])]
        if m.group('name'):
            idx = m.group('idx')
            return [(Fraction(1), [(m.group('name'), split_idx(idx) if idx else None)])]
        op = m.group('op')
        if op == '(':
            out = self.sum()
            if self.peek() != ')':
                raise BadProgram('missing )')
            self.k += 1
            return out
        if op == '-':
            return [(-self.plain_or_neg(c), f) for c, f in self.atom()]
        raise BadProgram(f'unexpected {op}')

    def plain_or_neg(self, c):
        return self.plain(c)

    # -------------------------------------------------------------------------------- statements
    def tensor(self, name, idx):
        m = re.match(r'^(.*?)(\d+)$', name)
        base, nu, nl = None, None, None
        m2 = re.match(r'^(.*?)_(\d+)_(\d+)$', name)
        if m2:
            base, nu, nl = m2.group(1), int(m2.group(2)), int(m2.group(3))
        elif m:
            base, nu = m.group(1), int(m.group(2))
            nl = nu
        if base not in self.kind:
            raise BadProgram(f'unknown tensor {name}')
        if idx is None or len(idx) != nu + nl:
            raise BadProgram(f'{name} has {nu}+{nl} indices, used with {idx}')
        if self.kind[base] == 'T' and nu == nl:
            a, b = {s.lower() for s, _ in idx[:nu]}, {s.lower() for s, _ in idx[nu:]}
            if a <= {'v', 'p', 'a'} and b <= {'c', 'h', 'a'} and a | b != {'a'}:
                raise BadProgram(f'amplitude {name}{idx} is not stored with its particle indices first')
        return O.Ten(self.kind[base], base, idx[:nu], idx[nu:])

    def product(self, facs, lhs):
        """ value of a product of tensors, as {orbital tuple in the order of lhs: {monomial: int}} """
        ts = [self.tensor(n, i) for n, i in facs]
        cnt = {}
        for t in ts:
            for i in t.up + t.lo:
                cnt[i] = cnt.get(i, 0) + 1
        for i in lhs:
            if cnt.get(i) != 1:
                raise BadProgram(f'index {i} of the target appears {cnt.get(i, 0)} times on the right')
        if len(set(lhs)) != len(lhs):
            raise BadProgram(f'repeated index in {lhs}')
        for i, n in cnt.items():
            if i not in lhs and n != 2:
                raise BadProgram(f'index {i} appears {n} times')
        val = self.M.value(O.Expr(ts, lhs, ()))
        return {k[0]: d for k, d in val.items()}

    def rhs(self, expr, lhs):
        out = []
        for c, facs in expr:
            c = self.plain(c)
            loc = [(n, i) for n, i in facs if n in self.vars or n in self.declared]
            if not loc:
                out.append((c, self.product(facs, lhs) if facs else {(): {(): 1}}))
                continue
            if len(facs) != 1:
                raise BadProgram('product with an intermediate')
            n, idx = loc[0]
            if n not in self.vars:
                raise BadProgram(f'{n} is used before it is built')
            idx = idx or ()
            if sorted(idx) != sorted(lhs) or len(set(idx)) != len(idx):
                raise BadProgram(f'indices {idx} against {lhs}')
            self.in_blocks(n, idx, exact=False)
            pos = [idx.index(i) for i in lhs]
            for c2, arr in self.vars[n]:
                new = {}
                for orb, d in arr.items():
                    if all(o in self.M.orbitals(s) for o, (s, _) in zip(orb, idx)):
                        new[tuple(orb[p] for p in pos)] = d
                out.append((c * c2, new))
        return out

    def in_blocks(self, name, idx, exact=True):
        if name in self.blocks:
            for b in self.blocks[name]:
                if len(b) == len(idx) and all(set(O.elem(s)) <= set(O.elem(x)) for x, (s, _) in zip(b, idx)):
                    return
            raise BadProgram(f'{name}{idx} is outside its blocks {self.blocks[name]}')

    def statement(self, st):
        st = st.strip()
        if not st:
            return
        m = re.match(r'^(?:ambit::)?BlockedTensor\s+(\w+)$', st)
        if m:
            self.declared.add(m.group(1))
            return
        m = re.match(r'^(\w+)\.zero\(\)$', st)
        if m:
            if m.group(1) not in self.vars:
                raise BadProgram(f'{m.group(1)} is zeroed before it exists')
            self.vars[m.group(1)] = []
            return
        m = re.match(r'^(\w+)\.scale\(\s*(\w+|[-\d.]+)\s*\)$', st)
        if m:
            n = m.group(1)
            if n not in self.vars:
                raise BadProgram(f'{n} does not exist')
            f = self.scalar(m.group(2))
            self.vars[n] = [(f * c, v) for c, v in self.vars[n]]
            return
        m = re.match(r'^(\w+)\(([^()]*)\)$', st)
        if m:
            self.call(m.group(1), [x.strip() for x in m.group(2).split(',')])
            return
        m = STMT.match(st)
        if not m:
            raise BadProgram(f'cannot read statement {st!r}')
        name, op, rhs = m.group('name'), m.group('op'), m.group('rhs')
        b = BUILD.match(rhs)
        if b:
            if op != '=':
                raise BadProgram('build with ' + op)
            if m.group(0).strip().startswith(('BlockedTensor', 'ambit::BlockedTensor')):
                self.declared.add(name)
            self.vars[name] = []
            self.blocks[name] = [x.strip().strip('"') for x in b.group('blocks').split(',')]
            return
        idx = split_idx(m.group('idx')) if m.group('idx') else ()
        if name not in self.vars:
            raise BadProgram(f'{name} is written before it exists')
        if op == '*=':
            f = self.scalar(rhs)
            self.vars[name] = [(f * c, v) for c, v in self.vars[name]]
            return
        self.in_blocks(name, idx)
        val = self.rhs(self.parse(rhs), idx)
        if op == '=':
            spaces = [set(self.M.orbitals(s)) for s, _ in idx]
            self.vars[name] = [(c, {o: d for o, d in arr.items() if not all(x in s for x, s in zip(o, spaces))})
                               for c, arr in self.vars[name]] + val
        else:
            self.vars[name] = self.vars[name] + [(c if op == '+=' else -c, v) for c, v in val]

    def scalar(self, text):
        if text in self.scalars:
            return self.scalars[text]
        e = self.parse(text)
        if len(e) != 1 or e[0][1]:
            raise BadProgram(f'{text} is not a number')
        return self.plain(e[0][0])

    scalars = {}

    def call(self, name, args):
        raise BadProgram(f'call of unknown function {name}')

    def run(self, text):
        text = re.sub(r'//[^\n]*', '', text)
        parts = text.split(';')
        if parts[-1].strip():
            raise BadProgram(f'statement without semicolon: {parts[-1].strip()!r}')
        for st in parts[:-1]:
            self.statement(st)


def weight_so(ann, cre):
    return Fraction(1, factorial(len(ann)) * factorial(len(cre)))


def weight_si(ann, cre):
    """ only one order of the spins is stored, all same-spin orders are """
    w = 1
    for side in (ann, cre):
        b = sum(e.isupper() for e, _ in side)
        w *= factorial(b) * factorial(len(side) - b)
    return Fraction(1, w)


def operator_value(arrays, n_ann, weight=weight_so, sort=O.parity_sort):
    """ sum over all orbitals of  array[ann, cre] {a^cre_ann} * weight, as items for oracle.same_value """
    out = []
    for c, arr in arrays:
        val = {}
        for orb, d in arr.items():
            sa, ann = sort(orb[:n_ann])
            sc, cre = sort(orb[n_ann:])
            if sa * sc == 0:
                continue
            w = weight(orb[:n_ann], orb[n_ann:]) * sa * sc
            o = val.setdefault((cre, ann), {})
            for m, k in d.items():
                o[m] = o.get(m, 0) + w * k
        out.append((c, val))
    return out


def antisymmetry(arrays, n_ann):
    """ items whose sum is zero exactly if the array changes sign under exchange of two neighbours of one side """
    out = []
    for c, arr in arrays:
        val = {}
        for orb, d in arr.items():
            for k in range(len(orb) - 1):
                if k == n_ann - 1 or orb[k][0].isupper() != orb[k + 1][0].isupper():
                    continue
                o = list(orb)
                o[k], o[k + 1] = o[k + 1], o[k]
                key = (min(orb, tuple(o)), k)
                v = val.setdefault(key, {})
                for m, x in d.items():
                    v[m] = v.get(m, 0) + x
        out.append((c, val))
    return out
