"""
symx: a small dynamic symbolic executor for the Python sources in /repo.

The real functions of dsrg_generator (imported from /repo's current source) are run on proxies whose
values are z3 terms.  A branch on a symbolic condition asks the solver which outcomes are feasible under
the path condition and forks; an operation that needs a concrete value (hashing a label, indexing,
formatting) forks over every feasible value the solver reports.  Paths are enumerated by re-execution from
decision prefixes, so every value inside the declared domains is covered.  At the end the harness
asserts a condition; the solver decides  path-condition AND NOT condition.
"""
import time
import z3
from fractions import Fraction

_Fraction = Fraction

MAX_VALUES = 400          # upper limit on the fan-out of one concretisation


class Unsupported(BaseException):
    """The proxy met an operation it cannot encode (engine falls back to eager inputs)."""


class PathDone(BaseException):
    """The current path is infeasible / was cut by an assumption."""


class Engine:
    """Solver state of one path."""
    cur = None

    def __init__(self, prefix, stats):
        self.prefix = prefix
        self.pos = 0
        self.trace = []            # decisions taken on this path
        self.pending = []          # alternative prefixes discovered on this path
        self.solver = z3.Solver()
        self.solver.set('timeout', 20000)
        self.stats = stats
        self.vars = {}             # name -> (kind, z3 var, extra)
        self.fresh = set()         # z3 ids of variables without constraints beyond their domain
        self.model = None          # a cached model of the current path condition
        self.npc = 0

    # ---- solver access -------------------------------------------------------------------------
    def _check(self, *extra):
        t = time.time()
        self.solver.push()
        for e in extra:
            self.solver.add(e)
        r = self.solver.check()
        if r == z3.sat:
            self.last_model = self.solver.model()
        self.solver.pop()
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t
        if r == z3.unknown:
            self.stats['unknown'] += 1
            raise Unsupported('solver unknown')
        return r == z3.sat

    def add(self, e):
        self.solver.add(e)
        self.npc += 1
        if self.model is not None:
            if not z3.is_true(self.model.eval(e, model_completion=True)):
                self.model = None

    def assume(self, cond):
        e = as_z3_bool(cond)
        if e is True:
            return
        if e is False:
            raise PathDone()
        self.fresh.clear()
        self.add(e)
        if not self._sat_now():
            raise PathDone()

    def _sat_now(self):
        if self.model is not None:
            return True
        ok = self._check()
        if ok:
            self.model = self.last_model
        return ok

    def branch(self, e):
        """ Decide a symbolic condition, forking when both outcomes are feasible. """
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(v)
            self.add(e if v else z3.Not(e))
            return v
        # one side is witnessed by the cached model
        if self.model is None and not self._sat_now():
            raise PathDone()
        val = self.model.eval(e, model_completion=True)
        if z3.is_true(val):
            can_t, can_f = True, self._check(z3.Not(e))
            other_model = self.last_model if can_f else None
        else:
            can_f, can_t = True, self._check(e)
            other_model = self.last_model if can_t else None
        if can_t and can_f:
            self.pending.append(self.trace + [False])
            if z3.is_false(val):
                self.model = other_model
            self.trace.append(True)
            self.stats['forks'] += 1
            self.solver.add(e)
            return True
        v = can_t
        self.trace.append(v)
        self.solver.add(e if v else z3.Not(e))
        return v

    def concretize(self, e, to_py):
        """ Fork over every feasible value of e (an Int/Real term); returns a Python value. """
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return to_py(e)
        if z3.is_rational_value(e):
            return to_py(e)
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(v)
            self.add(e == v)
            return to_py(z3.IntVal(v))
        values = []
        block = []
        t = time.time()
        self.solver.push()
        while True:
            r = self.solver.check()
            self.stats['queries'] += 1
            if r == z3.unknown:
                self.solver.pop()
                raise Unsupported('solver unknown in concretize')
            if r == z3.unsat:
                break
            m = self.solver.model()
            v = m.eval(e, model_completion=True)
            if not z3.is_int_value(v):
                self.solver.pop()
                raise Unsupported('non-integer concretisation')
            values.append(v.as_long())
            if len(values) > MAX_VALUES:
                self.solver.pop()
                raise Unsupported('concretisation over an unbounded domain')
            self.solver.add(e != v)
        self.solver.pop()
        self.stats['solver_s'] += time.time() - t
        if not values:
            raise PathDone()
        values.sort()
        if len(values) > 1:
            self.stats['forks'] += len(values) - 1
        for v in values[1:]:
            self.pending.append(self.trace + [v])
        v = values[0]
        self.trace.append(v)
        self.add(e == v)
        return to_py(z3.IntVal(v))

    def choose(self, var, n):
        """ Fork over a fresh selector variable 0 <= var < n (all values feasible by construction). """
        if n == 0:
            raise PathDone()
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
        else:
            v = 0
            for k in range(1, n):
                self.pending.append(self.trace + [k])
            self.stats['forks'] += n - 1
        self.trace.append(v)
        self.solver.add(var == v)
        self.model = None
        return v

    # ---- assertions ----------------------------------------------------------------------------
    def prove(self, cond):
        """ None if pc -> cond is valid, otherwise a model of pc and not cond. """
        e = as_z3_bool(cond)
        if e is True:
            self.stats['trivial'] += 1
            return None
        if e is not False:
            e = z3.simplify(e)
        self.stats['asserts'] += 1
        neg = z3.BoolVal(True) if e is False else z3.Not(e)
        if self._check(neg):
            # prefer a model whose real inputs are exact binary fractions
            extra = []
            for name, (kind, v, _) in self.vars.items():
                if kind == 'real':
                    k = z3.Int('dy!' + name)
                    extra += [v * 64 == z3.ToReal(k), k <= 4096, k >= -4096]
            m = self.last_model
            if extra:
                try:
                    if self._check(neg, *extra):
                        m = self.last_model
                except Unsupported:
                    pass
            return m
        return None

    def model_inputs(self, m):
        out = {}
        for name, (kind, v, extra) in self.vars.items():
            val = m.eval(v, model_completion=True)
            if kind == 'real':
                if z3.is_algebraic_value(val):
                    val = val.approx(20)
                fr = Fraction(val.numerator_as_long(), val.denominator_as_long())
                out[name] = [fr.numerator, fr.denominator]
            else:
                out[name] = val.as_long()
        return out


def eng():
    e = Engine.cur
    if e is None:
        raise Unsupported('symbolic value used outside of a path')
    return e


def as_z3_bool(c):
    if isinstance(c, SymBool):
        return c.e
    if isinstance(c, bool):
        return c
    if isinstance(c, z3.BoolRef):
        return c
    if c is NotImplemented:
        raise Unsupported('NotImplemented as a condition')
    return bool(c)


# ------------------------------------------------------------------------------------- proxies
class Sym:
    __slots__ = ()

    def __format__(self, spec):
        raise Unsupported('format of a symbolic value')

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')


class SymBool(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return eng().branch(self.e)

    def __and__(self, o):
        return SymBool(z3.And(self.e, _b(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.e, _b(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.e, _b(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return SymBool(self.e == _b(o))
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0))) == o

    def __ne__(self, o):
        return SymBool(z3.Not((self == o).e))

    def __hash__(self):
        return hash(bool(self))

    def _i(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._i() + o

    def __radd__(self, o):
        return o + self._i()

    def __mul__(self, o):
        return self._i() * o

    def __rmul__(self, o):
        return o * self._i()

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __lt__(self, o):
        return self._i() < o

    def __gt__(self, o):
        return self._i() > o

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __str__(self):
        return str(bool(self))
    __repr__ = __str__


def _b(o):
    r = as_z3_bool(o)
    return z3.BoolVal(r) if isinstance(r, bool) else r


def _num(o):
    """ z3 term of a number, or None. """
    if isinstance(o, (SymInt, SymReal)):
        return o.e
    if isinstance(o, SymBool):
        return o._i().e
    if isinstance(o, bool):
        return z3.IntVal(int(o))
    if isinstance(o, int):
        return z3.IntVal(o)
    if isinstance(o, float):
        if o != o or o in (float('inf'), float('-inf')):
            return None
        f = Fraction(o)
        return z3.Q(f.numerator, f.denominator)
    if isinstance(o, Fraction):
        return z3.Q(o.numerator, o.denominator)
    try:                      # sympy numbers
        import sympy
        if isinstance(o, sympy.Integer):
            return z3.IntVal(int(o))
        if isinstance(o, sympy.Rational):
            return z3.Q(int(o.p), int(o.q))
    except ImportError:
        pass
    return None


def _wrap(e):
    return SymInt(e) if e.sort() == z3.IntSort() else SymReal(e)


def _real(e):
    return z3.ToReal(e) if e.sort() == z3.IntSort() else e


class _SymNum(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def _bin(self, o, f):
        x = _num(o)
        if x is None:
            return NotImplemented
        a, b = self.e, x
        if a.sort() != b.sort():
            a, b = _real(a), _real(b)
        return f(a, b)

    def __add__(self, o):
        return self._w(self._bin(o, lambda a, b: a + b))

    def __radd__(self, o):
        return self._w(self._bin(o, lambda a, b: b + a))

    def __sub__(self, o):
        return self._w(self._bin(o, lambda a, b: a - b))

    def __rsub__(self, o):
        return self._w(self._bin(o, lambda a, b: b - a))

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        return self._w(self._bin(o, lambda a, b: a * b))
    __rmul__ = __mul__

    @staticmethod
    def _w(r):
        return r if r is NotImplemented else _wrap(r)

    def __truediv__(self, o):
        x = _num(o)
        if x is None:
            return NotImplemented
        if SymBool(x == 0):
            raise ZeroDivisionError('division by zero')
        return SymReal(_real(self.e) / _real(x))

    def __rtruediv__(self, o):
        x = _num(o)
        if x is None:
            return NotImplemented
        if SymBool(self.e == 0):
            raise ZeroDivisionError('division by zero')
        return SymReal(_real(x) / _real(self.e))

    def __neg__(self):
        return _wrap(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return _wrap(z3.If(self.e >= 0, self.e, -self.e))

    def _cmp(self, o, f):
        r = self._bin(o, f)
        return r if r is NotImplemented else SymBool(r)

    def __lt__(self, o):
        if isinstance(o, float) and o in (float('inf'), float('-inf')):
            return o > 0
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        if isinstance(o, float) and o in (float('inf'), float('-inf')):
            return o < 0
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __bool__(self):
        return eng().branch(self.e != 0)


class SymInt(_SymNum):
    __slots__ = ()

    def __index__(self):
        return eng().concretize(self.e, lambda v: v.as_long())

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        return hash(self.__index__())

    def __str__(self):
        return str(self.__index__())

    __repr__ = __str__

    def __format__(self, spec):
        return format(self.__index__(), spec)

    def _divmod_ok(self, o):
        x = _num(o)
        if x is None or x.sort() != z3.IntSort():
            raise Unsupported('division of symbolic integers')
        if SymBool(x == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        if not SymBool(x > 0):
            raise Unsupported('division by a negative integer')
        return x

    def __floordiv__(self, o):
        return SymInt(self.e / self._divmod_ok(o))

    def __mod__(self, o):
        return SymInt(self.e % self._divmod_ok(o))

    def __rfloordiv__(self, o):
        return SymInt(_num(o)) // self

    def __rmod__(self, o):
        return SymInt(_num(o)) % self

    def __divmod__(self, o):
        return self // o, self % o

    def __and__(self, o):
        if isinstance(o, int) and o == 1:
            return SymInt(self.e % 2)
        return self.__index__() & o

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 3:
            r = z3.IntVal(1)
            for _ in range(o):
                r = r * self.e
            return SymInt(r)
        return self.__index__() ** o

    def __rpow__(self, o):
        if isinstance(o, (int, float)) and o == -1:
            r = SymInt(z3.If(self.e % 2 == 0, z3.IntVal(1), z3.IntVal(-1)))
            return r if isinstance(o, int) else SymReal(_real(r.e))
        return o ** self.__index__()


class SymReal(_SymNum):
    __slots__ = ()

    def __float__(self):
        raise Unsupported('float() of a symbolic real')

    def __int__(self):
        raise Unsupported('int() of a symbolic real')

    def __hash__(self):
        raise Unsupported('hash of a symbolic real')

    def __str__(self):
        raise Unsupported('str of a symbolic real')

    def __repr__(self):
        return '<symbolic real>'

    def as_integer_ratio(self):
        raise Unsupported('as_integer_ratio of a symbolic real')


class SymFraction(SymReal):
    """ fractions.Fraction of a symbolic real: exact for denominators up to the limit asked for """
    __slots__ = ('ids',)
    registry = {}             # token -> (role, fraction expression)
    enabled = [False]

    def limit_denominator(self, n=1000000):
        if n < 1000000:
            raise Unsupported('limit_denominator of a symbolic real')
        return self

    def _tokens(self):
        if not SymFraction.enabled[0]:
            raise Unsupported('text of a symbolic fraction')
        k = len(SymFraction.registry) // 2
        a, b = f'\u27e6n{k}\u27e7', f'\u27e6d{k}\u27e7'
        SymFraction.registry[a] = ('n', self.e)
        SymFraction.registry[b] = ('d', self.e)
        return a, b

    @property
    def numerator(self):
        return FracPart(self, 0)

    @property
    def denominator(self):
        return FracPart(self, 1)

    def is_integer(self):
        return bool(SymBool(z3.IsInt(self.e)))

    def __str__(self):
        a, b = self._get()
        return a if self.is_integer() else f'{a}/{b}'

    __repr__ = __str__

    def __format__(self, spec):
        if spec:
            raise Unsupported('format of a symbolic fraction')
        return str(self)

    def _get(self):
        try:
            return self.ids
        except AttributeError:
            self.ids = self._tokens()
            return self.ids

    def __neg__(self):
        return SymFraction(-self.e)

    def __abs__(self):
        return SymFraction(SymReal.__abs__(self).e)


class FracPart(Sym):
    def __init__(self, f, k):
        self.f, self.k = f, k

    def __str__(self):
        if self.f.is_integer():
            return self.f._get()[0] if self.k == 0 else '1'
        return self.f._get()[self.k]

    __repr__ = __str__

    def __format__(self, spec):
        if spec:
            raise Unsupported('format of a symbolic fraction')
        return str(self)

    def __eq__(self, o):
        if self.k == 1 and isinstance(o, int):
            if o == 1:
                return SymBool(z3.IsInt(self.f.e))
            if o < 1:
                return False
        if self.k == 0 and isinstance(o, int) and o == 0:
            return SymBool(self.f.e == 0)
        raise Unsupported('numerator of a symbolic fraction')

    def __ne__(self, o):
        r = self == o
        return SymBool(z3.Not(r.e)) if isinstance(r, SymBool) else not r

    def __lt__(self, o):
        if self.k == 0 and isinstance(o, int) and o == 0:
            return SymBool(self.f.e < 0)
        raise Unsupported('numerator of a symbolic fraction')

    def __gt__(self, o):
        if self.k == 0 and isinstance(o, int) and o == 0:
            return SymBool(self.f.e > 0)
        if self.k == 1 and isinstance(o, int) and o == 1:
            return SymBool(z3.Not(z3.IsInt(self.f.e)))
        raise Unsupported('numerator of a symbolic fraction')

    def __hash__(self):
        raise Unsupported('hash of a symbolic fraction')


class _FractionMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (_Fraction, SymFraction))

    def __call__(cls, *a, **k):
        if len(a) == 1 and isinstance(a[0], SymInt):
            return SymFraction(_real(a[0].e))
        if len(a) == 1 and isinstance(a[0], SymReal):
            return SymFraction(a[0].e)
        return _Fraction(*a, **k)

    def __getattr__(cls, n):
        return getattr(_Fraction, n)


class FractionShim(metaclass=_FractionMeta):
    pass


SPACES = ['g', 'p', 'h', 'v', 'c', 'a', 'G', 'P', 'H', 'V', 'C', 'A']
CODE = {s: i for i, s in enumerate(SPACES)}


class SymSpace(Sym):
    """ A symbolic orbital-space label (one character out of SPACES). """
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def _o(self, o):
        if isinstance(o, SymSpace):
            return o.e
        if isinstance(o, str):
            return z3.IntVal(CODE[o]) if o in CODE else None
        return None

    def __eq__(self, o):
        x = self._o(o)
        return False if x is None else SymBool(self.e == x)

    def __ne__(self, o):
        x = self._o(o)
        return True if x is None else SymBool(self.e != x)

    def conc(self):
        return SPACES[eng().concretize(self.e, lambda v: v.as_long())]

    def _lex(self, o, f):
        """ lexicographic order of the characters """
        x = self._o(o)
        if x is None:
            return f(self.conc(), str(o))
        def rank(t):
            r = z3.IntVal(0)
            for s, k in CODE.items():
                r = z3.If(t == k, z3.IntVal(ord(s)), r)
            return r
        return SymBool(f(rank(self.e), rank(x)))

    def __lt__(self, o):
        return self._lex(o, lambda a, b: a < b)

    def __gt__(self, o):
        return self._lex(o, lambda a, b: a > b)

    def __le__(self, o):
        return self._lex(o, lambda a, b: a <= b)

    def __ge__(self, o):
        return self._lex(o, lambda a, b: a >= b)

    def __hash__(self):
        return hash(self.conc())

    def __str__(self):
        return self.conc()

    __repr__ = __str__

    def __format__(self, spec):
        return format(self.conc(), spec)

    def lower(self):
        return SymSpace(z3.If(self.e >= 6, self.e - 6, self.e))

    def upper(self):
        return SymSpace(z3.If(self.e >= 6, self.e, self.e + 6))

    def swapcase(self):
        return SymSpace(z3.If(self.e >= 6, self.e - 6, self.e + 6))

    casefold = lower

    def isupper(self):
        return SymBool(self.e >= 6)

    def islower(self):
        return SymBool(self.e < 6)

    def isalpha(self):
        return True

    def isdigit(self):
        return False

    def __len__(self):
        return 1

    def __getitem__(self, k):
        return self.conc()[k]

    def __iter__(self):
        return iter((self,))

    def __contains__(self, o):
        return o == '' or bool(self == o)

    def __add__(self, o):
        if isinstance(o, SymDigits):
            return SymName(self, o)
        if isinstance(o, SymInt):
            raise TypeError('can only concatenate str to str')
        return self.conc() + o

    def __radd__(self, o):
        return o + self.conc()

    def encode(self, *a):
        return self.conc().encode(*a)


class SymDigits(Sym):
    """ The digit string of a symbolic index; d is a list of symbolic digits or None (opaque number). """
    __slots__ = ('number', 'd')

    def __init__(self, number, d=None):
        self.number = number
        self.d = d

    def isdigit(self):
        return True

    isdecimal = isnumeric = isdigit

    def isalpha(self):
        return False

    def lower(self):
        return self

    upper = lower

    def strip(self, *a):
        return self

    def __len__(self):
        if self.d is None:
            raise Unsupported('length of an opaque digit string')
        return len(self.d)

    def __eq__(self, o):
        if isinstance(o, SymDigits) and self.d is not None and o.d is not None:
            if len(self.d) != len(o.d):
                return False
            return SymBool(z3.And([a == b for a, b in zip(self.d, o.d)]))
        if isinstance(o, SymDigits):
            return SymBool(self.number.e == o.number.e)
        if isinstance(o, str):
            return str(self) == o
        return False

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash(str(self))

    def __str__(self):
        if self.d is not None:
            return ''.join(str(SymInt(x)) for x in self.d)
        return str(self.number)

    __repr__ = __str__

    def __format__(self, spec):
        return format(str(self), spec)


class SymName(Sym):
    """ A symbolic index name: space label followed by digits.  Printing yields a unique token. """
    __slots__ = ('space', 'digits', 'token')
    registry = {}

    def __init__(self, space, digits, token=None):
        self.space, self.digits = space, digits
        self.token = token
        if token is not None:
            SymName.registry[token] = self

    def __getitem__(self, k):
        if k == 0:
            return self.space
        if isinstance(k, slice) and k == slice(1, None, None):
            return self.digits
        if isinstance(k, slice) and k in (slice(None, 1, None), slice(0, 1, None)):
            return self.space
        raise Unsupported('subscript of a symbolic name')

    def __iter__(self):
        raise Unsupported('iteration over a symbolic name')

    def upper(self):
        return SymName(self.space.upper(), self.digits)

    def lower(self):
        return SymName(self.space.lower(), self.digits)

    def strip(self, *a):
        return self

    def isupper(self):
        return self.space.isupper()

    def islower(self):
        return self.space.islower()

    def __eq__(self, o):
        if isinstance(o, SymName):
            return SymBool(z3.And(_b(self.space == o.space), _b(self.digits == o.digits)))
        if isinstance(o, str):
            return str(self) == o
        return False

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash(str(self))

    def __str__(self):
        if self.token is not None:
            return self.token
        return str(self.space) + str(self.digits)

    __repr__ = __str__

    def __format__(self, spec):
        return format(str(self), spec)


class SymHash(Sym):
    """ Value of the free (injective) hash function on a structure with symbolic parts. """
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = key

    def same(self, o):
        return structural_eq(self.key, o.key)


def structural_eq(a, b):
    """ z3 condition that two hashed structures are the same value. """
    if isinstance(a, SymHash) and isinstance(b, SymHash):
        return structural_eq(a.key, b.key)
    if isinstance(a, FrozenKey) and isinstance(b, FrozenKey):
        sub = lambda p, q: [z3.Or([z3.BoolVal(False)] + [structural_eq(i, j) for j in q.items]) for i in p.items]
        return z3.And([z3.BoolVal(True)] + sub(a, b) + sub(b, a))
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return z3.BoolVal(False)
        return z3.And([z3.BoolVal(True)] + [structural_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, tuple) or isinstance(b, tuple):
        return z3.BoolVal(False)
    r = (a == b)
    return _b(r)


def has_sym(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, (tuple, list, frozenset, set)):
        return any(has_sym(i) for i in x)
    return False


# ------------------------------------------------------------------------------- shadowed builtins
class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or isinstance(x, SymInt)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __call__(cls, *a, **k):
        if a and isinstance(a[0], SymDigits):
            return a[0].number
        if a and isinstance(a[0], SymInt) and len(a) == 1:
            return a[0]
        if a and isinstance(a[0], SymBool) and len(a) == 1:
            return a[0]._i()
        return int(*a, **k)

    def __eq__(cls, o):
        return o is int or o is cls

    def __hash__(cls):
        return hash(int)


class IntShim(metaclass=_IntMeta):
    pass


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or isinstance(x, SymReal)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __call__(cls, *a, **k):
        if a and isinstance(a[0], SymReal):
            return a[0]
        if a and isinstance(a[0], SymInt):
            return SymReal(_real(a[0].e))
        return float(*a, **k)

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)


class FloatShim(metaclass=_FloatMeta):
    pass


class _StrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (str, SymSpace, SymName, SymDigits))

    def __subclasscheck__(cls, c):
        return issubclass(c, str)

    def __call__(cls, *a, **k):
        return str(*a, **k)

    def __getattr__(cls, n):
        return getattr(str, n)

    def __eq__(cls, o):
        return o is str or o is cls

    def __hash__(cls):
        return hash(str)


_KIND = {int: IntShim, float: FloatShim, str: None}


class StrShim(metaclass=_StrMeta):
    pass


_KIND[str] = StrShim


def isinstance_shim(x, t):
    if isinstance(x, Sym):
        import numbers
        ts = t if isinstance(t, tuple) else (t,)
        for k in ts:
            if k in (int, IntShim) and isinstance(x, SymInt):
                return True
            if k in (float, FloatShim) and isinstance(x, SymReal):
                return True
            if k in (str, StrShim) and isinstance(x, (SymSpace, SymName, SymDigits)):
                return True
            if k is bool and isinstance(x, SymBool):
                return True
            if k in (numbers.Number, numbers.Real, numbers.Complex) and isinstance(x, (SymInt, SymReal)):
                return True
            if k in (numbers.Integral, numbers.Rational) and isinstance(x, SymInt):
                return True
            if isinstance(x, k):
                return True
        return False
    return isinstance(x, t)


def isclose_shim(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return _isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    x, y = _real(_num(a)), _real(_num(b))
    ab = lambda t: z3.If(t >= 0, t, -t)
    mx = lambda s, t: z3.If(s >= t, s, t)
    tol = mx(_num(float(rel_tol)) * mx(ab(x), ab(y)), _real(_num(float(abs_tol))))
    return SymBool(ab(x - y) <= tol)


import math as _math
_isclose = _math.isclose


HASH_MODE = [False]      # True while the harness asks for the structure that is hashed
INDEX_HASH = [None, None]     # Index class, its real __hash__


def _hash_key(x):
    if isinstance(x, (Sym, str, int, float, type(None))):
        return x
    if isinstance(x, tuple):
        return tuple(_hash_key(i) for i in x)
    if isinstance(x, frozenset):
        return FrozenKey([_hash_key(i) for i in x])
    if INDEX_HASH[0] is not None and isinstance(x, INDEX_HASH[0]):
        return _hash_key(INDEX_HASH[1](x))
    h = type(x).__hash__(x)
    return h


class FrozenKey:
    def __init__(self, items):
        self.items = items


def hash_shim(x):
    if HASH_MODE[0]:
        k = _hash_key(x)
        return k if isinstance(k, SymHash) else SymHash(k)
    if has_sym(x):
        return 0             # containers are decided by __eq__
    return hash(x)


class SymTable(dict):
    """ A label table (copied from the real one) that accepts a symbolic label as key. """

    def __getitem__(self, k):
        if isinstance(k, SymSpace):
            vals = list(self.items())
            if vals and all(isinstance(v, int) for _, v in vals):
                feas = [(s, v) for s, v in vals if s in CODE]
                missing = z3.And([k.e != CODE[s] for s, _ in feas])
                if SymBool(missing):
                    raise KeyError(k.conc())
                r = z3.IntVal(feas[-1][1])
                for s, v in feas[:-1]:
                    r = z3.If(k.e == CODE[s], z3.IntVal(v), r)
                return SymInt(r)
            return dict.__getitem__(self, k.conc())
        return dict.__getitem__(self, k)

    def __contains__(self, k):
        if isinstance(k, SymSpace):
            return bool(SymBool(z3.Or([k.e == CODE[s] for s in self if s in CODE])))
        return dict.__contains__(self, k)

    def get(self, k, d=None):
        return self[k] if k in self else d
