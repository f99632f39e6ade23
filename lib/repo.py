"""
Load dsrg_generator from /repo's current sources.

concrete=True : plain import, nothing patched (used for replays on the project's own interpreter).
concrete=False: same sources, but label tables accept symbolic labels, a few builtins are shadowed in the
                modules' globals, and process pools run their tasks in-process in a solver-chosen order.
"""
import collections
import collections.abc
import os
import sys
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
MODULES = ['mo_space', 'Index', 'Indices', 'IndicesPair', 'SQOperator', 'Tensor', 'Term', 'sqop_contraction',
           'phys_op_contraction', 'write_forte_functions', 'helper.integer_partition', 'helper.file_utils',
           'helper.multiprocess_helper', 'helper.Timer']


class Namespace:
    pass


def _alias():
    for n in ('Sequence', 'Iterable', 'Mapping', 'Hashable', 'Callable', 'MutableSequence', 'Set', 'Iterator',
              'Sized', 'Container', 'Generator'):
        if not hasattr(collections, n):
            setattr(collections, n, getattr(collections.abc, n))


def load(concrete):
    import importlib
    _alias()
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    orig = {}
    if not concrete:
        pkg = types.ModuleType('dsrg_generator')
        pkg.__path__ = [os.path.join(REPO, 'dsrg_generator')]
        pkg.__file__ = os.path.join(REPO, 'dsrg_generator', '__init__.py')
        sys.modules['dsrg_generator'] = pkg
        from lib import symx
        import math
        math.isclose = symx.isclose_shim
        import multiprocessing
        mo = importlib.import_module('dsrg_generator.mo_space')
        tables = {}
        for k, v in list(vars(mo).items()):
            if type(v) is dict and v and all(isinstance(x, str) and x in symx.CODE for x in v):
                if id(v) not in tables:
                    tables[id(v)] = symx.SymTable(v)
                setattr(mo, k, tables[id(v)])
    R = Namespace()
    for m in MODULES:
        try:
            setattr(R, m.split('.')[-1] + '_mod', importlib.import_module('dsrg_generator.' + m))
        except ModuleNotFoundError as e:
            if m.startswith('helper'):
                continue
            raise
    if not concrete:
        src = open(sys.modules['dsrg_generator'].__file__).read()
        exec(compile(src, sys.modules['dsrg_generator'].__file__, 'exec'), sys.modules['dsrg_generator'].__dict__)
    try:
        R.SpaceCounter_mod = importlib.import_module('SpaceCounter')
    except Exception as e:                       # reported by the property that uses it
        R.SpaceCounter_mod = None
        R.SpaceCounter_error = repr(e)
    if not concrete:
        orig = _shadow()
    R.orig = orig
    _collect(R)
    R.state = None if concrete else State()
    return R


def _collect(R):
    R.Index = R.Index_mod.Index
    I = R.Indices_mod
    R.Indices = I.Indices
    R.IndicesSpinOrbital = I.IndicesSpinOrbital
    R.IndicesSpinIntegrated = I.IndicesSpinIntegrated
    R.IndicesSpinAdapted = I.IndicesSpinAdapted
    R.IndicesAntisymmetric = I.IndicesAntisymmetric
    R.IndicesPair = R.IndicesPair_mod.IndicesPair
    R.SQ = R.SQOperator_mod.SecondQuantizedOperator
    T = R.Tensor_mod
    for n in ('Tensor', 'Cumulant', 'HoleDensity', 'Kronecker', 'ClusterAmplitude', 'HamiltonianTensor'):
        setattr(R, n, getattr(T, n))
    R.Term = R.Term_mod.Term
    R.mo = R.mo_space_mod
    R.sqc = R.sqop_contraction_mod
    R.phys = R.phys_op_contraction_mod
    R.forte = R.write_forte_functions_mod


def _repo_modules():
    return [m for n, m in list(sys.modules.items())
            if m is not None and (n == 'SpaceCounter' or n.startswith('dsrg_generator'))]


def _shadow():
    from lib import symx
    import multiprocessing
    orig = {}
    for m in _repo_modules():
        d = vars(m)
        d['isinstance'] = symx.isinstance_shim
        d.setdefault('int', symx.IntShim)
        d.setdefault('float', symx.FloatShim)
        d.setdefault('hash', symx.hash_shim)
        if d.get('Fraction') is symx._Fraction:
            d['Fraction'] = symx.FractionShim
        if d.get('isclose') is symx._isclose:
            d['isclose'] = symx.isclose_shim
    Index = sys.modules['dsrg_generator.Index'].Index
    orig['Index.__hash__'] = Index.__hash__
    orig['Index.__init__'] = Index.__init__

    real_init = Index.__init__

    def init(self, name, *a, **k):
        if type(name) is str and name in symx.SymName.registry:
            name = symx.SymName.registry[name]
        real_init(self, name, *a, **k)

    real_repr = Index.__repr__

    def rep(self):
        out = real_repr(self)
        return out if isinstance(out, str) else str(out)

    Index.__init__ = init
    Index.__repr__ = rep
    real_hash = Index.__hash__
    symx.INDEX_HASH[:] = [Index, real_hash]

    def hsh(self):
        # all sets and dictionaries keyed by indices are decided by __eq__ while symbolic indices exist
        if symx.SymName.registry:
            return 0
        return real_hash(self)

    Index.__hash__ = hsh
    multiprocessing.Pool = StubPool
    for m in _repo_modules():
        if vars(m).get('Pool') is not None:
            vars(m)['Pool'] = StubPool
    return orig


class State:
    """ Module-level containers, class attributes, default arguments and caches of the repository, put back before every path
    so that paths are independent of each other (as separate processes would be). """

    def __init__(self):
        self.saved, self.caches = [], []
        self.seen = set()
        self.scan()

    def scan(self):
        for m in _repo_modules():
            for k, v in list(vars(m).items()):
                if k.startswith('__'):
                    continue
                self.visit(v)
                if isinstance(v, type) and str(getattr(v, '__module__', '')).split('.')[0] in ('dsrg_generator', 'SpaceCounter'):
                    for a in list(vars(v).values()):
                        self.visit(getattr(a, '__func__', getattr(a, 'fget', a)))

    def visit(self, v):
        if id(v) in self.seen:
            return
        self.seen.add(id(v))
        if isinstance(v, (dict, list, set)):
            self.saved.append((v, v.copy() if type(v) in (dict, list, set) else dict(v) if isinstance(v, dict) else list(v)))
            for x in list(v.values() if isinstance(v, dict) else v):
                if isinstance(x, (dict, list, set)):
                    self.visit(x)
        elif isinstance(v, types.FunctionType):
            for x in (v.__defaults__ or ()) + tuple((v.__kwdefaults__ or {}).values()):
                if isinstance(x, (dict, list, set)):
                    self.visit(x)
        elif callable(getattr(v, 'cache_clear', None)) and hasattr(v, '__wrapped__'):
            self.caches.append(v)

    def restore(self):
        for v, s in self.saved:
            if isinstance(v, dict):
                if len(v) != len(s) or any(k not in v or v[k] is not x for k, x in s.items()):
                    dict.clear(v)
                    dict.update(v, s)
            elif isinstance(v, set):
                if len(v) != len(s) or v != s:
                    v.clear()
                    v.update(s)
            elif len(v) != len(s) or any(a is not b for a, b in zip(v, s)):
                v[:] = s
        for c in self.caches:
            c.cache_clear()


class StubPool:
    """ A process pool whose unordered results come back in any order (chosen by the harness' selector). """
    chooser = None

    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def imap_unordered(self, f, tasks, chunksize=1):
        res = [f(t) for t in tasks]
        if StubPool.chooser is not None:
            res = StubPool.chooser(res)
        return iter(res)

    def imap(self, f, tasks, chunksize=1):
        return iter([f(t) for t in tasks])

    def map(self, f, tasks, chunksize=None):
        return [f(t) for t in tasks]

    def starmap(self, f, tasks, chunksize=None):
        return [f(*t) for t in tasks]

    def apply(self, f, args=(), kwds={}):
        return f(*args, **kwds)

    def close(self):
        pass

    join = terminate = close
