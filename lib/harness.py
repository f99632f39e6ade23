"""
Scenario driver: explores every path of a scenario symbolically (python3-vt + z3), or runs it once on the
concrete inputs of a counterexample (any interpreter, no z3).
"""
import collections
import importlib
import itertools
import json
import os
import sys
import time
import traceback
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, 'evidence')
PYPY = '/opt/venv/bin/python'


KNOWN_KEYS = set()            # keys of the findings listed in KNOWN_FINDINGS.txt


class Scenario:
    def __init__(self, name, fn, bounds='', lazy=True, limit=None, **params):
        self.name, self.fn, self.bounds, self.lazy, self.params = name, fn, bounds, lazy, params
        self.limit = limit


class CheckFailed(BaseException):
    def __init__(self, msg, key=None):
        BaseException.__init__(self, msg)
        self.msg, self.key = msg, key


class Skip(BaseException):
    """ Concrete run: the inputs do not satisfy an assumption. """


class Diverged(BaseException):
    """ Concrete run: asks for an input the recorded path never had. """


class BaseCtx:
    """ Interface shared by symbolic and concrete execution. """
    concrete = True

    def __init__(self, R, params):
        self.R = R
        self.p = params

    def indices(self, prefix, n, labels, lo=0, hi=None, eager_hi=2):
        return [self.index(f'{prefix}{k}', labels, lo, hi, eager_hi) for k in range(n)]

    def flag(self, name):
        return bool(self.pick(name, [False, True]))

    def perm(self, name, n):
        left = list(range(n))
        out = []
        for k in range(n - 1):
            i = self.pick(f'{name}.{k}', list(range(len(left))))
            out.append(left.pop(i))
        return out + left

    def subset(self, name, items):
        return [x for k, x in enumerate(items) if self.flag(f'{name}.{k}')]

    def raises(self, excs, fn):
        """ True if fn raises one of excs. """
        try:
            fn()
        except excs:
            return True
        return False

    def check_eq(self, a, b, msg, key=None):
        self.check(self.eq(a, b), msg + f': {a!r} vs {b!r}' if self.concrete else msg, key)


class ConcreteCtx(BaseCtx):
    concrete = True
    lazy = False

    def __init__(self, R, params, inputs):
        BaseCtx.__init__(self, R, params)
        self.inp = inputs
        self.log = []

    def _get(self, name):
        if name not in self.inp:
            raise Diverged(name)
        return self.inp[name]

    def pick(self, name, options):
        if not options:
            raise Skip()
        v = self._get(name)
        if not 0 <= v < len(options):
            raise Diverged(name)
        self.log.append((name, repr(options[v])))
        return options[v]

    def int(self, name, lo=None, hi=None, eager=None):
        return self._get(name)

    def real(self, name, eager=None):
        v = self._get(name)
        if isinstance(v, list):
            return float(Fraction(v[0], v[1]))
        return float(v)

    def space(self, name, labels):
        from lib.oracle import SPACES
        return SPACES[self._get(name)]

    def index(self, name, labels, lo=0, hi=None, eager_hi=2):
        s = self.space(name + '.s', labels)
        return self.R.Index(f"{s}{self._get(name + '.n')}")

    def name(self, name, labels, ndigits):
        s = self.space(name + '.s', labels)
        k = self.pick(name + '.len', list(ndigits))
        return s + ''.join(str(self._get(f'{name}.d{i}')) for i in range(k))

    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, c, msg, key=None):
        if not c:
            raise CheckFailed(msg, key)

    def all(self, cs):
        return all(bool(c) for c in cs)

    def any(self, cs):
        return any(bool(c) for c in cs)

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def eq(self, a, b):
        return bool(a == b)

    def zero(self, x, scale=1):
        """ x is zero (within rounding of the real code's floats) """
        return abs(float(x)) <= 1e-9 * max(1.0, float(scale))

    def hash_of(self, obj):
        return hash(obj)

    def same_hash(self, a, b):
        return a == b

    def num(self, x):
        return Fraction(x)

    def rank(self, space):
        from lib.oracle import PRIORITY
        return PRIORITY[space]


class SymCtx(BaseCtx):
    concrete = False

    def __init__(self, R, params, engine, mode):
        from lib import symx
        BaseCtx.__init__(self, R, params)
        self.x = symx
        self.z3 = symx.z3
        self.e = engine
        self.mode = mode          # 'lazy' or 'eager'
        self.lazy = mode == 'lazy'
        self.nassert = 0

    def _declare(self, name, kind, var, extra=None):
        if name in self.e.vars:
            raise RuntimeError(f'duplicate input {name}')
        self.e.vars[name] = (kind, var, extra)
        return var

    def pick(self, name, options):
        v = self._declare(name, 'int', self.z3.Int(name))
        return options[self.e.choose(v, len(options))]

    def int(self, name, lo=None, hi=None, eager=None):
        v = self._declare(name, 'int', self.z3.Int(name))
        if not self.lazy:
            vals = list(eager) if eager is not None else list(range(lo, hi + 1))
            k = self.e.choose(self.z3.Int(name + '!k'), len(vals))
            self.e.solver.add(v == vals[k])
            return vals[k]
        if lo is not None:
            self.e.add(v >= lo)
        if hi is not None:
            self.e.add(v <= hi)
        return self.x.SymInt(v)

    def real(self, name, eager=(1.0, -0.5, 0.25)):
        v = self._declare(name, 'real', self.z3.Real(name))
        if not self.lazy:
            k = self.e.choose(self.z3.Int(name + '!k'), len(eager))
            f = Fraction(eager[k])
            self.e.solver.add(v == self.z3.Q(f.numerator, f.denominator))
            return float(eager[k])
        return self.x.SymReal(v)

    def space(self, name, labels):
        v = self._declare(name, 'int', self.z3.Int(name))
        codes = [self.x.CODE[s] for s in labels]
        if not self.lazy:
            k = self.e.choose(self.z3.Int(name + '!k'), len(codes))
            self.e.solver.add(v == codes[k])
            return labels[k]
        if len(codes) == 1:
            self.e.add(v == codes[0])
            return self.x.SymSpace(self.z3.IntVal(codes[0]))
        lo, hi = min(codes), max(codes)
        self.e.add(self.z3.And(v >= lo, v <= hi))
        for c in range(lo, hi + 1):
            if c not in codes:
                self.e.add(v != c)
        return self.x.SymSpace(v)

    def index(self, name, labels, lo=0, hi=None, eager_hi=2):
        s = self.space(name + '.s', labels)
        if not self.lazy:
            if hi is None:          # unbounded numbers: include the step from one to two digits
                vals = tuple(lo + k for k in ((9,), (9, 10), (0, 9, 10), (0, 1, 9, 10))[min(eager_hi, 3)])
                n = self.int(name + '.n', lo, lo + 10, eager=vals)
            else:
                n = self.int(name + '.n', lo, min(hi, lo + eager_hi))
            return self.R.Index(f'{s}{n}')
        n = self.int(name + '.n', lo, hi)
        if hi is not None and hi == lo:
            n = self.x.SymInt(self.z3.IntVal(lo))
        return self.R.Index(self.x.SymName(s, self.x.SymDigits(n), token=f'\u00a4{name}\u00a4'))

    def name(self, name, labels, ndigits):
        """ an index name with explicit (possibly leading-zero) digits """
        s = self.space(name + '.s', labels)
        k = self.pick(name + '.len', list(ndigits))
        ds = []
        for i in range(k):
            d = self.int(f'{name}.d{i}', 0, 9, eager=(0, 1, 9))
            ds.append(d)
        if not self.lazy:
            return s + ''.join(map(str, ds))
        num = self.z3.IntVal(0)
        for d in ds:
            num = num * 10 + d.e
        self.x.SymName.registry.setdefault('\u00a4', None)
        return self.x.SymName(s, self.x.SymDigits(self.x.SymInt(num), [d.e for d in ds]))

    def assume(self, c):
        self.e.assume(c)

    def check(self, c, msg, key=None):
        self.nassert += 1
        m = self.e.prove(c)
        if m is not None:
            raise SymViolation(msg, key, self.e.model_inputs(m))

    def all(self, cs):
        cs = [self.x.as_z3_bool(c) for c in cs]
        if any(c is False for c in cs):
            return False
        cs = [c for c in cs if c is not True]
        return self.x.SymBool(self.z3.And(cs)) if cs else True

    def any(self, cs):
        cs = [self.x.as_z3_bool(c) for c in cs]
        if any(c is True for c in cs):
            return True
        cs = [c for c in cs if c is not False]
        return self.x.SymBool(self.z3.Or(cs)) if cs else False

    def not_(self, c):
        c = self.x.as_z3_bool(c)
        return (not c) if isinstance(c, bool) else self.x.SymBool(self.z3.Not(c))

    def implies(self, a, b):
        return self.any([self.not_(a), b])

    def iff(self, a, b):
        return self.x.SymBool(self.x._b(a) == self.x._b(b))

    def eq(self, a, b):
        r = (a == b)
        return False if r is NotImplemented else r

    def zero(self, x, scale=1):
        if isinstance(x, (int, float, Fraction)):
            return abs(float(x)) <= 1e-9 * max(1.0, float(scale) if not isinstance(scale, self.x.Sym) else 1.0)
        e = self.z3.simplify(x.e, som=True)
        tol = self.z3.Q(1, 10 ** 9)
        return self.x.SymBool(self.z3.And(e <= tol, e >= -tol))

    def hash_of(self, obj):
        """ the real hash, as a value of a free injective hash function of the hashed structure """
        self.x.HASH_MODE[0] = True
        try:
            h = self.x._hash_key(obj)
        finally:
            self.x.HASH_MODE[0] = False
        return h if isinstance(h, self.x.SymHash) else self.x.SymHash(h)

    def same_hash(self, a, b):
        if isinstance(a, self.x.SymHash) and isinstance(b, self.x.SymHash):
            return self.x.SymBool(a.same(b))
        if isinstance(a, self.x.SymHash) or isinstance(b, self.x.SymHash):
            raise self.x.Unsupported('mixed hashes')
        return a == b

    def finish(self):
        self.x.HASH_MODE[0] = False

    def num(self, x):
        if isinstance(x, self.x.Sym):
            return x
        return Fraction(x)

    def rank(self, space):
        """ reference position of a space label (oracle table, not the one of the code) """
        from lib.oracle import PRIORITY
        if isinstance(space, self.x.SymSpace):
            z = self.z3
            r = z.IntVal(0)
            for s, k in PRIORITY.items():
                r = z.If(space.e == self.x.CODE[s], z.IntVal(k), r)
            return self.x.SymInt(r)
        return PRIORITY[space]


class SymViolation(BaseException):
    def __init__(self, msg, key, inputs):
        BaseException.__init__(self, msg)
        self.msg, self.key, self.inputs = msg, key, inputs


# ------------------------------------------------------------------------------------- exploration
def new_stats():
    return collections.Counter({'queries': 0, 'solver_s': 0.0, 'unknown': 0, 'forks': 0, 'trivial': 0, 'asserts': 0,
                                'paths': 0, 'cut': 0})


def run_path(R, scen, mode, prefix, stats):
    """ One path. Returns (violation|None, pending prefixes, inputs of the path or None, status). """
    from lib import symx
    from lib import repo as repo_mod
    e = symx.Engine(prefix, stats)
    symx.Engine.cur = e
    symx.HASH_MODE[0] = False
    symx.SymName.registry.clear()
    symx.SymFraction.registry.clear()
    symx.SymFraction.enabled[0] = bool(scen.params.get('text'))
    R.state.restore()
    S = SymCtx(R, scen.params, e, mode)
    viol, status = None, 'ok'
    try:
        scen.fn(S)
        stats['paths'] += 1
    except symx.PathDone:
        stats['cut'] += 1
        status = 'cut'
    except SymViolation as v:
        stats['paths'] += 1
        viol = {'msg': v.msg, 'key': v.key, 'inputs': v.inputs}
        status = 'violation'
    except CheckFailed as v:
        raise
    except symx.Unsupported as u:
        status = 'unsupported'
        viol = {'msg': 'unsupported: %s' % u}
        if os.environ.get('VERIF_DEBUG'):
            viol['tb'] = traceback.format_exc()
    except RecursionError as ex:
        status = 'unsupported'
        viol = {'msg': 'recursion'}
    except Exception as ex:
        tb = traceback.format_exc()
        try:
            e.solver.check()
            inputs = e.model_inputs(e.solver.model())
            viol = {'msg': f'unexpected exception {type(ex).__name__}: {str(ex)[:300]}', 'key': None,
                    'inputs': inputs, 'tb': tb}
            status = 'violation'
        except symx.z3.Z3Exception:
            status = 'unsupported'
            viol = {'msg': 'no model for exception ' + tb}
    finally:
        symx.Engine.cur = None
        symx.SymName.registry.clear()
    inputs = None
    if status == 'ok' and S.nassert and (stats['paths'] in (1, 7, 29) or stats['paths'] % 211 == 0):
        symx.Engine.cur = e
        try:
            if e.solver.check() == symx.z3.sat:
                inputs = e.model_inputs(e.solver.model())
        finally:
            symx.Engine.cur = None
    stats['checked'] += 1 if S.nassert else 0
    return viol, e.pending, inputs, status


class FuncTracker:
    """ Which functions of /repo were executed symbolically (sys.monitoring, one event per code object). """

    def __init__(self):
        self.seen = set()
        from lib.repo import REPO
        self.root = REPO
        self.on = False
        if hasattr(sys, 'monitoring'):
            mon = sys.monitoring
            try:
                mon.use_tool_id(3, 'symx')
                mon.register_callback(3, mon.events.PY_START, self._cb)
                mon.set_events(3, mon.events.PY_START)
                self.on = True
            except ValueError:
                pass

    def _cb(self, code, off):
        if code.co_filename.startswith(self.root):
            self.seen.add(os.path.relpath(code.co_filename, self.root) + ':' + code.co_qualname)
        return sys.monitoring.DISABLE


def worker_main(conn, R, scens):
    import gc
    sys.stdout = open(os.devnull, 'w')
    sys.setrecursionlimit(20000)
    track = FuncTracker()
    while True:
        msg = conn.recv()
        if msg is None:
            return
        si, mode, prefixes, quantum = msg
        scen = scens[si]
        stats = new_stats()
        viols, samples, status = [], [], 'ok'
        t0 = time.time()
        stack = list(prefixes)
        err = None
        try:
            while stack:
                p = stack.pop()
                v, pend, inp, st = run_path(R, scen, mode, p, stats)
                stack.extend(pend)
                if inp is not None and len(samples) < 4:
                    samples.append(inp)
                if st == 'violation':
                    if v.get('key') in KNOWN_KEYS:
                        if not any(x.get('key') == v['key'] for x in viols):
                            viols.append(v)
                        continue
                    viols.append(v)
                    if sum(x.get('key') not in KNOWN_KEYS for x in viols) >= 4:
                        break
                if st == 'unsupported':
                    status = 'unsupported'
                    err = v
                    break
                if time.time() - t0 > quantum:
                    break
        except BaseException as ex:
            status = 'crash'
            err = {'msg': traceback.format_exc()}
        stats['cpu_s'] = time.time() - t0
        conn.send((si, mode, stack, dict(stats), viols, samples, status, err, sorted(track.seen)))
        track.seen.clear()


def explore(R, scens, budget, nproc=8, log=sys.stderr, quantum=1.5):
    """ Explore all scenarios; returns per-scenario results. """
    import multiprocessing
    mp = multiprocessing.get_context('fork')
    t0 = time.time()
    res = [dict(name=s.name, bounds=s.bounds, stats=new_stats(), viols=[], samples=[], mode='lazy' if s.lazy else 'eager',
                complete=True, error=None, fallback=None, todo=[[]], active=0, stop=False) for s in scens]
    funcs = set()
    workers = []
    for _ in range(nproc):
        a, b = mp.Pipe()
        p = mp.Process(target=worker_main, args=(b, R, scens), daemon=True)
        p.start()
        b.close()
        workers.append([p, a, None])
    from multiprocessing.connection import wait

    def next_task():
        cand = [i for i, r in enumerate(res) if r['todo'] and not r['stop']]
        if not cand:
            return None
        # scenarios with few active workers first
        i = min(cand, key=lambda k: (res[k]['active'], k))
        r = res[i]
        n = 1 if len(r['todo']) < 16 else min(32, len(r['todo']) // 8)
        # take the shallowest prefixes (largest subtrees) for balance
        take, r['todo'] = r['todo'][:n], r['todo'][n:]
        r['active'] += 1
        return (i, r['mode'], take, quantum)

    try:
        while True:
            if time.time() - t0 > budget:
                for r in res:
                    if r['todo'] or r['active']:
                        r['complete'] = False
                break
            for w in workers:
                if w[2] is None:
                    t = next_task()
                    if t is None:
                        break
                    w[1].send(t)
                    w[2] = t
            busy = [w for w in workers if w[2] is not None]
            if not busy:
                break
            ready = wait([w[1] for w in busy], timeout=1.0)
            for w in busy:
                if w[1] in ready:
                    try:
                        si, mode, stack, stats, viols, samples, status, err, seen = w[1].recv()
                    except EOFError:
                        i = w[2][0]
                        res[i]['error'] = 'worker died'
                        res[i]['stop'] = True
                        res[i]['active'] -= 1
                        a, b = mp.Pipe()
                        p = mp.Process(target=worker_main, args=(b, R, scens), daemon=True)
                        p.start()
                        b.close()
                        w[0], w[1], w[2] = p, a, None
                        continue
                    w[2] = None
                    r = res[si]
                    r['active'] -= 1
                    funcs.update(seen)
                    if mode != r['mode']:
                        continue                     # stale result from before a fallback
                    r['stats'].update(stats)
                    r['todo'].extend(stack)
                    for v in viols:
                        if v.get('key') in KNOWN_KEYS and any(x.get('key') == v['key'] for x in r['viols']):
                            continue
                        r['viols'].append(v)
                    if len(r['samples']) < 8:
                        r['samples'].extend(samples)
                    if status == 'unsupported':
                        if r['mode'] == 'lazy':
                            fallback(r, err['msg'])
                        else:
                            r['error'] = err['msg']
                            r['stop'] = True
                    elif status == 'crash':
                        r['error'] = err['msg']
                        r['stop'] = True
                    if sum(x.get('key') not in KNOWN_KEYS for x in r['viols']) >= 4:
                        r['stop'] = True
    finally:
        for w in workers:
            try:
                if w[2] is None:
                    w[1].send(None)
                else:
                    w[0].kill()
            except OSError:
                pass
        for w in workers:
            w[0].join(timeout=2)
            if w[0].is_alive():
                w[0].kill()
    return res, funcs


def fallback(r, why):
    r['fallback'] = why
    r['mode'] = 'eager'
    r['todo'] = [[]]
    r['stats'] = new_stats()
    r['viols'], r['samples'] = [], []
    r['stop'] = False


# ------------------------------------------------------------------------------------- concrete runs
def run_concrete(R, scen, inputs):
    """ 'ok' | 'skip' | ('fail', msg, key) """
    S = ConcreteCtx(R, scen.params, inputs)
    try:
        scen.fn(S)
        return ('ok', '', None, S.log)
    except Skip:
        return ('skip', '', None, S.log)
    except CheckFailed as c:
        return ('fail', c.msg, c.key, S.log)
    except Diverged as d:
        return ('diverged', str(d), None, S.log)
    except Exception as ex:
        return ('fail', 'unexpected exception %s: %s\n%s' % (type(ex).__name__, str(ex)[:300], traceback.format_exc()),
                None, S.log)


def load_check(prop):
    return importlib.import_module('checks.' + prop.lower())
