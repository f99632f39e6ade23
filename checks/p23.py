""" Generated program files and listings, executed by a small evaluator. """
import contextlib
import io
import os
import re
import shutil
import tempfile
from fractions import Fraction
from lib.harness import Scenario
from lib import oracle as O
from lib import ambit as A
from checks.termgen import *

ASSUMPTIONS = ['terms are in canonical form, conserve the number of particles and contain integrals H and amplitudes T only',
               'coefficients are real numbers with 0.001 <= |c| <= 1000; text of a coefficient is exact for denominators up to 10^6',
               'the target C satisfies  1/(n_cre! n_ann!) sum C[ann, cre] {a^cre_ann} = sum of terms; tensors are real and Hermitian',
               'values are compared as polynomials in the tensor elements over the listed finite orbital sets']
KINDS = {'L': 'L', 'H': 'H', 'T': 'T'}


class Program(A.Interp):
    """ functions of all generated files """

    def __init__(self, S, M, funcs, factor):
        A.Interp.__init__(self, S, M, KINDS)
        self.funcs = funcs
        self.scalars = {'factor': factor}
        self.params = set()
        self.called = []

    def tensor(self, name, idx):
        if name not in self.params:
            raise A.BadProgram(f'{name} is not a parameter')
        return A.Interp.tensor(self, name, idx)

    def statement(self, st):
        m = A.STMT.match(st.strip())
        if m and m.group('name') in self.params and m.group('name') not in self.vars and m.group('op') == '=' and m.group('idx') \
                and all(s == 'g' for s, _ in A.split_idx(m.group('idx'))):
            self.vars[m.group('name')] = []           # the integrals are overwritten completely
        elif m and m.group('name') in self.targets and m.group('name') not in self.vars and m.group('op') == '=' and m.group('rhs').strip() == '0.0':
            self.vars[m.group('name')] = []
            return
        m = re.match(r'^\s*(\w+)\.zero\(\)\s*$', st)
        if m and m.group(1) in self.targets and m.group(1) not in self.vars:
            self.vars[m.group(1)] = []
            return
        if re.match(r'^\s*\w+\s*=\s*ambit::', st) and st.split('=')[0].strip() not in self.declared:
            raise A.BadProgram(f'undeclared variable in {st}')
        A.Interp.statement(self, st)

    def enter(self, name, top):
        f = self.funcs[name]
        self.params = {n for _, n in f['params']}
        self.targets = {n for t, n in f['params'] if n.startswith('C')}
        self.run(f['body'])

    def call(self, name, args):
        if name not in self.funcs:
            raise A.BadProgram(f'call of unknown function {name}')
        f = self.funcs[name]
        if [n for _, n in f['params']] != args:
            raise A.BadProgram(f'{name}({args}) against parameters {f["params"]}')
        for t, n in f['params']:
            if n.startswith('C') and n not in self.vars:
                raise A.BadProgram(f'{n} is not initialised before {name}')
            if n not in self.params:
                raise A.BadProgram(f'{n} is not known to the caller of {name}')
        self.called.append(name)
        sub = Program(self.S, self.M, self.funcs, self.scalars['factor'])
        sub.M = self.M
        sub.vars = {n: self.vars[n] for n in args if n in self.vars}
        sub.params, sub.targets = {n for _, n in f['params']}, set()
        sub.scalars = {}
        sub.run(f['body'])
        for n in args:
            if n in self.vars:
                self.vars[n] = sub.vars[n]


FUNC = re.compile(r'void\s+(?P<ns>\w+)::(?P<name>\w+)\s*\((?P<par>[^)]*)\)\s*\{(?P<body>.*?)\n?\}', re.S)


def params(text):
    out = []
    for p in text.split(','):
        m = re.match(r'^\s*(BlockedTensor&|double&|double)\s+(\w+)\s*$', p)
        if not m:
            raise A.BadProgram(f'bad parameter {p!r}')
        out.append((m.group(1), m.group(2)))
    if len({n for _, n in out}) != len(out):
        raise A.BadProgram(f'repeated parameter in {text}')
    return out


def read_files(path, ns, header):
    funcs = {}
    decl = {}
    for f in sorted(os.listdir(path)):
        text = open(os.path.join(path, f)).read()
        if f.endswith('.h'):
            for m in re.finditer(r'void\s+(\w+)\s*\(([^)]*)\)\s*;', text):
                if m.group(1) in decl:
                    raise A.BadProgram(f'{m.group(1)} is declared twice')
                decl[m.group(1)] = params(m.group(2))
            continue
        if f'#include "mrdsrg-so/{ns.lower()}.h"' not in text or not re.search(r'namespace\s+forte\s*\{', text):
            raise A.BadProgram(f'header or namespace of {f}')
        for k in ('HEADERS', 'CPP_FUNCTIONS', 'FUNC_NAME', 'NAMESPACE', 'FUNC_VARIABLES', 'CPP_EXPRESSIONS'):
            if k in text:
                raise A.BadProgram(f'{k} is left in {f}')
        text = re.sub(r'//[^\n]*', '', text)
        # bodies contain braces only in build statements
        for m in re.finditer(r'void\s+(\w+)::(\w+)\s*\(([^)]*)\)\s*\{', text):
            depth, k = 1, m.end()
            while depth and k < len(text):
                depth += {'{': 1, '}': -1}.get(text[k], 0)
                k += 1
            if depth:
                raise A.BadProgram(f'unbalanced braces in {f}')
            if m.group(1) != ns:
                raise A.BadProgram(f'function of {m.group(1)} instead of {ns}')
            if m.group(2) in funcs:
                raise A.BadProgram(f'{m.group(2)} is defined twice')
            if f != m.group(2) + '.cc' and header:
                raise A.BadProgram(f'{m.group(2)} is in {f}')
            funcs[m.group(2)] = {'params': params(m.group(3)), 'body': text[m.end():k - 1], 'file': f}
    return funcs, decl


def make_terms(S, prefix='t'):
    R = S.R
    n = S.pick('n', S.p['n'])
    out, refs = [], []
    for k in range(n):
        sk = Skel(S.pick(f'{prefix}{k}', S.p['shapes']))
        lab = labels(S, sk, S.p['spaces'], perm='shuf', prefix=f'{prefix}s{k}')
        valid(S, sk, lab)
        if S.p.get('coeffs'):
            c = S.p['coeffs'][k]
        else:
            c = coefficient(S, f'c{k}')
        t = term(R, sk, lab, c).canonicalize()
        S.assume(not bool(t.is_void()))
        out.append(t)
        refs.append((c, ref(sk, lab)))
    hs = [t.hash_term() for t in out]
    S.assume(len(set(hs)) == len(hs))
    return out, refs


def nbody(ex):
    return len(ex.cre)


def by_rank(M, refs):
    out = {}
    for c, ex in refs:
        out.setdefault(nbody(ex), []).append((c, M.value(ex)))
    return out


def dagger(val):
    return {(an, cr): d for (cr, an), d in val.items()}


def model(S):
    return O.Model(S.p['sizes'], hermitian=True, t_active_zero=True)


def compare(S, prog, want, n, msg, text):
    arr = prog.vars.get(f'C{n}', [])
    O.same_value(S, want, A.operator_value(arr, n), f'{msg}:\n{text}')
    O.same_value(S, A.antisymmetry(arr, n), [], f'{msg}: the target is not antisymmetric\n{text}')


def listing(S):
    """ print_terms_ambit """
    R = S.R
    ts, refs = make_terms(S)
    M = model(S)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        R.phys.print_terms_ambit(ts)
    text = out.getvalue()
    want = by_rank(M, refs)
    I = A.Interp(S, M, KINDS, [f'C{n}' for n in want])
    try:
        I.run(text)
    except A.BadProgram as e:
        S.check(False, f'malformed program: {e}\n{text}')
        return
    for n in want:
        compare(S, I, want[n], n, f'C{n}', text)


def blocks(S):
    """ categories: every term once, under its block and permutation """
    R = S.R
    ts, refs = make_terms(S)
    cat = R.phys.categorize_contractions(ts)
    flat = [(b, p, t) for b, d in cat.items() for p, l in d.items() for t in l]
    S.check(sorted(id(t) for _, _, t in flat) == sorted(map(id, ts)), 'every term in one category')
    for b, p, t in flat:
        S.check(b == ''.join(str(i.space) for i in t.sq_op.ann_ops) + ''.join(str(i.space) for i in t.sq_op.cre_ops), 'block of the operator')
    for b, d in cat.items():
        S.check(all(l for l in d.values()), 'no empty category')
        for l in d.values():
            S.check(all(bool(x <= y) for x, y in zip(l, l[1:])), 'sorted')


def files(S):
    """ save_terms_ambit_functions """
    R = S.R
    ts, refs = make_terms(S)
    M = model(S)
    dag, destroy = S.flag('dagger'), S.flag('destroy')
    name, ns = S.pick('name', [('comm', 'MRDSRG_SO'), ('comm_H2_T2', 'Abc')])
    path = tempfile.mkdtemp(prefix='verif_p23_')
    try:
        if S.flag('default'):
            S.assume(dag and not destroy)
            R.forte.save_terms_ambit_functions(ts, name, ns, path)
        else:
            R.forte.save_terms_ambit_functions(ts, name, ns, path, add_t_dagger=dag, destroy_h=destroy)
        texts = '\n'.join(open(os.path.join(path, f)).read() for f in sorted(os.listdir(path)))
        try:
            funcs, decl = read_files(path, ns, True)
            want = by_rank(M, refs)
            S.check(name in funcs, 'main function')
            f = S.int('factor', -3, 3, eager=(2, -1))
            S.assume(S.not_(S.eq(f, 0)))
            prog = Program(S, M, funcs, f)
            prog.enter(name, True)
            S.check(sorted(prog.called) == sorted(k for k in funcs if k != name), 'every function is called once')
            S.check(decl == {k: v['params'] for k, v in funcs.items()}, 'declarations agree with definitions')
            top = dict((n, t) for t, n in funcs[name]['params'])
            S.check(top.pop('factor', None) == 'double', 'factor is a parameter')
            used = {f'{t.name}{t.n_body}' for x in ts for t in x.list_of_tensors}
            S.check(set(top) == used | {f'C{n}' for n in want}, 'parameters are the tensors used and the targets')
            S.check(all(t == ('double&' if n == 'C0' else 'BlockedTensor&') for n, t in top.items()), 'types of the parameters')
        except A.BadProgram as e:
            S.check(False, f'malformed program: {e}\n{texts}')
            return
        for n in want:
            w = [(c * f, v) for c, v in want[n]]
            if dag:
                w = w + [(c, dagger(v)) for c, v in w]
            compare(S, prog, w, n, f'C{n}', texts)
    finally:
        shutil.rmtree(path)


def direct_t3(S):
    R = S.R
    ts, refs = make_terms(S)
    M = model(S)
    cat = R.phys.categorize_contractions(ts)
    S.assume(list(cat) == ['cccvvv'])
    name, ns = S.pick('name', [('ccsdt', 'MRDSRG_SO'), ('x', 'Abc')])
    path = tempfile.mkdtemp(prefix='verif_p23_')
    try:
        R.forte.save_direct_t3(cat['cccvvv'], name, ns, path)
        text = open(os.path.join(path, f'{name}_direct_t3.cc')).read()
        S.check(os.listdir(path) == [f'{name}_direct_t3.cc'], 'one file')
        try:
            funcs, _ = read_files(path, ns, False)
            S.check(list(funcs) == [f'{name}_direct_t3'], 'one function')
            f = funcs[f'{name}_direct_t3']
            used = {f'{t.name}{t.n_body}' for x in ts for t in x.list_of_tensors}
            S.check({n for _, n in f['params']} == used, 'parameters are the tensors used')
            body, _, rest = f['body'].partition('C3.iterate')
            prog = Program(S, M, funcs, 1)
            prog.params, prog.targets = {n for _, n in f['params']}, set()
            prog.declared.update(('C3', 'temp'))
            prog.run(body.strip())
            S.check(prog.blocks.get('C3') == ['cccvvv'] and prog.blocks.get('temp') == ['cccvvv'], 'blocks of the target')
        except A.BadProgram as e:
            S.check(False, f'malformed program: {e}\n{text}')
            return
        compare(S, prog, by_rank(M, refs)[3], 3, 'C3', text)
        tail = re.sub(r'\s+', '', rest)
        for k in ('C3["ijkabc"]-=T3["ijkabc"];', 'T3["ijkabc"]=C3["ijkabc"]+temp["ijkabc"];', 'temp["ijkabc"]=T3["ijkabc"];'):
            S.check(k in tail, 'amplitude update')
    finally:
        shutil.rmtree(path)


def gsub(S):
    """ templates: every placeholder is replaced by its text, nothing else changes """
    R = S.R
    if not hasattr(R, 'file_utils_mod'):
        return
    f = R.file_utils_mod.multi_gsub
    keys = ['HEADERS', 'CPP_FUNCTIONS']
    order = S.perm('o', 3)
    parts = ['HEADERS', 'x {y} ', 'CPP_FUNCTIONS\n']
    text = ''.join(parts[k] for k in order)
    vals = {'HEADERS': S.pick('h', ['', '#include "a.h"', 'CPP']), 'CPP_FUNCTIONS': S.pick('c', ['', 'C2["i,j"] += 1.0;\n(a*b)', '$x^{2}'])}
    want = text
    for k in keys:
        want = want.replace(k, vals[k])
    S.check(f(vals, text) == want, 'placeholders are replaced')
    S.check(f({}, text) == text, 'nothing to replace')


def scenarios(tier):
    t = tier == 'thorough'
    small = ['H:0/1 T:1/0', 'H:01/23 T:2/0 a:3/1', 'H:01/23 a:23/01', 'T:2/0 T:3/1 a:01/23', 'H:14/23 T:3/0 T:4/5 a:05/12'][:4]
    sp = {'0': 'v', '1': 'va' if t else 'v', '2': 'ca' if t else 'c', '3': 'c', '4': 'v', '5': 'c', '6': 'a', '7': 'a'}
    dens = ['H:06/27 L:7/6 a:2/0', 'H:26/07 L:7/6 a:0/2', 'H:6/7 L:7/6']
    one = {'c': 1, 'a': 1, 'v': 1}
    two = {'c': 2, 'a': 0, 'v': 2}
    twob = ['T:2/0 T:3/1 a:01/23', 'H:23/01 a:01/23', 'H:25/04 T:43/51 a:01/23', 'H:56/01 T:23/56 a:01/23', 'H:2/4 T:43/01 a:01/23', 'H:24/01 T:3/4 a:01/23', 'H:2/5 T:5/0 T:3/1 a:01/23']
    sp2 = {'0': 'v', '1': 'v', '2': 'c', '3': 'c', '4': 'c', '5': 'v', '6': 'v'}
    three = ['T:23/01 T:4/5 a:015/234', 'T:2/0 T:3/1 T:4/5 a:015/234', 'H:23/06 T:64/15 a:015/234', 'T:234/015 a:015/234', 'H:6/0 T:234/615 a:015/234']
    sp3 = {'0': 'v', '1': 'v', '5': 'v', '6': 'v', '2': 'c', '3': 'c', '4': 'c'}
    co = [0.25, -1.0, 1 / 3]
    return [
        Scenario('listing', listing, 'printed lists of up to two terms', text=True, n=[0, 1, 2], shapes=small + ['H:0/1 a:1/0'], spaces=sp, sizes=one if not t else {'c': 1, 'a': 2, 'v': 1}),
        Scenario('listing-density', listing, 'printed lists with densities', text=True, n=[1, 2], shapes=small[:2] + dens, spaces=sp, sizes={'c': 1, 'a': 2, 'v': 1}),
        Scenario('files-density', files, 'files with densities', text=True, n=[1, 2], shapes=small[:2] + dens, spaces=sp, sizes={'c': 1, 'a': 2, 'v': 1}, coeffs=co),
        Scenario('listing-2', listing, 'lists of two-body terms with and without permutations', text=True, n=[1, 2], shapes=twob, spaces=sp2, sizes=two),
        Scenario('listing-3', listing, 'lists of up to three two-body terms', text=True, n=[3], shapes=twob[:5] + ['H:2/0 T:3/1 a:01/23'] if not t else twob, spaces=sp2, sizes=two, coeffs=co),
        Scenario('blocks', blocks, 'categories of up to three terms', text=True, n=[0, 1, 2, 3], shapes=small + ['H:0/1 a:1/0'], spaces=dict(sp, **{'1': 'va', '2': 'ca'}), sizes=one, coeffs=co),
        Scenario('files', files, 'files for up to two terms, all options', text=True, n=[1, 2], shapes=small + ['H:0/1 a:1/0'], spaces=sp, sizes=one),
        Scenario('files-2', files, 'files for two-body terms', text=True, n=[1, 2] if not t else [1, 2, 3], shapes=twob, spaces=sp2, sizes=two, coeffs=co if t else None),
        Scenario('files-3', files, 'files for three terms of different rank', text=True, n=[3], shapes=['H:0/1 T:1/0', 'T:2/0 T:3/1 a:01/23', 'H:25/04 T:43/51 a:01/23', 'H:0/1 a:1/0'], spaces=dict(sp2, **{'1': 'v'}), sizes=two, coeffs=co),
        Scenario('files-4', files, 'files for four-body terms', text=True, n=[1, 2], shapes=['H:0123/4567 a:4567/0123', 'H:0123/4568 H:8/7 a:4567/0123'] + (['H:01/45 H:23/67 a:4567/0123'] if t else []), coeffs=co,
                 spaces={'0': 'v', '1': 'v', '2': 'va' if t else 'v', '3': 'a', '4': 'c', '5': 'c', '6': 'ca', '7': 'a', '8': 'a'}, sizes={'c': 2, 'a': 2, 'v': 2}),
        Scenario('direct-t3', direct_t3, 'direct three-body file for up to two terms', text=True, n=[1, 2], shapes=three if t else three[:4], spaces=sp3, sizes={'c': 3, 'a': 0, 'v': 3}, coeffs=co),
        Scenario('direct-t3-density', direct_t3, 'direct three-body file with densities', text=True, n=[1, 2], shapes=['H:6/7 L:7/6 T:234/015 a:015/234', 'H:6/0 L:7/6 T:234/715 a:015/234', 'T:234/015 a:015/234',
                 'H:236/015 L:7/6 T:4/7 a:015/234'], spaces=dict(sp3, **{'6': 'a', '7': 'a'}), sizes={'c': 3, 'a': 1, 'v': 3}, coeffs=co),
        Scenario('template', gsub, 'placeholders in any order'),
    ]
