""" Working in a directory always comes back to where it started; context helpers never swallow errors. """
import contextlib
import errno
import io
import os
import shutil
import tempfile
from lib.harness import Scenario

ASSUMPTIONS = ['the directory object is entered in the directory it was made in',
               'the real file system in a scratch directory, with failures of mkdir injected']


class Boom(Exception):
    pass


@contextlib.contextmanager
def scratch():
    """ a scratch directory as the working directory, removed afterwards; the start directory is put back """
    start = os.getcwd()
    d = os.path.realpath(tempfile.mkdtemp(prefix='vp28'))
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(start)
        shutil.rmtree(d, ignore_errors=True)


def here():
    return os.path.realpath(os.getcwd())


NAMES = ['x', 'y', 'x/z', 'miss/z', 'f']


def setting(S, d):
    """ what exists before: x as a directory or not, f is a file """
    exists = S.flag('exists')
    if exists:
        os.mkdir(os.path.join(d, 'x'))
        with open(os.path.join(d, 'x', 'keep'), 'w') as w:
            w.write('kept')
    with open(os.path.join(d, 'f'), 'w') as w:
        w.write('file')
    return exists


def level(S, R, k, depth, kinds):
    """ one (nested) with block """
    base = here()
    name = S.pick(f'name{k}', NAMES)
    target = os.path.join(base, name)
    can = os.path.isdir(target) or (os.path.isdir(os.path.dirname(target)) and not os.path.exists(target))
    end = S.pick(f'end{k}', kinds)
    C = R.file_utils_mod.ChangeDir
    entered, raised = False, None
    try:
        with C(name) as cd:
            entered = True
            S.check(here() == os.path.realpath(target), f'inside, the working directory is {name}')
            S.check(os.path.realpath(cd.get_cwd()) == os.path.realpath(target), f'the object knows its directory {name}')
            if depth > 1:
                level(S, R, k + 1, depth - 1, kinds)
                S.check(here() == os.path.realpath(target), 'after an inner block')
            if end == 'error':
                raise Boom
            if end == 'interrupt':
                raise KeyboardInterrupt
            if end == 'away':
                os.chdir('/')
    except (Boom, KeyboardInterrupt, ValueError, OSError) as e:
        raised = e
    S.check(here() == base, f'the working directory is put back ({name}, {end}, {type(raised).__name__})')
    S.check(entered == can, f'{name}: ' + ('entered' if entered else 'refused'))
    if entered:
        want = {'error': Boom, 'interrupt': KeyboardInterrupt}.get(end, type(None))
        S.check(type(raised) is want, f'an error inside is passed on ({end}: {raised!r})')
    else:
        S.check(raised is not None, 'a directory that cannot be entered is reported')
    return entered


def blocks(S):
    R = S.R
    with scratch() as d:
        exists = setting(S, d)
        level(S, R, 0, S.p['depth'], S.p['kinds'])
        if S.p.get('again'):
            level(S, R, 5, 1, S.p['kinds'])
        if exists:
            S.check(open(os.path.join(d, 'x', 'keep')).read() == 'kept', 'an existing directory is kept')
        S.check(open(os.path.join(d, 'f')).read() == 'file', 'an existing file is kept')


def faults(S):
    """ the k-th call to mkdir or chdir on the way in fails with any error number: reported, and the working directory is put back """
    R = S.R
    err = S.int('errno', 1, 133, eager=(1, 2, 13, 28, 30, 36))
    at = S.int('at', 0, 2 * S.p['depth'], eager=list(range(2 * S.p['depth'] + 1)))
    S.assume(S.not_(S.eq(err, errno.EEXIST)))
    mkdir, chdir = os.mkdir, os.chdir
    known, fired, count = set(), [], [0]

    def fail(what):
        count[0] += 1
        if not fired and bool(S.eq(at, count[0] - 1)):
            fired.append(what)
            e = OSError('injected')
            e.errno = err
            raise e

    def new_mkdir(path, *a, **k):
        fail('mkdir')
        return mkdir(path, *a, **k)

    def new_chdir(path):
        if os.path.realpath(path) not in known:        # only on the way in
            fail('chdir')
        return chdir(path)

    def enter(k):
        base, entered, raised, before = here(), False, None, len(fired)
        known.add(base)
        try:
            with R.file_utils_mod.ChangeDir(f'd{k}'):
                entered = True
                S.check(here() == os.path.join(base, f'd{k}'), 'inside')
                if k < S.p['depth']:
                    enter(k + 1)
                    S.check(here() == os.path.join(base, f'd{k}'), 'inside, after an inner block')
        except (ValueError, OSError) as e:
            raised = e
        S.check(entered == (raised is None), 'a failure on the way in is reported')
        S.check(here() == base, f'the working directory is put back (failures: {fired})')
        if len(fired) == before:
            S.check(entered, 'without a failure the directory is entered')
    with scratch() as d:
        if S.flag('exists'):
            mkdir('d1')
        os.mkdir, os.chdir = new_mkdir, new_chdir
        try:
            enter(1)
        finally:
            os.mkdir, os.chdir = mkdir, chdir
        S.check(here() == d, 'the working directory is unchanged')


def arguments(S):
    R = S.R
    bad = S.pick('bad', [None, 3, 2.5, ['x'], ('x',), b'x', {'x'}, Boom()])
    with scratch() as d:
        S.check(S.raises((ValueError, TypeError), lambda: R.file_utils_mod.ChangeDir(bad)), f'{type(bad).__name__} is refused')
        S.check(here() == d and os.listdir(d) == [], 'nothing happens')


def timing(S):
    """ the timer reports and passes errors on """
    R = S.R
    end = S.pick('end', ['ok', 'error', 'interrupt'])
    msg = S.pick('msg', ['', 'canonicalize', 'a b', '100%'])
    out, raised, tm = io.StringIO(), None, None
    with contextlib.redirect_stdout(out):
        try:
            with R.Timer_mod.Timer(msg) as tm:
                if end == 'error':
                    raise Boom
                if end == 'interrupt':
                    raise KeyboardInterrupt
        except (Boom, KeyboardInterrupt) as e:
            raised = e
    S.check(type(raised) is {'ok': type(None), 'error': Boom, 'interrupt': KeyboardInterrupt}[end], 'an error inside is passed on')
    S.check(tm is not None and tm.time >= 0, 'the time is kept')
    S.check(out.getvalue().startswith(msg) and out.getvalue().count('\n') == 1, f'one line is printed: {out.getvalue()!r}')


def substitution(S):
    """ template fields are replaced everywhere, in the given order, and the rest of the text is kept """
    R = S.R
    words = {'HEADERS': S.pick('a', ['', 'h.h', 'x HEADERS y', 'CPP']), 'CPP': S.pick('b', ['', 'body\n  line', 'HEADERS'])}
    text = S.pick('text', ['', 'HEADERS\nCPP\n', 'CPP HEADERS CPP', 'none', 'HEADERSCPP'])
    want = text
    for k, v in words.items():
        want = want.replace(k, v)
    S.check(R.file_utils_mod.multi_gsub(words, text) == want, f'{words} in {text!r}')


def scenarios(tier):
    t = tier == 'thorough'
    K = ['ok', 'error', 'interrupt', 'away']
    return [
        Scenario('faults', faults, 'any call on the way into up to three nested directories failing with any error number', depth=3),
        Scenario('one', blocks, 'one block, then another', depth=1, kinds=K, again=True),
        Scenario('nested', blocks, 'two nested blocks', depth=2, kinds=['ok', 'error', 'away']),
        Scenario('arguments', arguments, 'arguments that are not strings'),
        Scenario('timing', timing, 'timed blocks'),
        Scenario('substitution', substitution, 'template fields', text=True),
    ] + ([Scenario('nested-3', blocks, 'three nested blocks', depth=3, kinds=['ok', 'error', 'away'])] if t else [])
