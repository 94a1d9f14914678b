"""C31: the cache directory.  The real resolution code runs on symbolic path strings (base, environment, name, home), with a
symbolic answer of the file system and a symbolic permission; every file-system call is a recording stand-in."""
import contextlib
import os
import posixpath
from .free import *

ASSUMPTIONS = ['POSIX paths of printable ASCII characters; the name of a cache does not start with a slash',
               'the file system is a stand-in: one symbolic answer to whether the directory exists; creation is recorded',
               'posixpath.join is executed on the symbolic strings as it is in the Python library']
CAP = 8


class World:
    """stand-ins for everything through which the resolution code can see or change the file system or the environment"""

    def __init__(self):
        self.env, self.home, self.exists = {}, '/home/u', False
        self.asked, self.made = [], []


W = World()


class Env(dict):
    pass


@contextlib.contextmanager
def sandboxed():
    """installed around the code under test only"""
    keep = []

    def patch(o, n, f):
        keep.append((o, n, getattr(o, n)))
        setattr(o, n, f)

    def seen(p):
        W.asked.append(p)
        return bool(W.exists)

    def stat(p, *a, **k):
        if not seen(p):
            raise FileNotFoundError(2, 'No such file')
        return os.stat_result((0o040755, 0, 0, 2, 0, 0, 0, 0, 0, 0))

    def mk(p, *a, exist_ok=False, **k):
        W.made.append(p)
        if W.exists and not exist_ok:
            raise FileExistsError(17, 'exists')
    patch(os, 'makedirs', mk)
    patch(os, 'mkdir', lambda p, *a, **k: mk(p))
    patch(os.path, 'exists', seen)
    patch(os.path, 'isdir', seen)
    patch(os.path, 'lexists', seen)
    patch(os, 'stat', stat)
    patch(os, 'access', lambda p, *a, **k: seen(p))
    patch(os.path, 'expanduser', lambda p: (W.home + p[1:] if p != '~' else W.home) if isinstance(p, str) and type(p) is str and p[:1] == '~' else p)
    patch(os, 'environ', W.env)
    patch(os, 'getenv', lambda k, d=None: W.env.get(k, d))
    for n in ('rmdir', 'remove', 'unlink', 'rename', 'chmod', 'listdir', 'symlink'):
        patch(os, n, lambda *a, _n=n, **k: W.made.append((_n,) + a))
    try:
        yield
    finally:
        for o, n, f in reversed(keep):
            setattr(o, n, f)


def same(p, q):
    """equality of two paths given as symbolic or plain strings"""
    if not isinstance(p, str) and hasattr(p, '__fspath__'):
        p = p.__fspath__()
    if not isinstance(p, str) or not isinstance(q, str):
        return False
    return sb(decode(p) == decode(q))


def OR(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return a | b


def beneath(p, base, name):
    """p is the folder `name` in `base` (with or without the slash the join leaves behind an empty name)"""
    if not isinstance(p, str):
        return False
    if base == '':
        return same(p, name)
    if base.endswith('/'):
        return same(p, base + name)
    good = same(p, base + '/' + name)
    if name == '':
        good = OR(good, same(p, base))
    return good


def world(v):
    W.env = Env({'HOME': v['home']} if v['has_home'] else {})
    if v.get('has_env'):
        W.env['KYMATIO_CACHE'] = v['env']
    W.home = v.get('home', '/home/u')
    W.exists = v.get('exists', False)
    W.asked, W.made = [], []


def expected(v, given):
    if given:
        return v['base'], ''
    if v['has_env']:
        return v['env'], ''
    return v['home'], 'kymatio_cache'


def lookup(r, given, how):
    import importlib
    caching = shim.load('kymatio.caching')
    key = 'base directory, %s' % ('given' + how if given else 'not given')
    r.bound('%s: every base, environment value and home of up to %d printable characters' % (key, CAP))

    def body(v):
        world(v)
        with sandboxed():
            if given:
                p = caching.find_cache_base_dir(v['base']) if how == ' by position' else caching.find_cache_base_dir(cache_base_dir=v['base'])
            elif how == ' as None':
                p = caching.find_cache_base_dir(None)
            else:
                p = caching.find_cache_base_dir()
        b, sub = expected(v, given)
        return [('is the expected one', same(p, b) if not sub else beneath(p, b, sub)), ('nothing is created', not W.made)]
    explore_free(r, key, body, dict(base=Str(CAP), env=Str(CAP), home=Str(CAP), has_env=Bool(), has_home=Bool()),
                 samples=[dict(base='/a', env='/e', home='/h', has_env=t, has_home=True) for t in (False, True)])


def cache(r, given, name, create):
    caching = shim.load('kymatio.caching')
    key = 'cache directory: base %s, name %s, creation %s' % ('given' if given else 'not given', name, create)
    r.bound('%s: every base, environment value, home and name of up to %d printable characters, existing or not' % (key, CAP))

    def body(v):
        world(v)
        args = {}
        if name == 'given':
            args['name'] = v['name']
        if given:
            args['cache_base_dir'] = v['base']
        if create != 'default':
            args['create'] = create == 'allowed'
        err, p = None, None
        with sandboxed():
            try:
                p = caching.get_cache_dir(**args)
            except ValueError as e:
                err = e
        b, sub = expected(v, given)
        n = v['name'] if name == 'given' else ''

        def right(q):
            if sub:
                base = b + '/' + sub if not b.endswith('/') and b != '' else b + sub
            else:
                base = b
            return beneath(q, base, n)
        out = []
        if v['exists']:
            out += [('an existing directory is returned', err is None), ('it lies beneath the base', right(p)),
                    ('an existing directory is left alone', not W.made)]
        elif create == 'forbidden':
            out += [('a missing one is refused', err is not None), ('nothing is created on refusal', not W.made)]
        else:
            out += [('a missing one is created', err is None and len(W.made) >= 1), ('it lies beneath the base', right(p))]
            out += [('the returned directory is created', same(W.made[-1], p) if W.made and isinstance(p, str) else False)]
        out += [('the directory in question is looked up', right(q)) for q in W.asked]
        return out
    smp = [dict(base='/a', env='/e', home='/h', has_env=t, has_home=True, name=n, exists=e) for t in (False, True) for n in ('x', '', 'A..b c', './n/', '~q') for e in (False, True)]
    smp += [dict(base='B/../c', env='E//', home='/', has_env=t, has_home=False, name='Nn', exists=t) for t in (False, True)]
    explore_free(r, key, body, dict(base=Str(CAP), env=Str(CAP), home=Str(CAP), name=Str(CAP), has_env=Bool(), has_home=Bool(), exists=Bool()),
                 assume=lambda v: [~SBool(z3.PrefixOf('/', z3.String('name')))], samples=smp)


def jobs(tier):
    out = [job('checks.c31', 'lookup', 1, given=g, how=h) for g, h in ((True, ''), (True, ' by position'), (False, ''), (False, ' as None'))]
    out += [job('checks.c31', 'cache', 2, given=g, name=n, create=c) for g in (True, False) for n in ('given', 'default')
            for c in ('default', 'allowed', 'forbidden')]
    return out
