"""C11: every path operation reaches the right backend unaltered"""
import stat
from pv import *
from common import *

ASSUMPTIONS = ['the caller passes arguments the operation declares']

ALL_EXEC = stat.S_IXUSR | stat.S_IXGRP | stat.S_IXOTH


# names that are parameters of get_connection itself
NAMES = ('username', 'password', 'self', 'scheme', 'hostname', 'port', 'vpath_connector')


class Backend:
    "records what reaches it, in the signatures backends have"
    def __init__(self, key):
        self.key = key
        self.last_used = -1
        self.result = ('return', opaque('result'))
        self.refuse = None

    def pre_call_hook(self, path, func):
        emit('hook', self, path, func.__name__, self.last_used)
        if self.refuse is not None:
            raise self.refuse

    def done(self, *ev):
        emit('call', self, *ev)
        how, value = self.result
        if how == 'raise':
            raise value
        return value

    def copy(self, source, dest, recursive=False, ignore=None, followlinks=True):
        return self.done('copy', source, dest, recursive, ignore, followlinks)

    def copystat(self, path, other):
        return self.done('copystat', path, other)

    def move(self, source, destination):
        return self.done('move', source, destination)

    def open(self, path, options, mimetype):
        return self.done('open', path, options, mimetype)

    def makedirs(self, path):
        return self.done('makedirs', path)

    def mkdir(self, path):
        return self.done('mkdir', path)

    def exists(self, path):
        return self.done('exists', path)

    def isfile(self, path):
        return self.done('isfile', path)

    def isdir(self, path):
        return self.done('isdir', path)

    def isexec(self, path, mode):
        return self.done('isexec', path, mode)

    def set_exec(self, path, mode):
        return self.done('set_exec', path, mode)

    def islink(self, path):
        return self.done('islink', path)

    def readlink(self, path):
        return self.done('readlink', path)

    def symlink(self, target, link_name):
        return self.done('symlink', target, link_name)

    def mtime(self, path):
        return self.done('mtime', path)

    def walk(self, top, topdown=True, followlinks=True):
        return self.done('walk', top, topdown, followlinks)

    def listdir(self, path):
        return self.done('listdir', path)

    def info(self, path, set_info=None, followlinks=True):
        return self.done('info', path, set_info, followlinks)

    def sync(self, source, dest, options):
        return self.done('sync', source, dest, options)

    def glob(self, path, pattern):
        return self.done('glob', path, pattern)

    def lock(self, path, fail_on_lock, cleanup):
        return self.done('lock', path, fail_on_lock, cleanup)

    def switch(self, path, branch):
        return self.done('switch', path, branch)

    def update(self, path, recursive=False, clean=False):
        return self.done('update', path, recursive, clean)

    def log(self, path, limit=0, **kwargs):
        return self.done('log', path, limit, kwargs)

    def log_by_time(self, path, start_time=None, stop_time=None):
        return self.done('log_by_time', path, start_time, stop_time)


class Registry:
    "hands out one backend per endpoint"
    def __init__(self):
        self.known = []

    def get_connection(self, *key, **extras):
        for k, e, conn in self.known:
            if k == key and e == extras:
                break
        else:
            conn = Backend((key, extras))
            self.known.append((key, extras, conn))
        emit('connection', conn)
        return conn


class World:
    def __enter__(self):
        self.fs = repo('fs')
        self.old = self.fs.CONNECTION_REGISTRY
        self.fs.CONNECTION_REGISTRY = self.registry = Registry()
        self.now = number('now', 0, 100000)
        external('time.time', lambda: self.now)
        return self

    def __exit__(self, *a):
        self.fs.CONNECTION_REGISTRY = self.old


def some_uri(fs):
    cls = choose('class', fs.BaseUri, fs.RevisionedUri)
    return cls('sch://host/path?key=value', extra='x')


# name, (parameter, default)...; REQUIRED marks parameters without default
REQUIRED = '(required)'
OPS = [
    ('copy', ('other', REQUIRED), ('recursive', False), ('ignore', None), ('followlinks', True)),
    ('copystat', ('other', REQUIRED)),
    ('move', ('other', REQUIRED)),
    ('open', ('options', None), ('mimetype', 'application/octet-stream')),
    ('makedirs',), ('mkdir',), ('exists',), ('isfile',), ('isdir',),
    ('isexec', ('mode', ALL_EXEC)),
    ('set_exec', ('mode', REQUIRED)),
    ('islink',), ('readlink',),
    ('symlink', ('link_name', REQUIRED)),
    ('mtime',),
    ('walk', ('topdown', True), ('followlinks', True)),
    ('listdir',),
    ('info', ('set_info', None), ('followlinks', True)),
    ('sync', ('other', REQUIRED), ('options', '')),
    ('glob', ('pattern', REQUIRED)),
    ('lock', ('fail_on_lock', False), ('cleanup', False)),
]
REVISIONED = [
    ('switch', ('branch', REQUIRED)),
    ('update', ('recursive', True), ('clean', False)),
    ('log', ('limit', 0)),
    ('log_by_time', ('start_time', None), ('stop_time', None)),
]


def value(name, kind):
    "anything: also values that are easily taken for no value at all"
    return {'anything': opaque(name), 'none': None, 'text': '', 'zero': 0, 'false': False,
            'tuple': (), 'list': [], 'dict': {}}[kind]


def request(op, empty=False):
    "(positional, keyword, expected values) in every way a caller can give them"
    params = op[1:]
    n = choose('arguments given', *range(len(params) + 1)) if params else 0
    by_keyword = choose('by keyword from', *range(n + 1)) if n else 0
    kind = 'anything'
    if empty:
        kind = choose('what is given', 'none', 'text', 'zero', 'false', 'tuple', 'list', 'dict')
    args, kw, want = [], {}, []
    for i in range(len(params)):
        name, default = params[i]
        if i < n or default is REQUIRED:
            v = value(name, kind)
            want.append(v)
            if i < by_keyword:
                args.append(v)
            else:
                kw[name] = v
        else:
            want.append(default)
    return args, kw, want


def matches(got, want):
    "arguments have to arrive as the very objects they were"
    if len(got) != len(want):
        return False
    for g, w in zip(got, want):
        if w is None or isinstance(w, (bool, int, str)):
            if not (g == w and isinstance(g, bool) == isinstance(w, bool) and (g is None) == (w is None)):
                return False
        elif not same(g, w):
            return False
    return True


def calls(*kinds):
    return [e for e in trace() if e[0] in kinds]


def perform(w, u, op, extra_kw=None, empty=False):
    conn = u.get_connection()
    conn.last_used = number('last used', 0, 100000)
    n = len(trace())
    args, kw, want = request(op, empty)
    kind = 'result' if empty else choose('outcome', 'result', 'exception', 'refused')
    exc = choose('error', OSError('backend'), ValueError('backend'), KeyError('backend')) if kind != 'result' else None
    if kind == 'exception':
        conn.result = ('raise', exc)
    elif kind == 'refused':
        conn.refuse = exc
    if extra_kw:
        kw = dict(kw, **extra_kw)
    how, value = outcome(getattr(u, op[0]), *args, **kw)
    ev = trace()[n:]
    ensure('connection, hook, operation',
           [e[0] for e in ev] == (['connection', 'hook'] if kind == 'refused' else ['connection', 'hook', 'call']))
    ensure('connection of the endpoint', same(ev[0][1], conn))
    ensure('hook of that connection', same(ev[1][1], conn))
    ensure('hook is told the path', same(ev[1][2], u))
    ensure('hook is told the operation', ev[1][3] == op[0])
    ensure('marked as used before the hook', ev[1][4] == w.now)
    ensure('marked as used', conn.last_used == w.now)
    if kind != 'refused':
        ensure('operation of that connection', same(ev[2][1], conn))
        ensure('operation of the same name', ev[2][2] == op[0])
        ensure('on the path', same(ev[2][3], u))
        got = list(ev[2][4:])
        if op[0] == 'log':
            more = got.pop()
            ensure('further keyword arguments unaltered', sorted(more) == sorted(extra_kw or {}))
            for k in more:
                ensure('further keyword argument unaltered', same(more[k], extra_kw[k]))
        ensure('arguments unaltered', matches(got, want), (got, want))
    if kind == 'result':
        ensure('result of the backend', how == 'return' and same(value, conn.result[1]))
    else:
        ensure('exception of the backend', how == 'raise' and same(value, exc))


def unit_operations():
    with World() as w:
        u = some_uri(w.fs)
        perform(w, u, choose('operation', *OPS))


def unit_empty_arguments():
    "arguments that are easily taken for none at all arrive as they are, too"
    with World() as w:
        u = w.fs.RevisionedUri('sch://host/path')
        perform(w, u, choose('operation', *(OPS + REVISIONED)), empty=True)


def unit_revisioned():
    with World() as w:
        u = w.fs.RevisionedUri('sch://host/path')
        op = choose('operation', *REVISIONED)
        extra = None
        if op[0] == 'log' and choose('more keywords', True, False):
            extra = {'author': opaque('author')}
        perform(w, u, op, extra)


def unit_local_uri():
    "the backends' own uri classes behave the same"
    with World() as w:
        u = repo('localfs').LocalFileSystemUri('/some/path')
        perform(w, u, choose('operation', *OPS))


def unit_current_endpoint():
    "the connection is looked up again for every operation"
    with World() as w:
        u = w.fs.BaseUri('sch://host/path')
        u.exists()
        first = u.get_connection()
        what = choose('change', 'query', 'extras', 'scheme', 'username', 'nothing')
        if what == 'query':
            u.query[string('key', only=LOWER, minlen=1, notin=NAMES)] = string('value')
        elif what == 'extras':
            u.extras[string('key', only=LOWER, minlen=1, notin=NAMES)] = string('value')
        elif what == 'scheme':
            u.scheme = string('scheme', only=LOWER, minlen=2)
            assume(u.scheme != 'sch')
        elif what == 'username':
            u.username = string('user', minlen=1)
        n = len(trace())
        u.exists()
        used = calls('call')[-1][1]
        ensure('endpoint as it is now', same(used, first) == (what == 'nothing'))
        ensure('connection of the endpoint as it is now', same(used, u.get_connection()))


def unit_other_connection():
    "last use is marked on the connection in use only"
    with World() as w:
        u = w.fs.BaseUri('sch://host/path')
        v = w.fs.BaseUri('sch://other/path')
        cu, cv = u.get_connection(), v.get_connection()
        u.exists()
        ensure('other connection not marked', cv.last_used == -1 and cu.last_used == w.now)
        ensure('connection kept in the uri', same(u.connection, cu) and v.connection is None)
