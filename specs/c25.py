"""C25: local operations are exactly the operating system operations"""
import datetime
import stat
import errno
from pv import *
from common import *
from oslib import *

RULE = 'on a POSIX system'
TRUSTED = ['the operating system calls (recorded, any kind of node, any mode bits and times, any error)']
ASSUMPTIONS = ['nothing else changes the path between the calls of one operation',
               'POSIX: the branches for win32 are not reached']


def some_error():
    return OSError(choose('errno', errno.EACCES, errno.ENOENT, errno.EIO), 'system')


def unit_queries():
    "queries answer what the system says and have no effect"
    with Local() as l:
        u = l.fs.URI(local_path())
        n = Node(u.path, 'node')
        o = OS(n)
        q = choose('query', 'exists', 'isfile', 'isdir', 'islink')
        r = getattr(u, q)()
        want = {'exists': n.kind in ('file', 'directory', 'link to a file', 'link to a directory'),
                'isfile': n.kind in ('file', 'link to a file'),
                'isdir': n.kind in ('directory', 'link to a directory'),
                'islink': 'link' in n.kind}[q]
        ensure('answer of the system', r == want)
        ensure('no effect', effects() == [])


def unit_info():
    "information is that of the link only if asked for"
    with Local() as l:
        u = l.fs.URI(local_path())
        n = Node(u.path, 'node')
        o = OS(n)
        external('datetime.datetime.fromtimestamp', lambda t: ('date', t))
        how = choose('links', 'default', True, False)
        got = outcome(u.info) if how == 'default' else outcome(u.info, followlinks=how)
        ensure('no effect', effects() == [])
        own = how is False and 'link' in n.kind
        if n.kind == 'missing' or (n.kind == 'dangling link' and not own):
            ensure('error of the system', got[0] == 'raise' and isinstance(got[1], OSError) and got[1].errno == errno.ENOENT)
        else:
            date = datetime.datetime.fromtimestamp
            s = n.lstat if own else n.stat
            ensure('returns', got[0] == 'return')
            i = got[1]
            ensure('mode', i.mode == s.mode)
            ensure('size', i.size == s.size)
            ensure('ctime', i.ctime == date(s.ctime))
            ensure('mtime', i.mtime == date(s.mtime))
            ensure('atime', i.atime == date(s.atime))


def unit_mtime():
    with Local() as l:
        u = l.fs.URI(local_path())
        n = Node(u.path, 'node', ('file', 'directory', 'link to a file', 'link to a directory'))
        o = OS(n)
        external('datetime.datetime.fromtimestamp', lambda t: ('date', t))
        ensure('modification time', u.mtime() == datetime.datetime.fromtimestamp(n.stat.mtime))
        ensure('no effect', effects() == [])


def unit_set_info():
    "only the mode is set, on the link itself only if asked for"
    with Local() as l:
        u = l.fs.URI(local_path())
        n = Node(u.path, 'node', ('file', 'directory', 'link to a file', 'link to a directory', 'dangling link'))
        o = OS(n)
        o.result = None
        how = choose('links', 'default', True, False)
        mode = bits('new mode')
        given = {}
        if choose('mode given', True, False):
            given['mode'] = mode
        if choose('other given', True, False):
            given['mtime'] = number('new mtime', 0, 10 ** 9)
            given['size'] = 3
        if choose('refused', True, False):
            o.error = some_error()
        before = sorted(given)
        r = outcome(u.info, given) if how == 'default' else outcome(u.info, set_info=given, followlinks=how)
        own = how is False and 'link' in n.kind
        if 'mode' in given:
            ensure('sets the mode', effects() == [('lchmod' if own else 'chmod', u.path, mode)])
            if o.error is not None:
                ensure('error of the system', r[0] == 'raise' and same(r[1], o.error))
        else:
            ensure('no effect', effects() == [])
        if not ('mode' in given and o.error is not None):
            ensure('returns nothing', r[0] == 'return' and r[1] is None)
        ensure('caller\'s dictionary unchanged', sorted(given) == before)


def unit_open():
    with Local() as l:
        u = l.fs.URI(local_path())
        o = OS(Node(u.path, 'node'))
        how = choose('options', 'none', 'given')
        if choose('refused', True, False):
            o.error = some_error()
        if how == 'none':
            r = outcome(u.open)
            ensure('opens for reading', effects() == [('open', u.path, 'r')])
        else:
            mode = choose('mode', 'r', 'rb', 'wb', 'a', 'r+')
            r = outcome(u.open, mode) if choose('positional', True, False) else outcome(u.open, options=mode)
            ensure('opens with the options', effects() == [('open', u.path, mode)])
        check_outcome(r, o)


def check_outcome(r, o):
    if o.error is not None:
        ensure('error of the system', r[0] == 'raise' and same(r[1], o.error))
    else:
        ensure('result of the system', r[0] == 'return' and same(r[1], o.result))


def check_done(r, o):
    if o.error is not None:
        ensure('error of the system', r[0] == 'raise' and same(r[1], o.error))
    else:
        ensure('returns', r[0] == 'return')


def unit_listdir():
    with Local() as l:
        u = l.fs.URI(local_path())
        n = Node(u.path, 'node', ('directory',))
        o = OS(n)
        n.names = strings('names', exclude='/', minlen=1, distinct=True)
        if choose('refused', True, False):
            o.error = some_error()
        r = outcome(u.listdir)
        ensure('no effect', effects() == [])
        if o.error is not None:
            ensure('error of the system', r[0] == 'raise' and same(r[1], o.error))
        else:
            ensure('names in order', r[0] == 'return' and list(r[1]) == sorted(n.names))


def unit_mkdir():
    with Local() as l:
        u = l.fs.URI(local_path())
        o = OS(Node(u.path, 'node'))
        if choose('refused', True, False):
            o.error = some_error()
        r = outcome(u.mkdir)
        ensure('makes that directory', effects() == [('mkdir', u.path)])
        check_done(r, o)


def unit_removefile():
    with Local() as l:
        u = l.fs.URI(local_path())
        o = OS(Node(u.path, 'node'))
        if choose('refused', True, False):
            o.error = some_error()
        r = outcome(l.backend.removefile, u)
        ensure('unlinks that file', effects() == [('unlink', u.path)])
        check_done(r, o)


def unit_removedir():
    with Local() as l:
        u = l.fs.URI(local_path())
        n = Node(u.path, 'node')
        o = OS(n)
        if choose('refused', True, False):
            o.error = some_error()
        r = outcome(l.backend.removedir, u)
        if 'link' in n.kind:
            ensure('never attempted on a link', effects() == [] and r[0] == 'raise')
        else:
            ensure('removes that directory', effects() == [('rmdir', u.path)])
            check_done(r, o)


def unit_remove():
    "what remove does depends on the kind of the node only"
    with Local() as l:
        u = l.fs.URI(local_path())
        n = Node(u.path, 'node')
        o = OS(n)
        if choose('refused', True, False):
            o.error = some_error()
        r = outcome(u.remove)
        if n.kind == 'missing':
            ensure('missing', effects() == [] and r[0] == 'raise'
                   and isinstance(r[1], repo('exceptions').FileDoesNotExistError))
        else:
            ensure('removes that node', effects() == [('rmdir' if n.kind == 'directory' else 'unlink', u.path)])
            check_done(r, o)


def unit_symlink():
    with Local() as l:
        u = l.fs.URI(local_path('target'))
        v = l.fs.URI(local_path('link'))
        assume(u.path != v.path)
        o = OS(Node(v.path, 'link', ('missing', 'file')), Node(u.path, 'target', ('missing', 'directory', 'link to a file')))
        if choose('refused', True, False):
            o.error = some_error()
        r = outcome(u.symlink, v)
        ensure('target, then link name', effects() == [('symlink', u.path, v.path)])
        check_done(r, o)


def unit_readlink():
    with Local() as l:
        u = l.fs.URI(local_path())
        n = Node(u.path, 'node', ('link to a file', 'link to a directory', 'dangling link'))
        o = OS(n)
        n.target = local_path('target')
        if choose('refused', True, False):
            o.error = some_error()
        r = outcome(u.readlink)
        ensure('no effect', effects() == [])
        if o.error is not None:
            ensure('error of the system', r[0] == 'raise' and same(r[1], o.error))
        else:
            ensure('target as a uri', r[0] == 'return' and r[1].scheme == 'file' and r[1].path == l.fs.URI(n.target).path)


def unit_copystat():
    with Local() as l:
        u = l.fs.URI(local_path('source'))
        v = l.fs.URI(local_path('target'))
        assume(u.path != v.path)
        o = OS(Node(u.path, 'source', ('missing', 'file', 'link to a file')), Node(v.path, 'target', ('missing', 'directory', 'link to a file')))
        if choose('refused', True, False):
            o.error = some_error()
        r = outcome(u.copystat, v)
        ensure('from the first to the second', effects() == [('copystat', u.path, v.path)])
        check_done(r, o)


def unit_set_exec():
    "one change of the mode, all other bits kept"
    with Local() as l:
        u = l.fs.URI(local_path())
        n = Node(u.path, 'node', ('file', 'directory', 'link to a file', 'link to a directory'))
        o = OS(n)
        external('datetime.datetime.fromtimestamp', lambda t: ('date', t))
        mode = bits('bits') & 0o111
        u.set_exec(mode)
        e = effects()
        ensure('one effect', len(e) == 1)
        ensure('changes the mode of that file', e[0][0] == 'chmod' and e[0][1] == u.path)
        ensure('replaces the execute bits only', e[0][2] == ((n.stat.mode & ~0o111) | mode))


def unit_lock():
    "the lock is a lock file of that path with these options"
    with Local() as l:
        u = l.fs.URI(local_path())
        o = OS(Node(u.path, 'node'))
        made = []

        def LockFile(name, fail_on_lock=False, cleanup=True):
            made.append((name, fail_on_lock, cleanup))
            return o.result
        keep = l.localfs.LockFile
        l.localfs.LockFile = LockFile
        try:
            kw = {}
            if choose('fail given', True, False):
                kw['fail_on_lock'] = choose('fail', True, False)
            if choose('cleanup given', True, False):
                kw['cleanup'] = choose('cleanup', True, False)
            r = u.lock(**kw)
        finally:
            l.localfs.LockFile = keep
        ensure('one lock file', len(made) == 1)
        ensure('with path and options', made[0] == (u.path, kw.get('fail_on_lock', False), kw.get('cleanup', False)))
        ensure('is returned', same(r, o.result))
        ensure('no effect yet', effects() == [])
