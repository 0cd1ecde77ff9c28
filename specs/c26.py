"""C26: scoped helpers always restore and clean up"""
from pv import *
from common import *
from oslib import Local, local_path

TRUSTED = ['os.getcwd, os.chdir, os.unlink, open and file objects (recorded, any name, any content)']
ASSUMPTIONS = ['a temporary file handle is closed once', 'closing and deleting the file itself do not fail']


class Process:
    "the working directory"
    def __init__(self, cwd):
        self.cwd = cwd
        self.refused = None
        external('os.getcwd', self.getcwd)
        external('os.chdir', self.chdir)

    def getcwd(self):
        return self.cwd

    def chdir(self, path):
        if self.refused is not None:
            raise self.refused
        self.cwd = str(path)


class Unlike(BaseException):
    "an exception the code cannot know of"


def some_exception():
    return choose('raised', ValueError('in block'), KeyError('in block'), OSError('in block'),
                  KeyboardInterrupt('in block'), SystemExit(1), StopIteration(), GeneratorExit(), AttributeError('in block'),
                  TypeError('in block'), RuntimeError('in block'), FileNotFoundError(2, 'in block'), AssertionError(),
                  IndexError('in block'), NotImplementedError(), ZeroDivisionError(), UnicodeError('in block'), Exception('in block'), Unlike())


def directory(name):
    return '/' + string(name, exclude='\x00', minlen=1)


def unit_working_directory():
    "restored when the block is left, in whichever way"
    with Local() as l:
        start = directory('start')
        p = Process(start)
        u = l.fs.URI(local_path())
        wd = repo('misc').WorkingDirectory(u)
        if choose('changed before the block', True, False):
            p.cwd = directory('before')
        how = choose('leave', 'end', 'raise', 'return')
        exc = some_exception() if how == 'raise' else None
        moves = choose('changed in the block', True, False)

        def work():
            with wd:
                ensure('inside: the directory given', p.cwd == u.path)
                if moves:
                    p.cwd = directory('inside')
                if how == 'raise':
                    raise exc
                if how == 'return':
                    return 'returned'
            return 'end'
        r = outcome(work)
        ensure('restored', p.cwd == start)
        if how == 'raise':
            ensure('exception not swallowed', r[0] == 'raise' and same(r[1], exc))
        else:
            ensure('no exception', r == ('return', 'returned' if how == 'return' else 'end'))


def unit_working_directory_refused():
    "a directory that cannot be entered"
    with Local() as l:
        start = directory('start')
        p = Process(start)
        u = l.fs.URI(local_path())
        wd = repo('misc').WorkingDirectory(u)
        p.refused = OSError('no such directory')

        def work():
            with wd:
                emit('entered')
        r = outcome(work)
        ensure('error of the system', r[0] == 'raise' and same(r[1], p.refused))
        ensure('block not entered', trace() == [])
        ensure('working directory unchanged', p.cwd == start)


def unit_working_directories():
    "nested blocks restore each their own; an object can be used again"
    with Local() as l:
        start = directory('start')
        p = Process(start)
        u = l.fs.URI(local_path('outer'))
        v = l.fs.URI(local_path('inner'))
        outer = repo('misc').WorkingDirectory(u)
        with outer:
            inner = repo('misc').WorkingDirectory(v)
            with inner:
                ensure('innermost directory', p.cwd == v.path)
            ensure('back in the outer directory', p.cwd == u.path)
        ensure('back at the start', p.cwd == start)
        with outer:
            ensure('entered again', p.cwd == u.path)
        ensure('back again', p.cwd == start)


class File:
    def __init__(self, data):
        self.data = data
        self.closed = False
        self.closing = fresh('result of close')

    def read(self, limit=-1):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        emit('read', limit)
        return self.data

    def close(self):
        emit('close')
        self.closed = True
        return self.closing


class Disk:
    def __init__(self, name, data):
        self.name = name
        self.file = File(data)
        external('open', self.open)
        external('os.unlink', self.unlink)
        external('os.remove', self.unlink)

    def open(self, name, mode='r'):
        ensure('opens the file given for reading', name == self.name and mode == 'r')
        emit('open')
        return self.file

    def unlink(self, name):
        ensure('deletes the file given', name == self.name)
        emit('unlink')


def handle():
    d = Disk(string('name', exclude='\x00', minlen=1), opaque('content'))
    return d, repo('misc').TempFileHandle(d.name)


def state():
    return [e[0] for e in trace() if e[0] in ('open', 'close', 'unlink')]


def gone(d, t):
    ensure('closed, then deleted, once each', state() == ['open', 'close', 'unlink'])
    ensure('closed', d.file.closed)
    r = outcome(t.read)
    ensure('reading fails afterwards', r[0] == 'raise')


def unit_temp_file_block():
    "closed and deleted when the block is left, in whichever way"
    d, t = handle()
    how = choose('leave', 'end', 'raise', 'return')
    exc = some_exception() if how == 'raise' else None

    def work():
        with t as inside:
            ensure('the handle itself', same(inside, t))
            ensure('still there', state() == ['open'])
            ensure('content', same(inside.read(), d.file.data))
            if how == 'raise':
                raise exc
            if how == 'return':
                return 'returned'
        return 'end'
    r = outcome(work)
    gone(d, t)
    if how == 'raise':
        ensure('exception not swallowed', r[0] == 'raise' and same(r[1], exc))
    else:
        ensure('no exception', r == ('return', 'returned' if how == 'return' else 'end'))


def unit_temp_file_close():
    "closed explicitly"
    d, t = handle()
    ensure('nothing but opened', state() == ['open'])
    limit = choose('limit', None, 0, integer('n', 1, 1000))
    r = t.read() if limit is None else t.read(limit)
    ensure('content', same(r, d.file.data))
    ensure('as much as asked for', trace()[-1] == ('read', -1 if limit is None else limit))
    ensure('reading deletes nothing', state() == ['open'])
    t.close()
    gone(d, t)


def native_real_files():
    "real directories and files"
    import os
    import tempfile
    import shutil
    misc, fs = repo('misc'), repo('fs')
    top = os.path.realpath(tempfile.mkdtemp(prefix='c26'))
    start = os.getcwd()
    try:
        sub = os.path.join(top, 'sub')
        os.mkdir(sub)
        os.chdir(top)
        name = os.path.join(top, 'temp')
        other = os.path.join(top, 'other')
        text = 'some content\n' * choose('lines', 0, 1, 1000)
        for n in (name, other):
            with open(n, 'w') as f:
                f.write(text)
        how = choose('leave', 'end', 'raise')

        def work():
            with misc.WorkingDirectory(fs.URI(sub)):
                ensure('inside: the directory given', os.getcwd() == sub)
                with misc.TempFileHandle(name) as t:
                    ensure('content', t.read() == text)
                    if choose('chdir', True, False):
                        os.chdir('/')
                    if how == 'raise':
                        raise KeyboardInterrupt
        r = outcome(work)
        ensure('exception not swallowed', (r[0] == 'raise') == (how == 'raise'))
        ensure('restored', os.getcwd() == top)
        ensure('deleted', not os.path.exists(name))
        ensure('others kept', os.path.exists(other))
    finally:
        os.chdir(start)
        shutil.rmtree(top)
