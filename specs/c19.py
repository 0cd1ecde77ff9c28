"""C19: moving transfers everything and removes only the source"""
import errno
from pv import *
from common import *
from oslib import *
from treelib import Trees, snapshot, build, copied, incomplete, target_in

TRUSTED = ['shutil.move: moves the source to the target, or into it if it is a directory',
           'the operating system calls (recorded)']
ASSUMPTIONS = ['copying (C18) and removing (C17) by their contracts', 'source and target are disjoint; a directory is not moved onto a file, and the entry that comes to be in a target directory is new',
               'POSIX', 'nobody else changes the trees meanwhile']


class Backend(repo('fs').FileSystem):
    last_used = property(lambda self: 0, lambda self, v: None)

    def __init__(self, job):
        self.job = job

    def pre_call_hook(self, path, func):
        pass

    def kind(self, path):
        if path == self.job.source:
            return self.job.kind
        if path == self.job.dest:
            return self.job.target
        return 'nothing'

    def exists(self, path):
        return self.kind(path) != 'nothing'

    def isfile(self, path):
        return self.kind(path) == 'file'

    def isdir(self, path):
        return self.kind(path) == 'directory'

    def islink(self, path):
        return self.job.link and path == self.job.source

    def removefile(self, path):
        emit('unlink', path.path)

    def removedir(self, path):
        emit('rmdir', path.path)


class Job:
    def __init__(self, scheme='sch'):
        self.fs = repo('fs')
        self.kind = choose('source is', 'file', 'directory', 'nothing')
        self.link = self.kind != 'nothing' and choose('via a link', False, True)
        self.source = self.fs.URI(scheme + '://host/' + string('source', exclude=RESERVED + '.', minlen=1) + choose('slash', '', '/', '//'))
        self.dest = self.fs.URI(choose('to', scheme, 'dst') + '://host/T/' + string('target', exclude=RESERVED + '.', minlen=1))
        self.target = choose('target is', 'nothing', 'file', 'directory')
        assume(not (self.kind == 'directory' and self.target == 'file'))
        self.fails = choose('copy fails', None, exception('OSError', errno.ENOSPC))
        contract('FileSystem.copy', self.copy)
        contract('BaseUri.remove', self.remove)

    def copy(self, backend, source, dest, recursive=False, ignore=None, followlinks=True):
        ensure('from the source to the target', source == self.source and dest == self.dest)
        ensure('everything in it', not ignore and followlinks)
        if self.kind == 'nothing':
            raise repo('exceptions').FileDoesNotExistError('source')
        ensure('as a file or as a directory', bool(recursive) == (self.kind == 'directory'))
        emit('copy')
        if self.fails is not None:
            raise self.fails

    def remove(self, path, recursive=False):
        ensure('removes the source', path == self.source)
        if self.kind == 'directory' and not self.link:
            ensure('with all that is in it', bool(recursive))
        emit('remove')


def check(j, r):
    if j.kind == 'nothing':
        ensure('does not exist', r[0] == 'raise' and isinstance(r[1], repo('exceptions').FileDoesNotExistError))
        ensure('nothing done', trace() == [])
    elif j.fails is not None:
        ensure('fails as the copy', r == ('raise', j.fails))
        ensure('nothing removed', trace() == [('copy',)])
    else:
        ensure('no failure', r[0] == 'return', r)
        ensure('copied, then removed', len(trace()) == 2 and trace()[0] == ('copy',)
               and (trace()[1] == ('remove',)
                    or trace()[1] == ('unlink', j.source.path) and (j.link or j.kind == 'file')))


def proof_copied_and_removed():
    "the backends without a move of their own"
    j = Job()
    b = Backend(j)
    j.fs.CONNECTION_REGISTRY = LocalRegistry(sch=b, dst=Backend(j))
    check(j, outcome(j.source.move, j.dest))


def own(base, j):
    "a backend of the library, with the queries and removals of the model"
    class Own(base):
        last_used = property(lambda self: 0, lambda self, v: None)

        def __init__(self):
            self.b = Backend(j)

        exists = lambda self, p: self.b.exists(p)
        isfile = lambda self, p: self.b.isfile(p)
        isdir = lambda self, p: self.b.isdir(p)
        islink = lambda self, p: self.b.islink(p)
        removefile = lambda self, p: self.b.removefile(p)
        removedir = lambda self, p: self.b.removedir(p)
        pre_call_hook = lambda self, p, f: None
    return Own()


def proof_memory():
    "the in-memory backend has no move of its own"
    j = Job()
    j.fs.CONNECTION_REGISTRY = LocalRegistry(sch=own(repo('memory').MemoryFileSystem, j), dst=Backend(j))
    check(j, outcome(j.source.move, j.dest))


def proof_local_elsewhere():
    "from the local backend to another one: copied and removed"
    j = Job()
    b = own(repo('localfs').LocalFileSystem, j)
    j.fs.CONNECTION_REGISTRY = LocalRegistry(sch=b, dst=Backend(j))
    check(j, outcome(j.source.move, j.dest))


def unit_local():
    "within the local backend it is the system's move, to the target or into it"
    with Local() as l:
        u, v = l.fs.URI(local_path('source')), l.fs.URI(local_path('target'))
        assume(u.path != v.path)
        n, m = Node(u.path, 'source'), Node(v.path, 'target', ('missing', 'file', 'directory', 'link to a directory'))
        o = OS(n, m)
        if choose('refused', True, False):
            o.error = OSError(errno.EACCES, 'system')
        r = outcome(u.move, v)
        ensure('one move', len(effects()) == 1 and effects()[0][:2] == ('move', u.path), effects())
        to = effects()[0][2]
        # the target, or what shutil.move makes of it
        ensure('to the target', to == v.path or 'directory' in m.kind and to == (v / u.basename()).path, to)
        if o.error is None:
            ensure('no failure', r[0] == 'return', r)
        else:
            ensure('the error of the system', r == ('raise', o.error))




def native_trees():
    "trees with links within and between the in-memory and the local backend, also such that cannot be copied"
    import tempfile
    with Trees() as t, tempfile.TemporaryDirectory() as temp:
        base = target_in(t, temp)
        dest = base / choose('target', 'new', 'topx', 't', 'é ü', '.x')
        what = choose('what', 'top', 'top', 'entry')
        source, node, name = t.top, t.tree, t.top_name
        if what == 'entry' and t.tree:
            name = sorted(t.tree)[choose('entry', 0, 1, 2) % len(t.tree)]
            source, node = t.top / name, t.tree[name]
        root = dest
        followed = copied(t, node, source.path, (), True)
        if choose('into', False, True):
            dest.mkdir()
            root = dest / name
        elif not isinstance(followed, dict) and not incomplete(followed) and choose('onto a file', False, True):
            with dest.open('wb') as f:
                f.write(choose('replaced', b'', b'old', b'longer than it' * 100000))
        outside = {n: snapshot(t.base / n) for n in t.outside}
        if isinstance(node, dict):
            source = t.fs.URI(source.uri + choose('slash', '', '', '/', '//'))
        # within the local backend the system moves: links stay links
        system = t.temp is not None and base is t.base
        want = node if system else followed
        r = outcome(source.move, dest)
        if not system and incomplete(followed):
            ensure('a link that leads nowhere cannot be copied', r[0] == 'raise', r)
            ensure('the source is complete', snapshot(t.top) == t.tree)
        else:
            ensure('no failure', r[0] == 'return', r)
            ensure('everything is there', snapshot(root) == want, (snapshot(root), want))
            if root is not dest:
                ensure('nothing beside it', dest.listdir() == [name])
            if node is t.tree:
                ensure('the source is gone', not t.top.exists() and not t.top.islink())
            else:
                del t.tree[name]
                ensure('only the source is gone', snapshot(t.top) == t.tree)
        ensure('nothing outside changed', outside == {n: snapshot(t.base / n) for n in t.outside})
        r = outcome((t.base / 'missing').move, base / 'nowhere')
        ensure('nothing to move', r[0] == 'raise' and not (base / 'nowhere').exists())
