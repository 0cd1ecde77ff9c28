"""the operating system as the local backend sees it: files of unknown kind, every
call recorded, every path checked"""
import errno
from pv import *

KINDS = ('missing', 'file', 'directory', 'link to a file', 'link to a directory', 'dangling link')


class Stat:
    "result of a stat call"
    def __init__(self, what):
        self.what = what
        self.mode = bits(what + ' mode')
        self.size = integer(what + ' size', 0, 10 ** 6)
        self.atime = number(what + ' atime', 0, 10 ** 9)
        self.mtime = number(what + ' mtime', 0, 10 ** 9)
        self.ctime = number(what + ' ctime', 0, 10 ** 9)
        self.st_mode, self.st_size = self.mode, self.size
        self.st_atime, self.st_mtime, self.st_ctime = self.atime, self.mtime, self.ctime

    def __getitem__(self, i):
        return [self.mode, 1, 1, 1, 0, 0, self.size, self.atime, self.mtime, self.ctime][i]


class Node:
    def __init__(self, path, name, kinds=KINDS):
        self.path = path
        self.kind = choose(name + ' is', *kinds)
        self.stat = Stat(name)
        self.lstat = Stat(name + ' (link)') if 'link' in self.kind else self.stat
        self.names = None
        self.target = None


class OS:
    def __init__(self, *nodes):
        self.nodes = nodes
        self.error = None
        self.result = opaque('result')
        self.opened = None
        for name in ('exists', 'lexists', 'isfile', 'isdir', 'islink'):
            external('os.path.' + name, getattr(self, name))
        for name in ('stat', 'lstat', 'chmod', 'listdir', 'unlink', 'remove', 'rmdir', 'mkdir', 'readlink', 'symlink',
                     'rename', 'replace', 'link', 'makedirs', 'utime', 'chown', 'truncate', 'access'):
            external('os.' + name, getattr(self, name))
        for name in ('move', 'copystat', 'copymode', 'copyfile', 'copy', 'copy2', 'rmtree', 'copytree'):
            external('shutil.' + name, getattr(self, 'sh_' + name))
        external('open', self.open)

    def node(self, path):
        path = str(path)
        for n in self.nodes:
            if path == n.path:
                return n
        unreachable('on the path of the uri', path)

    def done(self, *ev):
        "an effect: recorded, and refused if the system says so"
        emit(*ev)
        if self.error is not None:
            raise self.error
        return self.result

    # queries
    def exists(self, p):
        return self.node(p).kind not in ('missing', 'dangling link')

    def lexists(self, p):
        return self.node(p).kind != 'missing'

    def isfile(self, p):
        return self.node(p).kind in ('file', 'link to a file')

    def isdir(self, p):
        return self.node(p).kind in ('directory', 'link to a directory')

    def islink(self, p):
        return 'link' in self.node(p).kind

    def access(self, p, mode, **k):
        return True

    def stat(self, p, dir_fd=None, follow_symlinks=True):
        n = self.node(p)
        if not follow_symlinks:
            return self.lstat(p)
        if n.kind in ('missing', 'dangling link'):
            raise OSError(errno.ENOENT, 'no such file')
        return n.stat

    def lstat(self, p, dir_fd=None):
        n = self.node(p)
        if n.kind == 'missing':
            raise OSError(errno.ENOENT, 'no such file')
        return n.lstat

    def listdir(self, p='.'):
        n = self.node(p)
        if self.error is not None:
            raise self.error
        return list(n.names)

    def readlink(self, p):
        n = self.node(p)
        if self.error is not None:
            raise self.error
        return n.target

    def open(self, p, mode='r', *a, **k):
        self.node(p)
        ensure('opened with the options given only', not a and not k)
        return self.done('open', str(p), mode)

    # effects
    def chmod(self, p, mode, follow_symlinks=True):
        self.node(p)
        self.done('chmod' if follow_symlinks else 'lchmod', str(p), mode)

    def unlink(self, p):
        self.node(p)
        return self.done('unlink', str(p))

    def remove(self, p):
        return self.unlink(p)

    def rmdir(self, p):
        self.node(p)
        return self.done('rmdir', str(p))

    def mkdir(self, p, mode=0o777):
        self.node(p)
        ensure('default permissions', mode == 0o777)
        return self.done('mkdir', str(p))

    def symlink(self, src, dst, target_is_directory=False):
        self.node(dst)
        return self.done('symlink', str(src), str(dst))

    def sh_move(self, src, dst):
        return self.done('move', str(src), str(dst))

    def sh_copystat(self, src, dst, follow_symlinks=True):
        ensure('follows links', follow_symlinks)
        return self.done('copystat', str(src), str(dst))

    def other(self, name):
        emit('other effect', name)

    def rename(self, *a, **k):
        self.other('rename')

    def replace(self, *a, **k):
        self.other('replace')

    def link(self, *a, **k):
        self.other('link')

    def makedirs(self, *a, **k):
        self.other('makedirs')

    def utime(self, *a, **k):
        self.other('utime')

    def chown(self, *a, **k):
        self.other('chown')

    def truncate(self, *a, **k):
        self.other('truncate')

    def sh_copymode(self, *a, **k):
        self.other('copymode')

    def sh_copyfile(self, *a, **k):
        self.other('copyfile')

    def sh_copy(self, *a, **k):
        self.other('copy')

    def sh_copy2(self, *a, **k):
        self.other('copy2')

    def sh_rmtree(self, *a, **k):
        self.other('rmtree')

    def sh_copytree(self, *a, **k):
        self.other('copytree')


def effects():
    return [e for e in trace() if e[0] not in ('hook',)]


class LocalRegistry:
    "one connection per scheme"
    def __init__(self, **backends):
        self.backends = backends

    def get_connection(self, scheme='', *a, **k):
        return self.backends[scheme]


class Local:
    "the local backend with its uris"
    def __enter__(self):
        self.fs = repo('fs')
        self.localfs = repo('localfs')
        self.old = self.fs.CONNECTION_REGISTRY
        self.backend = self.localfs.LocalFileSystem()
        self.other = Elsewhere()
        self.fs.CONNECTION_REGISTRY = LocalRegistry(file=self.backend, sch=self.other)
        return self

    def __exit__(self, *a):
        self.fs.CONNECTION_REGISTRY = self.old


class Elsewhere(repo('fs').FileSystem):
    last_used = property(lambda self: 0, lambda self, v: None)

    def __init__(self):
        pass

    def pre_call_hook(self, path, func):
        pass


def local_path(name='path'):
    "an absolute path, or a relative one"
    from common import RESERVED
    text = string(name + ' start', exclude=RESERVED + '.', minlen=1) + '/' + string(name + ' end', exclude=RESERVED, minlen=1)
    return '/' + text if choose(name + ' absolute', True, False) else './' + text
