"""directory trees for concrete runs: a directory is a dict, a file its bytes, a link ('link', path)"""
from pv import *

NAMES = ['a', 'b', 'c', 'B', 'a.x', '.h', 'b b', 'ab', 'é', 'skip', 'skip2', '0']


class Trees:
    """a top directory with an unknown tree in it, on one of the backends; beside it there are
    directories and files for the links to lead to"""
    def __init__(self, backends=('memory', 'local'), links=True, cycles=False, depth=3):
        import tempfile
        self.fs = repo('fs')
        self.links, self.cycles = links, cycles
        self.temp = None
        self.n = 0
        self.backend = choose('backend', *backends)
        if self.backend == 'local':
            self.temp = tempfile.mkdtemp(prefix='tree')
            self.base = self.fs.URI(self.temp)
        else:
            self.fs.CONNECTION_REGISTRY.cleanup(force=True)
            self.base = self.fs.URI('memory:///')
        self.outside = {'d1': {'x': b'1', 'sub': {'y': b'22'}}, 'd2': {}, 'f': b'outside'}
        self.top_name = choose('top', 'top', 'top', 'a', 'to p')
        self.tree = self.directory(depth)
        self.all = dict({self.top_name: self.tree}, **self.outside)
        for name, node in self.all.items():
            build(self.base / name, node)
        self.top = self.base / self.top_name

    def close(self):
        import shutil
        if self.temp:
            shutil.rmtree(self.temp, ignore_errors=True)

    __enter__ = lambda self: self
    __exit__ = lambda self, *a: self.close()

    def directory(self, depth):
        out = {}
        self.n += 1
        for i in range(choose('entries %d' % self.n, 0, 1, 2, 3, 4, 5)):
            self.n += 1
            name = choose('name %d' % self.n, *NAMES)
            if name in out:
                continue
            kind = choose('kind %d' % self.n, 'file', 'directory', 'directory', 'link') if depth else 'file'
            if kind == 'directory':
                out[name] = self.directory(depth - 1)
            elif kind == 'file' or not self.links:
                out[name] = choose('content %d' % self.n, b'', b'x', b'y\n\xff' * 30000)
            else:
                where = ['d1', 'd2', 'd1/sub', 'f', 'd1/x', 'missing', 'd1/missing']
                if self.cycles:
                    where += [self.top_name, self.top_name + '/' + NAMES[0], '']
                out[name] = ('link', self.base.path.rstrip('/') + '/' + choose('target %d' % self.n, *where))
        return out

    def node(self, path):
        "the node of an absolute path below the base, links followed; None if there is none"
        node = self.all
        for x in path[len(self.base.path.rstrip('/')):].strip('/').split('/'):
            if x == '':
                continue
            if not isinstance(node, dict) or x not in node:
                return None
            node = node[x]
            if isinstance(node, tuple):
                node = self.node(node[1])
        return node


def build(u, node):
    if isinstance(node, dict):
        u.mkdir()
        for name, x in node.items():
            build(u / name, x)
    elif isinstance(node, bytes):
        with u.open('wb') as f:
            f.write(node)
    else:
        u.get_connection().symlink(repo('fs').URI(u.scheme + '://' + node[1] if u.scheme != 'file' else node[1]), u)


def snapshot(u):
    if u.islink():
        return ('link', u.readlink().path)
    if u.isdir():
        return {name: snapshot(u / name) for name in u.listdir()}
    with u.open('rb') as f:
        return f.read()


def copied(t, node, path, ignore, followlinks):
    "what a copy of the node should hold; None if there is no such"
    if isinstance(node, tuple):
        if not followlinks:
            return node
        node = t.node(path)
    if isinstance(node, dict):
        out = {}
        for name, x in node.items():
            if name in ignore and isinstance(t.node(path + '/' + name), dict):
                continue
            out[name] = copied(t, x, path + '/' + name, ignore, followlinks)
        return out
    return node


def incomplete(node):
    return node is None or isinstance(node, dict) and any(incomplete(x) for x in node.values())


def target_in(t, temp):
    where = choose('to', 'same', 'same', 'other')
    if where == 'same':
        return t.base
    if t.temp is None:
        return t.fs.URI(temp)
    t.fs.CONNECTION_REGISTRY.cleanup(force=True)
    return t.fs.URI('memory:///')
