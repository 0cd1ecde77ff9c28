"""C21: makedirs creates exactly the missing ancestors"""
import os
from pv import *
from common import *
from oslib import LocalRegistry
from treelib import Trees, snapshot

TRUSTED = []
ASSUMPTIONS = ['the root is a directory; a prefix of a directory path is a directory',
               'mkdir of a backend adds exactly that directory or fails (C13, C25)',
               'nobody else changes the tree meanwhile']

NAME = '/?#\\:()\n'


class Dirs(repo('fs').FileSystem):
    """a backend that holds the first `there` directories of the path, and possibly a file in
    place of the next one"""
    scheme = 'sch'
    last_used = property(lambda self: 0, lambda self, v: None)

    def __init__(self, fs):
        self.fs = fs
        self.parts = strings('parts', exclude=NAME, minlen=1, notin=('.', '..'))
        self.name = string('name', exclude=NAME, minlen=1, notin=('.', '..'))
        self.above = '/' + '/'.join(self.parts)
        self.path = '/' + '/'.join(self.parts + [self.name])
        self.count = len(self.parts)
        self.there = integer('there', 0, None if SYMBOLIC else len(self.parts) + 1)
        assume(self.there <= self.count + 1)
        self.obstacle = boolean('obstacle')
        self.error = exception('OSError', 17)
        self.made = []
        if self.there > self.count:
            assume(not self.obstacle)

    def pre_call_hook(self, path, func):
        pass

    def isdir(self, path):
        p = path.path
        if p in ("", "/"):
            return True
        p = p.rstrip('/')
        if p == self.path:
            return self.there > self.count
        ensure('asks for the path or its parent', p == self.above)
        return self.there >= self.count

    def exists(self, path):
        return self.isdir(path) or self.there == (self.count if path.path.rstrip('/') == self.path else self.count - 1) and self.obstacle

    def isfile(self, path):
        return self.exists(path) and not self.isdir(path)

    def mkdir(self, path):
        ensure('makes the path itself', path.path.rstrip('/') == self.path)
        ensure('the parent is there', self.there >= self.count or self.obstacle)
        if self.there != self.count or self.obstacle:
            raise self.error
        self.levels(self.there, self.there + 1)
        self.there = self.there + 1

    def levels(self, a, b):
        self.made = self.made + [(a, b)]


def ancestors(self, path):
    "contract of makedirs for what is above: makes the missing ones up to it, or fails at the obstacle"
    p = path.path
    if p == self.path:
        ensure('a shorter path', self.given == self.path + '/')
        level = self.count + 1
    else:
        ensure('the parent', p == self.above or p == self.above + '/')
        level = self.count
    if self.there >= level:
        return path
    if self.obstacle:
        raise self.error
    self.levels(self.there, level)
    self.there = level
    return path


def proof_makedirs():
    "by induction on the length of the path"
    fs = repo('fs')
    d = Dirs(fs)
    contract('FileSystem.makedirs', ancestors)
    fs.CONNECTION_REGISTRY = LocalRegistry(sch=d)
    d.given = d.path + choose('end', '', '/')
    u = fs.BaseUri('sch://host' + d.given)
    before, obstacle = d.there, d.obstacle
    r = outcome(real, fs.FileSystem.makedirs, d, u)
    if obstacle:
        ensure('fails with the error of the obstacle', r == ('raise', d.error))
        ensure('nothing made', d.there == before and not d.made)
    else:
        ensure('succeeds', r[0] == 'return', r)
        ensure('all are directories', d.there == d.count + 1)
        # .made: the ranges of levels in the order they were made
        k = before
        for a, b in d.made:
            ensure('exactly the missing ones, parents first', a == k and b > a)
            k = b
        ensure('up to the path itself', k == d.count + 1)


def proof_makedirs_root():
    fs = repo('fs')
    d = Dirs(fs)
    contract('FileSystem.makedirs', ancestors)
    fs.CONNECTION_REGISTRY = LocalRegistry(sch=d)
    r = outcome(real, fs.FileSystem.makedirs, d, fs.BaseUri('sch://host' + choose('path', '', '/')))
    ensure('nothing to do', r[0] == 'return' and not d.made)


def dangling(connection, fs, path):
    "is there a link that leads nowhere"
    if connection.__class__.__name__ == 'MemoryFileSystem':
        path = 'memory://' + path
    return fs.URI(path).islink()


def native_makedirs():
    """existing and missing ancestors, files and links in the way, relative local paths, repeated
    calls, on the in-memory and the local backend"""
    with Trees() as t:
        names = [choose('name', 'a', 'b', 'f', 'l', 'new', 'é ü', '.h', 'x y') for _ in range(choose('n', 1, 2, 3, 4, 5))]
        target = t.top
        for n in names:
            target = target / n
        if choose('slash', False, False, True):
            target = target / ''
        before = snapshot(t.top)
        # what is there already, links followed
        node, depth = t.tree, 0
        path = t.top.path.rstrip('/')
        blocked = False
        for n in names:
            path = path + '/' + n
            node = t.node(path) if node is not None else None
            if node is None:
                blocked = dangling(t.top.get_connection(), t.fs, path)
                break
            if not isinstance(node, dict):
                blocked = True
                break
            depth += 1
        if t.temp and choose('relative', False, True):
            here = os.getcwd()
            os.chdir(t.temp)
            try:
                r = outcome(t.fs.URI(target.path[len(t.temp) + 1:]).makedirs)
            finally:
                os.chdir(here)
        else:
            r = outcome(target.makedirs)
        after = snapshot(t.top)
        ensure('an obstacle is an error', (r[0] == 'raise') == blocked, (names, before, r))
        if blocked:
            ensure('an error of the operating system', isinstance(r[1], OSError))
            ensure('nothing changed', after == before)
            return
        ensure('a directory', target.isdir())
        again = outcome(target.makedirs)
        ensure('repeating changes nothing', again[0] == 'return' and snapshot(t.top) == after)
        # undo what should have been made: the rest is as before
        x = t.top
        for n in names[:depth]:
            x = x / n
        for n in names[depth:]:
            ensure('only the named one', n in x.listdir())
            x = x / n
        if depth < len(names):
            y = t.top
            for n in names[:depth + 1]:
                y = y / n
            z = y
            for n in names[depth + 1:]:
                ensure('nothing else in the new ones', z.listdir() == [n])
                z = z / n
            ensure('nothing in the last', z.listdir() == [])
            y.remove('r')
        ensure('nothing else changed', snapshot(t.top) == before)
