"""C20: walking visits every directory once with its exact contents"""
from pv import *
from common import *
from oslib import LocalRegistry
from treelib import Trees, snapshot

TRUSTED = ['sorted: an ordered permutation of its argument']
ASSUMPTIONS = ['the backend lists the names of a directory, each once; no directory, file or link changes while it is walked',
               'the tree is finite; with links followed, no link leads back to a directory above it']

NAME = '/?#\\:()\n'


class Tree(repo('fs').FileSystem):
    "a backend of which only the addressed directory is looked at: what is below it is by contract"
    scheme = 'sch'
    last_used = property(lambda self: 0, lambda self, v: None)

    def __init__(self, fs, names):
        self.fs, self.names = fs, names

    def pre_call_hook(self, path, func):
        pass

    def listdir(self, path):
        ensure('lists the directory it walks', path == self.top)
        return list(self.names)

    def isdir(self, path):
        return predicate('isdir', path.path)

    def islink(self, path):
        return predicate('islink', path.path)


def below(self, top, topdown=True, followlinks=True):
    "contract of the walk below a directory: one mark for all that it yields"
    return [('walk', top.path, (topdown, followlinks))]


def expected(top, names, followlinks, topdown, entered=None):
    dirs, others, deeper = [], [], []
    for name in sorted(names):
        if predicate('isdir', (top / name).path):
            dirs.append(name)
        else:
            others.append(name)
    for name in (dirs if entered is None else entered):
        if followlinks or not predicate('islink', (top / name).path):
            deeper.append(('walk', (top / name).path, (topdown, followlinks)))
    return dirs, others, deeper


def start():
    fs = repo('fs')
    names = strings('names', exclude=NAME, minlen=1, distinct=True)
    t = Tree(fs, names)
    t.top = fs.BaseUri('sch://host/' + string('top', exclude=NAME, minlen=1))
    t.top.path, t.top.scheme
    contract('FileSystem.walk', below)
    fs.CONNECTION_REGISTRY = LocalRegistry(sch=t)
    return fs, names, t


def proof_directory():
    "what a walk yields for one directory, and where it goes on"
    fs, names, t = start()
    topdown, followlinks = choose('topdown', True, False), choose('followlinks', True, False)
    got = list(real(fs.FileSystem.walk, t, t.top, topdown, followlinks))
    dirs, others, deeper = expected(t.top, names, followlinks, topdown)
    own = [(t.top, dirs, others)]
    ensure('the directory and all below it', got == (own + deeper if topdown else deeper + own))


def proof_pruning():
    "directories that the caller takes off the list are not entered"
    fs, names, t = start()
    followlinks = choose('followlinks', True, False)
    walk = real(fs.FileSystem.walk, t, t.top, True, followlinks)
    root, dirs, others = next(walk)
    how = choose('how', 'filtered', 'cleared', 'emptied', 'replaced')
    if how == 'filtered':
        kept = [d for d in dirs if predicate('kept', d)]
        dirs[:] = kept
    elif how == 'cleared':
        dirs.clear()
        kept = []
    elif how == 'emptied':
        del dirs[:]
        kept = []
    else:
        kept = ['one', 'two']
        dirs[:] = kept
    deeper = expected(t.top, names, followlinks, True, kept)[2]
    ensure('only what is left is entered', list(walk) == deeper)


def native_walk():
    "trees with links on the in-memory and the local backend, with and without following links"
    with Trees() as t:
        topdown, followlinks = choose('topdown', True, False), choose('followlinks', True, False)
        prune = choose('prune', (), (), ('skip', 'a', 'b'), ('skip', 'skip2', '.h', 'é')) if topdown else ()
        out = []

        def visit(path, tree):
            isdir = lambda n: isinstance(t.node(path + '/' + n), dict)
            dirs, others = [n for n in sorted(tree) if isdir(n)], [n for n in sorted(tree) if not isdir(n)]
            if topdown:
                out.append((path, dirs, others))
            for n in dirs:
                if n not in prune and (followlinks or not isinstance(tree[n], tuple)):
                    visit(path + '/' + n, t.node(path + '/' + n))
            if not topdown:
                out.append((path, dirs, others))
        visit(t.top.path, t.tree)
        got = []
        for root, dirs, others in t.top.walk(topdown=topdown, followlinks=followlinks):
            got.append((root.path, list(dirs), list(others)))
            ensure('same backend', root.get_connection() is t.top.get_connection())
            if choose('in place', True, False):
                dirs[:] = [d for d in dirs if d not in prune]
            else:
                for d in list(dirs):
                    if d in prune:
                        dirs.remove(d)
        ensure('the whole walk', got == out, (t.tree, got, out))
        ensure('nothing changed', snapshot(t.top) == t.tree)


class Shuffled(repo('fs').FileSystem):
    "a backend that lists names in any order"
    last_used = property(lambda self: 0, lambda self, v: None)

    def __init__(self, tree):
        self.tree = tree

    def pre_call_hook(self, path, func):
        pass

    def node(self, path):
        node = self.tree
        for x in path.path.strip('/').split('/'):
            if x:
                node = node[x]
        return node

    def isdir(self, path):
        return self.node(path) is not None

    def islink(self, path):
        return False

    def listdir(self, path):
        return list(self.node(path))


def native_any_order():
    "the walk is sorted whatever the order in which the backend lists names"
    counter = [0]

    def directory(depth):
        out = {}
        for i in range(choose('entries %d' % counter[0], 0, 1, 2, 3, 4)):
            counter[0] += 1
            out[choose('name %d' % counter[0], 'b', 'a', 'c', 'B', '.h', 'aa', '0')] = \
                directory(depth - 1) if depth and choose('kind %d' % counter[0], True, False) else None
        return out
    fs = repo('fs')
    t = Shuffled(directory(3))
    old = fs.CONNECTION_REGISTRY
    fs.CONNECTION_REGISTRY = LocalRegistry(sch=t)
    try:
        topdown = choose('topdown', True, False)
        want = []

        def visit(path, tree):
            own = (path, sorted(n for n in tree if tree[n] is not None), sorted(n for n in tree if tree[n] is None))
            if topdown:
                want.append(own)
            for n in own[1]:
                visit(path + '/' + n if path != '/' else path + n, tree[n])
            if not topdown:
                want.append(own)
        visit('/', t.tree)
        got = [(root.path, dirs, others) for root, dirs, others in fs.BaseUri('sch://host/').walk(topdown=topdown)]
        ensure('the whole walk, in order', got == want, (got, want))
    finally:
        fs.CONNECTION_REGISTRY = old


def native_link_circles():
    "links into the tree itself are listed, not entered, if links are not followed"
    with Trees(cycles=True) as t:
        topdown = choose('topdown', True, False)
        seen = []
        for root, dirs, others in t.top.walk(topdown=topdown, followlinks=False):
            seen.append(root.path)
            node = t.all
            for x in root.path[len(t.base.path.rstrip('/')):].strip('/').split('/'):
                node = node[x]
            ensure('every entry once', sorted(dirs + others) == sorted(node))
        real_dirs = []

        def visit(path, tree):
            real_dirs.append(path)
            for n, x in tree.items():
                if isinstance(x, dict):
                    visit(path + '/' + n, x)
        visit(t.top.path, t.tree)
        ensure('every directory once', sorted(seen) == sorted(real_dirs))
