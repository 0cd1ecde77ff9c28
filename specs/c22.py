"""C22: listing and globbing return exactly the entries of the directory"""
import fnmatch
from pv import *
from common import *
from oslib import Local, OS, Node, LocalRegistry, local_path, effects
from memlib import World, untouched, MISSING, LOOP
from treelib import Trees, build

TRUSTED = ['fnmatch.fnmatch: decides whether a name matches a shell pattern',
           'os.listdir: the names of the directory, each once, in any order', 'sorted: an ordered permutation of its argument']
ASSUMPTIONS = ['POSIX: names are compared as they are']

NAME = '/?#\\:()\n'


def unit_memory():
    "in memory: the names of that directory, each once, in order"
    with World() as w:
        u = w.path()
        r = outcome(u.listdir)
        found = w.found()
        if found in (MISSING, LOOP) or w.kind(found) != 'directory':
            ensure('fails', r[0] == 'raise')
        else:
            ensure('all names in order', r[0] == 'return' and list(r[1]) == sorted(found._files.names()))
        untouched()


def unit_local():
    "locally: what the system lists, in order"
    with Local() as l:
        u = l.fs.URI(local_path())
        n = Node(u.path, 'node', ('directory', 'link to a directory'))
        o = OS(n)
        n.names = strings('names', exclude='/', minlen=1, distinct=True)
        r = outcome(u.listdir)
        ensure('all names in order', r[0] == 'return' and list(r[1]) == sorted(n.names))
        ensure('no effect', effects() == [])


def own(base, names):
    "a backend of the library that lists these names"
    class Own(base):
        last_used = property(lambda self: 0, lambda self, v: None)

        def __init__(self):
            self.asked = []

        def pre_call_hook(self, path, func):
            pass

        def listdir(self, path):
            self.asked = self.asked + [path]
            return list(names)
    return Own()


def glob(base):
    fs = repo('fs')
    names = strings('names', exclude=NAME, minlen=1, distinct=True, ordered=True)
    b = own(base, names)
    fs.CONNECTION_REGISTRY = LocalRegistry(sch=b)
    u = fs.BaseUri('sch://host/' + string('directory', exclude=NAME + '.', minlen=1) + choose('slash', '', '/'))
    pattern = string('pattern', exclude='/')
    u.path, u.scheme
    got = u.glob(pattern)
    ensure('the directory is listed', len(b.asked) >= 1 and all(p == u for p in b.asked))
    ensure('the children that match, in that order', list(got) == [u / n for n in names if fnmatch.fnmatch(n, pattern)])


def proof_glob():
    glob(repo('fs').FileSystem)


def proof_glob_memory():
    glob(repo('memory').MemoryFileSystem)


def proof_glob_local():
    glob(repo('localfs').LocalFileSystem)


def matches(name, pattern):
    "shell patterns, written down on their own"
    if not pattern:
        return not name
    if pattern[0] == '*':
        return any(matches(name[i:], pattern[1:]) for i in range(len(name) + 1))
    if not name:
        return False
    if pattern[0] == '[' and ']' in pattern[2:]:
        end = pattern.index(']', 2 if pattern[1] != '!' else 3) if ']' in pattern[(2 if pattern[1] != '!' else 3):] else -1
        if end > 0:
            inside, negated = pattern[1:end], pattern[1] == '!'
            if negated:
                inside = inside[1:]
            hit, i = False, 0
            while i < len(inside):
                if i + 2 < len(inside) and inside[i + 1] == '-':
                    hit = hit or inside[i] <= name[0] <= inside[i + 2]
                    i += 3
                else:
                    hit = hit or inside[i] == name[0]
                    i += 1
            return hit != negated and matches(name[1:], pattern[end + 1:])
    return (pattern[0] == '?' or pattern[0] == name[0]) and matches(name[1:], pattern[1:])


NAMES = ['a', 'b', 'A', 'a.txt', 'b.txt', 'a.TXT', '.a', '.txt', '[a]', '*', 'a*', 'é', 'ab', 'abc', 'a b', '0', 'a.b.txt', '!', ']', '-']
PATTERNS = ['*', '*.txt', 'a*', '?', '??', '[ab]*', '[!a]*', 'a', '', '.*', '[[]a]', '[a-c]', '*.*', '*b*', 'é', '[!.]*.txt', '*a', 'a.*.txt', '[', '!']


def native_listing():
    "directories with unusual names, changed between the listings, on the in-memory and the local backend"
    with Trees(depth=0) as t:
        d = t.base / choose('directory', 'x', 'x y', '[a]', '*')
        d.mkdir()
        have = []
        for i in range(choose('steps', 0, 1, 2, 4, 8, 12)):
            name = choose('name %d' % i, *NAMES)
            if name in have:
                (d / name).remove()
                have.remove(name)
            else:
                kind = choose('kind %d' % i, 'file', 'directory', 'link', 'link to nothing')
                build(d / name, {'file': b'x', 'directory': {}, 'link': ('link', (t.base / 'd1').path),
                                 'link to nothing': ('link', (t.base / 'nothing').path)}[kind])
                have.append(name)
        ensure('all names in order', d.listdir() == sorted(have), (have, d.listdir()))
        pattern = choose('pattern', *PATTERNS)
        u = d / '' if choose('slash', False, True) else d
        got = u.glob(pattern)
        want = [n for n in sorted(have) if matches(n, pattern)]
        ensure('what matches', [x.path for x in got] == [(d / n).path for n in want], (pattern, have, got))
        ensure('on the same backend', all(x.get_connection() is d.get_connection() for x in got))
        for x in got:
            ensure('they are there', x.exists() or x.islink())
