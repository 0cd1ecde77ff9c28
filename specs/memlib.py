"""arbitrary in-memory trees: directories whose entries are made up when looked at"""
import errno
from pv import *
from common import *

NAME = RESERVED + '\x00'
LOOP = 'too many links'
MISSING = 'missing'


class Buffer:
    "what a memoryview of bytes tells"
    def __init__(self, data):
        self.data = data
        self.nbytes = len(data)

    def __len__(self):
        return self.nbytes

    def tobytes(self):
        return self.data


class Bytes:
    "io.BytesIO: what is before and what is after the position"
    def __init__(self, data=b''):
        self.before, self.after = b'', data

    def getvalue(self):
        return self.before + self.after

    def getbuffer(self):
        return Buffer(self.before + self.after)

    def read(self, size=-1):
        if size is None or size < 0 or size >= len(self.after):
            r, self.after = self.after, b''
        else:
            r, self.after = self.after[:size], self.after[size:]
        self.before = self.before + r
        return r

    def write(self, data):
        self.before = self.before + data
        if len(self.after) > 0:
            # what is overwritten is not worked out
            self.after = pick(b'', fresh_bytes('left over'))
        return len(data)

    def readline(self, size=-1):
        line, end, rest = self.after.partition(b'\n')
        line = line + end
        self.before, self.after = self.before + line, rest
        return line

    def __iter__(self):
        return self

    def __next__(self):
        line = self.readline()
        if len(line) == 0:
            raise StopIteration
        return line

    def seek(self, to, whence=0):
        whole = self.before + self.after
        if whence == 1:
            to = to + len(self.before)
        if whence == 2:
            to = to + len(whole)
        if to == len(whole):
            self.before, self.after = whole, b''
        elif to == 0:
            self.before, self.after = b'', whole
        elif to > len(whole):
            self.before, self.after = whole + fresh_bytes('zeros'), b''
        else:
            self.before, self.after = whole[:to], whole[to:]
        return to

    def tell(self):
        return len(self.before)

    def truncate(self, pos=None):
        if pos is not None:
            self.seek(pos)
        self.after = b''

    def flush(self):
        pass

    def seekable(self):
        return True

    def close(self):
        self.before = self.after = None


class Entries:
    "the entries of a directory: any names, any nodes; every change is recorded"
    def __init__(self, world, fresh=True):
        self.world = world
        self.known = []
        self.old = []           # as they were in the beginning
        self.empty = pick(False, True) if fresh else True
        self.listing = None

    def find(self, name):
        for n, node in self.known:
            if n == name:
                return node
        node = None if self.empty else self.world.some_entry()
        self.known.append((name, node))
        self.old.append((name, node))
        return node

    def was(self, name):
        self.find(name)
        for n, node in self.old:
            if n == name:
                return node

    def change(self, name, node):
        self.find(name)
        self.known = [(n, node if n == name else old) for n, old in self.known]

    def __contains__(self, name):
        return self.find(name) is not None

    def __getitem__(self, name):
        node = self.find(name)
        if node is None:
            raise KeyError(name)
        return node

    def get(self, name, default=None):
        node = self.find(name)
        return default if node is None else node

    def __setitem__(self, name, node):
        self.change(name, node)
        emit('set', self, name, node)

    def __delitem__(self, name):
        if self.find(name) is None:
            raise KeyError(name)
        self.change(name, None)
        emit('del', self, name)

    def pop(self, name, *default):
        node = self.find(name)
        if node is None:
            if default:
                return default[0]
            raise KeyError(name)
        self.change(name, None)
        emit('del', self, name)
        return node

    def setdefault(self, name, node):
        if name not in self:
            self[name] = node
        return self[name]

    def __len__(self):
        here = [n for n, node in self.known if node is not None]
        if self.empty:
            return 0
        return len(here) + fresh_int('further entries', 0 if here else 1)

    def __bool__(self):
        return len(self) > 0

    def keys(self):
        return list(self.names())

    def __iter__(self):
        return iter(self.keys())

    def items(self):
        return [(n, self.find(n)) for n in self.names()]

    def names(self):
        if self.listing is None:
            self.listing = [] if self.empty else strings('names', exclude=NAME, minlen=1, least=1, distinct=True)
        return self.listing


class World:
    """a memory backend over an arbitrary tree.

    The node a link leads to is an unknown function of the link and of the number of
    links followed before; that the code computes it component by component and link by
    link is what specification units prove about _get_node_for_path."""
    def __init__(self):
        self.m = repo('memory')
        self.fs = repo('fs')
        self.kinds = {self.m.NodeKind.FILE: 'file', self.m.NodeKind.DIR: 'directory', self.m.NodeKind.LINK: 'link'}
        self.mfs = self.m.MemoryFileSystem()
        self.root = self.directory(self.mfs._fs)
        self.links = []
        self.targets = []
        self.level = 0
        self.aliases = []           # nodes that links may lead to as well
        self.keep = self.fs.CONNECTION_REGISTRY
        self.fs.CONNECTION_REGISTRY = One(self.mfs)
        self.agree = False          # do all lookups of the path agree?
        self.decided = False
        self.may_miss = False       # do lookups go on with nothing where an entry is missing?
        self.uri = None
        if SYMBOLIC:
            contract('MemoryFileSystem._get_node_for_path', self.lookup_contract)
            contract('BaseUri.path', self.path_contract)
            external('io.BytesIO', lambda data=b'': Bytes(data))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.fs.CONNECTION_REGISTRY = self.keep

    # nodes
    def directory(self, d=None, fresh=True):
        if d is None:
            d = self.m.MemoryDir()
        d._files = Entries(self, fresh)
        self.stamp(d)
        return d

    def stamp(self, n):
        n.mode = bits('mode')
        n.mtime = fresh_number('mtime', 0, 10 ** 9)

    def file(self):
        if SYMBOLIC:
            f = obj(self.m.MemoryFile, path=fresh('path'), _data=Bytes(fresh_bytes('data')), lock=fresh('lock'), _line_reader=None)
            f.ctime = fresh_number('ctime', 0, 10 ** 9)
        else:
            f = self.m.MemoryFile('file %d' % fresh_int('nr'))
            f.write(b'data')
        self.stamp(f)
        return f

    def link(self):
        if SYMBOLIC:
            target = fresh('target')
        else:
            target = self.some_target()
        l = self.m.MemorySymlink(target)
        self.targets.append((target, l))
        self.stamp(l)
        return l

    def some_target(self):
        "concrete runs: a path within the tree that was made up so far, or anywhere"
        names = []
        node = self.root
        for _ in range(pick(0, 1, 1, 2, 2, 3)):
            here = [n for n, x in node._files.known if x is not None] if node is not None and self.kind(node) == 'directory' else []
            name = pick(*(here + here + ['a', 'b', 'ab']))
            names.append(name)
            node = dict(node._files.known).get(name) if here else None
        return self.fs.URI('memory:///' + '/'.join(names))

    def some_entry(self):
        kind = pick('absent', 'file', 'directory', 'link')
        return self.make(kind)

    def make(self, kind):
        return {'absent': lambda: None, 'file': self.file, 'directory': self.directory, 'link': self.link}[kind]()

    def kind(self, node):
        return self.kinds[node.kind]

    def path_contract(self, u):
        "the path of memory:///x is /x (C01, C06)"
        if self.uri is not None and same(u, self.uri):
            return '/' + self.text
        return real(undecorated(self.fs.BaseUri.path.fget), u)

    def lookup_contract(self, mfs, base, unc, follow_link=True, throw=True, linklevel=0):
        "the lookup of the path at hand is carried out, that of a link's target is by contract"
        for target, link in self.targets:
            if same(unc, target):
                break
        else:
            return real(mfs._get_node_for_path, base, unc, follow_link, throw, linklevel)
        ensure('link targets are looked up from the root', same(base, self.root))
        ensure('a link to a link is followed', follow_link)
        ensure('nested links are counted', linklevel > self.level)
        ensure('at most 32 nested links', linklevel <= 32)
        return self.answer(mfs, self.follow(link, linklevel - 1), throw)

    def answer(self, mfs, r, throw):
        if r == LOOP:
            raise mfs.lookup_exc_class(errno.ELOOP, LOOP)
        if r == MISSING:
            if throw:
                raise mfs.lookup_exc_class(errno.ENOENT, MISSING)
            return None
        return r

    # what lookups have to find
    def follow(self, link, level):
        "the node, MISSING or LOOP at the end of a link, with `level` links followed already"
        if level >= 32:
            return LOOP
        if not SYMBOLIC:
            return self.walk(self.root, [x for x in link.target.path.split('/') if x], True, level + 1)
        for l, n, r in self.links:
            if same(l, link) and n == level:
                return r
        r = pick('file', 'directory', 'root', MISSING, LOOP, *self.aliases)
        r = self.root if r == 'root' else r if r in self.aliases else r if r in (MISSING, LOOP) else self.make(r)
        self.links.append((link, level, r))
        return r

    def step(self, node, name, follow, level):
        if node in (MISSING, LOOP):
            return node
        if self.kind(node) != 'directory':
            return MISSING
        entry = node._files.find(name)
        if entry is None:
            return MISSING
        if self.kind(entry) == 'link' and follow:
            return self.follow(entry, level)
        return entry

    def walk(self, node, names, follow, level=0):
        for i in range(len(names)):
            node = self.step(node, names[i], follow or i < len(names) - 1, level)
        return node

    # paths
    def path(self, tail=(), least=0):
        "an absolute path of unknown depth that ends in the names of tail"
        self.parts = strings('parts', exclude=NAME, minlen=1, least=least, notin=('.', '..'))
        self.tail = list(tail)
        self.follow_last = True
        self.reached, self.phase = self.root, 'exit'
        self.decided = False
        self.text = '/'.join(list(self.parts) + self.tail)
        self.uri = self.fs.URI('memory:///' + self.text)
        if SYMBOLIC:
            invariant('*', 0, self.along)
        return self.uri

    def decide(self):
        """what the path without its tail leads to: any node, MISSING or LOOP; all lookups
        of an operation agree on it"""
        if self.decided:
            return self.final
        if not SYMBOLIC:
            self.final = self.walk(self.root, list(self.parts), True)
        elif len(self.parts) == 0:
            self.final = self.root
        else:
            r = pick('directory', 'root', 'file', MISSING, LOOP)
            self.final = self.root if r == 'root' else r if r in (MISSING, LOOP) else self.make(r)
        self.decided = True
        return self.final

    def along(self, L):
        """loop over the components of the path: the variables hold the node reached so
        far and the one before"""
        if L.mode == 'init':
            self.reached = self.root
            L.var('prev', None)
            L.var('current', self.root)
            self.phase = 'init'
            return
        whole = len(self.parts) + len(self.tail)
        if L.mode == 'assume':
            self.at = L.i
            self.phase = 'exit' if L.i == len(self.parts) else 'iteration'
            if L.i == 0:
                self.reached, self.before = self.root, None
            else:
                self.reached = self.somewhere(L.i == whole and not self.follow_last)
                # the node before is used only if it is the last but one
                self.before = pick(self.root, self.directory()) if L.i == whole else fresh('before')
            if self.decided and self.phase == 'iteration' and self.final not in (MISSING, LOOP):
                assume(self.on(self.reached) not in (MISSING, LOOP))
        else:
            self.before = self.reached
            self.reached = self.on(self.reached)
            L.check('a loop of links ends the lookup', self.reached != LOOP)
            L.check('a missing entry ends the lookup', self.may_miss or self.reached != MISSING)
        L.var('prev', self.before)
        L.var('current', None if self.reached == MISSING else self.reached)

    def somewhere(self, may_be_link):
        "a node on the way, or at the end of it"
        if self.agree and self.phase == 'exit':
            assume(self.decide() != LOOP and (self.may_miss or self.final != MISSING))
            return self.final
        kinds = ['directory', 'file'] + ([MISSING] if self.may_miss else [])
        if may_be_link:
            kinds.append('link')
        r = pick(*kinds)
        return r if r == MISSING else pick(self.root, self.directory()) if r == 'directory' else self.make(r)

    def on(self, node):
        "one component further"
        return self.step(node, self.parts[self.at],
                         self.follow_last or self.at < len(self.parts) + len(self.tail) - 1, self.level)

    def found(self):
        "the node of the whole path, MISSING or LOOP"
        names = list(self.parts) + self.tail
        if not SYMBOLIC:
            return self.walk(self.root, names, self.follow_last, self.level)
        if self.phase == 'iteration':
            # the loop was left early
            r = self.on(self.reached)
            if r not in (MISSING, LOOP):
                ensure('the whole path is followed', self.at == len(names) - 1)
            return r
        return self.walk(self.reached, self.tail, self.follow_last, self.level)

    def settle(self):
        "after an operation whose lookups agree: what the path without its tail leads to"
        if SYMBOLIC and self.phase == 'iteration':
            r = self.on(self.reached)
            ensure('the whole path is followed', r in (MISSING, LOOP))
            if self.decided:
                assume(r == self.final)
            self.final, self.decided = r, True
        return self.decide()

    def queried(self):
        "queries answer according to the tree (C12)"
        if not SYMBOLIC:
            return

        def node(path, follow=True):
            ensure('a query about the path', same(path, self.uri))
            return self.walk(self.decide(), self.tail, follow)

        def kind(path):
            found = node(path)
            return None if found in (MISSING, LOOP) else self.kind(found)

        def islink(mfs, path):
            found = node(path, False)
            if found == LOOP and pick(False, True):
                raise OSError(errno.ELOOP, LOOP)
            return found not in (MISSING, LOOP) and self.kind(found) == 'link'
        contract('MemoryFileSystem.exists', lambda mfs, path: kind(path) is not None)
        contract('MemoryFileSystem.isdir', lambda mfs, path: kind(path) == 'directory')
        contract('MemoryFileSystem.isfile', lambda mfs, path: kind(path) == 'file')
        contract('MemoryFileSystem.islink', islink)


class One:
    def __init__(self, backend):
        self.backend = backend

    def get_connection(self, *a, **k):
        return self.backend


def error(r, *numbers):
    "did the operation fail with one of these system errors?"
    return r[0] == 'raise' and isinstance(r[1], OSError) and r[1].errno in numbers


def failed(r, found):
    "the error due for a node that was not found"
    ensure('no such file, or too many links', error(r, errno.ELOOP if found == LOOP else errno.ENOENT), r)


def changes():
    return [e for e in trace() if e[0] in ('set', 'del')]


def untouched():
    ensure('no entry changed', changes() == [])
