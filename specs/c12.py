"""C12: in-memory lookups follow the tree and its links, and always end"""
from memlib import *

ASSUMPTIONS = ['link targets are absolute in-memory URIs', 'path components are names (no reserved characters of URIs)',
               'a directory entry is found by its name (dict)']


def is_(r, value):
    return r[0] == 'return' and r[1] is value


def unit_queries():
    "exists, isfile and isdir, for every tree and every path"
    with World() as w:
        u = w.path()
        w.may_miss = True
        q = choose('query', 'exists', 'isfile', 'isdir')
        r = outcome(getattr(u, q))
        found = w.found()
        kind = None if found in (MISSING, LOOP) else w.kind(found)
        ensure('never raises', r[0] == 'return', r)
        want = {'exists': kind in ('file', 'directory'), 'isfile': kind == 'file', 'isdir': kind == 'directory'}[q]
        ensure('according to the node', r[1] is want)
        untouched()


def unit_exists_is_file_or_dir():
    with World() as w:
        u = w.path()
        if SYMBOLIC:
            # one lookup with one answer
            r = pick(MISSING, LOOP, 'file', 'directory')
            node = r if r in (MISSING, LOOP) else w.make(r)
            contract('MemoryFileSystem._get_node_for_path',
                     lambda mfs, base, unc, follow_link=True, throw=True, linklevel=0: w.answer(mfs, node, throw))
        ensure('exists if and only if file or directory', u.exists() == (u.isfile() or u.isdir()))
        ensure('not both', not (u.isfile() and u.isdir()))


def unit_islink():
    with World() as w:
        u = w.path()
        w.follow_last = False
        w.may_miss = True
        r = outcome(u.islink)
        found = w.found()
        if found == LOOP:
            ensure('false, or too many links', is_(r, False) or error(r, errno.ELOOP))
        else:
            ensure('according to the last component', is_(r, found != MISSING and w.kind(found) == 'link'))
        untouched()


def unit_readlink():
    with World() as w:
        u = w.path()
        w.follow_last = False
        r = outcome(u.readlink)
        found = w.found()
        if found in (MISSING, LOOP):
            failed(r, found)
        elif w.kind(found) == 'link':
            ensure('target of the link', r[0] == 'return' and same(r[1], found.target))
        else:
            ensure('not a link', error(r, errno.EINVAL))
        untouched()


def unit_root():
    "the root is a directory whatever is in it"
    with World() as w:
        u = w.fs.URI(choose('root', 'memory:///', 'memory:////'))
        ensure('exists', u.exists() is True)
        ensure('is a directory', u.isdir() is True)
        ensure('is no file', u.isfile() is False)
        ensure('is no link', u.islink() is False)
        ensure('has no target', error(outcome(u.readlink), errno.EINVAL))
        untouched()


def unit_info():
    "what needs the node gets the node, or fails"
    with World() as w:
        u = w.path()
        w.follow_last = choose('follow links', True, False)
        what = choose('operation', 'info', 'mtime')
        if what == 'mtime':
            assume(w.follow_last)
            r = outcome(u.mtime)
        else:
            r = outcome(u.info) if w.follow_last else outcome(u.info, followlinks=False)
        found = w.found()
        if found in (MISSING, LOOP):
            failed(r, found)
        elif what == 'mtime':
            ensure('time of the node', r[0] == 'return' and r[1] == found.mtime)
        else:
            ensure('information of the node', r[0] == 'return' and r[1].mtime == found.mtime and r[1].mode == found.mode)
        untouched()


def unit_listdir():
    with World() as w:
        u = w.path()
        r = outcome(u.listdir)
        found = w.found()
        if found in (MISSING, LOOP):
            failed(r, found)
        elif w.kind(found) != 'directory':
            ensure('not a directory', error(r, errno.ENOTDIR))
        else:
            ensure('names of that directory', r[0] == 'return' and list(r[1]) == sorted(found._files.names()))
        untouched()


def unit_open():
    "reading goes to the file the path leads to"
    with World() as w:
        u = w.path()
        if SYMBOLIC:
            external('*', no_external)
            contract('MemoryFile.seek', lambda f, to, whence=0: None)
        r = outcome(u.open, choose('options', 'r', 'rb'))
        found = w.found()
        if found in (MISSING, LOOP):
            failed(r, found)
        elif w.kind(found) == 'directory':
            ensure('is a directory', error(r, errno.EISDIR))
        else:
            ensure('the file', r[0] == 'return' and same(r[1].mem_file, found))
        untouched()


def proof_link_target():
    """the lookup of a link's target, with any number of links followed before: it gives the
    node that walking the target component by component gives, and never a link"""
    with World() as w:
        w.level = integer('links followed', 1, 32)
        u = w.path()
        throw = choose('throw', True, False)
        w.may_miss = not throw
        m = w.mfs._get_node_for_path
        r = outcome(m, w.root, u, True, throw, w.level)
        found = w.found()
        if found == LOOP or (found == MISSING and throw):
            failed(r, found)
        elif found == MISSING:
            ensure('nothing', r[0] == 'return' and r[1] is None)
        else:
            ensure('the node', r[0] == 'return' and same(r[1], found))
            ensure('never a link', w.kind(found) != 'link')
        untouched()


def no_external(*a):
    unreachable('no other effects')


class Tree:
    "a small tree made through the API, and its description"
    def __init__(self, fs):
        fs.CONNECTION_REGISTRY.cleanup(force=True)
        self.fs = fs
        self.nodes = {'/': 'directory'}
        self.links = {}
        names = ['a', 'b', '.c']
        for i in range(choose('nodes', 2, 4, 8, 12)):
            dirs = sorted(p for p in self.nodes if self.nodes[p] == 'directory')
            parent = dirs[choose('in %d' % i, *range(40)) % len(dirs)]
            path = parent.rstrip('/') + '/' + names[choose('name %d' % i, 0, 1, 2)]
            if path in self.nodes:
                continue
            kind = choose('kind %d' % i, 'directory', 'file', 'link', 'link')
            u = fs.URI('memory://' + path)
            if kind == 'directory':
                u.mkdir()
            elif kind == 'file':
                with u.open('wb') as f:
                    f.write(path.encode())
            else:
                targets = sorted(self.nodes) + [path, '/a/b', '/b/a/.c', '/.c']
                target = targets[choose('target %d' % i, *range(60)) % len(targets)]
                fs.URI('memory://' + target).symlink(u)
                self.links[path] = target
            self.nodes[path] = kind

    def lookup(self, path, follow=True, level=0):
        cur = '/'
        parts = [x for x in path.split('/') if x]
        for i, x in enumerate(parts):
            if self.nodes.get(cur) != 'directory':
                return MISSING
            cur = cur.rstrip('/') + '/' + x
            if cur not in self.nodes:
                return MISSING
            if self.nodes[cur] == 'link' and (follow or i < len(parts) - 1):
                if level >= 32:
                    return LOOP
                cur = self.lookup(self.links[cur], True, level + 1)
                if cur in (MISSING, LOOP):
                    return cur
        return cur

    def some_path(self):
        parts = [choose('part %d' % i, 'a', 'b', '.c') for i in range(choose('parts', 1, 2, 3, 4))]
        return '/' + '/'.join(parts)


def native_trees():
    "trees with links (dangling, to directories, in circles) made through the API"
    fs = repo('fs')
    t = Tree(fs)
    for path in sorted(t.nodes) + [t.some_path(), t.some_path() + choose('end', '', '/', '//x/')]:
        u = fs.URI('memory://' + path)
        n, own = t.lookup(path), t.lookup(path, follow=False)
        kind = None if n in (MISSING, LOOP) else t.nodes[n]
        ensure('exists', outcome(u.exists) == ('return', kind is not None), path)
        ensure('isfile', outcome(u.isfile) == ('return', kind == 'file'), path)
        ensure('isdir', outcome(u.isdir) == ('return', kind == 'directory'), path)
        if own != LOOP:
            islink = own != MISSING and t.nodes[own] == 'link'
            ensure('islink', outcome(u.islink) == ('return', islink), path)
            r = outcome(u.readlink)
            if islink:
                ensure('readlink', r[0] == 'return' and r[1].path == t.links[own], path)
            else:
                ensure('readlink fails', error(r, errno.ENOENT if own == MISSING else errno.EINVAL), path)
        for op in (lambda: u.open('rb'), u.listdir, u.mtime, u.info):
            if kind is None:
                failed(outcome(op), n)
        if kind == 'file':
            ensure('content', u.open('rb').read() == n.encode())
            ensure('not a directory', error(outcome(u.listdir), errno.ENOTDIR))
        elif kind == 'directory':
            ensure('entries', u.listdir() == sorted(x[len(n.rstrip('/')) + 1:] for x in t.nodes
                                                    if x != '/' and x.rpartition('/')[0] == n.rstrip('/')))
            ensure('is a directory', error(outcome(u.open, 'r'), errno.EISDIR))


def native_nested_links():
    "up to 32 nested links are followed"
    fs = repo('fs')
    fs.CONNECTION_REGISTRY.cleanup(force=True)
    n = choose('links', 1, 2, 30, 31, 32, 33, 34, 50)
    start = fs.URI('memory:///end')
    kind = choose('end', 'file', 'directory', 'nothing')
    if kind == 'file':
        start.open('wb').close()
    elif kind == 'directory':
        start.mkdir()
    prev = start
    for i in range(n):
        u = fs.URI('memory:///link%d' % i)
        prev.symlink(u)
        prev = u
    ok = n <= 32 and kind != 'nothing'
    ensure('exists', prev.exists() == ok)
    ensure('isfile', prev.isfile() == (ok and kind == 'file'))
    ensure('isdir', prev.isdir() == (ok and kind == 'directory'))
    ensure('islink', prev.islink())
    if not ok:
        ensure('error', error(outcome(prev.info), errno.ELOOP if n > 32 else errno.ENOENT))
