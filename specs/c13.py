"""C13: in-memory creation and removal change exactly one entry"""
from memlib import *

ASSUMPTIONS = ['link targets are absolute in-memory URIs', 'path components are names (no reserved characters of URIs)',
               'removing a directory directly is done by remove() only']


def parent_failed(r, parent):
    "the error due for what should hold the entry"
    if parent in (MISSING, LOOP):
        failed(r, parent)
    else:
        ensure('not a directory', error(r, errno.ENOTDIR, errno.ENOENT))
    untouched()


def one_change(kind, parent, name):
    e = changes()
    ensure('one entry changed', len(e) == 1, e)
    ensure('the addressed entry', e[0][0] == kind and same(e[0][1], parent._files) and e[0][2] == name)
    return e[0]


def is_dir(w, parent):
    return parent not in (MISSING, LOOP) and w.kind(parent) == 'directory'


def addressed(w):
    "an operation's path: any directory part, any name"
    name = string('name', exclude=NAME, minlen=1, notin=('.', '..'))
    w.agree = True
    return w.path([name]), name


def unit_mkdir():
    with World() as w:
        u, name = addressed(w)
        r = outcome(u.mkdir)
        parent = w.settle()
        if not is_dir(w, parent):
            parent_failed(r, parent)
            return
        changed = changes()
        if not changed:
            ensure('exists already', error(r, errno.EEXIST) and name in parent._files)
        else:
            ensure('done', r[0] == 'return')
            e = one_change('set', parent, name)
            ensure('a directory', e[3].kind == w.m.NodeKind.DIR)
            ensure('empty', e[3].isempty())
            ensure('there was none', not parent._files.was(name))


def unit_symlink():
    with World() as w:
        u, name = addressed(w)
        target = w.fs.URI('memory:///' + string('target', exclude=NAME, minlen=1, notin=('.', '..')))
        r = outcome(target.symlink, u)
        parent = w.settle()
        if not is_dir(w, parent):
            parent_failed(r, parent)
            return
        if not changes():
            ensure('exists already', error(r, errno.EEXIST) and name in parent._files)
        else:
            ensure('done', r[0] == 'return')
            e = one_change('set', parent, name)
            ensure('a link', e[3].kind == w.m.NodeKind.LINK)
            ensure('to the target', same(e[3].target, target))
            ensure('there was none', not parent._files.was(name))


def unit_open_for_writing():
    with World() as w:
        u, name = addressed(w)
        r = outcome(u.open, choose('options', 'w', 'wb'))
        parent = w.settle()
        if not is_dir(w, parent):
            parent_failed(r, parent)
            return
        entry = parent._files.was(name)
        if entry is None:
            ensure('done', r[0] == 'return')
            e = one_change('set', parent, name)
            ensure('a file', e[3].kind == w.m.NodeKind.FILE)
            ensure('empty', e[3].size() == 0)
            ensure('the file opened', same(r[1].mem_file, e[3]))
            return
        untouched()
        node = w.step(parent, name, True, 0)
        if node in (MISSING, LOOP):
            failed(r, node)
        elif w.kind(node) == 'directory':
            ensure('is a directory', error(r, errno.EISDIR))
        else:
            ensure('the file there was', r[0] == 'return' and same(r[1].mem_file, node))


def unit_append_needs_file():
    "appending creates nothing"
    with World() as w:
        u, name = addressed(w)
        r = outcome(u.open, choose('options', 'a', 'ab'))
        parent = w.settle()
        untouched()
        if not is_dir(w, parent):
            ensure('no file', r[0] == 'raise' and isinstance(r[1], OSError))
            return
        node = w.step(parent, name, True, 0)
        if node in (MISSING, LOOP):
            failed(r, node)
        elif w.kind(node) == 'directory':
            ensure('is a directory', error(r, errno.EISDIR))
        else:
            ensure('the file there is', r[0] == 'return' and same(r[1].mem_file, node))


def unit_remove():
    with World() as w:
        u, name = addressed(w)
        w.queried()
        r = outcome(u.remove)
        parent = w.settle()
        missing = repo('exceptions').FileDoesNotExistError
        if not is_dir(w, parent) or parent._files.was(name) is None:
            untouched()
            if parent == LOOP:
                ensure('fails', r[0] == 'raise')
            else:
                ensure('does not exist', r[0] == 'raise' and isinstance(r[1], missing))
            return
        entry = parent._files.was(name)
        if w.kind(entry) == 'directory' and not entry._files.empty:
            untouched()
            ensure('not empty', error(r, errno.ENOTEMPTY))
        else:
            ensure('done', r[0] == 'return', r)
            one_change('del', parent, name)
            ensure('is gone', parent._files.find(name) is None)


def unit_root():
    "the root can neither be made nor removed"
    with World() as w:
        u = w.fs.URI('memory:///')
        op = choose('operation', 'mkdir', 'remove')
        r = outcome(getattr(u, op))
        untouched()
        ensure('still there', u.isdir())


def native_trees():
    "sequences of operations on real trees, compared with a description of the tree"
    import copy
    fs = repo('fs')
    fs.CONNECTION_REGISTRY.cleanup(force=True)
    missing = repo('exceptions').FileDoesNotExistError
    tree = {}

    def at(path, follow=True, level=0):
        "(parent dict, name, node) of a path; MISSING, LOOP or NOTDIR"
        node, parent, name = tree, None, None
        parts = [x for x in path.split('/') if x]
        for i, x in enumerate(parts):
            if not isinstance(node, dict):
                return None, None, 'NOTDIR'
            parent, name = node, x
            if x not in node:
                return (parent, x, MISSING) if i == len(parts) - 1 else (None, None, MISSING)
            node = node[x]
            if isinstance(node, tuple) and (follow or i < len(parts) - 1):
                if level >= 32:
                    return None, None, LOOP
                node = at(node[1], True, level + 1)[2]
                if isinstance(node, str):
                    return (parent, x, node) if i == len(parts) - 1 else (None, None, node)
        return parent, name, node

    def snapshot():
        def walk(d):
            out = {}
            for k, v in d._files.items():
                out[k] = walk(v) if v.kind == 1 else ('link', v.target.path) if v.kind == 2 else ['file', bytes(v._data.getvalue())]
            return out
        return walk(conn._fs)
    conn = fs.URI('memory:///').get_connection()
    for n in range(choose('steps', 3, 6, 12, 20)):
        parts = [choose('part %d.%d' % (n, i), 'a', 'b', '.c') for i in range(choose('parts %d' % n, 1, 1, 2, 2, 3))]
        path = '/' + '/'.join(parts)
        u = fs.URI('memory://' + path + choose('slash %d' % n, '', '', '', '/'))
        op = choose('op %d' % n, 'mkdir', 'mkdir', 'write', 'symlink', 'remove')
        before = copy.deepcopy(tree)
        parent, name, own = at(path, follow=False)
        if op == 'mkdir':
            r = outcome(u.mkdir)
        elif op == 'write':
            def write():
                with u.open('wb') as f:
                    f.write(b'%d' % n)
            r = outcome(write)
        elif op == 'symlink':
            target = '/' + '/'.join(choose('target %d.%d' % (n, i), 'a', 'b', '.c') for i in range(choose('length %d' % n, 1, 2)))
            r = outcome(fs.URI('memory://' + target).symlink, u)
        else:
            r = outcome(u.remove)
        done = r[0] == 'return'
        if parent is None:
            ensure('fails without parent', not done and isinstance(r[1], (OSError, missing)), (op, path))
        elif op in ('mkdir', 'symlink'):
            ensure('if there is none', done == (own == MISSING), (op, path, r))
            if done:
                parent[name] = {} if op == 'mkdir' else ('link', target)
            else:
                ensure('exists already', error(r, errno.EEXIST))
        elif op == 'write':
            fparent, fname, node = at(path)
            ensure('if no directory', done == (own == MISSING or isinstance(node, list)), (op, path, r))
            if own == MISSING:
                parent[name] = ['file', b'%d' % n]
            elif isinstance(node, list):
                node[1] = b'%d' % n
        else:
            if own == MISSING:
                ensure('does not exist', not done and isinstance(r[1], missing))
            elif isinstance(own, dict) and own:
                ensure('not empty', error(r, errno.ENOTEMPTY))
            else:
                ensure('removed', done, r)
                del parent[name]
        ensure('exactly that entry changed', snapshot() == tree, (op, path, before, snapshot()))
