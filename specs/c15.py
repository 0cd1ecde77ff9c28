"""C15: mode and time metadata change only as asked"""
from memlib import *
from oslib import OS, Node, Local, local_path, effects

ASSUMPTIONS = ['lookups lead to the node of the path (C12)', 'modes are numbers of 32 bits']
X = 0o111


class Tree:
    "/s and /d, each anything; /l leads to what a link leads to"
    def __init__(self, w, *names):
        self.w = w
        self.uris = {}
        self.nodes = []
        known = []
        for name in names:
            node = w.make(choose(name + ' is', 'file', 'directory', 'link', 'absent'))
            known.append((name, node))
            self.uris[name] = w.fs.URI('memory:///' + name)
            if node is not None:
                self.nodes.append(node)
        w.root._files.known = known
        w.root._files.empty = False
        w.aliases = [n for n in self.nodes if w.kind(n) != 'link']

    def node(self, name, follow=True):
        r = self.w.walk(self.w.root, [name], follow)
        if r not in (MISSING, LOOP) and not self.known(r):
            self.nodes.append(r)
        return r

    def known(self, node):
        for n in self.nodes + [self.w.root]:
            if same(n, node):
                return True
        return False

    def remember(self):
        self.before = [(n, n.mode, n.mtime) for n in self.nodes + [self.w.root]]

    def others(self, *changed):
        "nothing but these nodes changed"
        for n, mode, mtime in self.before:
            if not any(same(n, c) for c in changed):
                ensure('others are as they were', n.mode == mode and n.mtime == mtime)
        untouched()


def unit_isexec():
    with World() as w:
        t = Tree(w, 's')
        u = t.uris['s']
        n = t.node('s')
        t.remember()
        mask = choose('mask given', True, False)
        asked = bits('asked') & X if mask else X
        r = outcome(u.isexec, asked) if mask else outcome(u.isexec)
        if n in (MISSING, LOOP):
            failed(r, n)
        else:
            ensure('is one of the bits set', r[0] == 'return' and r[1] == (n.mode & asked != 0))
        t.others()


def unit_set_exec():
    with World() as w:
        t = Tree(w, 's')
        u = t.uris['s']
        n = t.node('s')
        t.remember()
        asked = bits('asked') & X
        old = n.mode if n not in (MISSING, LOOP) else 0
        time = n.mtime if n not in (MISSING, LOOP) else 0
        r = outcome(u.set_exec, asked)
        if n in (MISSING, LOOP):
            failed(r, n)
            t.others()
        else:
            ensure('done', r[0] == 'return')
            ensure('execute bits as given', n.mode & X == asked)
            ensure('other bits as they were', n.mode & ~X == old & ~X)
            ensure('time as it was', n.mtime == time)
            t.others(n)


def unit_set_info():
    "only the fields given, on the node addressed"
    with World() as w:
        t = Tree(w, 's')
        u = t.uris['s']
        follow = choose('follow links', True, False)
        n = t.node('s', follow)
        t.remember()
        fields = choose('fields', ('mode',), ('mtime',), ('mode', 'mtime'), ())
        new = {}
        if 'mode' in fields:
            new['mode'] = bits('new mode')
        if 'mtime' in fields:
            new['mtime'] = fresh_number('new mtime', 0, 10 ** 9)
        there = n not in (MISSING, LOOP)
        mode, mtime = (n.mode, n.mtime) if there else (0, 0)
        given = dict(new)
        r = outcome(u.info, new) if follow else outcome(u.info, new, followlinks=False)
        if not there:
            failed(r, n)
            t.others()
        else:
            ensure('done', r[0] == 'return')
            ensure('mode', n.mode == given.get('mode', mode))
            ensure('modification time', n.mtime == given.get('mtime', mtime))
            t.others(n)


def unit_info():
    "asking changes nothing"
    with World() as w:
        t = Tree(w, 's')
        u = t.uris['s']
        follow = choose('follow links', True, False)
        n = t.node('s', follow)
        t.remember()
        r = outcome(u.info) if follow else outcome(u.info, followlinks=False)
        if n in (MISSING, LOOP):
            failed(r, n)
        else:
            ensure('information of the node', r[0] == 'return' and r[1].mode == n.mode and r[1].mtime == n.mtime)
        t.others()


def unit_copystat():
    with World() as w:
        t = Tree(w, 's', 'd')
        u, v = t.uris['s'], t.uris['d']
        s, d = t.node('s'), t.node('d')
        t.remember()
        if s not in (MISSING, LOOP):
            mode, mtime = s.mode, s.mtime
        r = outcome(u.copystat, v)
        if s in (MISSING, LOOP):
            failed(r, s)
            t.others()
        elif d in (MISSING, LOOP):
            failed(r, d)
            t.others()
        else:
            ensure('done', r[0] == 'return')
            ensure('same mode', d.mode == mode)
            ensure('same time', d.mtime == mtime)
            ensure('source as it was', s.mode == mode and s.mtime == mtime)
            t.others(d)


def unit_local_isexec():
    with Local() as l:
        u = l.fs.URI(local_path())
        n = Node(u.path, 'node', ('file', 'directory', 'link to a file', 'link to a directory'))
        o = OS(n)
        external('datetime.datetime.fromtimestamp', lambda t: ('date', t))
        mask = choose('mask given', True, False)
        asked = bits('asked') & X if mask else X
        r = u.isexec(asked) if mask else u.isexec()
        ensure('is one of the bits set', r == (n.stat.mode & asked != 0))
        ensure('no effect', effects() == [])


def unit_local_set_exec():
    with Local() as l:
        u = l.fs.URI(local_path())
        n = Node(u.path, 'node', ('file', 'directory', 'link to a file', 'link to a directory'))
        o = OS(n)
        external('datetime.datetime.fromtimestamp', lambda t: ('date', t))
        asked = bits('asked') & X
        u.set_exec(asked)
        e = effects()
        ensure('changes the mode of that file', len(e) == 1 and e[0][:2] == ('chmod', u.path))
        ensure('execute bits as given', e[0][2] & X == asked)
        ensure('other bits as they were', e[0][2] & ~X == n.stat.mode & ~X)


def unit_local_set_info():
    with Local() as l:
        u = l.fs.URI(local_path())
        n = Node(u.path, 'node', ('file', 'directory', 'link to a file', 'link to a directory'))
        o = OS(n)
        with_mode = choose('with mode', True, False)
        mode = bits('new mode')
        follow = choose('follow links', True, False)
        assume(follow or 'link' not in n.kind)      # changing the mode of a link: not supported by Linux
        u.info({'mode': mode} if with_mode else {}, followlinks=follow)
        e = effects()
        ensure('only the mode', e == ([('chmod', u.path, mode)] if with_mode else []))
        with_mode = None


def native_metadata():
    "random changes of a few nodes, compared with a description; local modes on real files"
    import os
    import shutil
    import tempfile
    fs = repo('fs')
    fs.CONNECTION_REGISTRY.cleanup(force=True)
    scratch = tempfile.mkdtemp(prefix='c15')
    try:
        memory = {}
        for name, kind in (('a', 'file'), ('b', 'file'), ('d', 'dir'), ('l', 'link'), ('m', 'link')):
            u = fs.URI('memory:///' + name)
            if kind == 'file':
                u.open('wb').close()
            elif kind == 'dir':
                u.mkdir()
            else:
                fs.URI('memory:///' + {'l': 'a', 'm': 'd'}[name]).symlink(u)
            i = u.info(followlinks=False)
            memory[name] = [i.mode, i.mtime]
        path = os.path.join(scratch, 'f')
        open(path, 'w').close()
        os.symlink(path, os.path.join(scratch, 'l'))
        local = 0o644
        os.chmod(path, local)
        end = {'l': 'a', 'm': 'd'}
        for n in range(choose('steps', 2, 4, 8)):
            op = choose('op %d' % n, 'set_exec', 'mode', 'mtime', 'both', 'copystat', 'local set_exec', 'local mode')
            name = choose('name %d' % n, 'a', 'b', 'd', 'l', 'm')
            follow = choose('follow %d' % n, True, False)
            x = choose('bits %d' % n, 0, 0o100, 0o010, 0o001, 0o110, 0o111)
            mode = choose('mode %d' % n, 0o600, 0o640, 0o755, 0o711, 0o444 | 0o200)
            u = fs.URI('memory:///' + name)
            at = end.get(name, name)
            if op == 'set_exec':
                u.set_exec(x)
                memory[at][0] = memory[at][0] & ~X | x
            elif op in ('mode', 'mtime', 'both'):
                at = at if follow else name
                new = {}
                if op != 'mtime':
                    new['mode'] = memory[at][0] = mode
                if op != 'mode':
                    new['mtime'] = memory[at][1] = choose('time %d' % n, 1000.5 + n, 0, 2.0 ** 33)
                u.info(new, followlinks=follow)
            elif op == 'copystat':
                to = choose('to %d' % n, 'a', 'b', 'd', 'l', 'm')
                u.copystat(fs.URI('memory:///' + to))
                memory[end.get(to, to)] = list(memory[at])
            else:
                v = fs.URI(os.path.join(scratch, choose('which %d' % n, 'f', 'l')))
                if op == 'local set_exec':
                    v.set_exec(x)
                    local = local & ~X | x
                else:
                    v.info({'mode': mode})
                    local = mode
            for k in memory:
                i = fs.URI('memory:///' + k).info(followlinks=False)
                ensure('metadata', [i.mode, i.mtime] == memory[k], (op, name, k))
                ensure('executable', fs.URI('memory:///' + k).isexec(x) == bool(memory[end.get(k, k)][0] & x))
            ensure('local mode', os.stat(path).st_mode & 0o7777 == local, op)
            ensure('local executable', fs.URI(path).isexec() == bool(local & X))
    finally:
        shutil.rmtree(scratch)
