"""C16: locks are exclusive per path and always released"""
from memlib import *
from oslib import OS, Node, Local, local_path, effects

TRUSTED = ['threading.Lock: held by one holder at a time']
ASSUMPTIONS = ['lookups lead to the node of the path (C12, C13)', 'the paths do not end in a symbolic link']


class Place:
    "the path /name or /d/name of a memory backend, with or without a file there"
    def __init__(self, w, name, label):
        self.deep = choose(label + ' is below a directory', False, True)
        self.there = choose(label + ' exists', False, True)
        self.path = ('d/' if self.deep else '') + name
        self.uri = w.fs.URI('memory:///' + self.path)
        if self.there:
            self.uri.open('w').close()

    def again(self, w):
        "another handle of the same path"
        return w.fs.URI('memory:///' + choose('spelling', '', '/') + self.path + choose('slash', '', '/'))


class Setting:
    def __init__(self, w):
        d = w.directory(fresh=False)
        if SYMBOLIC:
            w.root._files = {'d': d}
            d._files = {}
        else:
            w.root._files = {'d': d}
            d._files = {}
        self.w = w
        self.name = string('name', exclude=NAME, minlen=1, notin=('.', '..', 'd'))
        self.place = Place(w, self.name, 'path')
        self.error = w.m.LockFileObtainException

    def elsewhere(self):
        "a different path"
        other = string('other name', exclude=NAME, minlen=1, notin=('.', '..', 'd'))
        p = Place(self.w, other, 'other path')
        assume(p.deep != self.place.deep or other != self.name)
        return p.uri

    def refused(self, uri):
        "is the lock held?"
        l = uri.lock(fail_on_lock=True)
        r = outcome(l.__enter__)
        if r[0] == 'return':
            l.__exit__(None, None, None)
            return False
        ensure('refused with the lock error', isinstance(r[1], self.error), r)
        return True


class Boom(Exception):
    pass


def unit_block():
    with World() as w:
        s = Setting(w)
        u = s.place.uri
        fail, cleanup = choose('fail on lock', False, True), choose('cleanup', False, True)
        leave = choose('leave', 'normally', 'by an exception')
        data = fresh_bytes('data')
        seen = []

        def block():
            with u.lock(fail_on_lock=fail, cleanup=cleanup) as f:
                seen.append(True)
                f.write(data)
                ensure('is held', s.refused(s.place.again(w)))
                ensure('still held', s.refused(u))
                # nobody who is refused wrote anything after that
                f.write(data)
                if leave == 'by an exception':
                    raise Boom()
        r = outcome(block)
        ensure('the block is entered', seen == [True])
        if leave == 'normally':
            ensure('done', r[0] == 'return', r)
        else:
            ensure('the exception comes out', r[0] == 'raise' and isinstance(r[1], Boom), r)
        ensure('there unless cleaned up', u.exists() == (not cleanup))
        ensure('is released', not s.refused(u))


def unit_released_in_any_case():
    "even if the file is gone when the block is left"
    with World() as w:
        s = Setting(w)
        u = s.place.uri
        cleanup = choose('cleanup', False, True)
        leave = choose('leave', 'normally', 'by an exception')

        def block():
            with u.lock(cleanup=cleanup):
                u.remove()
                if leave == 'by an exception':
                    raise Boom()
        r = outcome(block)
        ensure('the file is gone', not u.exists())
        ensure('is released', not s.refused(u))


def unit_writable():
    with World() as w:
        s = Setting(w)
        u = s.place.uri
        data, more = fresh_bytes('data'), fresh_bytes('more')
        with u.lock() as f:
            ensure('file of that path', u.isfile())
            f.write(data)
            f.write(more)
        ensure('what was written', u.open('rb').read() == data + more)


def unit_other_paths_are_free():
    with World() as w:
        s = Setting(w)
        v = s.elsewhere()
        with s.place.uri.lock():
            ensure('another path is not locked', not s.refused(v))
            with v.lock(fail_on_lock=True, cleanup=choose('cleanup', False, True)):
                pass
            ensure('is still held', s.refused(s.place.uri))
        with v.lock():
            ensure('released', not s.refused(s.place.uri))


def unit_held_by_another():
    "whoever is refused leaves the holder's lock alone"
    with World() as w:
        s = Setting(w)
        u = s.place.uri
        holder = u.lock(fail_on_lock=choose('fail on lock', False, True), cleanup=choose('cleanup', False, True))
        holder.__enter__()
        v = s.place.again(w)
        entered = []

        def block():
            with v.lock(fail_on_lock=True, cleanup=choose('cleanup of the other', False, True)):
                entered.append(True)
        r = outcome(block)
        ensure('refused', r[0] == 'raise' and isinstance(r[1], s.error), r)
        ensure('not entered', entered == [])
        between = choose('meanwhile', 'nothing', 'removed', 'written', 'removed and written')
        if 'removed' in between:
            u.remove()
        if 'written' in between:
            u.open('wb').close()
        ensure('still held', s.refused(v))
        holder.__exit__(None, None, None)
        ensure('released', not s.refused(v))


def proof_waits():
    "without fail-on-lock a lock that is held is waited for"
    with World() as w:
        s = Setting(w)
        holder = s.place.uri.lock()
        holder.__enter__()
        before = len([e for e in trace() if e[0] == 'lock.waited'])
        other = s.place.again(w).lock()
        other.__enter__()
        ensure('waits', len([e for e in trace() if e[0] == 'lock.waited']) == before + 1)


def unit_local():
    "the lock of the local backend is a lock file of that path with these options"
    with Local() as l:
        u = l.fs.URI(local_path())
        o = OS(Node(u.path, 'node'))
        made = []

        def LockFile(name, fail_on_lock=False, cleanup=True):
            made.append((name, fail_on_lock, cleanup))
            return o.result
        keep = l.localfs.LockFile
        l.localfs.LockFile = LockFile
        try:
            kw = {}
            if choose('fail given', True, False):
                kw['fail_on_lock'] = choose('fail', True, False)
            if choose('cleanup given', True, False):
                kw['cleanup'] = choose('cleanup', True, False)
            r = u.lock(**kw)
        finally:
            l.localfs.LockFile = keep
        ensure('one lock file', len(made) == 1)
        ensure('with path and options', made[0] == (u.path, kw.get('fail_on_lock', False), kw.get('cleanup', False)))
        ensure('is returned', same(r, o.result))
        ensure('no effect yet', effects() == [])


def native_locks():
    "several holders come and go"
    fs = repo('fs')
    memory = repo('memory')
    fs.CONNECTION_REGISTRY.cleanup(force=True)
    held = {}
    for n in range(choose('steps', 3, 6, 10)):
        name = choose('name %d' % n, 'a', 'b', 'ab')
        u = fs.URI('memory:///' + name)
        op = choose('op %d' % n, 'enter', 'enter', 'leave', 'write', 'remove')
        fail = choose('fail %d' % n, True, False)
        cleanup = choose('cleanup %d' % n, True, False)
        if op == 'enter' and (fail or name not in held):
            l = u.lock(fail_on_lock=fail, cleanup=cleanup)
            r = outcome(l.__enter__)
            ensure('free or refused', (r[0] == 'return') == (name not in held))
            if r[0] == 'return':
                held[name] = l, cleanup
            else:
                ensure('lock error', isinstance(r[1], memory.LockFileObtainException))
        elif op == 'leave' and name in held:
            l, cleanup = held.pop(name)
            if not u.exists():
                u.open('w').close()
            if choose('how %d' % n, True, False):
                l.__exit__(None, None, None)
            else:
                l.__exit__(ValueError, ValueError(), None)
            ensure('cleaned up', u.exists() == (not cleanup))
        elif op == 'write':
            u.open('w').close()
        elif op == 'remove' and u.exists():
            u.remove()
        for x in ('a', 'b', 'ab'):
            v = fs.URI('memory:///' + x)
            there = v.exists()
            l = v.lock(fail_on_lock=True)
            r = outcome(l.__enter__)
            ensure('held exactly by the holders', (r[0] == 'raise') == (x in held), (x, op, name))
            if r[0] == 'return':
                l.__exit__(None, None, None)
            if not there and v.exists():
                v.remove()
