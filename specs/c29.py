"""C29: concurrent first requests for one endpoint share one connection

Rely/guarantee reasoning over the real get_connection/create, one thread at a time:
  rely       while this thread holds no lock, the other threads may at any access register a connection for the same
             endpoint (if there is none) or put a lock where there is none; a connection once registered stays
  guarantee  this thread writes an entry only where none can be: under a lock, or atomically; the lock is the same one
             for every request of the endpoint, so that the others cannot write while it is held
Both together give the property for any number of threads and any interleaving.
"""
from pv import *
from common import *

TRUSTED = ['a single access to a dictionary (including the insertion of a default value by a builtin factory) is atomic',
           'threading.Lock gives mutual exclusion']
ASSUMPTIONS = ['no cleanup closes the connection at the same time']
ROLES = ('hostname', 'port', 'username', 'password', 'vpath_connector')
NOT_EXTRA = ROLES + ('scheme', 'self')
held = []
locks_at_write = []
shared = []


class NoThread:
    "the cleaner thread does not run here"
    def __init__(self, *a, **k):
        self.daemon = False

    def setDaemon(self, on):
        pass

    def start(self):
        pass

    def is_alive(self):
        return False

    def join(self, *a):
        pass


class Mutex:
    "a lock of this thread's view: while it is held here, nobody else holds it"
    reentrant = False

    def __init__(self):
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        ensure('no deadlock with itself', self.reentrant or self.depth == 0)
        if len(held) == 0:
            # the others had their turn while this thread waited
            for d in shared:
                for key in d.asked:
                    d.others(key)
        self.depth = self.depth + 1
        held.append(self)
        return True

    def release(self):
        ensure('only a held lock is released', self.depth > 0)
        self.depth = self.depth - 1
        held.remove(self)

    def locked(self):
        return self.depth > 0

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class Reentrant(Mutex):
    reentrant = True


class Conn:
    def __init__(self, *a, **k):
        self.args, self.kw = a, k
        self.last_used = 0
        emit('built', self)

    def close(self):
        emit('closed', self)


class Theirs:
    "a connection another thread has registered"
    last_used = 0

    def close(self):
        pass


class Shared:
    "a dictionary the other threads use as well"
    def __init__(self, name, content, factory):
        self.name, self.content, self.factory = name, content, factory
        self.theirs = []
        self.asked = []
        shared.append(self)

    def others(self, key):
        "what the other threads may have done before this access"
        if key not in self.asked:
            self.asked.append(key)
        if len(held) == 0 and key not in self.content and choose('another thread is faster (%s)' % self.name, False, True):
            if self.name == 'connections':
                c = Theirs()
                self.theirs.append((key, c))
                self.content[key] = c
            else:
                self.content[key] = Mutex()

    def missing(self, key):
        if self.factory is None:
            raise KeyError(key)
        self.content[key] = self.factory()
        return self.content[key]

    def __contains__(self, key):
        self.others(key)
        return key in self.content

    def __getitem__(self, key):
        self.others(key)
        if key in self.content:
            return self.content[key]
        return self.missing(key)

    def get(self, key, default=None):
        self.others(key)
        return self.content.get(key, default)

    def setdefault(self, key, value=None):
        self.others(key)
        if key not in self.content:
            self.content[key] = value
        return self.content[key]

    def __setitem__(self, key, value):
        self.others(key)
        ensure('nothing registered is replaced', key not in self.content or same(self.content[key], value))
        if self.name == 'connections':
            locks_at_write.append(list(held))
        self.content[key] = value

    def __delitem__(self, key):
        del self.content[key]

    def pop(self, key, *default):
        return self.content.pop(key, *default)

    def items(self):
        return list(self.content.items())

    def keys(self):
        return list(self.content.keys())

    def values(self):
        return list(self.content.values())

    def __iter__(self):
        return iter(list(self.content))

    def __len__(self):
        return len(self.content)


def new_registry():
    "a registry as one of several threads sees it"
    del held[:]
    del locks_at_write[:]
    del shared[:]
    external('threading.Thread', NoThread)
    external('threading.Lock', Mutex)
    external('threading.RLock', Reentrant)
    reg = repo('fs').ConnectionRegistry()
    reg.register('one', Conn)
    reg.register('two', Conn)
    for name, value in attributes(reg):
        if isinstance(value, dict) and name != 'schemes':
            setattr(reg, name, Shared(name, dict(value), getattr(value, 'default_factory', None)))
    return reg


def built():
    return [e[1] for e in trace() if e[0] == 'built']


def endpoint(all_or_none=False):
    c = {}
    everything = all_or_none and choose('all given', True, False)
    for name in ROLES:
        if everything or not all_or_none and choose(name + ' given', True, False):
            c[name] = integer(name, 0, 65535) if name == 'port' else string(name)
    if choose('extra', True, False):
        c[string('extra name', minlen=1, notin=NOT_EXTRA)] = string('value')
    return c


def request(reg, scheme, c):
    return reg.get_connection(scheme, **c)


def after_request(reg, x, before):
    "the registered connection was given, and none was lost"
    registered = reg.connections.values()
    ensure('the connection given is registered', any([same(x, c) for c in registered]))
    ensure('one connection for the endpoint', len(registered) == before + 1)
    closed = [e[1] for e in trace() if e[0] == 'closed']
    for c in built():
        ensure('no connection is lost', any([same(c, r) for r in registered]) or any([same(c, r) for r in closed]))
    ensure('every lock is released', held == [])


def unit_request():
    "a request among others: whoever was first, all get the connection that is registered"
    reg = new_registry()
    c = endpoint()
    scheme = choose('scheme', 'one', 'two')
    known = opaque('known key')
    reg.connections.content[known] = Theirs()
    x = reg.get_connection(scheme, **c)
    after_request(reg, x, 1)
    ensure('built at most once', len(built()) <= 1)
    theirs = [t for k, t in reg.connections.theirs]
    ensure('theirs if they were first', len(theirs) == 0 or same(x, theirs[0]))
    ensure('again the same', same(reg.get_connection(scheme, **c), x))
    ensure('not built again', len(built()) <= 1)


def unit_same_lock():
    "every request of the endpoint registers under the same lock"
    reg = new_registry()
    c = endpoint(True)
    scheme = choose('scheme', 'one', 'two')
    x = reg.get_connection(scheme, **c)
    reg.cleanup(True)
    y = reg.get_connection(scheme, **c)
    after_request(reg, y, 0)
    if len(locks_at_write) == 2:
        a, b = locks_at_write
        ensure('under the same lock', any([same(l, m) for l in a for m in b]))


def unit_failing_factory():
    "a factory that fails leaves no lock behind, so that the others can go on"
    reg = new_registry()
    state = [True]

    def factory(*a, **k):
        if state[0]:
            raise ValueError('no connection')
        return Conn(*a, **k)
    reg.register('three', factory)
    c = endpoint()
    how, x = outcome(request, reg, 'three', c)
    ensure('every lock is released', held == [])
    if how == 'raise':
        ensure('the error of the factory', isinstance(x, ValueError))
        ensure('nothing registered', len(reg.connections.content) == 0)
        state[0] = False
        y = reg.get_connection('three', **c)
        after_request(reg, y, 0)
    else:
        ensure('given by another thread', any([same(x, t) for k, t in reg.connections.theirs]))


def native_threads():
    "real threads, a slow factory"
    import threading
    import time
    reg = repo('fs').ConnectionRegistry()
    made = []

    class Slow:
        last_used = 0

        def __init__(self, *a, **k):
            time.sleep(0.01)
            made.append(self)

        def close(self):
            pass
    reg.register('one', Slow)
    reg.register('two', Slow)
    n = fresh_int('threads', 2, 8)
    wanted = [(pick('one', 'two'), pick('h', 'g')) for i in range(n)]
    got = [None] * n
    barrier = threading.Barrier(n)

    def work(i):
        barrier.wait()
        got[i] = reg.get_connection(*wanted[i])
    threads = [threading.Thread(target=work, args=(i,)) for i in range(n)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    reg.run_clean_thread = False
    for i in range(n):
        for j in range(n):
            ensure('same connection for the same endpoint only', (got[i] is got[j]) == (wanted[i] == wanted[j]))
    ensure('no connection is lost', len(made) == len(set(wanted)) == len(reg.connections))
