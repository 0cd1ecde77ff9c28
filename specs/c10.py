"""C10: cleanup closes exactly the stale connections"""
from pv import *
from common import *

ASSUMPTIONS = ['sequential use; a connection is not used while it is cleaned up']


class NoThread:
    "stands in for the cleaner thread"
    def __init__(self, *a, **k):
        self.alive = False

    def setDaemon(self, on):
        pass

    def start(self):
        self.alive = choose('cleaner runs', True, False)

    def is_alive(self):
        return self.alive

    def join(self, *a):
        emit('joined')


class Key:
    "stands for the tuple that identifies an endpoint"
    def __init__(self, conn):
        self.conn = conn


class Conn:
    def __init__(self, name):
        self.name = name
        self.last_used = fresh_number(name + ' last used', 0, 100000)
        self.fails = fresh_bool(name + ' fails')
        self.key = Key(self)

    def close(self):
        emit('close', self)
        if self.fails:
            raise pick(OSError('close'), ValueError('close'), KeyboardInterrupt())


class Ghost:
    "a dictionary of any number of connections; records what is taken out of it"
    def __init__(self, conns):
        self.conns = conns

    def items(self):
        return [(c.key, c) for c in self.conns]

    def keys(self):
        return [c.key for c in self.conns]

    def values(self):
        return list(self.conns)

    def __iter__(self):
        return iter([c.key for c in self.conns])

    def __len__(self):
        return len(self.conns)

    def __contains__(self, key):
        return True

    def __getitem__(self, key):
        return key.conn

    def get(self, key, default=None):
        return key.conn

    def clear(self):
        for c in self.conns:
            emit('forget', c.key)

    def __delitem__(self, key):
        emit('forget', key)

    def pop(self, key, *default):
        emit('forget', key)
        return key.conn


def registry(interval, timeout):
    external('threading.Thread', NoThread)
    return repo('fs').ConnectionRegistry(interval, timeout)


def connections(reg):
    conns = objects('conn', Conn)
    if SYMBOLIC:
        reg.connections = Ghost(conns)
    else:
        reg.connections = {c.key: c for c in conns}
    return conns


def check(reg, conns, stale):
    closed = [e[1] for e in trace() if e[0] == 'close']
    if SYMBOLIC:
        forgotten = [e[1] for e in trace() if e[0] == 'forget']
    else:
        forgotten = [c.key for c in conns if c.key not in reg.connections]
    ensure('closed exactly the stale connections, once each', closed == [c for c in conns if stale(c)])
    ensure('forgot exactly the stale connections', forgotten == [c.key for c in conns if stale(c)])


def unit_cleanup():
    "after the timeout, or by force"
    timeout = number('timeout', 0, 100000)
    now = number('now', 0, 300000)
    external('time.time', lambda: now)
    reg = registry(300, timeout)
    conns = connections(reg)
    force = choose('force', False, True)
    if force:
        reg.cleanup(True)
    else:
        reg.cleanup()
    check(reg, conns, lambda c: force or now - c.last_used > timeout)


def native_slow_close():
    "what is stale is decided by the time at which the cleanup begins, however long closing takes"
    now = [choose('now', 0, 1000, 100000.5)]
    start = now[0]
    external('time.time', lambda: now[0])
    timeout = choose('timeout', 0, 10, 1800)
    reg = registry(300, timeout)

    class Slow:
        def __init__(self, last):
            self.last_used, self.closed = last, 0

        def close(self):
            self.closed += 1
            now[0] += choose('closing takes', 0, 1, 100)
            if choose('fails', False, False, True):
                raise OSError('close')
    conns = [Slow(start - timeout + choose('spare %d' % n, -50, -0.5, 0, 0.5, 50)) for n in range(choose('connections', 2, 3, 5))]
    reg.connections = {('k', n): c for n, c in enumerate(conns)}
    stale = [start - c.last_used > timeout for c in conns]
    reg.cleanup()
    ensure('closed exactly the stale ones, once each', [c.closed for c in conns] == [int(x) for x in stale])
    ensure('forgot exactly the stale ones', list(reg.connections.values()) == [c for c, x in zip(conns, stale) if not x])


def unit_force_keyword():
    now = number('now', 0, 300000)
    external('time.time', lambda: now)
    reg = registry(300, number('timeout', 0, 100000))
    conns = connections(reg)
    reg.cleanup(force=True)
    check(reg, conns, lambda c: True)


def unit_default_timeout():
    "the timeout is half an hour if nothing is said"
    now = number('now', 0, 300000)
    external('time.time', lambda: now)
    external('threading.Thread', NoThread)
    reg = repo('fs').ConnectionRegistry()
    conns = connections(reg)
    reg.cleanup()
    check(reg, conns, lambda c: now - c.last_used > 1800)


def unit_shutdown():
    "no connection is left open and the cleaner ends"
    now = number('now', 0, 300000)
    external('time.time', lambda: now)
    reg = registry(number('interval', 1, 1000), number('timeout', 0, 100000))
    conns = connections(reg)
    reg.shutdown()
    check(reg, conns, lambda c: True)

    def no_sleep(*a):
        unreachable('cleaner sleeps after the shutdown')
    external('time.sleep', no_sleep)
    reg.connections = {}
    ensure('cleaner ends', reg.cleaner() is None)


def unit_cleaner():
    "the cleaner cleans up, then waits for the interval in steps, and ends when told to"
    steps = [0]
    times = [number('t0', 0, 1000)]
    interval = choose('interval', 1, 2, 3)
    external('time.time', lambda: times[0])
    reg = registry(interval, number('timeout', 0, 100000))
    made = []

    class One:
        last_used = 0

        def close(self):
            emit('close', self)

    def sleep(n):
        times[0] = times[0] + n
        steps[0] = steps[0] + 1
        reg.connections['k'] = One()
        if steps[0] > 3:
            reg.run_clean_thread = False
    external('time.sleep', sleep)
    reg.connections['k'] = One()
    t0 = times[0]
    reg.cleaner()
    ensure('ends when told', steps[0] == 4)
    ensure('cleaned up at once if stale', implies(t0 > reg.clean_timeout, len([e for e in trace() if e[0] == 'close']) >= 2))


def unit_with_real_connections():
    "the whole way through the registry: requests, a cleanup, requests"
    times = [0]
    external('time.time', lambda: times[0])
    fs = repo('fs')

    class Backend(fs.FileSystem):
        def _initialize(self):
            pass

        def close(self):
            emit('close', self)
            if self.extras:
                raise OSError('close')
    timeout = number('timeout', 0, 100000)
    reg = registry(300, timeout)
    reg.register('sch', Backend)
    t1 = number('t1', 0, 100000)
    times[0] = t1
    a = reg.get_connection('sch', 'a', bad='1')
    t2 = number('t2', 0, 200000)
    assume(t2 >= t1)
    times[0] = t2
    b = reg.get_connection('sch', 'b')
    t3 = number('t3', 0, 300000)
    assume(t3 >= t2)
    times[0] = t3
    reg.cleanup()
    a_stale, b_stale = t3 - t1 > timeout, t3 - t2 > timeout
    closed = [e[1] for e in trace() if e[0] == 'close']
    ensure('closed the stale ones', closed == [x for x, stale in ((a, a_stale), (b, b_stale)) if stale])
    ensure('forgot the stale ones', list(reg.connections.values()) == [x for x, stale in ((a, a_stale), (b, b_stale))
                                                                        if not stale])
    ensure('new connection if stale', same(reg.get_connection('sch', 'b'), b) == (not b_stale))
    reg.shutdown()
    ensure('nothing left', len(reg.connections) == 0)


def native_registry():
    "with a real dictionary and real connections, several cleanups"
    times = [0]
    external('time.time', lambda: times[0])
    reg = registry(300, number('timeout', 0, 50))
    live = {}
    for step in range(integer('steps', 1, 8)):
        times[0] += fresh_number('passed', 0, 40)
        for c in list(live.values()):
            if fresh_bool('used'):
                c.last_used = times[0]
        for i in range(fresh_int('new', 0, 2)):
            c = Conn('c%d.%d' % (step, i))
            c.last_used = times[0]
            live[c.key] = c
            reg.connections[c.key] = c
        force = fresh_int('force', 0, 5) == 0
        before = len(trace())
        stale = [c for c in live.values() if force or times[0] - c.last_used > reg.clean_timeout]
        reg.cleanup(force)
        closed = [e[1] for e in trace()[before:] if e[0] == 'close']
        ensure('closed exactly the stale ones', sorted(c.name for c in closed) == sorted(c.name for c in stale))
        for c in stale:
            del live[c.key]
        ensure('kept exactly the others', dict(reg.connections) == live)
