"""C09: one connection per endpoint"""
from pv import *
from common import *

ASSUMPTIONS = ['requests are sequential (see C29)', 'names of extra arguments are not the names of the six components']
ROLES = ('hostname', 'port', 'username', 'password', 'vpath_connector')
NOT_EXTRA = ROLES + ('scheme', 'self')


class NoThread:
    "the cleaner thread does not run here"
    def __init__(self, *a, **k):
        self.daemon = False

    def setDaemon(self, on):
        pass

    def start(self):
        pass

    def is_alive(self):
        return False

    def join(self, *a):
        pass


def new_registry():
    external('threading.Thread', NoThread)
    return repo('fs').ConnectionRegistry()


def events(*kinds):
    return [e for e in trace() if e[0] in kinds]


class Conn:
    "what a factory builds; remembers how it was called"
    def __init__(self, *a, **k):
        self.args, self.kw = a, k
        self.last_used = 0
        emit('built', self)

    def close(self):
        emit('closed', self)


class Other(Conn):
    pass


def role(conn, name):
    "the value a factory like that of FileSystem gets for a component"
    i = ROLES.index(name)
    if i < len(conn.args):
        return conn.args[i]
    return conn.kw.get(name)


def extras_of(conn):
    return {k: v for k, v in conn.kw.items() if k not in ROLES}


def component(n, what):
    return choose(what + ' ' + n, True, False)


def endpoint(n, rich=True):
    "the arguments of a request: (scheme, {component: value}, extras)"
    c = {}
    if component(n, 'hostname'):
        c['hostname'] = string('host ' + n)
    if component(n, 'port'):
        c['port'] = integer('port ' + n, 0, 65535)
    if component(n, 'username'):
        c['username'] = string('user ' + n)
    if component(n, 'password'):
        c['password'] = string('password ' + n)
    if component(n, 'connector'):
        c['vpath_connector'] = string('connector ' + n)
    extras = {}
    if component(n, 'extra'):
        extras[string('extra name ' + n, minlen=1, notin=NOT_EXTRA)] = string('value ' + n)
    return c, extras


def call(reg, scheme, c, extras):
    return reg.get_connection(scheme, **dict(c, **extras))


def registry_with_others():
    "a registry with two schemes and any number of other connections"
    reg = new_registry()
    reg.register('one', Conn)
    reg.register('two', Other)
    others = objects('other', lambda n: (opaque(n + ' key'), opaque(n + ' connection')))
    for k, v in others:
        reg.connections[k] = v
    return reg, others


def unit_new():
    "a first request builds a connection by the factory of the scheme"
    reg, others = registry_with_others()
    c, extras = endpoint('a')
    scheme = choose('scheme', 'one', 'two')
    before = list(reg.connections.items())
    x = call(reg, scheme, c, extras)
    ensure('factory of the scheme', isinstance(x, Other) == (scheme == 'two') and isinstance(x, Conn))
    for name in ROLES:
        ensure('argument in its role', role(x, name) == c.get(name))
    ensure('extra arguments passed', extras_of(x) == extras)
    ensure('built once', events('built', 'closed', 'initialized') == [('built', x)])
    ensure('known connections unaffected', list(reg.connections.values()) == [v for k, v in before] + [x])
    ensure('same again', same(call(reg, scheme, c, extras), x))
    ensure('not built again', events('built', 'closed', 'initialized') == [('built', x)])


def unit_positional():
    "the components can be given by position"
    reg = new_registry()
    reg.register('one', Conn)
    values = [string('host'), integer('port', 0, 65535), string('user'), string('password'), string('connector')]
    x = reg.get_connection('one', *values)
    for i in range(5):
        ensure('positional argument in its role', role(x, ROLES[i]) == values[i])
    ensure('no extra arguments', extras_of(x) == {})
    y = reg.get_connection(scheme='one', hostname=values[0], port=values[1], username=values[2], password=values[3],
                           vpath_connector=values[4])
    ensure('the same by keyword', same(x, y))


def unit_pair():
    "two requests give the same connection exactly if all arguments agree"
    reg, others = registry_with_others()
    s1, s2 = choose('scheme a', 'one', 'two'), choose('scheme b', 'one', 'two')
    host1, host2 = string('host a'), string('host b')
    port1, port2 = integer('port a', 0, 65535), integer('port b', 0, 65535)
    which = choose('which', 'location', 'credentials', 'connector', 'extras')
    a, b = {'hostname': host1, 'port': port1}, {'hostname': host2, 'port': port2}
    e1, e2 = {}, {}
    if which == 'credentials':
        a['username'], b['username'] = string('user a'), string('user b')
        a['password'], b['password'] = string('password a'), string('password b')
    elif which == 'connector':
        a['vpath_connector'], b['vpath_connector'] = string('connector a'), string('connector b')
    elif which == 'extras':
        e1[string('extra a', minlen=1, notin=NOT_EXTRA)] = string('value a')
        e2[string('extra b', minlen=1, notin=NOT_EXTRA)] = string('value b')
    x = call(reg, s1, a, e1)
    y = call(reg, s2, b, e2)
    ensure('same connection for the same arguments, different for different ones',
           same(x, y) == (s1 == s2 and a == b and e1 == e2))
    ensure('first still known', same(call(reg, s1, a, e1), x))
    ensure('second still known', same(call(reg, s2, b, e2), y))


def unit_one_differs():
    "each component counts, absent ones too"
    reg = new_registry()
    reg.register('one', Conn)
    reg.register('two', Other)
    full = choose('others given', True, False)
    c = {}
    if full:
        c = {'hostname': string('host'), 'port': integer('port', 0, 65535), 'username': string('user'),
             'password': string('password'), 'vpath_connector': string('connector')}
    extras = {'k': string('value')} if choose('extra', True, False) else {}
    x = call(reg, 'one', c, extras)
    what = choose('differs', 'hostname', 'port', 'username', 'password', 'vpath_connector', 'scheme', 'extra value',
                  'extra name', 'no extra', 'more extras', 'nothing')
    d, f, scheme = dict(c), dict(extras), 'one'
    if what in ROLES:
        if full and choose('absent instead', True, False):
            d[what] = None
        elif what == 'port':
            d[what] = integer('other port', 0, 65535)
            assume(not full or d[what] != c[what])
        else:
            d[what] = string('other ' + what)
            assume(not full or d[what] != c[what])
    elif what == 'scheme':
        scheme = 'two'
    elif what == 'extra value':
        f = {'k': string('other value')}
        assume(f != extras)
    elif what == 'extra name':
        f = {string('other name', minlen=1, notin=NOT_EXTRA + ('k',)): v for v in extras.values()}
        assume(f != extras)
    elif what == 'no extra':
        f = {}
        assume(f != extras)
    elif what == 'more extras':
        f = dict(extras, other=string('second value'))
    y = call(reg, scheme, d, f)
    ensure('one difference suffices', same(x, y) == (what == 'nothing'))


def unit_extras_order():
    reg = new_registry()
    reg.register('one', Conn)
    v, w = string('v'), string('w')
    x = reg.get_connection('one', 'host', a=v, b=w)
    ensure('order of extra arguments does not count', same(reg.get_connection('one', 'host', b=w, a=v), x))
    ensure('values are not exchanged', same(reg.get_connection('one', 'host', a=w, b=v), x) == (v == w))


def unit_swapped():
    "a value in another role is another endpoint"
    reg = new_registry()
    reg.register('one', Conn)
    v = string('v')
    got = [reg.get_connection('one', **{name: v}) for name in ROLES]
    for i in range(5):
        for j in range(i):
            ensure('roles are kept apart', not same(got[i], got[j]))


def unit_closed():
    "after a cleanup a new connection is built"
    reg = new_registry()
    reg.register('one', Conn)
    c, extras = endpoint('a')
    x = call(reg, 'one', c, extras)
    reg.cleanup(True)
    y = call(reg, 'one', c, extras)
    ensure('new connection after closing', not same(x, y))
    ensure('and it is kept', same(call(reg, 'one', c, extras), y))
    ensure('the first was closed', events('built', 'closed', 'initialized') == [('built', x), ('closed', x), ('built', y)])


def unit_no_scheme():
    reg, others = registry_with_others()
    c, extras = endpoint('a')
    scheme = string('scheme', notin=('one', 'two'))
    before, schemes = list(reg.connections.items()), list(reg.schemes.items())
    how, e = outcome(call, reg, scheme, c, extras)
    ensure('unknown scheme refused', how == 'raise' and isinstance(e, repo('exceptions').NoSchemeError))
    ensure('registry unchanged', list(reg.connections.items()) == before and list(reg.schemes.items()) == schemes)
    ensure('nothing built', events('built', 'closed', 'initialized') == [])


def unit_failing_factory():
    "a factory that fails leaves no connection behind"
    reg, others = registry_with_others()
    state = [True]

    def factory(*a, **k):
        if state[0]:
            raise ValueError('no connection')
        return Conn(*a, **k)
    reg.register('three', factory)
    c, extras = endpoint('a')
    before = list(reg.connections.items())
    how, e = outcome(call, reg, 'three', c, extras)
    ensure('error of the factory', how == 'raise' and isinstance(e, ValueError))
    ensure('nothing registered', list(reg.connections.items()) == before)
    state[0] = False
    x = call(reg, 'three', c, extras)
    ensure('later request works', isinstance(x, Conn) and same(call(reg, 'three', c, extras), x))


def unit_register():
    "registering a scheme again serves later connections only"
    reg = new_registry()
    reg.register('one', Conn)
    c, extras = endpoint('a')
    x = call(reg, 'one', c, extras)
    reg.register('one', Other)
    ensure('open connection stays', same(call(reg, 'one', c, extras), x))
    y = reg.get_connection('one', 'h', first=string('value'), second='x')
    ensure('new factory', isinstance(y, Other))


def unit_uri():
    "two uris with the same endpoint are served by the same connection"
    fs = repo('fs')
    URI = repo('').URI
    old = fs.CONNECTION_REGISTRY
    fs.CONNECTION_REGISTRY = reg = new_registry()
    try:
        reg.register('sch', Conn)
        user, password = credentials()
        host = string('host', exclude=RESERVED, minlen=1)
        assume(host != '.')
        port = port_number()
        text = 'sch://' + authority_of(user, password, host, port)
        extra = string('extra', exclude=RESERVED + WHITE + '%+', minlen=1) if choose('extra', True, False) else None
        extras = {} if extra is None else {'extra': extra}
        u = URI(text + '/' + string('path a', exclude='?#()\\\n'), **extras)
        v = URI(text + '/' + string('path b', exclude='?#()\\\n') + ('' if extra is None else '?extra=' + extra))
        x, y = u.get_connection(), v.get_connection()
        ensure('one connection', same(x, y))
        ensure('its host', role(x, 'hostname') == host)
        ensure('its port', (role(x, 'port') or None) == port)
        ensure('its user', (role(x, 'username') or None) == user)
        ensure('its password', (role(x, 'password') or None) == password)
        ensure('its extra arguments', extras_of(x) == extras)
        w = URI(text + '/', **dict(extras, more=string('more')))
        ensure('another extra argument', not same(w.get_connection(), x))
    finally:
        fs.CONNECTION_REGISTRY = old


def unit_uri_nested():
    fs = repo('fs')
    URI = repo('').URI
    old = fs.CONNECTION_REGISTRY
    fs.CONNECTION_REGISTRY = reg = new_registry()
    try:
        reg.register('sch', Conn)
        a, b = string('inner a', exclude='()\\\n', minlen=1), string('inner b', exclude='()\\\n', minlen=1)
        x = URI('sch://((' + a + '))/' + string('path a', exclude='?#()\\\n')).get_connection()
        y = URI('sch://((' + b + '))/' + string('path b', exclude='?#()\\\n')).get_connection()
        ensure('one connection per nested uri', same(x, y) == (a == b))
        ensure('nested uri passed', role(x, 'vpath_connector') == a)
    finally:
        fs.CONNECTION_REGISTRY = old


def unit_uri_credentials():
    "the same credentials, however they were given"
    fs = repo('fs')
    URI = repo('').URI
    old = fs.CONNECTION_REGISTRY
    fs.CONNECTION_REGISTRY = reg = new_registry()
    try:
        reg.register('sch', Conn)
        user = string('user', exclude=RESERVED + WHITE + '%+', minlen=1)
        password = string('password', exclude=RESERVED + WHITE + '%+', minlen=1)
        x = URI('sch://' + user + ':' + password + '@host/x').get_connection()
        y = URI('sch://host/y', username=user, password=password).get_connection()
        z = URI('sch://host/y?username=' + user + '&password=' + password).get_connection()
        ensure('credentials by keyword', same(x, y))
        ensure('credentials by query', same(x, z))
        ensure('credentials passed', role(x, 'username') == user and role(x, 'password') == password)
    finally:
        fs.CONNECTION_REGISTRY = old


def unit_filesystem():
    "a backend's connection stores its endpoint"
    fs = repo('fs')

    class Backend(fs.FileSystem):
        def _initialize(self):
            emit('initialized', self.hostname, self.port, self.username, self.password, self.vpath_connector)
    reg = new_registry()
    reg.register('one', Backend)
    c, extras = endpoint('a')
    x = call(reg, 'one', c, extras)
    ensure('hostname', x.hostname == c.get('hostname'))
    ensure('port', x.port == c.get('port'))
    ensure('username', x.username == c.get('username'))
    ensure('password', x.password == c.get('password'))
    ensure('nested uri', x.vpath_connector == c.get('vpath_connector'))
    ensure('extras', x.extras == extras)
    ensure('initialized last', events('built', 'closed', 'initialized') == [('initialized', x.hostname, x.port, x.username, x.password, x.vpath_connector)])
