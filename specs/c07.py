"""C07: derived URIs keep their endpoint and are isolated from the original"""
from pv import *
from common import *

PATHX = '?#()\\\n:'
NOT_KEYS = ('username', 'password', 'sep', 'uri', 'self', 'scheme', 'hostname', 'port', 'vpath_connector')
VALUES = 'abcdefghijklmnopqrstuvwxyz/:+% '
TRUSTED = ['urllib.parse: unquote_plus(quote_plus(s)) == s, quote_plus yields unreserved characters, % and + only']


class Endpoints(object):
    "stands in for the registry: what a connection is asked with"
    def get_connection(self, scheme='', hostname=None, port=None, username=None, password=None,
                       vpath_connector=None, **extras):
        return (scheme, hostname, port, username, password, vpath_connector), extras


def endpoint(u):
    fs = repo('fs')
    old = fs.CONNECTION_REGISTRY
    fs.CONNECTION_REGISTRY = Endpoints()
    try:
        return u.get_connection()
    finally:
        fs.CONNECTION_REGISTRY = old


def original(kinds):
    URI = repo('').URI
    kind = choose('kind', *kinds)
    extras = {}
    query = {}
    user = password = None
    extra = choose('extra argument', 'none', 'at once', 'later')
    if extra == 'at once':
        extras[string('extra', only=LOWER + '_', minlen=1, notin=NOT_KEYS)] = opaque('extra value')
    creds = choose('credentials', 'none', 'authority', 'keyword', 'query')
    if creds != 'none':
        user = string('user', only=LOWER + '.-', minlen=1)
        password = string('password', only=LOWER + '.-', minlen=1)
    if creds == 'keyword':
        extras['username'] = user
        extras['password'] = password
    path = '/' + string('path', exclude=PATHX)
    if kind == 'host':
        scheme = choose('scheme', 'memory', 'http')
        host = string('host', exclude=RESERVED, minlen=1)
        assume(host != '.')
        if creds == 'authority':
            host = user + ':' + password + '@' + host
        text = scheme + '://' + host + (':8080' if creds == 'authority' else '')
    elif kind == 'nested':
        text = 'zip://((' + string('inner', exclude='()\\\n', minlen=1) + '))'
    else:
        text = ''
    u = URI(text + path, **extras)
    if kind != 'local':
        if creds == 'query':
            u = URI(text + path + '?username=' + user + '&password=' + password)
            return u
        q = choose('query', 'none', 'given', 'set later')
        if q == 'given':
            key = string('key', only=LOWER, minlen=1, notin=NOT_KEYS)
            u = URI(text + path + '?' + key + '=' + string('value', only=LOWER), **extras)
        if q == 'set later':
            u.query[string('later', only=LOWER, minlen=1, notin=NOT_KEYS)] = string('later value', only=VALUES)
    if extra == 'later':
        u.extras[string('later extra', only=LOWER, minlen=1, notin=NOT_KEYS)] = opaque('later extra value')
    return u


def derivations(u):
    name = string('name', exclude=PATHX + '/&', minlen=1)
    how = choose('derived by', 'join', 'operator', 'suffix', 'copy', 'split', 'directory')
    if how == 'join':
        return how, u.join(name, name)
    if how == 'operator':
        return how, u / name
    if how == 'suffix':
        # the text given is appended as it is: not to the path if there is a query
        assume('?' not in u.uri)
        return how, u + name
    if how == 'copy':
        return how, repo('').URI(u)
    if how == 'split':
        return how, u.split()[0]
    return how, u.directory()


def check(u):
    key, extras = endpoint(u)
    query = dict(u.query)
    own = dict(u.extras)
    texts = str(u)
    how, v = derivations(u)
    if how in ('split', 'directory'):
        assume(u.scheme not in ('http', 'https'))
        assume(u.scheme == 'file' or len(u.parse_result.path) > 1)
    vkey, vextras = endpoint(v)
    ensure('same endpoint', vkey == key, (how, vkey, key))
    ensure('same arguments for the connection', vextras == extras, how)
    ensure('same separator', v.sep == u.sep)
    if how not in ('split', 'directory'):
        ensure('same query', v.query == query, how)
    return query, own, texts, v


def unit_host():
    check(original(('host',)))


def unit_nested():
    check(original(('nested',)))


def unit_local():
    check(original(('local',)))


def unit_isolated():
    URI = repo('').URI
    key = string('key', only=LOWER, minlen=1, notin=NOT_KEYS)
    extras = {}
    if choose('extra argument', False, True):
        extras[string('extra', only=LOWER + '_', minlen=1, notin=NOT_KEYS)] = opaque('extra value')
    u = URI(choose('start', 'memory://host/dir/', 'zip://((/a/b.zip))/dir/', '/dir/') + string('path', only=LOWER),
            **extras)
    if choose('query', False, True):
        u.query[key] = string('value', only=LOWER)
    query, own, text, v = check(u)
    v.query['added'] = 'x'
    v.extras['more'] = 'y'
    ensure('query of the original untouched', u.query == query)
    ensure('extra arguments of the original untouched', u.extras == own)
    ensure('text of the original untouched', str(u) == text)
    vq, ve, vt = dict(v.query), dict(v.extras), str(v)
    u.query['other'] = 'x'
    u.extras['other'] = 'y'
    ensure('query of the derived untouched', v.query == vq)
    ensure('extra arguments of the derived untouched', v.extras == ve)
    ensure('text of the derived untouched', str(v) == vt)


def unit_attributes():
    "the same seen through the attributes"
    URI = repo('').URI
    user, password = credentials()
    host = string('host', exclude=RESERVED, minlen=1)
    assume(host != '.')
    scheme = choose('scheme', 'memory', 'http')
    u = URI(scheme + '://' + authority_of(user, password, host, port_number()) + '/dir/'
            + string('path', only=LOWER, minlen=1))
    how, v = derivations(u)
    ensure('scheme', v.scheme == scheme)
    ensure('host', v.hostname == host)
    ensure('user', (v.username or None) == user)
    ensure('password', (v.password or None) == password)
    ensure('port', v.port == u.port)
    ensure('no connection yet', v.connection is None)
