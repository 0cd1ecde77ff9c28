"""C03: joining appends path components and nothing else"""
from pv import *
from common import *

NAMEX = '?#()\\\n'
NOT_KEYS = ('username', 'password', 'sep', 'uri', 'self')


def base_uri():
    "a URI together with its path text"
    URI = repo('').URI
    kind = choose('kind', 'host', 'nested', 'local')
    path = '/' + string('path', exclude=NAMEX + (':' if kind == 'local' else ''))
    if kind == 'host':
        scheme = scheme_name()
        user, password = credentials()
        host = string('host', exclude=RESERVED, minlen=1)
        assume(host != '.')
        text = scheme + '://' + authority_of(user, password, host, port_number())
    elif kind == 'nested':
        scheme = scheme_name()
        assume(not scheme.startswith('http'))
        text = scheme + '://((' + string('inner', exclude='()\\\n', minlen=1) + '))'
    else:
        text = choose('file', 'file://', '')
    query = ''
    if kind != 'local' and choose('query given', False, True):
        query = '?' + string('key', only=LOWER, minlen=1, notin=NOT_KEYS) + '=' + string('value', only=LOWER)
    return URI(text + path + query, sep='/'), path


def same_endpoint(u, v):
    ensure('same scheme', u.scheme == v.scheme)
    ensure('same host', u.hostname == v.hostname)
    ensure('same port', u.port == v.port)
    ensure('same nested uri', u.vpath_connector == v.vpath_connector)


def join_expected(path, heads, last):
    base = path.rstrip('/')
    names = [x.strip('/') for x in heads] + [last]
    return base + '/' + '/'.join(names)


def path_of(u):
    "the path text, before './' and '../' below the root are taken as relative"
    return u.parse_result.path


def name_of(u, name):
    return string(name, exclude=NAMEX + (':' if u.scheme == 'file' else ''))


def unit_join_one():
    u, path = base_uri()
    name = name_of(u, 'name')
    want = join_expected(path, [], name)
    j = u.join(name)
    ensure('path of the joined uri', path_of(j) == want)
    same_endpoint(u, j)
    ensure('query kept', j.query == u.query)
    d = u / name
    ensure('operator / is join', d == j)
    ensure('operator / gives the same text', str(d) == str(j))


def unit_join_two():
    u, path = base_uri()
    a = name_of(u, 'first name')
    b = name_of(u, 'second name')
    want = join_expected(path, [a], b)
    j = u.join(a, b)
    ensure('path of the joined uri', path_of(j) == want)
    same_endpoint(u, j)


def unit_join_many():
    URI = repo('').URI
    scheme = scheme_name()
    host = string('host', exclude=RESERVED, minlen=1)
    assume(host != '.')
    path = '/' + string('path', exclude=NAMEX)
    u = URI(scheme + '://' + host + path, sep='/')
    heads = strings('heads', exclude=NAMEX, least=1)
    last = string('last', exclude=NAMEX)
    want = join_expected(path, heads, last)
    j = u.join(*(heads + [last]))
    ensure('path of the joined uri', path_of(j) == want)
    same_endpoint(u, j)


def unit_suffix():
    u, path = base_uri()
    assume(not u.query)
    suffix = name_of(u, 'suffix')
    s = u + suffix
    ensure('path with suffix', path_of(s) == path + suffix)
    same_endpoint(u, s)


def unit_observed():
    "the same seen through the path property"
    URI = repo('').URI
    first = string('first', exclude=NAMEX + ':/', minlen=1, notin=('.', '..'))
    u = URI(choose('scheme', '', 'memory://') + '/' + first, sep='/')
    a, b = name_of(u, 'a'), string('b', exclude=NAMEX + ':')
    ensure('one name', (u / b).path == '/' + first + '/' + b)
    ensure('two names', u.join(a, b).path == '/' + first + '/' + a.strip('/') + '/' + b)
