"""C02: a URI written out and read back is the same URI"""
from pv import *
from common import *

PATHX = '?#()\\\n'
SAFE = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~'
TRUSTED = ['urllib.parse: unquote_plus(quote_plus(s)) == s, quote_plus yields unreserved characters, % and + only']
ASSUMPTIONS = ['http-like schemes have a host (without one they denote plain paths), query keys are unreserved characters']


def same_uri(u, v):
    ensure('equal after reading back', u == v)
    ensure('same user', (u.username or None) == (v.username or None))
    ensure('same password', (u.password or None) == (v.password or None))
    ensure('same nested uri', u.vpath_connector == v.vpath_connector)
    ensure('same fragment', (u.fragment or '') == (v.fragment or ''))
    ensure('same path text', u.parse_result.path == v.parse_result.path)
    ensure('same text again', str(u) == str(v))


def unit_plain():
    URI = repo('').URI
    scheme = scheme_name()
    user, password = credentials()
    host = string('host', exclude=RESERVED, minlen=1)
    assume(host != '.')
    port = port_number()
    path = '/' + string('path', exclude=PATHX)
    frag = string('fragment', exclude='?()\\\n', minlen=1) if choose('fragment given', False, True) else None
    u = URI(scheme + '://' + authority_of(user, password, host, port) + path + ('' if frag is None else '#' + frag))
    same_uri(u, URI(str(u)))


def unit_query():
    URI = repo('').URI
    scheme = choose('scheme', 'memory', 'http', 'ftp')
    host = string('host', exclude=RESERVED, minlen=1)
    assume(host != '.')
    u = URI(scheme + '://' + host + '/' + string('path', exclude=PATHX))
    keys = strings('keys', only=SAFE, minlen=1, distinct=True, least=1, notin=('username', 'password'))
    values = strings('values')
    assume(len(keys) == len(values))
    q = u.query
    for k, v in zip(keys, values):
        q[k] = v
    v = URI(str(u))
    same_uri(u, v)


def unit_nested():
    URI = repo('').URI
    scheme = scheme_name()
    assume(not scheme.startswith('http'))
    inner = string('inner', exclude='()\\\n', minlen=1)
    path = '/' + string('path', exclude=PATHX)
    u = URI(scheme + '://((' + inner + '))' + path)
    same_uri(u, URI(str(u)))


def unit_local():
    URI = repo('').URI
    first = string('first', exclude='?#()\\\n/:', notin=('.', '..'))
    path = '/' + first
    if choose('longer', False, True):
        path = path + '/' + string('rest', exclude='?#()\\\n', nosub=('://',))
    u = URI(('file://' if choose('with scheme', False, True) else '') + path)
    v = URI(str(u))
    same_uri(u, v)


def unit_relative():
    URI = repo('').URI
    path = string('path', exclude='?#()\\\n:', minlen=1)
    assume(not path.startswith('/') and path != '.')
    u = URI(path)
    v = URI(str(u))
    same_uri(u, v)


def unit_split_join():
    "five-part split and join"
    up = repo('uriparse')
    scheme = string('scheme', exclude=':/?#\n', minlen=1)
    is_http = choose('http', False, True)
    if is_http:
        scheme = 'http'
    else:
        assume(scheme != 'http' and scheme != 'https')
    authority = None
    if choose('authority given', False, True):
        authority = string('authority', exclude='/?#\n()', minlen=1)
        assume(authority != '.')
    path = string('path', exclude='?#\n')
    if authority is not None:
        assume(path == '' or path.startswith('/'))
    else:
        assume(not path.startswith('//'))
    query = string('query', exclude='#\n', minlen=1) if choose('query given', False, True) else None
    fragment = string('fragment', exclude='\n', minlen=1) if is_http and choose('fragment given', False, True) else None
    text = scheme + ':' + ('' if authority is None else '//' + authority) + path
    text = text + ('' if query is None else '?' + query) + ('' if fragment is None else '#' + fragment)
    parts = up.urisplit(text)
    ensure('scheme', parts[0] == scheme)
    ensure('authority', parts[1] == authority)
    ensure('path', parts[2] == path)
    ensure('query', parts[3] == query)
    ensure('fragment', (parts[4] or None) == fragment)
    ensure('split and joined', up.uriunsplit(parts) == text)


def unit_authority():
    up = repo('uriparse')
    user, password = credentials()
    host = string('host', exclude='@:', minlen=1)
    port = string('port', only=DIGITS, minlen=1) if choose('port given', False, True) else None
    text = authority_of(user, password, host, port)
    parts = up.split_authority(text)
    ensure('components', parts[1:] == (password, host, port))
    ensure('user', parts[0] == user if user is not None else not parts[0])
    ensure('split and joined', up.join_authority(parts) == text)
