"""C08: URI equality is decided by scheme, location, path and query"""
from pv import *
from common import *

NOT_KEYS = ('username', 'password', 'sep', 'uri', 'self')


def parts(n):
    scheme = string('scheme ' + n, only=LOWER, minlen=2)
    assume(scheme != 'file' and not scheme.startswith('http'))
    host = string('host ' + n, exclude=RESERVED, minlen=1)
    assume(host != '.')
    port = integer('port ' + n, 1, 65535) if choose('port given ' + n, False, True) else None
    path = '/' + string('path ' + n, exclude='?#()\\\n')
    return scheme, host, port, path


def text_of(p, creds=''):
    return p[0] + '://' + creds + p[1] + ('' if p[2] is None else ':' + str(p[2])) + p[3]


def verdict(a, b, want):
    r = (a == b)
    ensure('equality', r == want)
    ensure('equality is symmetric', (b == a) == want)
    ensure('inequality is the negation', (a != b) == (not want))
    ensure('inequality is symmetric', (b != a) == (not want))


def unit_location():
    URI = repo('').URI
    p, q = parts('a'), parts('b')
    a, b = URI(text_of(p)), URI(text_of(q))
    verdict(a, b, p[0] == q[0] and p[1] == q[1] and p[2] == q[2] and p[3] == q[3])


def unit_one_differs():
    "every component counts"
    URI = repo('').URI
    p = parts('a')
    other = choose('differs', 'scheme', 'host', 'port', 'path', 'query', 'nothing')
    q = list(p)
    if other == 'scheme':
        q[0] = string('other scheme', only=LOWER, minlen=2)
        assume(q[0] != p[0] and q[0] != 'file' and not q[0].startswith('http'))
    elif other == 'host':
        q[1] = string('other host', exclude=RESERVED, minlen=1)
        assume(q[1] != p[1] and q[1] != '.')
    elif other == 'port':
        q[2] = integer('other port', 1, 65535)
        assume(p[2] is None or q[2] != p[2])
    elif other == 'path':
        q[3] = '/' + string('other path', exclude='?#()\\\n')
        assume(q[3] != p[3])
    a, b = URI(text_of(p)), URI(text_of(q))
    if other == 'query':
        b.query[string('key', only=LOWER, minlen=1, notin=NOT_KEYS)] = string('value', only=LOWER)
    verdict(a, b, other == 'nothing')


def unit_query():
    "queries are compared as a whole, however they were written"
    URI = repo('').URI
    base = 'memory://host/path'
    k1 = string('k1', only=LOWER, minlen=1, notin=NOT_KEYS)
    k2 = string('k2', only=LOWER, minlen=1, notin=NOT_KEYS)
    assume(k1 != k2)
    v1, v2, v3 = string('v1', only=LOWER), string('v2', only=LOWER), string('v3', only=LOWER)
    a = URI(base + '?' + k1 + '=' + v1 + '&' + k2 + '=' + v2)
    b = URI(base + '?' + k2 + '=' + v2 + '&' + k1 + '=' + v1)
    verdict(a, b, True)
    c = URI(base)
    c.query[k2] = v2
    c.query[k1] = v1
    verdict(a, c, True)
    d = URI(base + '?' + k1 + '=' + v1 + '&' + k2 + '=' + v3)
    verdict(a, d, v2 == v3)
    verdict(a, URI(base + '?' + k1 + '=' + v1), False)
    verdict(a, URI(base), False)


def unit_irrelevant():
    "credentials, extra arguments, separator and connection do not count"
    URI = repo('').URI
    p = parts('a')
    a = URI(text_of(p))
    what = choose('what', 'credentials', 'extras', 'keyword credentials', 'connection')
    if what == 'credentials':
        b = URI(text_of(p, string('user', exclude=RESERVED, minlen=1) + ':' + string('password', exclude=RESERVED,
                                                                                    minlen=1) + '@'))
    elif what == 'extras':
        b = URI(text_of(p), **{string('extra', only=LOWER, minlen=1, notin=NOT_KEYS): opaque('value')})
    elif what == 'keyword credentials':
        b = URI(text_of(p), username=string('user', minlen=1), password=string('password', minlen=1))
    else:
        b = URI(text_of(p))
        b.connection = opaque('connection')
        b.extras['more'] = 'x'
    verdict(a, b, True)


def unit_files():
    "local paths, with and without scheme"
    URI = repo('').URI
    x = '/' + string('x', exclude='?#()\\\n:', notin=('.', '..'))
    y = '/' + string('y', exclude='?#()\\\n:', notin=('.', '..'))
    a, b = URI(x), URI(choose('scheme', '', 'file://') + y)
    verdict(a, b, x == y)
    verdict(a, URI('memory://' + y), False)


def unit_parsed():
    "the comparison of parsed uris follows the same rule"
    UriParse = repo('simpleuri').UriParse
    p, q = parts('a'), parts('b')
    a, b = UriParse(text_of(p)), UriParse(text_of(q))
    want = p[0] == q[0] and p[1] == q[1] and p[2] == q[2] and p[3] == q[3]
    ensure('parsed equality', (a == b) == want)
    ensure('parsed equality with other objects', not (a == text_of(p)))


def unit_others():
    URI = repo('').URI
    p = parts('a')
    a = URI(text_of(p))
    for other in (text_of(p), 1, None, a.parse_result, opaque('something'), (1, 2)):
        ensure('not equal to another kind of object', not (a == other))
        ensure('unequal to another kind of object', a != other)
