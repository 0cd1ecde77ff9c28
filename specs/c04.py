"""C04: splitting a path undoes joining"""
from pv import *
from common import *

NAMEX = '?#()\\\n'
NOT_KEYS = ('username', 'password', 'sep', 'uri', 'self')
ASSUMPTIONS = ['os.path.splitext is the system function (its result is only passed on)']


def some_base(with_path=True):
    "(uri, root text, path): a base URI whose path does not end in '/'"
    URI = repo('').URI
    kind = choose('kind', 'host', 'nohost', 'nested', 'local', 'relative')
    x = NAMEX + (':' if kind in ('local', 'relative') else '')
    path = ''
    if with_path:
        path = string('path', exclude=x, minlen=1)
        assume(not path.endswith('/'))
    if kind == 'host':
        scheme = scheme_name()
        host = string('host', exclude=RESERVED, minlen=1)
        assume(host != '.')
        text = scheme + '://' + host
        if choose('full authority', False, True):
            text = scheme + '://' + authority_of(string('user', exclude=RESERVED, minlen=1), string(
                'password', exclude=RESERVED, minlen=1), host, integer('port', 1, 65535))
    elif kind == 'nohost':
        scheme = scheme_name()
        assume(not scheme.startswith('http'))
        text = scheme + '://'
    elif kind == 'nested':
        scheme = scheme_name()
        assume(not scheme.startswith('http'))
        text = scheme + '://((' + string('inner', exclude='()\\\n', minlen=1) + '))'
    elif kind == 'local':
        text = ''
    else:
        text = '.'
    query = ''
    if kind not in ('local', 'relative') and choose('query given', False, True):
        query = '?' + string('key', only=LOWER, minlen=1, notin=NOT_KEYS) + '=' + string('value', only=LOWER + '/')
    return URI(text + '/' + path + query, sep='/')


def same_place(u, v):
    return (u.scheme == v.scheme and u.netloc == v.netloc and u.parse_result.path == v.parse_result.path
            and u.vpath_connector == v.vpath_connector and (u.username or '') == (v.username or '')
            and (u.password or '') == (v.password or ''))


def unit_split():
    u = some_base()
    name = string('name', exclude=NAMEX + '/' + (':' if u.scheme == 'file' else ''), minlen=1)
    j = u / name
    first, second = j.split()
    ensure('second part is the name', second == name)
    ensure('first part is the base', same_place(first, u))
    ensure('basename', j.basename() == name)
    ensure('last', j.last() == name)
    ensure('going up', same_place(j.directory(), u))
    ensure('dirname', same_place(j.dirname(), u))
    ensure('splitting again joins to the same', same_place(first / second, j))


def unit_root():
    u = some_base(with_path=False)
    if u.scheme == 'file' and not u.is_absolute:
        return
    ensure('root stays', same_place(u.directory(), u))
    ensure('root stays for two levels', same_place(u.directory(2), u))
    name = string('name', exclude=NAMEX + '/' + (':' if u.scheme == 'file' else ''), minlen=1, notin=('.', '..'))
    j = u / name
    ensure('up from first level is the root', same_place(j.directory(), u))
    ensure('further up stays at the root', same_place(j.directory(3), u))
    ensure('name below the root', j.split()[1] == name and j.last() == name)
    ensure('root has no name', u.basename() == '' and u.last() == '')


def unit_trailing():
    u = some_base()
    name = string('name', exclude=NAMEX + '/' + (':' if u.scheme == 'file' else ''), minlen=1)
    slashes = choose('slashes', '/', '///')
    j = u / (name + slashes)
    ensure('last ignores trailing slashes', j.last() == name)
    ensure('basename does not', j.basename() == '')


def unit_splitext():
    u = some_base()
    name = string('name', exclude=NAMEX + '/' + (':' if u.scheme == 'file' else ''), minlen=1)
    import os
    ensure('extension of the name', (u / name).splitext() == os.path.splitext(name))


class Level(object):
    "k levels above the start"
    def __init__(self, depth):
        self.depth = depth

    def __eq__(self, other):
        return self.depth == other.depth

    def split(self):
        return Level(self.depth + 1), 'name'


def proof_directory():
    "going up k levels, for every k: each level is one split"
    BaseUri = repo('fs').BaseUri
    k = integer('k', 1)
    start = Level(0)
    levels = [k]

    def climbing(L):
        L.var('newpath', start if L.i == 0 else Level(L.i))
        L.var('level', levels[-1] - L.i)
        L.check('no level too many', levels[-1] - L.i >= 0)
        L.measure(levels[-1] - L.i)
    invariant('BaseUri.directory', 0, climbing)
    r = BaseUri.directory(start, k)
    ensure('k splits', r.depth == k)
    levels.append(1)
    ensure('one level is the default', BaseUri.directory(start).depth == 1)
