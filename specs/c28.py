"""C28: the generic URI parser fills in defaults and nothing else"""
import posixpath
from pv import *
from common import *

TRUSTED = ['posixpath.normpath: a pure function (nothing else about it is used)']
ASSUMPTIONS = ["'#' only in http and https texts (elsewhere it belongs to the path, see C01)",
               'components present are not empty; a tuple of defaults has one entry per component',
               "mailto texts contain an '@'"]

PRESETS = {'http': (None, None, None, '80', '/', None, None), 'https': (None, None, None, '443', '/', None, None),
           'imap': (None, None, 'localhost', '143', '/', None, None),
           'imaps': (None, None, 'localhost', '993', '/', None, None),
           'ftp': ('anonymous', 'anonymous', None, '21', '/', None, None),
           'tftp': (None, None, None, '69', '/', None, None), 'file': (None, None, None, None, '/', None, None),
           'telnet': (None, None, None, '23', '/', None, None)}
GENERIC = (None, None, None, None, '/', None, None)
NAMES = ('user', 'password', 'host', 'port', 'path', 'query', 'fragment')


def given(name):
    return choose(name + ' given', False, True)


def components(scheme, x=''):
    "present or absent components: (authority or None, the seven values)"
    host = user = password = port = query = fragment = None
    path = ''
    shape = choose('authority', 'none', 'empty', 'host', 'user', 'user and password')
    authority = None if shape == 'none' else ''
    if shape in ('host', 'user', 'user and password'):
        host = string('host', exclude='/?#@:()\n', minlen=1)
        assume(host != '.')
        authority = host
        if given('port'):
            port = string('port', exclude='/?#@()\n', minlen=1)
            authority = authority + ':' + port
        if shape != 'host':
            user = string('user', exclude='/?#@:()\n', minlen=1)
            creds = user
            if shape != 'user':
                password = string('password', exclude='/?#@()\n', minlen=1)
                creds = creds + ':' + password
            authority = creds + '@' + authority
    if given('path'):
        path = string('path', exclude='?#\n()' + x, minlen=1)
        if authority is not None:
            path = '/' + path
        else:
            assume(not path.startswith('//'))
    if given('query'):
        query = string('query', exclude='#\n()', minlen=1)
    if scheme in ('http', 'https') and given('fragment'):
        fragment = string('fragment', exclude='\n()', minlen=1)
    text = scheme + ':' + ('' if authority is None else '//' + authority) + path
    text = text + ('' if query is None else '?' + query) + ('' if fragment is None else '#' + fragment)
    return text, (user, password, host, port, path, query, fragment)


def check_parse(parser, text, scheme, values, preset, defaults=None):
    got = parser.parse(text, defaults) if defaults is not None else parser.parse(text)
    ensure('one value per component', len(got) == 8)
    ensure('scheme', got[0] == scheme)
    for i in range(7):
        if values[i] is not None and values[i] != '':
            ensure(NAMES[i] + ' as written', got[i + 1] == values[i])
        elif values[i] is None and i == 6 and preset[i] is None:
            ensure('no fragment', not got[7])
        else:
            ensure(NAMES[i] + ' by default', got[i + 1] == preset[i])
    return got


def unit_known():
    "schemes with a parser of their own"
    up = repo('uriparse')
    scheme = choose('scheme', 'http', 'https', 'imap', 'imaps', 'ftp', 'tftp', 'file', 'telnet')
    text, values = components(scheme)
    check_parse(up.URIParser(), text, scheme, values, PRESETS[scheme])


def unit_unknown():
    "any other scheme"
    up = repo('uriparse')
    scheme = string('scheme', exclude=':/?#\n()', minlen=1,
                    notin=('http', 'https', 'imap', 'imaps', 'ftp', 'tftp', 'file', 'telnet', 'mailto'))
    text, values = components(scheme)
    check_parse(up.URIParser(), text, scheme, values, GENERIC)


def unit_defaults():
    "the caller's defaults come before those of the parser"
    up = repo('uriparse')
    scheme = choose('scheme', 'http', 'ftp', 'other')
    text, values = components(scheme)
    kind = choose('defaults', 'texts', 'port number', 'partly')
    defaults = tuple(string('default ' + n, minlen=1) for n in NAMES)
    want = defaults
    if kind == 'port number':
        port = integer('port number', 1, 65535)
        defaults = defaults[:3] + (port,) + defaults[4:]
        want = want[:3] + (str(port),) + want[4:]
    elif kind == 'partly':
        defaults = want = (None, defaults[1], None, None, defaults[4], None, defaults[6])
    check_parse(up.URIParser(), text, scheme, values, want, defaults)


def unit_again():
    "defaults of one call do not leak into the next"
    up = repo('uriparse')
    scheme = choose('scheme', 'http', 'ftp', 'other')
    defaults = tuple(string('default ' + n, minlen=1) for n in NAMES)
    p = up.URIParser()
    p.parse(scheme + '://', defaults)
    check_parse(choose('parser', p, up.URIParser()), scheme + ':', scheme, (None, None, None, None, '', None, None),
                PRESETS.get(scheme, GENERIC))


def round_trip(x):
    up = repo('uriparse')
    scheme = choose('scheme', 'http', 'https', 'ftp', 'file', 'imap', 'telnet', 'other')
    text, values = components(scheme, x)
    path = values[4]
    assume(path == '' or path.startswith('/') and (values[2] is not None or not path.startswith('//')))
    p = up.URIParser()
    got = p.parse(text)
    again = p.parse(p.unparse(got))
    for i in range(8):
        ensure('read back', (got[i] or None) == (again[i] or None))


def unit_round_trip():
    "unparse undoes parse"
    round_trip(':')


def native_round_trip():
    round_trip('')


def unit_extra():
    "extra parsers serve their scheme only"
    up = repo('uriparse')
    log = []

    class Special:
        def __init__(self, defaults):
            self.defaults = defaults

        def parse(self, uri):
            log.append((self.defaults, uri))
            return ('special', 'pieces')

        def unparse(self, pieces):
            return 'unparsed ' + pieces[0]
    special = string('special', exclude=':/?#\n()', minlen=1)
    scheme = choose('scheme', 'http', 'ftp', 'other')
    p = up.URIParser(extra={special: Special})
    host = string('host', exclude='/?#@:()\n', minlen=1)
    assume(host != '.')
    text = scheme + '://' + host
    if scheme == special:
        ensure('extra parser used', p.parse(text, 'the defaults') == (special, 'special', 'pieces'))
        ensure('extra parser is given the text', log == [('the defaults', text)])
    else:
        check_parse(p, text, scheme, (None, None, host, None, '', None, None), PRESETS.get(scheme, GENERIC))
        ensure('extra parser not used', log == [])


def unit_extra_precedence():
    up = repo('uriparse')

    class Special:
        def __init__(self, defaults):
            self.defaults = defaults

        def parse(self, uri):
            return ('special', uri, self.defaults)

        def unparse(self, pieces):
            return 'unparsed ' + pieces[0]
    special = string('special', exclude=':/?#\n()', minlen=1)
    p = up.URIParser(extra={special: Special})
    rest = string('rest')
    ensure('extra parser takes precedence', p.parse(special + ':' + rest, 'the defaults')
           == (special, 'special', special + ':' + rest, 'the defaults'))
    ensure('extra parser unparses', p.unparse((special, 'x')) == special + ':unparsed x')
    q = up.URIParser()
    if special not in PRESETS and special != 'mailto':
        ensure('other parsers unaffected', q.parser_for(special + ':') is up.DefaultURIParser)
    ensure('class table unaffected', len(up.URIParser.Schemes) == 9)


def unit_mailto():
    up = repo('uriparse')
    user = string('user', exclude='@?#\n()') if choose('user given', True, False) else ''
    host = string('host', exclude='?#\n()') if choose('host given', True, False) else ''
    assume(not user.startswith('//'))
    query = string('query', exclude='#\n()', minlen=1) if given('query') else None
    defaults = None
    want = (None, None, None, None)
    if given('defaults'):
        defaults = want = tuple(string('default %d' % i, minlen=1) for i in range(4))
    text = 'mailto:' + user + '@' + host + ('' if query is None else '?' + query)
    got = up.URIParser().parse(text, defaults)
    ensure('mailto scheme', got[0] == 'mailto' and len(got) == 5)
    ensure('mailto user', got[1] == (user if user else want[0]))
    ensure('mailto host', got[2] == (host if host else want[1]))
    ensure('mailto query', got[3] == (want[2] if query is None else query))
    ensure('mailto fragment', got[4] == want[3])
    if user and host:
        ensure('mailto round trip', up.URIParser().unparse(('mailto', user, host, query, None)) == text)


def unit_scheme_of():
    up = repo('uriparse')
    scheme, rest = string('scheme', exclude=':'), string('rest', exclude=':')
    p = up.URIParser()
    ensure('scheme of', p.scheme_of(scheme + ':' + rest) == scheme)
    ensure('info of', p.info_of(scheme + ':' + rest) == rest)


# -- urljoin -----------------------------------------------------------------------

def base_uri():
    scheme = choose('base scheme', 'http', 'other')
    host = string('base host', exclude='/?#\n()', minlen=1)
    assume(host != '.')
    folder = string('base folder', exclude='?#\n()')
    file = string('base file', exclude='/?#\n()')
    path = choose('base path', '', '/' + file, '/' + folder + '/' + file)
    query = string('base query', exclude='#\n()', minlen=1) if given('base query') else None
    fragment = string('base fragment', exclude='\n()', minlen=1) if scheme == 'http' and given('base fragment') else None
    return scheme, host, path, path[:len(path) - len(file)] if path else '', query, fragment


def compose(scheme, authority, path, query, fragment):
    return (scheme + '://' + authority + path + ('' if query is None else '?' + query)
            + ('' if fragment is None else '#' + fragment))


def unit_dirname():
    up = repo('uriparse')
    tail = string('tail', exclude='/')
    slash = choose('has directory', True, False)
    head = string('head') + '/' if slash else ''

    def inv(L):
        "the text so far is the directory followed by something without slash"
        if L.mode == 'assume':
            L.set('q', head + fresh_string('rest', exclude='/'))
        q = L.get('q')
        L.check('prefix', q.startswith(head))
        L.check('no slash behind', '/' not in q[len(head):])
        L.measure(len(q))
    invariant('_dirname', 0, inv)
    ensure('directory part', up._dirname(head + tail) == head)


def dirname_contract(p):
    return p[:p.rfind('/') + 1]


def reference(scheme):
    "(text after the scheme, authority, path, query, fragment); absent parts are None"
    authority = path = query = fragment = None
    if given('authority'):
        authority = string('authority', exclude='/?#\n()', minlen=1)
        assume(authority != '.')
    if given('path'):
        path = string('path', exclude='?#\n():', minlen=1)
        if authority is not None:
            path = '/' + path
        else:
            assume(not path.startswith('//'))
    if given('query'):
        query = string('query', exclude='#\n()', minlen=1)
    if scheme == 'http' and given('fragment'):
        fragment = string('fragment', exclude='\n()', minlen=1)
    text = ('' if authority is None else '//' + authority) + ('' if path is None else path)
    text = text + ('' if query is None else '?' + query) + ('' if fragment is None else '#' + fragment)
    return text, authority, path, query, fragment


def unit_join():
    up = repo('uriparse')
    contract('_dirname', dirname_contract)
    scheme, host, path, folder, query, fragment = base_uri()
    if scheme == 'other':
        scheme = string('other scheme', only=LOWER, minlen=1)
        assume(not scheme.startswith('http'))
    base = compose(scheme, host, path, query, fragment)
    text, rauthority, rpath, rquery, rfragment = reference(scheme)
    if given('scheme of the reference'):
        text = scheme + ':' + text
    got = up.urljoin(base, text)
    if rauthority is not None:
        want = compose(scheme, rauthority, rpath or '', rquery, rfragment)
        cover('authority')
    elif rpath is not None:
        if rpath.startswith('/'):
            full = rpath
        else:
            full = (folder or '/') + rpath
        want = compose(scheme, host, posixpath.normpath(full), rquery, rfragment)
        cover('path')
    elif rquery is not None:
        want = compose(scheme, host, path, rquery, rfragment)
        cover('query')
    elif rfragment is not None:
        want = compose(scheme, host, path, query, rfragment)
        cover('fragment')
    else:
        want = base
        cover('empty')
    ensure('resolved', got == want)


def unit_join_other_scheme():
    up = repo('uriparse')
    scheme = string('base scheme', only=LOWER, minlen=1)
    host = string('base host', exclude='/?#\n()', minlen=1)
    assume(host != '.')
    base = scheme + '://' + host + choose('base path', '', '/' + string('base rest', exclude='\n()'))
    other = string('scheme of the reference', exclude=':/?#\n()', minlen=1)
    assume(other != scheme)
    url = other + ':' + string('rest', exclude='()\n')
    ensure('a reference with another scheme is the result', up.urljoin(base, url) == url)


COVERS = {'unit_join': ('authority', 'path', 'query', 'fragment', 'empty')}
