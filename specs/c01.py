"""C01: URI text decomposes into exactly its components"""
from pv import *
from common import *

PATHX = '?#()\\\n'
TRUSTED = ['urllib.parse.unquote_plus: an uninterpreted function, the identity on text without % and +',
           're.match of the parser patterns: executed by the matcher of pyvc/regex.py']
ASSUMPTIONS = ['components contain none of the reserved delimiters, no backslash, newline and (in queries) white space']


def unit_components():
    URI = repo('').URI
    scheme = scheme_name()
    user, password = credentials()
    host = string('host', exclude=RESERVED, minlen=1)
    assume(host != '.')
    port = port_number()
    path = '/' + string('path', exclude=PATHX)
    u = URI(scheme + '://' + authority_of(user, password, host, port) + path)
    ensure('scheme reported', u.scheme == scheme)
    ensure('user reported', u.username == user if user is not None else not u.username, (u.username, user))
    ensure('password reported', u.password == password)
    ensure('host reported', u.hostname == host)
    ensure('port reported', u.port == (0 if port is None else port))
    ensure('no nested uri reported', u.vpath_connector == '')
    ensure('no query reported', u.query == {})
    ensure('no fragment reported', not u.fragment)
    full = u.parse_result.path
    ensure('path reported', full == path, full)


def unit_path_property():
    "the path of a remote URI is the text's path, save the marker of relative paths"
    URI = repo('').URI
    scheme = scheme_name()
    path = '/' + string('path', exclude=PATHX)
    assume(not (path == '/.' or path == '/..' or path.startswith('/./') or path.startswith('/../')))
    host = string('host', exclude=RESERVED)
    assume(host != '.')
    u = URI(scheme + '://' + host + path)
    ensure('path is the path of the text', u.path == path, u.path)
    ensure('host is the host of the text', (u.hostname or '') == host)


def unit_query():
    "every query argument is reported with its decoded value"
    URI = repo('').URI
    scheme = choose('scheme', 'memory', 'http', 'ftp', 'zip')
    host = string('host', exclude=RESERVED, minlen=1)
    assume(host != '.')
    path = '/' + string('path', exclude=PATHX)
    before = strings('before', exclude=RESERVED + WHITE)
    after = strings('after', exclude=RESERVED + WHITE)
    key = string('key', exclude=RESERVED + WHITE)
    value = string('value', exclude=RESERVED + WHITE)
    for k in before:
        assume(k != key)
    for k in after:
        assume(k != key)
    items = [k + '=x' for k in before] + [key + '=' + value] + [k + '=y%20' for k in after]
    assume(key != 'username' and key != 'password')
    for k in before:
        assume(k != 'username' and k != 'password')
    for k in after:
        assume(k != 'username' and k != 'password')
    text = scheme + '://' + host + path + '?' + '&'.join(items)
    u = URI(text)
    from urllib.parse import unquote_plus
    ensure('query value decoded', u.query[key] == unquote_plus(value))
    for k in before:
        if k not in after:
            ensure('other values', u.query[k] == 'x')
    for k in after:
        ensure('other values decoded', u.query[k] == 'y ')
    if choose('look for a key that is not there', False, True):
        other = string('other', exclude=RESERVED + WHITE)
        assume(other != key and other not in before and other not in after)
        ensure('nothing else in the query', other not in u.query)
    ensure('path ends at the query', u.parse_result.path == path)
    ensure('host', u.hostname == host)


def unit_credentials_elsewhere():
    "user name and password given by keyword or in the query only"
    URI = repo('').URI
    scheme = choose('scheme', 'memory', 'ftp', 'svn+ssh')
    host = string('host', exclude=RESERVED, minlen=1)
    assume(host != '.')
    user = string('user', exclude=RESERVED + WHITE + '%+', minlen=1)
    password = string('password', exclude=RESERVED + WHITE + '%+', minlen=1)
    where_user = choose('user', 'text', 'keyword', 'query', 'nowhere')
    where_password = choose('password', 'text', 'keyword', 'query', 'nowhere')
    assume(not (where_password == 'text' and where_user != 'text'))
    kw = {}
    text = scheme + '://'
    if where_user == 'text':
        text = text + user
        if where_password == 'text':
            text = text + ':' + password
        text = text + '@'
    text = text + host + '/p'
    q = []
    if where_user == 'query':
        q.append('username=' + user)
    if where_password == 'query':
        q.append('password=' + password)
    if q:
        text = text + '?' + '&'.join(q)
    if where_user == 'keyword':
        kw['username'] = user
    if where_password == 'keyword':
        kw['password'] = password
    u = URI(text, **kw)
    if where_user == 'nowhere':
        ensure('no user', not u.username)
    else:
        ensure('user reported wherever it was given', u.username == user, u.username)
    if where_password == 'nowhere':
        ensure('no password', not u.password)
    else:
        ensure('password reported wherever it was given', u.password == password, u.password)
    ensure('host', u.hostname == host)


def unit_nested():
    "scheme://((inner))/path"
    URI = repo('').URI
    scheme = scheme_name()
    inner = string('inner', exclude='()\\\n')
    if choose('parentheses inside', False, True):
        inner = inner + '(' + string('inner2', exclude='()\\\n', minlen=1) + ')' + string('inner3', exclude='()\\\n', minlen=1)
    path = '/' + string('path', exclude=PATHX)
    u = URI(scheme + '://((' + inner + '))' + path)
    ensure('inner text unchanged', u.vpath_connector == inner, u.vpath_connector)
    ensure('scheme', u.scheme == scheme)
    ensure('path', u.parse_result.path == path, u.parse_result.path)
    ensure('no user', not u.username and not u.password)
    ensure('no host', not u.hostname)
    ensure('no query', u.query == {})


def unit_fragment():
    "'#' is part of the path unless the scheme is http or https"
    URI = repo('').URI
    scheme = scheme_name()
    host = string('host', exclude=RESERVED, minlen=1)
    assume(host != '.')
    path = '/' + string('path', exclude=PATHX)
    tail = string('tail', exclude='?()\\\n', minlen=1)
    u = URI(scheme + '://' + host + path + '#' + tail)
    if scheme == 'http' or scheme == 'https':
        ensure('fragment of http', u.fragment == tail)
        ensure('path of http ends at the fragment', u.parse_result.path == path)
    else:
        ensure('no fragment', not u.fragment)
        ensure('# stays in the path', u.parse_result.path == path + '#' + tail)
    ensure('host', u.hostname == host)
