"""vocabulary shared by the specifications"""
from pv import *

# characters with a meaning of their own in a URI text, and what never occurs in one
RESERVED = '/?#@:&=()\\\n'
WHITE = ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000'
LOWER = 'abcdefghijklmnopqrstuvwxyz'
DIGITS = '0123456789'


def scheme_name(name='scheme'):
    "any scheme that is not the local file system's"
    s = string(name, only=LOWER + '+-', minlen=2)
    assume(s != 'file')
    return s


def optional(name, value):
    return value if choose(name, True, False) else None


def authority_of(user, password, host, port):
    text = ''
    if user is not None:
        text = user
    if password is not None:
        text = text + ':' + password
    if user is not None or password is not None:
        text = text + '@'
    text = text + host
    if port is not None:
        text = text + ':' + str(port)
    return text


def credentials():
    user = password = None
    given = choose('credentials', 'user and password', 'user', 'none', 'password')
    if 'user' in given:
        user = string('user', exclude=RESERVED, minlen=1)
    if 'password' in given:
        password = string('password', exclude=RESERVED, minlen=1)
    return user, password


def port_number():
    return integer('port', 1, 65535) if choose('port given', True, False) else None
