"""C05: Windows separators and drives convert without loss"""
from pv import *
from common import *

LETTERS = LOWER + 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
X = '/?#:()\n'


def tail(name):
    "any text, as its parts between backslashes: (as given, with forward slashes)"
    parts = strings(name, exclude=X + '\\', least=1)
    return '\\'.join(parts), '/'.join(parts)


def drive_path():
    "(text as given, internal form)"
    letter = string('letter', only=LETTERS, minlen=1, char=True)
    text, inner = tail('rest')
    return letter + ':\\' + text, '/' + letter + '/' + inner


def unit_drive():
    URI = repo('').URI
    text, inner = drive_path()
    u = URI(text, sep='\\')
    ensure('path is the text given', u.path == text)
    ensure('internal form', u.unipath == inner)
    ensure('uri', u.uri == 'file://' + inner)
    ensure('text of the uri', str(u) == text)
    ensure('no backslash inside', '\\' not in u.uri and '\\' not in u.unipath)
    ensure('absolute', u.is_absolute)
    v = URI(u)
    ensure('copy keeps the convention', v.path == text and v.sep == '\\')
    ensure('separator', u.sep == '\\')


def unit_rooted():
    "paths below the root without drive"
    URI = repo('').URI
    first = string('first', exclude=X + '\\', minlen=2)
    rest, inner = tail('rest')
    text = '\\' + first + '\\' + rest
    u = URI(text, sep='\\')
    ensure('rooted path is the text given', u.path == text)
    ensure('rooted internal form', u.unipath == '/' + first + '/' + inner)


def unit_relative():
    URI = repo('').URI
    first = string('first', exclude=X + '\\', minlen=1, notin=('.', '..'))
    rest, inner = tail('rest')
    text = first + '\\' + rest
    u = URI(text, sep='\\')
    ensure('relative path is the text given', u.path == '.\\' + text)
    ensure('relative internal form', u.unipath == './' + first + '/' + inner)
    ensure('relative', not u.is_absolute)


def unit_forward():
    fs = repo('fs')
    text = string('text')
    ensure('forward slashes need no conversion', fs.normalize_uri(text, '/') == text)
    ensure('forward slash is the default', fs.normalize_uri(text) == text)


def unit_forward_uri():
    URI = repo('').URI
    text = '/' + string('text', exclude='?#()\\\n:')
    sep = choose('sep', '/', '\\')
    u = URI(text, sep=sep)
    ensure('internal form is the text given', u.unipath == text)


def native_text():
    "the same for texts drawn as a whole"
    URI = repo('').URI
    letter = string('letter', only=LETTERS, minlen=1, char=True)
    text = letter + ':\\' + string('rest', exclude=X)
    u = URI(text, sep='\\')
    ensure('path is the text given', u.path == text)
    ensure('internal form', u.unipath == '/' + letter + text[2:].replace('\\', '/'))


def unit_functions():
    fs = repo('fs')
    text, inner = drive_path()
    ensure('normalize', fs.normalize_uri(text, '\\') == inner)
    ensure('denormalize', fs.denormalize_path(inner) == text)
    ensure('denormalize with separator', fs.denormalize_path(inner, '\\') == text)


def unit_join():
    URI = repo('').URI
    text, inner = drive_path()
    last = string('last', exclude=X + '\\', minlen=1)
    text, inner = text + '\\' + last, inner + '/' + last
    u = URI(text, sep='\\')
    a1, a2 = string('a1', exclude=X + '\\', minlen=1), string('a2', exclude=X + '\\', minlen=1)
    b, binner = tail('b')
    j = u / b
    ensure('joined path', j.path == text + '\\' + b)
    ensure('joined separator', j.sep == '\\')
    ensure('joined form', j.unipath == inner + '/' + binner)
    j = u.join('\\' + a1 + '\\' + a2 + '\\', b)
    ensure('two joined', j.path == text + '\\' + a1 + '\\' + a2 + '\\' + b)
    ensure('two joined, internal form', j.unipath == inner + '/' + a1 + '/' + a2 + '/' + binner)


def unit_split():
    URI = repo('').URI
    text, inner = drive_path()
    last = string('last', exclude=X + '\\', minlen=1)
    text = text + '\\' + last
    name = string('name', exclude=X + '\\', minlen=1)
    u = URI(text + '\\' + name, sep='\\')
    first, second = u.split()
    ensure('name', second == name)
    ensure('directory', first.path == text)
    ensure('separator kept', first.sep == '\\')
    ensure('basename', u.basename() == name and u.last() == name)


def unit_suffix():
    URI = repo('').URI
    text, inner = drive_path()
    u = URI(text, sep='\\')
    s, inner_s = tail('suffix')
    v = u + s
    ensure('suffix appended', v.path == text + s)
    ensure('suffix keeps the separator', v.sep == '\\')
