"""C06: absolute paths stay absolute and relative paths stay relative"""
from pv import *
from common import *

ASSUMPTIONS = ["texts without '?', '\\\\' and '://'; newlines only where no '#' occurs"]


def unit_absolute():
    URI = repo('').URI
    x = choose('characters', '?\\:\n', '?\\:#')
    first = string('first', exclude=x + '/', notin=('.', '..'))
    text = '/' + first
    if choose('longer', False, True):
        text = text + '/' + string('rest', exclude=x)
    u = URI(text, sep='/')
    ensure('absolute path is the text', u.path == text)
    ensure('absolute', u.is_absolute)
    ensure('scheme', u.scheme == 'file')
    ensure('written out', str(u) == text)


def unit_colon():
    "with a colon, as long as it is not the start of a scheme"
    URI = repo('').URI
    first = string('first', exclude='?\\#/', minlen=2, notin=('.', '..'))
    text = '/' + first
    u = URI(text, sep='/')
    ensure('absolute path with colon is the text', u.path == text)
    ensure('absolute with colon', u.is_absolute)


def unit_relative():
    URI = repo('').URI
    x = choose('characters', '?\\:\n', '?\\:#')
    text = string('text', exclude=x, minlen=1)
    assume(not text.startswith('/'))
    u = URI(text, sep='/')
    p = u.path
    ensure('relative', not u.is_absolute)
    ensure('names the same file', p == text or p == './' + text)
    ensure('text of a relative uri', str(u) == p)


def unit_relative_forms():
    "the spellings that need care"
    URI = repo('').URI
    tail = string('tail', exclude='?\\:\n')
    head = choose('head', './', '../', '.x', '..x', '...', '~', './.', '../.')
    text = head + tail
    u = URI(text, sep='/')
    ensure('relative form', not u.is_absolute)
    ensure('form names the same file', u.path == text or u.path == './' + text)
    for dots in ('.', '..'):
        v = URI(dots, sep='/')
        ensure('dots', (v.path == dots or v.path == './' + dots) and not v.is_absolute)


def unit_memory():
    URI = repo('').URI
    name = string('name', exclude='?\\/\n', minlen=1, notin=('.', '..'))
    u = URI('memory:///' + name)
    ensure('memory path', u.path == '/' + name)
    ensure('memory path is absolute', u.is_absolute)
    v = URI('memory:///') / name
    ensure('below the root', v.path == '/' + name and v.is_absolute)
    w = URI('memory:///').join(name, string('second', exclude='?\\\n'))
    ensure('absolute below the root', w.path.startswith('/' + name + '/') and w.is_absolute)


def unit_derived():
    "joining, going up and copying keep the kind"
    URI = repo('').URI
    absolute = choose('absolute', True, False)
    first = string('first', exclude='?\\:/#()\n', minlen=1, notin=('.', '..'))
    name = string('name', exclude='?\\:/#()\n', minlen=1, notin=('.', '..'))
    u = URI(('/' if absolute else '') + first, sep='/')
    ensure('joined', (u / name).is_absolute == absolute)
    ensure('copied', URI(u).is_absolute == absolute)
    ensure('up again', (u / name).directory().is_absolute == absolute)
    ensure('up', u.directory().is_absolute == absolute)
    ensure('suffix', (u + name).is_absolute == absolute)
    ensure('path of the joined', (u / name).path == ('/' if absolute else './') + first + '/' + name)
