"""C23: a zip file is presented as the tree its entry names describe"""
from pv import *
from common import *
from ziplib import Disk, Entries, Registry, uri, Zips
from memlib import Bytes

TRUSTED = ['zipfile.ZipFile: namelist gives the names of all entries', 'sorted: an ordered permutation of its argument']
ASSUMPTIONS = ['entry names are absolute, paths absolute and normalised']


def names(name, least=0):
    return strings(name, exclude='/', minlen=1, least=least)


def text(parts):
    return '/' + '/'.join(parts)


def two():
    """any two lists of components, with at least one each: they have some in common; after these
    one, both or none of them ends, or they differ"""
    common = names('common')
    how = choose('after these', 'both end', 'the first ends', 'the second ends', 'they differ')
    a, b = list(common), list(common)
    if how in ('the second ends', 'they differ'):
        a = a + [string('next of the first', exclude='/', minlen=1)] + names('rest of the first')
    if how in ('the first ends', 'they differ'):
        b = b + [string('next of the second', exclude='/', minlen=1)] + names('rest of the second')
    if how == 'they differ':
        assume(a[len(common)] != b[len(common)])
    return how, common, a, b


def unit_compare():
    "a path and an entry: the entry itself, an ancestor of it, or neither"
    z = repo('zip')
    how, common, a, b = two()
    assume(len(a) > 0 and len(b) > 0)
    entry = text(b)
    if choose('entry of a directory', False, True):
        # such a name has an empty component at its end
        entry = entry + '/'
        how = {'both end': 'the first ends', 'the first ends': 'the first ends'}.get(how, how)
    r = z.compare_path_strings(text(a), entry)
    if how == 'both end':
        ensure('the entry', r == z.ISFILE)
    elif how == 'the first ends':
        ensure('an ancestor', r == z.ISDIR)
    else:
        ensure('neither', r not in (z.ISFILE, z.ISDIR))


def unit_component():
    "the next component of an entry below a directory"
    z = repo('zip')
    how, common, a, b = two()
    assume(len(b) > 0)
    r = z.content_item(text(a), text(b) + ('/' if choose('entry of a directory', False, True) else ''))
    if how == 'the first ends':
        ensure('the next component', r == b[len(common)])
    else:
        ensure('nothing', not r)


def unit_component_of_root():
    "the first component of an entry"
    b = names('entry', 1)
    r = repo('zip').content_item('/', text(b) + ('/' if choose('entry of a directory', False, True) else ''))
    ensure('the first component', r == b[0])


def under(path, entry):
    return predicate('is an ancestor', path, entry)


def next_of(path, entry):
    return text_of('next component', path, entry, exclude='/', minlen=1)


def contracts():
    "what unit_compare and unit_component prove"
    z = repo('zip')

    def compare(path, entry, sep='/'):
        ensure('compared with a path below the root', path != '/')
        return z.ISFILE if path == entry else z.ISDIR if under(path, entry) else 0
    contract('compare_path_strings', compare)
    contract('content_item',
             lambda path, entry, sep='/': next_of(path, entry) if path == '/' or under(path, entry) else '')


def start():
    "a zip file with any entries, or none; a connection that is new or has been used"
    entries = strings('entries', minlen=2, distinct=True)
    there = choose('there is a zip file', True, False)
    disk = Disk(there, Entries(entries) if there else None)
    if not there:
        entries = []
    repo('fs').CONNECTION_REGISTRY = Registry(disk)
    used = choose('the connection', 'is new', 'has been used', 'has been used for listing and writing')
    if used == 'has been used':
        outcome(uri('/some').open)
    elif used != 'is new':
        external('io.BytesIO', lambda data=b'': Bytes(data))
        outcome(uri('/').listdir)
        new = '/' + string('new', exclude=RESERVED + '.', minlen=1)
        with uri(new).open('wb') as f:
            f.write(b'new')
        entries = list(entries) + [new]
    path = '/' + string('path', exclude=RESERVED + '.', minlen=1) if choose('the path', 'is not the root', 'is the root') == 'is not the root' else '/'
    return disk, entries, uri(path), path


def proof_kind():
    "file: named by an entry; directory: the root or an ancestor of an entry"
    contracts()
    disk, entries, u, path = start()
    ask = choose('ask', 'isfile', 'isdir', 'exists')
    r = outcome(getattr(u, ask))
    ensure('no failure', r[0] == 'return')
    answer = r[1]
    if path == '/':
        ensure('the root is a directory', answer == (ask != 'isfile'))
        return
    if ask == 'isfile':
        want = any(path == e for e in entries)
    elif ask == 'isdir':
        want = any(path != e and under(path, e) for e in entries)
    else:
        want = any(path == e or under(path, e) for e in entries)
    ensure('as the entries say', answer == want)


def proof_listing():
    "each next component once, in order"
    contracts()
    disk, entries, u, path = start()
    r = outcome(u.listdir)
    if path == '/':
        want = {next_of(path, e) for e in entries}
    elif not disk.there:
        want = []
    elif any(path != e and under(path, e) for e in entries):
        want = {next_of(path, e) for e in entries if under(path, e)}
    else:
        ensure('no directory', r[0] == 'raise')
        return
    ensure('next components', r[0] == 'return' and r[1] == sorted(want))


def native_tree():
    "zip files with any entries: all paths that could be confused, on new and on used connections"
    with Zips(directories=True) as t:
        if t.file.exists() and choose('used', False, True):
            outcome(t.uri('/some').open)
        paths = ['/']
        for e in sorted(t.entries):
            parts = e.rstrip('/').split('/')[1:]
            for i in range(1, len(parts) + 1):
                p = '/' + '/'.join(parts[:i])
                paths += [p, p + 'x', p[:-1] if len(p) > 2 and p[-2] != '/' else p, p + '/a', '/' + parts[i - 1], p + '/' + parts[i - 1]]
        paths += [t.name()]
        for i in range(8):
            if choose('write %d' % i, False, False, False, True):
                new = t.name()
                with t.uri(new).open('wb') as f:
                    f.write(b'new')
                t.entries[new] = b'new'
                paths += [new, new.rpartition('/')[0] or '/', '/']
            path = paths[choose('path %d' % i, *range(len(paths)))]
            if choose('connection %d' % i, 'used', 'new') == 'new':
                t.fresh()
            u = t.uri(path)
            isfile = path in t.entries
            tails = [e[len(path.rstrip('/')):] for e in t.entries if e.startswith(path.rstrip('/') + '/')]
            below = {x.split('/')[1] for x in tails} - {''}
            isdir = path == '/' or len(tails) > 0
            for j in range(2):
                ask = choose('ask %d %d' % (i, j), 'isfile', 'isdir', 'exists', 'listdir')
                if ask == 'listdir':
                    r = outcome(u.listdir)
                    if not t.file.exists() or isdir:
                        ensure('next components', r == ('return', sorted(below)), (path, list(t.entries), r))
                    else:
                        ensure('no directory', r[0] == 'raise', (path, list(t.entries), r))
                else:
                    want = {'isfile': isfile, 'isdir': isdir, 'exists': isfile or isdir}[ask]
                    ensure('as the entries say', outcome(getattr(u, ask)) == ('return', want), (path, list(t.entries)))
