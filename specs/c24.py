"""C24: a zip entry written is the entry read, and the others survive"""
from pv import *
from common import *
from ziplib import Disk, Entries, Registry, uri, Zips
from memlib import Bytes

TRUSTED = ['zipfile.ZipFile: entries written are stored when it is closed, those in a file opened with "a" are kept, the last one of a name counts',
           'io.BytesIO: getvalue is what has been written']
ASSUMPTIONS = ['entry names are absolute and normalised', 'a handle is used before the next operation on the same zip file',
               'nobody else changes the zip file while it is open']
NATIVE_RUNS = 1200


def start(*connection):
    "a zip file with any entries, or none; a connection that is new, has been used for reading or for writing"
    external('io.BytesIO', lambda data=b'': Bytes(data))
    entries = strings('entries', minlen=2, distinct=True)
    there = choose('there is a zip file', True, False)
    disk = Disk(there, Entries(entries if there else []))
    repo('fs').CONNECTION_REGISTRY = Registry(disk)
    used = choose('the connection', *(connection or ('is new', 'has been used for reading', 'has been used for writing')))
    if used == 'has been used for reading':
        outcome(uri('/some').open)
    if used == 'has been used for writing':
        with uri('/some').open('wb') as f:
            f.write(fresh_bytes('some'))
    return disk


def name(what):
    return '/' + string(what, exclude=RESERVED + '.', minlen=1)


def before(disk, path):
    "content of an entry; None if there is no such"
    try:
        return disk.entries.content(path)
    except KeyError:
        return None


def completed(disk):
    "what later queries and operations of the connection start from"
    last = disk.archives[-1]
    ensure('no archive stays open for writing', last.closed or last.mode == 'r')
    ensure('the last archive has all entries', same(last.entries, disk.entries))
    ensure('all others are closed', all(z.closed for z in disk.archives[:-1]))
    ensure('and their files', all(h.closed == last.closed if h is last.handle else h.closed for h in disk.handles))


def read(path, options='rb'):
    with uri(path).open(options) as f:
        return f.read()


def written(disk, between, options):
    path, other = name('path'), name('other')
    assume(path != other)
    was = before(disk, other)
    a, b = fresh_bytes('first'), fresh_bytes('second')
    more = fresh_bytes('more')
    with uri(path).open(options) as f:
        f.write(a)
        if between == 'another is read':
            outcome(read, other)
        if between == 'a query':
            uri(other).exists()
        if between == 'another is written':
            with uri(other).open('wb') as g:
                g.write(more)
            was = more
        f.write(b)
        if between == 'going back':
            f.seek(0)
    completed(disk)
    if choose('then', 'used on', 'a new connection') == 'a new connection':
        repo('fs').CONNECTION_REGISTRY.made = None
    ask = choose('ask', 'the entry', 'whether it is there', 'the other')
    if ask == 'the entry':
        ensure('what was written', outcome(read, path) == ('return', a + b))
    elif ask == 'whether it is there':
        ensure('there at once', uri(path).isfile())
    else:
        r = outcome(read, other)
        if was is None:
            ensure('still missing', r[0] == 'raise')
        else:
            ensure('the other entry unchanged', r == ('return', was))


def proof_write():
    "what is written is read; another entry stays what it was"
    written(start(), 'nothing', choose('written as', 'wb', 'w'))


def proof_write_between():
    "the same when the zip file is used for something else in between"
    disk = start('is new')
    written(disk, choose('in between', 'another is read', 'a query', 'another is written'), 'wb')


def proof_write_back():
    "the position in the entry does not matter when the block ends"
    written(start('is new'), 'going back', 'wb')


def proof_failing_block():
    "an exception in the block is not swallowed; other entries stay what they were"
    disk = start()
    path, other = name('path'), name('other')
    assume(path != other)
    was = before(disk, other)
    e = choose('exception', ValueError('x'), KeyboardInterrupt())

    def work():
        with uri(path).open('wb') as f:
            raise e
    r = outcome(work)
    ensure('not swallowed', r[0] == 'raise' and same(r[1], e))
    completed(disk)
    r = outcome(read, other)
    ensure('the other entry unchanged', r == ('return', was) if was is not None else r[0] == 'raise')


def proof_read():
    "the content, or the does-not-exist error; nothing is changed"
    disk = start()
    path = name('path')
    was = before(disk, path)
    entries, there = disk.entries, disk.there
    r = outcome(read, path, choose('options', 'rb', 'r', None))
    if was is not None:
        ensure('the content', r == ('return', was))
    else:
        ensure('fails', r[0] == 'raise')
        if there:
            ensure('does not exist', isinstance(r[1], repo('exceptions').FileDoesNotExistError))
    ensure('nothing changed', same(disk.entries, entries) and disk.there == there)
    if there:
        completed(disk)


def stored(t):
    "what the zip file holds, looked at by another program"
    import io
    import zipfile
    with t.file.open('rb') as f:
        z = zipfile.ZipFile(io.BytesIO(f.read()))
    return z.testzip() is None and {n: z.read(n) for n in z.namelist()}


def native_histories():
    "any sequence of writes, reads and queries, also nested, on new and on used connections"
    with Zips() as t:
        for i in range(choose('steps', 1, 2, 3, 5, 8)):
            if choose('connection %d' % i, 'used', 'new') == 'new':
                t.fresh()
            step = choose('step %d' % i, 'write', 'write', 'overwrite', 'nested', 'failing', 'missing')
            if step in ('write', 'overwrite', 'nested', 'failing'):
                path = t.name()
                if step == 'overwrite' and t.entries:
                    path = sorted(t.entries)[choose('which %d' % i, *range(8)) % len(t.entries)]
                data = t.content()
                parts = [data[:len(data) // 2], data[len(data) // 2:]]

                def work():
                    with t.uri(path).open(choose('options %d' % i, 'wb', 'w')) as f:
                        f.write(parts[0])
                        t.entries[path] = data
                        if step == 'nested':
                            inner = choose('inner %d' % i, 'read', 'write', 'query')
                            if inner == 'write':
                                other = t.name()
                                with t.uri(other).open('wb') as g:
                                    g.write(b'inner')
                                t.entries[other] = b'inner'
                            elif inner == 'read':
                                outcome(lambda: t.uri('/nothing/there').open('rb'))
                            else:
                                t.uri('/nothing').exists()
                        f.write(parts[1])
                        if choose('back %d' % i, False, False, True):
                            f.seek(choose('to %d' % i, 0, 1, len(data)))
                        if step == 'failing':
                            raise EOFError('in block')
                r = outcome(work)
                if step == 'failing':
                    ensure('not swallowed', r[0] == 'raise' and isinstance(r[1], EOFError))
                    t.entries = stored(t)
                else:
                    ensure('written', r[0] == 'return', r)
                    ensure('there at once', t.uri(path).isfile())
                if choose('stored %d' % i, True, False):
                    ensure('stored completely', stored(t) == t.entries)
            elif step == 'missing' and t.file.exists():
                path = t.name(True) + 'x/none'
                r = outcome(t.uri(path).open, 'rb')
                ensure('does not exist', r[0] == 'raise' and isinstance(r[1], repo('exceptions').FileDoesNotExistError), r)
            for path in sorted(t.entries) if choose('read %d' % i, 'all', 'none') == 'all' else []:
                with t.uri(path).open('rb') as f:
                    ensure('every entry has its content', f.read() == t.entries[path], path)
        if choose('at last', 'same connection', 'new connection') == 'new connection':
            t.fresh()
        if t.entries:
            ensure('a sound zip file', stored(t) == t.entries)
