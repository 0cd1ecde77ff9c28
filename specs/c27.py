"""C27: the md5 of a path is the md5 of its whole content"""
from pv import *
from common import *
from oslib import LocalRegistry

TRUSTED = ['hashlib.md5: the digest of the concatenation of what it was updated with']
ASSUMPTIONS = ['reading a file opened for binary reading returns its content in consecutive blocks, each not empty '
               'and of any length, and the empty block at the end and only there',
               'nobody writes to the file meanwhile']


class File:
    "delivers the content in an unknown number of blocks of unknown length"
    def __init__(self, backend, blocks):
        self.backend = backend
        self.remaining = blocks
        self.delivered = b''
        self.last = None
        self.at_end = False
        self.opened = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.opened = False

    def read(self, size=-1):
        ensure('reads an open file', self.opened)
        if size is None or size < 0:
            block = fresh_bytes('rest')
            self.remaining = 0
        elif self.remaining == 0:
            block = b''
        else:
            block = fresh_bytes('block', 1)
            self.remaining = self.remaining - 1
        if self.remaining == 0 and len(block) == 0:
            self.at_end = True
        if size is None or size < 0:
            self.at_end = True
        self.delivered = self.delivered + block
        self.last = block
        return block


class Backend(repo('fs').FileSystem):
    last_used = property(lambda self: 0, lambda self, v: None)

    def __init__(self, uri):
        self.uri = uri
        self.file = File(self, integer('blocks', 0, None if SYMBOLIC else 6))

    def pre_call_hook(self, path, func):
        pass

    def open(self, path, options, mimetype='application/octet-stream'):
        ensure('opens the path', path == self.uri)
        ensure('opened for binary reading', options in ('rb', 'br'))
        emit('open')
        return self.file


class Hash:
    def __init__(self, digested=b''):
        self.digested = b'' + digested
        self.result = opaque('digest')
        self.digest_of = None

    def update(self, block):
        self.digested = self.digested + block

    def hexdigest(self):
        self.digest_of = self.digested
        return self.result


def unit_md5():
    "for every content, every number and every length of blocks"
    fs = repo('fs')
    u = fs.BaseUri('sch://host/path')
    b = Backend(u)
    f = b.file
    made = []

    def new_hash(data=b'', usedforsecurity=True):
        made.append(Hash(data))
        return made[-1]
    external('hashlib.md5', new_hash)

    def reading(L):
        "what was read is digested, except for a block read ahead"
        h = made[-1]
        ahead = L.holder('block read ahead', f.last)
        if L.mode == 'assume':
            h.digested = fresh_bytes('digested')
            f.remaining = fresh_int('remaining', 0)
            if ahead:
                if f.remaining == 0 and pick(True, False):
                    f.last, f.at_end = b'', True
                else:
                    f.last, f.at_end = fresh_bytes('block', 1), False
                L.var('block read ahead', f.last)
                f.delivered = h.digested + f.last
            else:
                f.delivered, f.at_end, f.last = h.digested, False, None
        elif ahead:
            L.var('block read ahead', f.last)
            L.check('digested all but the block read ahead', f.delivered == h.digested + f.last)
            L.check('nothing ahead at the end only', f.at_end == (len(f.last) == 0))
        else:
            L.check('digested all', f.delivered == h.digested)
            L.check('goes on until the end', not f.at_end)
        L.measure(f.remaining + (1 if ahead and len(f.last) > 0 else 0))
    invariant('*', 0, reading)
    keep = fs.CONNECTION_REGISTRY
    fs.CONNECTION_REGISTRY = LocalRegistry(sch=b)
    try:
        r = u.md5()
    finally:
        fs.CONNECTION_REGISTRY = keep
    ensure('one hash', len(made) == 1)
    h = made[0]
    ensure('read to the end', f.at_end)
    ensure('digest of the whole content', h.digest_of == f.delivered)
    ensure('result is the digest', same(r, h.result))
    ensure('opened once', trace() == [('open',)])


def native_files():
    "real files of the backends, around the block size and beyond"
    import hashlib
    import os
    import shutil
    import tempfile
    fs = repo('fs')
    top = tempfile.mkdtemp(prefix='c27')
    try:
        where = choose('backend', 'memory', 'local', 'zip')
        n = choose('size', 0, 1, 4095, 4096, 4097, 8191, 8192, 8193, 3 * 4096, 1000000)
        data = bytes(S_byte(i) for i in range(min(n, 5000))) * (n // 5000 + 1)
        data = (data + content('tail'))[:n] if n else b''
        if where == 'memory':
            fs.CONNECTION_REGISTRY.cleanup(force=True)
            u = fs.URI('memory:///file')
        elif where == 'local':
            u = fs.URI(os.path.join(top, 'file'))
        else:
            u = fs.URI('zip://((%s))/file' % os.path.join(top, 'x.zip'))
        with u.open('wb') as out:
            out.write(data)
        ensure('md5 of the content', u.md5() == hashlib.md5(data).hexdigest())
        with u.open('rb') as inf:
            ensure('file unchanged', inf.read() == data)
    finally:
        shutil.rmtree(top)


def S_byte(i):
    return (i * 7 + i // 256) % 256
