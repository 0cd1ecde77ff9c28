"""zip files: an archive of any entries on a backend that holds one file"""
from pv import *
from common import *

FS = repo('fs')
ZIP = 'disk://host/some.zip'


class Handle:
    "an open file"
    def __init__(self, disk, mode):
        self.disk, self.mode, self.closed = disk, mode, False

    def close(self):
        self.closed = True


class Disk(FS.FileSystem):
    "a backend with one file, the zip file"
    last_used = property(lambda self: 0, lambda self, v: None)

    def __init__(self, there, entries):
        self.there = there
        self.entries = entries          # what is stored
        self.empty = False
        self.handles = []
        self.archives = []
        external('zipfile.ZipFile', self.archive)

    def pre_call_hook(self, path, func):
        pass

    def exists(self, path):
        ensure('the zip file', path == FS.URI(ZIP))
        return self.there

    def isfile(self, path):
        return self.exists(path)

    def isdir(self, path):
        self.exists(path)
        return False

    def open(self, path, options=None, mimetype='application/octet-stream'):
        if not self.exists(path) and options[0] == 'r':
            raise FileNotFoundError(2, 'no such file')
        if options[0] == 'w':
            ensure('no zip file is thrown away', not self.there)
            self.empty = True
        self.there = True
        h = Handle(self, options)
        self.handles = self.handles + [h]
        return h

    def archive(self, handle, mode='r', *a, **k):
        z = Archive(self, handle, mode)
        self.archives = self.archives + [z]
        return z


class Archive:
    "zipfile.ZipFile"
    def __init__(self, disk, handle, mode):
        ensure('an open file of the zip file', handle.disk is disk and not handle.closed)
        ensure('opened as needed', handle.mode == {'r': 'rb', 'w': 'wb', 'a': 'r+b'}[mode])
        if mode == 'w':
            ensure('no archive is thrown away', disk.empty)
            disk.entries = Entries([])
            disk.empty = False
        self.disk, self.handle, self.mode, self.closed = disk, handle, mode, False
        self.entries = disk.entries

    def look(self):
        ensure('not closed', not self.closed and not self.handle.closed)

    def namelist(self):
        return list(self.entries.names())

    def getinfo(self, name):
        self.look()
        return self.entries.content(name)

    def open(self, name, mode='r', *a, **k):
        ensure('opened for reading', mode == 'r')
        return Content(self, self.getinfo(name))

    def read(self, name):
        return self.getinfo(name)

    def writestr(self, name, data, *a, **k):
        if self.mode == 'r':
            raise ValueError("write() requires mode 'w', 'x', or 'a'")
        self.look()
        ensure('written where no other writes', self.entries is self.disk.entries)
        self.entries = self.entries.and_(name, data)
        self.disk.entries = self.entries

    def close(self):
        if not self.closed and self.mode != 'r':
            ensure('completed before the file is closed', not self.handle.closed)
        self.closed = True


class Content:
    "an open entry"
    def __init__(self, archive, data):
        self.archive, self.data = archive, data

    def read(self, size=-1):
        self.archive.look()
        return self.data

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Entries:
    "entries with any names and any content; those added later come last and win"
    def __init__(self, old, contents=None, added=()):
        self.old = old
        self.contents = [] if contents is None else contents        # of the old ones, as far as they are known
        self.added = added

    def names(self):
        return self.old + [name for name, data in self.added]

    def content(self, name):
        found = None
        for n, data in self.added:
            if n == name:
                found = data
        if found is not None:
            return found
        for n, data in self.contents:
            if n == name:
                found = data
        if found is None:
            if all(e != name for e in self.old):
                raise KeyError(name)
            found = fresh_bytes('content')
            self.contents.append((name, found))
        return found

    def and_(self, name, data):
        return Entries(self.old, self.contents, tuple(list(self.added) + [(name, data)]))


class Registry:
    def __init__(self, disk):
        self.disk, self.made = disk, None

    def get_connection(self, scheme='', hostname=None, port=None, username=None, password=None, vpath_connector=None, **extras):
        if scheme == 'disk':
            return self.disk
        ensure('the zip backend', scheme == 'zip' and vpath_connector == ZIP and not extras)
        if self.made is None:
            self.made = Zip(hostname, port, username, password, vpath_connector)
        return self.made


class Zip(repo('zip').ZipFileSystem):
    last_used = property(lambda self: 0, lambda self, v: None)


def uri(path):
    return FS.BaseUri('zip://((' + ZIP + '))' + path)


NAMES = ['a', 'b', 'ab', 'a.x', 'A', '.h', 'b b', 'é', 'abc', '0', 'a-', 'foo', 'foofoo', 'x+y', 'a:b', '100%']


class Zips:
    "concrete runs: a zip file on one of the backends, or none"
    def __init__(self, least=0, directories=False):
        import io
        import tempfile
        import zipfile
        self.fs = FS
        FS.CONNECTION_REGISTRY.cleanup(force=True)
        self.temp = None
        if choose('backend', 'memory', 'local') == 'local':
            self.temp = tempfile.mkdtemp(prefix='zip')
            self.text = 'file://' + self.temp + '/' + choose('name', 'some.zip', 'so me.zip', 'é')
        else:
            self.text = 'memory:///' + choose('name', 'some.zip', 'so me.zip', 'é')
        self.file = FS.URI(self.text)
        self.entries = {}
        self.n = 0
        if choose('zip file', 'there', 'there', 'missing') == 'there':
            for i in range(max(least, choose('entries', 0, 1, 2, 3, 5, 8))):
                name = self.name()
                if directories and choose('entry of a directory %d' % i, False, False, False, True):
                    self.entries[name + '/'] = b''
                else:
                    self.entries[name] = self.content()
            data = io.BytesIO()
            with zipfile.ZipFile(data, 'w') as z:
                for name, content in self.entries.items():
                    z.writestr(name, content)
            with self.file.open('wb') as f:
                f.write(data.getvalue())

    def name(self, taken=None):
        self.n += 1
        for i in range(50):
            parts = [choose('part %d %d %d' % (self.n, i, j), *NAMES)
                     for j in range(choose('depth %d %d' % (self.n, i), 1, 1, 2, 3, 4))]
            name = '/' + '/'.join(parts)
            if name not in self.entries or taken is True:
                # no name is a file and a directory at once
                if not any((e + '/').startswith(name + '/') or (name + '/').startswith(e.rstrip('/') + '/') for e in self.entries if e != name):
                    return name
        return '/unlike%d/others' % self.n

    def content(self):
        self.n += 1
        return choose('content %d' % self.n, b'', b'x', b' x \n', b'a\r\n\x00\xff', b'y' * 70000, 'é'.encode())

    def uri(self, path):
        return FS.URI('zip://((' + self.text + '))' + path)

    def fresh(self):
        "a new connection"
        FS.CONNECTION_REGISTRY.connections = {k: v for k, v in FS.CONNECTION_REGISTRY.connections.items() if k[0] != 'zip'}

    def __enter__(self):
        return self

    def __exit__(self, *a):
        import shutil
        FS.CONNECTION_REGISTRY.cleanup(force=True)
        if self.temp:
            shutil.rmtree(self.temp, ignore_errors=True)
