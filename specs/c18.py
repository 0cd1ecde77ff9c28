"""C18: copying reproduces the source and leaves it alone"""
from pv import *
from common import *
from oslib import LocalRegistry
from treelib import Trees, snapshot, build, copied, incomplete, target_in

TRUSTED = ['shutil.copyfileobj: writes what it reads from the first file to the second, until there is nothing more']
ASSUMPTIONS = ['walking top-down yields every directory with its exact contents, and enters the directories that are left in the list (C20)',
               'makedirs makes the directory with its ancestors (C21); open, symlink, readlink, copystat of a backend (C11, C13, C14, C15, C25)',
               'source and target are disjoint, the target is fresh; nobody else changes the trees meanwhile']

NAME = '/?#\\:()\n'


class Handle:
    def __init__(self, path, mode):
        self.path, self.mode, self.open = path, mode, True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.open = False


class Side(repo('fs').FileSystem):
    """a backend with the source, with the target, or with both: predicates answer for the entries
    of the source, nothing is there at the target; what is done is recorded"""
    last_used = property(lambda self: 0, lambda self, v: None)

    def __init__(self, scheme, job):
        self.scheme, self.job = scheme, job

    def pre_call_hook(self, path, func):
        pass

    def side(self, path):
        "is the path the source (or below it): the other ones are the target"
        return self.job.is_source(path)

    def exists(self, path):
        return self.job.ask('exists', path)

    def isdir(self, path):
        return self.job.ask('isdir', path)

    def isfile(self, path):
        return self.job.ask('isfile', path)

    def islink(self, path):
        return self.job.ask('islink', path)

    def open(self, path, options, mimetype=None):
        if options == 'rb':
            ensure('reads the backend of the source', self is self.job.source.home)
        else:
            ensure('reads or writes', options == 'wb')
            ensure('writes into the backend of the target', self is self.job.dest.home)
        return Handle(path.path, options)

    def makedirs(self, path):
        ensure('directories in the backend of the target', self is self.job.dest.home)
        self.job.act('directories', path.path)
        return path

    def mkdir(self, path):
        ensure('makes the directories with their ancestors', False)

    def readlink(self, path):
        ensure('asks the backend of the source', self is self.job.source.home)
        return self.job.fs.BaseUri(self.scheme + '://host/->' + path.path)

    def symlink(self, target, path):
        ensure('links in the backend of the target', self is self.job.dest.home)
        self.job.act('links', target.path, path.path)

    def copystat(self, source, dest):
        ensure('one backend', self.job.source.home is self.job.dest.home and self is self.job.dest.home)
        self.job.act('stats', source.path, dest.path)

    def removefile(self, path):
        ensure('takes away in the backend of the target', self is self.job.dest.home)
        self.job.act('removed', path.path)

    def removedir(self, path):
        ensure('removes no directory', False)

    def walk(self, path, topdown=True, followlinks=True):
        return self.job.walk(path, topdown, followlinks)


class Place:
    def __init__(self, uri, home):
        self.uri, self.home = uri, home


class Job:
    def __init__(self, same):
        self.fs = repo('fs')
        a = Side('sch', self)
        self.same = same
        b = a if self.same else Side('dst', self)
        self.fs.CONNECTION_REGISTRY = LocalRegistry(sch=a, dst=b)
        path = '/S ' + string('source', exclude=NAME + '.', minlen=1)
        # which directories of the walk are looked at: the source itself, those in it, deeper ones
        self.which, above, end = choose('looked at', ('source', '', ''), ('source', '/x y', '/'), ('in it', '', '/'),
                                        ('in it', '', '//'), ('deeper', '/x y', ''))
        path = above + path
        self.source_path = path
        source = self.fs.BaseUri('sch://host' + path + end)
        dest = self.fs.BaseUri(b.scheme + '://host/T/' + string('target', exclude=NAME + '.', minlen=1))
        for u in (source, dest):
            u.path, u.scheme
        self.source, self.dest = Place(source, a), Place(dest, b)
        self.top = {'exists': True, 'isdir': True, 'isfile': False, 'islink': False}
        self.target = {'exists': False, 'isdir': False, 'isfile': False, 'islink': False}
        self.directories = []
        self.walked = 0
        self.flags = None
        self.started = False
        self.calls = []
        channels('directories', 'links', 'stats', 'removed', 'files')
        external('shutil.copyfileobj', self.copyfileobj)

    def act(self, kind, *what):
        emit_to(kind, *what)

    def copyfileobj(self, infs, outfs, length=0):
        ensure('from a file being read to a file being written',
               infs.mode == 'rb' and outfs.mode == 'wb' and infs.open and outfs.open)
        self.act('files', infs.path, outfs.path)

    def ask(self, what, path):
        p = path.path
        if p in (self.source_path, self.source_path + '/', self.source_path + '//'):
            return self.top[what]
        if p.startswith('/T/'):
            return self.target[what] if p == self.dest.uri.path else False
        return predicate(what, p)

    def walk(self, path, topdown, followlinks):
        ensure('walks the source', path == self.source.uri)
        ensure('a directory before its contents', topdown)
        ensure('the target is there before its contents', self.made())
        self.walked = self.walked + 1
        self.flags = followlinks
        return visits(self.directories, self.enter, self.leave)

    def made(self):
        return len(events('directories')) == 1


class Tree(Job):
    "copying a directory"
    def __init__(self, same, followlinks, into):
        Job.__init__(self, same)
        self.directories = objects('directory', self.directory_below)
        self.ignore = choose('ignore', None, strings('ignored', exclude=NAME, minlen=1))
        self.ignored = [] if self.ignore is None else self.ignore
        self.followlinks = followlinks
        if into:
            self.target['exists'] = self.target['isdir'] = True
            self.root = self.dest.uri / self.source_path.split('/')[-1]
        else:
            self.root = self.dest.uri
        self.root.path, self.root.scheme

    def directory_below(self, name):
        "one directory of the walk: where it is, the names of the directories and of the others in it"
        rel = string(name + ' rel', exclude=NAME, minlen=1)
        if self.which == 'source':
            rel = ''
        if self.which == 'deeper':
            rel = rel + string(name + ' more', exclude='?#\\:()\n') + string(name + ' last', exclude=NAME, minlen=1)
        return (rel,
                strings(name + ' dirs', exclude=NAME, minlen=1, distinct=True),
                strings(name + ' files', exclude=NAME, minlen=1, distinct=True))

    def below(self, uri, rel):
        return uri if self.which == 'source' else uri / rel

    def enter(self, e):
        rel, dirs, files = e
        return (self.below(self.source.uri, rel), list(dirs), list(files))

    def leave(self, e, visit):
        rel, dirs, files = e
        ensure('exactly the ignored ones are not entered', visit[1] == [d for d in dirs if d not in self.ignored])

    def run(self):
        s = self.source.uri
        return outcome(s.copy, self.dest.uri, recursive=True, ignore=self.ignore, followlinks=self.followlinks)


def tree(same, followlinks, into):
    t = Tree(same, followlinks, into)
    r = t.run()
    ensure('no failure', r[0] == 'return', r)
    ensure('one walk', t.walked == 1 and t.flags == t.followlinks)
    directories, links, files = [(t.root.path,)], [], []
    for rel, dirs, others in t.directories:
        here, there = t.below(t.source.uri, rel), t.below(t.root, rel)
        for name in dirs:
            if name not in t.ignored:
                if not t.followlinks and predicate('islink', (here / name).path):
                    links.append(('/->' + (here / name).path, (there / name).path))
                else:
                    directories.append(((there / name).path,))
        for name in others:
            if not t.followlinks and predicate('islink', (here / name).path):
                links.append(('/->' + (here / name).path, (there / name).path))
            else:
                files.append(((here / name).path, (there / name).path))
    what = choose('compared', 'directories', 'links', 'files', 'stats', 'removed')
    if what == 'directories':
        ensure('directories', same_events(events('directories'), directories))
    elif what == 'links':
        ensure('links', same_events(events('links'), links))
    elif what == 'files':
        ensure('files', same_events(events('files'), files))
    elif what == 'removed':
        ensure('nothing taken away', same_events(events('removed'), []))
    elif same:
        ensure('the metadata of the files', same_events(events('stats'), files))
    else:
        ensure('no metadata', same_events(events('stats'), []))


def top(kind, link):
    t = Job(choose('same backend', True, False))
    t.top = {'exists': kind != 'nothing', 'isdir': kind == 'directory', 'isfile': kind == 'file', 'islink': link}
    t.target = choose('target is', {'exists': False, 'isdir': False, 'isfile': False, 'islink': False},
                      {'exists': True, 'isdir': True, 'isfile': False, 'islink': False},
                      {'exists': True, 'isdir': False, 'isfile': True, 'islink': False})
    t.root = t.dest.uri
    if t.target['isdir']:
        t.root = t.root / t.source_path.split('/')[-1]
    return t


def done():
    return [events('directories'), events('links'), events('stats'), events('removed'), events('files')]


def proof_file():
    t = top('file', choose('via a link', False, True))
    if choose('defaults', False, True):
        r = outcome(t.source.uri.copy, t.dest.uri)
    else:
        r = outcome(t.source.uri.copy, t.dest.uri, recursive=False, ignore=choose('ignore', None, ['x']), followlinks=True)
    ensure('no failure', r[0] == 'return', r)
    pair = (t.source.uri.path, t.root.path)
    ensure('exactly that file', done() == [[], [], [pair] if t.same else [], [], [pair]], done())


def proof_link():
    "a link as a link: as itself, or as the entry of the same name in a directory"
    kind = choose('leads to', 'file', 'directory')
    t = top(kind, True)
    recursive = kind == 'directory'
    if recursive:
        assume(not t.target['isfile'])
    r = outcome(t.source.uri.copy, t.dest.uri, recursive=recursive, followlinks=False)
    ensure('no failure', r[0] == 'return', r)
    taken = [(t.root.path,)] if t.target['isfile'] else []
    ensure('exactly that link', done() == [[], [('/->' + t.source.uri.path, t.root.path)], [], taken, []], done())
    ensure('not walked', t.walked == 0)


def proof_refused():
    "nothing is written if the source is missing, or is of the wrong kind"
    kind = choose('source is', 'nothing', 'directory', 'file')
    t = top(kind, False)
    recursive = choose('recursive', False, True) if kind == 'nothing' else kind == 'file'
    r = outcome(t.source.uri.copy, t.dest.uri, recursive=recursive, followlinks=choose('followlinks', False, True))
    ensure('refused', r[0] == 'raise', r)
    if kind == 'nothing':
        ensure('does not exist', isinstance(r[1], repo('exceptions').FileDoesNotExistError))
    ensure('nothing done', t.walked == 0 and done() == [[], [], [], [], []])


def native_trees():
    """trees with links, unusual names and options within and between the in-memory and the local backend"""
    import tempfile
    with Trees() as t, tempfile.TemporaryDirectory() as temp:
        base = target_in(t, temp)
        dest = base / choose('target', 'new', 'topx', 't', 'é ü', '.x')
        ignore = choose('ignore', None, [], ['skip', 'a'], {'skip', 'b', 'f'}, ('.h',))
        followlinks = choose('followlinks', True, False)
        root = dest
        if choose('into', False, True):
            dest.mkdir()
            root = dest / t.top_name
        outside = {n: snapshot(t.base / n) for n in t.outside}
        source = t.fs.URI(t.top.uri + choose('slash', '', '', '/', '//'))
        want = copied(t, t.tree, t.top.path, ignore or (), followlinks)
        first = first_file(t.tree, '') if choose('stat', True, False) else None
        if first:
            u = t.top
            for n in first[1:].split('/'):
                u = u / n
            u.info({'mtime': 1234567, 'mode': 0o100640})
            stat = (u.info().mtime, 0o640)
        r = outcome(source.copy, dest, recursive=True, ignore=ignore, followlinks=followlinks)
        if incomplete(want):
            ensure('a link that leads nowhere cannot be followed', r[0] == 'raise', r)
        else:
            ensure('no failure', r[0] == 'return', r)
            ensure('the copy', snapshot(root) == want, (t.tree, snapshot(root), want))
            if first and t.base.get_connection() is base.get_connection() and first.split('/')[1] not in (ignore or ()):
                info = (root / first[1:]).info() if not any(n in (ignore or ()) for n in first.split('/')[1:-1]) else None
                ensure('metadata', info is None or (info.mtime, info.mode & 0o777) == stat, info)
            ensure('nothing beside it', sorted(base.listdir()) ==
                   sorted([dest.last()] + ([t.top_name] + list(outside) if base is t.base else [])))
            if root is not dest:
                ensure('nothing beside it in the directory', dest.listdir() == [t.top_name])
        ensure('the source is unchanged', snapshot(t.top) == t.tree)
        ensure('nothing outside changed', outside == {n: snapshot(t.base / n) for n in t.outside})


def first_file(tree, path):
    for name in sorted(tree):
        if isinstance(tree[name], bytes):
            return path + '/' + name
        if isinstance(tree[name], dict):
            f = first_file(tree[name], path + '/' + name)
            if f:
                return f
    return None


def native_files():
    "single files and links, onto nothing, a file, a link to a file, or into a directory"
    import tempfile
    with Trees(depth=0) as t, tempfile.TemporaryDirectory() as temp:
        base = target_in(t, temp)
        data = choose('data', b'', b'x', b'\r\n\x00\xff' * 7000)
        source = t.base / choose('source', 's', 's s', '.s', 'é')
        linked = choose('linked', False, True)
        if linked:
            build(t.base / 'data', data)
            build(source, ('link', (t.base / 'data').path))
        else:
            build(source, data)
        followlinks = choose('followlinks', True, False)
        onto = choose('onto', 'nothing', 'file', 'directory', 'link')
        dest = base / 'target'
        root = dest
        if onto == 'file':
            build(dest, b'old contents that are longer' * 1000)
        elif onto == 'directory':
            build(dest, {'other': b'1'})
            root = dest / source.last()
            if choose('replaced', False, True):
                build(root, b'old')
        elif onto == 'link':
            build(base / 'second', b'old')
            build(dest, ('link', (base / 'second').path))
        as_link = linked and not followlinks
        before = snapshot(source)
        stat = None
        if not linked and choose('stat', True, False):
            source.info({'mtime': choose('mtime', 1234567, 1234567.5), 'mode': choose('mode', 0o100640, 0o100755)})
            stat = source.info().mtime, source.info().mode & 0o777
        source.copy(dest, followlinks=followlinks)
        if as_link:
            ensure('a link with that target', snapshot(root) == ('link', (t.base / 'data').path))
        else:
            with root.open('rb') as f:
                ensure('the same bytes', f.read() == data)
        if onto == 'directory':
            ensure('nothing else', sorted(dest.listdir()) == sorted(['other', source.last()]) and snapshot(dest / 'other') == b'1')
        ensure('the source is unchanged', snapshot(source) == before)
        if stat:
            ensure('its metadata is unchanged', (source.info().mtime, source.info().mode & 0o777) == stat)
            if t.base.get_connection() is base.get_connection():
                ensure('metadata', (root.info().mtime, root.info().mode & 0o777) == stat)
        if linked:
            ensure('what it leads to is unchanged', snapshot(t.base / 'data') == data)
        r = outcome((t.base / 'missing').copy, base / 'new')
        ensure('does not exist', r[0] == 'raise' and isinstance(r[1], repo('exceptions').FileDoesNotExistError))
        ensure('nothing made', not (base / 'new').exists())


def proof_tree_one_backend_links_followed_as():
    tree(True, True, False)


def proof_tree_one_backend_links_followed_into():
    tree(True, True, True)


def proof_tree_one_backend_links_kept_as():
    tree(True, False, False)


def proof_tree_one_backend_links_kept_into():
    tree(True, False, True)


def proof_tree_two_backends_links_followed_as():
    tree(False, True, False)


def proof_tree_two_backends_links_followed_into():
    tree(False, True, True)


def proof_tree_two_backends_links_kept_as():
    tree(False, False, False)


def proof_tree_two_backends_links_kept_into():
    tree(False, False, True)
