"""C17: recursive removal deletes the whole tree and nothing outside it"""
from pv import *
from common import *
from oslib import LocalRegistry
from treelib import Trees, snapshot, build

TRUSTED = []
ASSUMPTIONS = ['walking bottom-up without following links yields every directory of the tree with its exact contents, '
               'a directory after all directories below it (C20)',
               'removefile and removedir of a backend take away exactly the addressed entry or fail (C13, C25)',
               'nobody else changes the tree meanwhile']

NAME = '/?#\\:()\n'


class Tree(repo('fs').FileSystem):
    """a backend with a top of some kind; what is below it is given by the contract of walk"""
    scheme = 'sch'
    last_used = property(lambda self: 0, lambda self, v: None)

    def __init__(self, fs):
        self.fs = fs
        self.top = fs.BaseUri('sch://host/' + string('top', exclude=NAME + '.', minlen=1))
        self.top.path, self.top.scheme
        self.link = self.there = self.directory = False
        self.refuses = None
        self.walked = 0
        self.top_removed = False
        self.directories = objects('directory', self.directory_below)
        channels('files', 'directories', 'top')

    def directory_below(self, name):
        "one directory of the walk: where it is, the names of the directories and of the others in it"
        return (string(name + ' rel', exclude='?#\\:()\n', minlen=1),
                strings(name + ' dirs', exclude=NAME, minlen=1, distinct=True),
                strings(name + ' files', exclude=NAME, minlen=1, distinct=True))

    def pre_call_hook(self, path, func):
        pass

    def exists(self, path):
        return self.there if path == self.top else predicate('exists', path.path)

    def isdir(self, path):
        return self.directory if path == self.top else predicate('isdir', path.path)

    def isfile(self, path):
        return self.there and not self.directory if path == self.top else predicate('isfile', path.path)

    def islink(self, path):
        return self.link if path == self.top else predicate('islink', path.path)

    def removefile(self, path):
        self.act('files', path)

    def removedir(self, path):
        self.act('directories', path)

    def act(self, kind, path):
        if path == self.top:
            emit_to('top', kind)
            self.top_removed = True
            if self.refuses is not None:
                raise self.refuses
        else:
            emit_to(kind, path.path)

    def enter(self, e):
        ensure('nothing was removed above it', not self.top_removed)
        rel, dirs, files = e
        return (self.top / rel, list(dirs), list(files))

    def leave(self, e, visit):
        pass

    def walk(self, path, topdown=True, followlinks=True):
        ensure('walks the top', path == self.top)
        ensure('contents before their directory', not topdown)
        ensure('links are not followed', not followlinks)
        self.walked = self.walked + 1
        return visits(self.directories, self.enter, self.leave)


def start():
    fs = repo('fs')
    t = Tree(fs)
    fs.CONNECTION_REGISTRY = LocalRegistry(sch=t)
    return fs, t


def proof_recursively():
    "everything that the walk yields is removed, links as links, and the top at the end"
    fs, t = start()
    t.there = t.directory = True
    r = outcome(t.top.remove, True)
    ensure('no failure', r[0] == 'return', r)
    ensure('one walk', t.walked == 1)
    files, directories = [], []
    for rel, dirs, others in t.directories:
        for name in others:
            files.append((((t.top / rel) / name).path,))
        for name in dirs:
            d = ((t.top / rel) / name).path
            if predicate('islink', d):
                files.append((d,))
            else:
                directories.append((d,))
    ensure('every file and link is removed', same_events(events('files'), files))
    ensure('every directory is removed', same_events(events('directories'), directories))
    ensure('the top last', events('top') == [('directories',)])


def nothing_below():
    return len(events('files')) == 0 and len(events('directories')) == 0


def proof_link():
    "a link is removed as a link, whatever it leads to"
    fs, t = start()
    t.link = True
    t.there, t.directory = choose('leads to', (False, False), (True, False), (True, True))
    t.refuses = choose('refuses', None, exception('OSError', 13))
    r = outcome(t.top.remove, choose('recursive', False, True, 'r'))
    ensure('outcome', r[0] == 'return' if t.refuses is None else r == ('raise', t.refuses))
    ensure('only the link', t.walked == 0 and nothing_below() and events('top') == [('files',)])


def proof_file():
    fs, t = start()
    t.there = True
    t.refuses = choose('refuses', None, exception('OSError', 13))
    r = outcome(t.top.remove, choose('recursive', False, True))
    ensure('outcome', r[0] == 'return' if t.refuses is None else r == ('raise', t.refuses))
    ensure('only the file', t.walked == 0 and nothing_below() and events('top') == [('files',)])


def proof_missing():
    fs, t = start()
    r = outcome(t.top.remove, choose('recursive', False, True))
    ensure('does not exist', r[0] == 'raise' and isinstance(r[1], repo('exceptions').FileDoesNotExistError))
    ensure('nothing removed', t.walked == 0 and nothing_below() and len(events('top')) == 0)


def proof_not_recursively():
    "left to the backend, which refuses what is not empty"
    fs, t = start()
    t.there = t.directory = True
    t.refuses = choose('refuses', None, exception('OSError', 39))
    r = outcome(t.top.remove) if choose('default', True, False) else outcome(t.top.remove, recursive=False)
    ensure('outcome', r[0] == 'return' if t.refuses is None else r == ('raise', t.refuses))
    ensure('only the directory', t.walked == 0 and nothing_below() and events('top') == [('directories',)])


def native_trees():
    "trees with links out of the tree, into it and in circles (in-memory backend)"
    with Trees(backends=('memory',), cycles=True) as t:
        outside = {n: snapshot(t.base / n) for n in t.outside}
        via = choose('via', 'top', 'top', 'link', 'entry')
        if via == 'top':
            t.top.remove(recursive=True)
            ensure('gone', not t.top.exists() and not t.top.islink())
        elif via == 'link':
            link = t.base / 'link'
            t.top.symlink(link)
            link.remove(recursive=choose('recursive', True, False))
            ensure('only the link is gone', not link.islink() and snapshot(t.top) == t.tree)
        else:
            names = sorted(t.tree)
            if names:
                name = names[choose('entry', 0, 1, 2) % len(names)]
                recursive = choose('recursive', True, False)
                u = t.top / name
                r = outcome(u.remove, recursive)
                if isinstance(t.tree[name], dict) and t.tree[name] and not recursive:
                    ensure('not empty', r[0] == 'raise' and isinstance(r[1], OSError))
                else:
                    ensure('removed', r[0] == 'return', r)
                    del t.tree[name]
            ensure('exactly that', snapshot(t.top) == t.tree)
        r = outcome((t.base / 'nothing').remove, True)
        ensure('does not exist', r[0] == 'raise' and isinstance(r[1], repo('exceptions').FileDoesNotExistError))
        ensure('nothing outside touched', outside == {n: snapshot(t.base / n) for n in t.outside})
        ensure('no entry added or removed beside it',
               sorted(t.base.listdir()) == sorted(list(t.outside) + ([t.top_name] if via != 'top' else [])))
