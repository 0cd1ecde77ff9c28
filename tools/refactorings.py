"""Edits of /repo that keep its behaviour; every check has to stay quiet on them.

python3 tools/refactorings.py [id-prefix...]: applies each to a copy and runs the checks."""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = []


def edit(name, props, file, *changes):
    ALL.append((name, props.split(), file, changes))


# --- uriparse, simpleuri -------------------------------------------------
edit('parse_qs_comp', 'C01 C02 C08', 'simpleuri.py', ('''    result = {}
    qparts = query.split('&')
    for item in qparts:
        key, value = item.split('=', 1)
        key = key.strip()
        value = value.strip()
        result[key] = unquote_plus(value)
    return result
''', '''    pairs = [item.split('=', 1) for item in query.split('&')]
    return {key.strip(): unquote_plus(value.strip()) for key, value in pairs}
'''))
edit('parse_qs_partition', 'C01 C02 C08', 'simpleuri.py', ('''    qparts = query.split('&')
    for item in qparts:
        key, value = item.split('=', 1)
        key = key.strip()
        value = value.strip()
        result[key] = unquote_plus(value)
''', '''    for item in query.split('&'):
        name, text = item.split('=', 1)
        result.update({name.strip(): unquote_plus(text.strip())})
'''))
edit('str_helper', 'C01 C02 C07 C08 C03', 'simpleuri.py', ('''        if self.query:
            rest = '?'+urlencode(self.query)
        else:
            rest = ''
        if self.fragment:
            rest += '#%s' % self.fragment
''', '''        rest = self._rest()
'''), ('''    def __eq__(self, other):
        if not isinstance''', '''    def _rest(self):
        rest = '?' + urlencode(self.query) if self.query else ''
        return rest + '#' + self.fragment if self.fragment else rest

    def __eq__(self, other):
        if not isinstance'''))
edit('str_concat', 'C01 C02 C07 C08', 'simpleuri.py', ('''        if self.username:
            parts.append(self.username)
        if self.password:
            parts += [':', self.password]
        if self.username or self.password:
            parts.append('@')
''', '''        login = self.username or ''
        if self.password:
            login = login + ':' + self.password
        if login:
            parts.append(login + '@')
'''))
edit('str_early', 'C01 C02 C07', 'simpleuri.py', ('''        if (
            (self.scheme.startswith('http') and self.hostname) or
            not self.scheme.startswith('http')
            ):
            parts = [self.scheme, '://']
        else:
            parts = []
''', '''        parts = []
        if self.hostname or not self.scheme.startswith('http'):
            parts.append('%s://' % self.scheme)
'''))
edit('eq_tuple', 'C08 C03', 'simpleuri.py', ('''        return (
            self.scheme == other.scheme and
            self.netloc == other.netloc and
            self.path == other.path and
            self.query == other.query
            )
''', '''        mine = (self.query, self.path, self.netloc, self.scheme)
        return mine == (other.query, other.path, other.netloc, other.scheme)
'''))
edit('eq_loop', 'C08', 'simpleuri.py', ('''        return (
            self.scheme == other.scheme and
            self.netloc == other.netloc and
            self.path == other.path and
            self.query == other.query
            )
''', '''        for name in ('scheme', 'netloc', 'path', 'query'):
            if getattr(self, name) != getattr(other, name):
                return False
        return True
'''))
edit('netloc_helper', 'C01 C02 C04 C08', 'simpleuri.py', ('''        if self.hostname:
            if self.port:
                self.netloc = ':'.join([self.hostname,str(self.port)])
            else:
                self.netloc = self.hostname

''', '''        self._set_netloc()

    def _set_netloc(self):
        if not self.hostname:
            return
        self.netloc = self.hostname
        if self.port:
            self.netloc += ':%d' % self.port

'''))
edit('from_parts_join', 'C03 C04 C07', 'simpleuri.py', ('''    uri = "%s://%s%s" % (parts[0], parts[1], parts[2])
    if parts[3]:
        extra = '?'+urlencode(parts[3])
        uri += extra
    return uri
''', '''    scheme, netloc, path, query = parts[:4]
    result = [scheme, '://', netloc, path]
    if query:
        result += ['?', urlencode(query)]
    return ''.join(result)
'''))
edit('as_list_chain', 'C03 C04 C07', 'simpleuri.py', ('''        netloc = ''
        if self.vpath_connector:
            netloc = '(('+self.vpath_connector+'))'
        elif self.authority:
            netloc = self.authority
        else:
            netloc = self.netloc
''', '''        if self.vpath_connector:
            netloc = '((%s))' % self.vpath_connector
        else:
            netloc = self.authority or self.netloc
'''))
edit('split_auth_partition', 'C01 C02 C28', 'uriparse.py', ('''    if '@' in authority:
        userinfo, hostport = authority.split('@', 1)
    else:
        userinfo, hostport = None, authority
''', '''    userinfo, at, hostport = authority.partition('@')
    if not at:
        userinfo, hostport = None, authority
'''), ('''    if hostport and ':' in hostport:
        host, port = hostport.split(':', 1)
    else:
        host, port = hostport, None
    if not host:
        host = None
''', '''    host, port = hostport, None
    if ':' in hostport:
        host, _, port = hostport.partition(':')
    host = host or None
'''))
edit('urlsplit_groups', 'C01 C02 C28', 'uriparse.py', ('''    p = re.match(regex, uri).groups()
    scheme, authority, path, query, fragment = p[1], p[3], p[4], p[6], p[8]
''', '''    match = re.match(regex, uri)
    scheme, authority = match.group(2), match.group(4)
    path, query, fragment = match.group(5), match.group(7), match.group(9)
'''), ('''    if scheme not in ['http', 'https']:
        if fragment is not None:
            path = '#'.join([path, fragment])
            fragment = ''
''', '''    if fragment is not None and scheme not in ('http', 'https'):
        path += '#' + fragment
        fragment = ''
'''))
edit('unsplit_list', 'C28', 'uriparse.py', ('''    result = ''
    if scheme:
        result += scheme + ':'
    if authority:
        result += '//' + authority
    if path:
        result += path
    if query:
        result += '?' + query
    if fragment:
        result += '#' + fragment
    return result


def split_authority''', '''    parts = []
    if scheme:
        parts += [scheme, ':']
    if authority:
        parts += ['//', authority]
    parts.append(path or '')
    for mark, text in (('?', query), ('#', fragment)):
        if text:
            parts.append(mark + text)
    return ''.join(parts)


def split_authority'''))
edit('defaults_helper', 'C28', 'uriparse.py', ('''        user, passwd, host, port = split_authority(authority or '')
        duser, dpasswd, dhost, dport, dpath, dquery, dfrag = self._defaults
        if user is None:
            user = duser
        if passwd is None:
            passwd = dpasswd
        if host is None:
            host = dhost
        if port is None:
            port = dport
        if path == '':
            path = dpath
        if query is None:
            query = dquery
        if frag is None:
            frag = self._defaults[6]
        return (user, passwd, host, port, path, query, frag)
''', '''        given = list(split_authority(authority or ''))
        given += [path if path != '' else None, query, frag]
        return tuple([default if value is None else value
                      for value, default in zip(given, self._defaults)])
'''))
edit('dirname_rfind', 'C28', 'uriparse.py', ('''    q = p
    while q and not q.endswith('/'):
        q = q[:-1]
    return q
''', '''    return p[:p.rfind('/') + 1]
'''))
# --- BaseUri -------------------------------------------------------------
edit('init_credentials', 'C01 C07 C09 C11', 'fs.py', ('''        if not self.username:
            if 'username' in self.extras:
                self.username = self.extras['username']
            elif 'username' in self.parse_result.query:
                self.username = self.parse_result.query['username']
        if not self.password:
            if 'password' in self.extras:
                self.password = self.extras['password']
            elif 'password' in self.parse_result.query:
                self.password = self.parse_result.query['password']
''', '''        for name in ('username', 'password'):
            if getattr(self, name):
                continue
            for source in (self.extras, self.parse_result.query):
                if name in source:
                    setattr(self, name, source[name])
                    break
'''))
edit('init_methods', 'C01 C03 C05 C06 C07', 'fs.py', ('''            if uri.startswith('file://'):
                uri = uri[7:]
            uri = normalize_uri(uri, '\\\\')
            if not '://' in uri and not (uri == '.' or uri.startswith(('/', './'))):
                uri = './'+uri
            if not '://' in uri:
                uri = 'file://'+uri
            self.uri = uri
''', '''            uri = self._complete(uri)
            self.uri = uri
'''), ('''    def get_connection(self):
        # the''', '''    @staticmethod
    def _complete(uri):
        if uri.startswith('file://'):
            uri = uri[len('file://'):]
        uri = normalize_uri(uri, '\\\\')
        if '://' in uri:
            return uri
        relative = uri != '.' and not uri.startswith('/') and not uri.startswith('./')
        return 'file://' + ('./' + uri if relative else uri)


    def get_connection(self):
        # the'''))
edit('split_rpartition', 'C03 C04 C06 C07', 'fs.py', ('''        try:
            first, second = path.rsplit('/', 1)
            # we might be already on the root
            if not first:
                first = '/'
        except ValueError:
            first = '.' if path else ''
            second = path
''', '''        first, slash, second = path.rpartition('/')
        if slash:
            first = first or '/'
        elif path:
            first = '.'
'''))
edit('last_simple', 'C03 C04', 'fs.py', ('''        parts = self._root_and_path()[1].split('/')
        if not parts:
            return ''
        if len(parts) > 1:
            if not parts[-1]:
                return parts[-2]
            else:
                return parts[-1]
        else:
            return parts[-1]
''', '''        parts = self._root_and_path()[1].split('/')
        if len(parts) > 1 and not parts[-1]:
            del parts[-1]
        return parts[-1]
'''))
edit('join_loop', 'C03 C05 C07', 'fs.py', ('''        args = (
            [self.parse_result.path.rstrip('/')] +
            [x.strip('/') for x in args[:-1]] +
            [args[-1]]
            )
        parts = self.parse_result.as_list()
        parts[2] = '/'.join(args)
''', '''        joined = self.parse_result.path.rstrip('/')
        for part in args[:-1]:
            joined += '/' + part.strip('/')
        parts = self.parse_result.as_list()
        parts[2] = joined + '/' + args[-1]
'''))
edit('join_order', 'C03 C05 C07', 'fs.py', ('''        sep = self.sep
        if sep != '/':
            args = [x.replace(sep, '/') for x in args]
        args = (
            [self.parse_result.path.rstrip('/')] +
            [x.strip('/') for x in args[:-1]] +
            [args[-1]]
            )
        parts = self.parse_result.as_list()
''', '''        parts = self.parse_result.as_list()
        sep = self.sep
        if sep != '/':
            args = tuple(x.replace(sep, '/') for x in args)
        middle, end = args[:-1], args[-1]
        args = [self.parse_result.path.rstrip('/')]
        args.extend(x.strip('/') for x in middle)
        args.append(end)
'''))
edit('directory_recursive', 'C03 C04 C06', 'fs.py', ('''        newpath = self
        while level>0:
            newpath = newpath.split()[0]
            level -= 1
        return newpath
''', '''        newpath = self
        for _ in range(level):
            newpath, _unused = newpath.split()
        return newpath
'''))
edit('new_uri_helper', 'C03 C04 C07', 'fs.py', ('''        path = self.uri + suffix
        result = self.__class__(
            path,
            sep=self.sep,
            **self._extras()
            )
        result.parse_result.query = self.query.copy()
        return result
''', '''        return self._derived(self.uri + suffix)


    def _derived(self, uri):
        extras = self._extras()
        result = self.__class__(uri, sep=self.sep, **extras)
        result.parse_result.query = dict(self.query)
        return result
'''), ('''        result = self.__class__(
            uri_from_parts(parts),
            sep=sep,
            **self._extras()
            )

        result.parse_result.query = self.query.copy()

        return result
''', '''        return self._derived(uri_from_parts(parts))
'''))
edit('denormalize', 'C05 C06', 'fs.py', ('''    if len(path) > 2 and path[0] == path[2] == '/':
        return path[1]+':'+sep+path[3:].replace('/', sep)
    else:
        return path.replace('/', sep)
''', '''    drive = ''
    if len(path) > 2 and path[0] == '/' and path[2] == '/':
        drive = path[1] + ':'
        path = path[2:]
    return drive + path.replace('/', sep)
'''))
edit('strip_root', 'C05 C06 C25', 'fs.py', ('''    if path in ('/.', '/..') or path.startswith(('/./', '/../')):
        return path[1:]
    return path
''', '''    first = path[1:].split('/')[0]
    if path.startswith('/') and first in ('.', '..'):
        return path[1:]
    return path
'''))
edit('root_and_path', 'C03 C04 C06 C07', 'fs.py', ('''        uri = self._uri_without_query()
        if self.vpath_connector:
            start = uri.find('))') + 2
        else:
            start = uri.find('://') + 3
            if uri[start:start+2] not in ('.', './'):
                slash = uri.find('/', start)
                start = len(uri) if slash < 0 else slash
        return uri[:start], uri[start:]
''', '''        uri = self._uri_without_query()
        start = self._path_start(uri)
        return uri[:start], uri[start:]


    def _path_start(self, uri):
        if self.vpath_connector:
            return uri.index('))') + 2
        start = uri.find('://') + 3
        if uri[start:start+2] in ('.', './'):
            return start
        slash = uri.find('/', start)
        return slash if slash >= 0 else len(uri)
'''))
# --- registry ------------------------------------------------------------
edit('cleanup_two_steps', 'C10', 'fs.py', ('''        for key, conn in list(self.connections.items()):
            if ((now - conn.last_used) > self.clean_timeout) or force:
                try:
                    conn.close()
                except:
                    print("### Exception while closing connection %s" % conn)
                    traceback.print_exc()
                del self.connections[key]
''', '''        stale = [
            (key, conn) for key, conn in self.connections.items()
            if force or now - conn.last_used > self.clean_timeout
            ]
        for key, conn in stale:
            self._close(conn)
            del self.connections[key]


    def _close(self, conn):
        try:
            conn.close()
        except:
            print("### Exception while closing connection %s" % conn)
            traceback.print_exc()
'''))
edit('cleanup_continue', 'C10', 'fs.py', ('''            if ((now - conn.last_used) > self.clean_timeout) or force:
                try:
                    conn.close()
                except:
                    print("### Exception while closing connection %s" % conn)
                    traceback.print_exc()
                del self.connections[key]
''', '''            if not force and now - conn.last_used <= self.clean_timeout:
                continue
            try:
                conn.close()
            except:
                print("### Exception while closing connection %s" % conn)
                traceback.print_exc()
            finally:
                self.connections.pop(key)
'''))
edit('get_connection_try', 'C09', 'fs.py', ('''        if not key in self.connections:
            self.create(scheme, key, extras)
        return self.connections[key]
''', '''        try:
            return self.connections[key]
        except KeyError:
            self.create(scheme, key, extras)
            return self.connections[key]
'''))
edit('get_connection_key', 'C09 C11', 'fs.py', ('''        key = (
            scheme,
            hostname,
            port,
            username,
            password,
            vpath_connector,
            frozenset(extras.items())
            )

        if not''', '''        endpoint = (hostname, port, username, password, vpath_connector)
        key = (scheme,) + endpoint + (frozenset(extras.items()),)

        if not'''))
edit('cleaner_for', 'C10', 'fs.py', ('''            try:
                while (time.time() - now) < self.clean_interval:
                    if not self.run_clean_thread:
                        return
                    time.sleep(1)
            except:
                return
''', '''            try:
                while True:
                    if time.time() - now >= self.clean_interval:
                        break
                    if not self.run_clean_thread:
                        return
                    time.sleep(1)
            except:
                return
'''))
edit('with_connection_local', 'C11', 'fs.py', ('''    self.connection = self.get_connection()
    self.connection.last_used = time.time()
    self.connection.pre_call_hook(self, func)
    return func(self, *args, **argd)
''', '''    connection = self.get_connection()
    connection.last_used = time.time()
    self.connection = connection
    connection.pre_call_hook(self, func)
    result = func(self, *args, **argd)
    return result
'''))
edit('extras_dict', 'C07 C09 C11', 'fs.py', ('''        extras = self.extras.copy()
        if self.scheme not in ('http','https'):
            extras.update(self.query)

        return extras
''', '''        if self.scheme in ('http', 'https'):
            return dict(self.extras)
        return dict(self.extras, **self.query)
'''), ('''        extras = self._extras()
        extras.pop('username', None)
        extras.pop('password', None)
        return''', '''        extras = {k: v for k, v in self._extras().items() if k not in ('username', 'password')}
        return'''))
# --- FileSystem ----------------------------------------------------------
edit('remove_order', 'C17 C19', 'fs.py', ('''        if self.connection.isdir(self):
            if recursive:
                return remove_dir_recursively(self.connection, self)
            else:
                return self.connection.removedir(self)
        elif self.connection.isfile(self):
            return self.connection.removefile(self)
''', '''        connection = self.connection
        if connection.isfile(self):
            return connection.removefile(self)
        if connection.isdir(self):
            remover = remove_dir_recursively if recursive else type(connection).removedir
            return remover(connection, self)
'''))
edit('remove_helper', 'C17 C19', 'fs.py', ('''        for dname in dirs:
            d = root / dname
            if connection.islink(d):
                connection.removefile(d)
            else:
                connection.removedir(d)

    if connection.islink(path):
        return connection.removefile(path)
    else:
        return connection.removedir(path)
''', '''        for dname in dirs:
            _remove_single(connection, root / dname)

    return _remove_single(connection, path)


def _remove_single(connection, path):
    if connection.islink(path):
        return connection.removefile(path)
    return connection.removedir(path)
'''))
edit('remove_dirs_first', 'C17', 'fs.py', ('''        for fname in files:
            connection.removefile(root / fname)

        for dname in dirs:
            d = root / dname
            if connection.islink(d):
                connection.removefile(d)
            else:
                connection.removedir(d)
''', '''        for dname in dirs:
            d = root / dname
            remove = connection.removefile if connection.islink(d) else connection.removedir
            remove(d)

        for fname in files:
            connection.removefile(root / fname)
'''))
edit('copy_helper', 'C18 C19', 'fs.py', ('''            if source.islink() and not followlinks:
                self._copy_link(source, dest)
            else:
                with source.open('rb') as infs, dest.open('wb') as outfs:
                    shutil.copyfileobj(infs, outfs, 8192)
                if use_same_backend:
                    self.copystat(source, dest)
        else:
''', '''            self._copy_single(source, dest, followlinks)
        else:
'''), ('''                        if srcf.islink() and not followlinks:
                            self._copy_link(srcf, destf)
                        else:
                            with srcf.open('rb') as infs, destf.open('wb') as outfs:
                                shutil.copyfileobj(infs, outfs, 8192)
                            if use_same_backend:
                                self.copystat(srcf, destf)
''', '''                        self._copy_single(srcf, destf, followlinks)
'''), ('''    def copy(self, source, dest, recursive=False, ignore=None,
             followlinks=True):
        if source.conn''', '''    def _copy_single(self, source, dest, followlinks):
        if source.islink() and not followlinks:
            self._copy_link(source, dest)
            return
        with source.open('rb') as infs:
            with dest.open('wb') as outfs:
                shutil.copyfileobj(infs, outfs, 8192)
        if source.scheme == dest.scheme:
            self.copystat(source, dest)


    def copy(self, source, dest, recursive=False, ignore=None,
             followlinks=True):
        if source.conn'''))
edit('copy_prune_filter', 'C18', 'fs.py', ('''                    for folder in dirs[:]:
                        if folder in ignore:
                            dirs.remove(folder)
                            continue
                        ddir''', '''                    dirs[:] = [folder for folder in dirs if folder not in ignore]
                    for folder in dirs:
                        ddir'''))
edit('copy_ignore_set', 'C18', 'fs.py', ('''        if ignore is not None:
            ignore = set(ignore)
        else:
            ignore = set()
''', '''        ignore = frozenset(ignore or ())
'''))
edit('copy_dbase', 'C18 C19', 'fs.py', ('''                    rpth = root.path
                    tojoin = rpth[spth_len:]
                    if tojoin:
                        dbase = droot / tojoin
                    else:
                        dbase = droot
''', '''                    tojoin = root.path[spth_len:]
                    dbase = droot / tojoin if tojoin else droot
'''), ('''            if dest.isdir():
                droot = dest / source.last()
            else:
                droot = dest
''', '''            droot = dest
            if dest.isdir():
                droot = droot / source.last()
'''))
edit('copy_buffer', 'C18', 'fs.py', ('''                with source.open('rb') as infs, dest.open('wb') as outfs:
                    shutil.copyfileobj(infs, outfs, 8192)
''', '''                with source.open('rb') as infs, dest.open('wb') as outfs:
                    shutil.copyfileobj(infs, outfs)
'''))
edit('copy_link_check', 'C18', 'fs.py', ('''        # the destination may be located in another backend
        connection = dest.get_connection()
        if dest.isfile():
            connection.removefile(dest)
        connection.symlink(self.readlink(source), dest)
''', '''        target = self.readlink(source)
        # the destination may be located in another backend
        connection = dest.get_connection()
        if connection.isfile(dest):
            connection.removefile(dest)
        connection.symlink(target, dest)
'''))
edit('makedirs_nested', 'C21', 'fs.py', ('''        pth, tail = path.split()
        if not pth.isdir():
            self.makedirs(pth)
        if tail:
            return path.mkdir()
        else:
            return path
''', '''        parent, name = path.split()
        if not self.isdir(parent):
            self.makedirs(parent)
        return path.mkdir() if name else path
'''))
edit('makedirs_always', 'C21', 'fs.py', ('''        if not pth.isdir():
            self.makedirs(pth)
''', '''        self.makedirs(pth)
'''))
edit('makedirs_loop', 'C21', 'fs.py', ('''        if path.isdir():
            return path
        pth, tail = path.split()
        if not pth.isdir():
            self.makedirs(pth)
        if tail:
            return path.mkdir()
        else:
            return path
''', '''        missing = []
        current = path
        while not current.isdir():
            missing.append(current)
            current = current.split()[0]
        for current in reversed(missing):
            if current.split()[1]:
                current.mkdir()
        return path
'''))
edit('move_recursive', 'C19', 'fs.py', ('''        if source.isfile():
            source.copy(destination)
            source.remove()
        else:
            source.copy(destination, recursive=True)
            source.remove('r')
''', '''        recursive = not source.isfile()
        source.copy(destination, recursive=recursive)
        source.remove(recursive)
'''))
edit('walk_yield_from', 'C20 C17 C18', 'fs.py', ('''                for x in self.walk(path, topdown=topdown, followlinks=followlinks):
                    yield x
''', '''                yield from self.walk(path, topdown, followlinks)
'''))
edit('walk_helper', 'C20 C17', 'fs.py', ('''        names = sorted(self.listdir(top))

        dirs = []
        nondirs = []
        for name in names:
            if self.isdir(top / name):
                dirs.append(name)
            else:
                nondirs.append(name)
''', '''        dirs, nondirs = self._partition(top)
'''), ('''    def glob(self, path, pattern):''', '''    def _partition(self, top):
        dirs, nondirs = [], []
        for name in sorted(self.listdir(top)):
            kind = dirs if self.isdir(top / name) else nondirs
            kind.append(name)
        return dirs, nondirs


    def glob(self, path, pattern):'''))
edit('walk_comprehension', 'C20', 'fs.py', ('''        dirs = []
        nondirs = []
        for name in names:
            if self.isdir(top / name):
                dirs.append(name)
            else:
                nondirs.append(name)
''', '''        dirs = [name for name in names if self.isdir(top / name)]
        nondirs = [name for name in names if not self.isdir(top / name)]
'''))
edit('walk_continue', 'C20', 'fs.py', ('''            path = top / name
            if not path.islink() or followlinks:
                for x in self.walk(path, topdown=topdown, followlinks=followlinks):
                    yield x
''', '''            path = top / name
            if not followlinks and self.islink(path):
                continue
            for x in self.walk(path, topdown=topdown, followlinks=followlinks):
                yield x
'''))
edit('glob_comp', 'C22', 'fs.py', ('''        res = []
        for f in path.listdir():
            if fnmatch.fnmatch(f, pattern):
                res.append(path / f)
        return res
''', '''        return [path / f for f in path.listdir() if fnmatch.fnmatch(f, pattern)]
'''))
edit('glob_filter', 'C22', 'fs.py', ('''        res = []
        for f in path.listdir():
            if fnmatch.fnmatch(f, pattern):
                res.append(path / f)
        return res
''', '''        return [path / f for f in fnmatch.filter(path.listdir(), pattern)]
'''))
edit('md5_iter', 'C27', 'fs.py', ('''            block = inf.read(4096)
            while block:
                hash_.update(block)
                block = inf.read(4096)
''', '''            for block in iter(lambda: inf.read(65536), b""):
                hash_.update(block)
'''))
edit('md5_break', 'C27', 'fs.py', ('''            block = inf.read(4096)
            while block:
                hash_.update(block)
                block = inf.read(4096)
''', '''            while True:
                block = inf.read(4096)
                if not block:
                    break
                hash_.update(block)
'''))
edit('md5_helper', 'C27', 'fs.py', ('''        hash_ = hashlib.md5()
        with self.open("rb") as inf:
            block = inf.read(4096)
            while block:
                hash_.update(block)
                block = inf.read(4096)

        return hash_.hexdigest()
''', '''        hash_ = hashlib.md5()
        with self.open("rb") as inf:
            self._update_hash(hash_, inf)
        return hash_.hexdigest()


    @staticmethod
    def _update_hash(hash_, inf, size=4096):
        block = inf.read(size)
        while block:
            hash_.update(block)
            block = inf.read(size)
'''))
# --- memory --------------------------------------------------------------
edit('mem_child', 'C12 C13', 'memory.py', ('''        if parent.has(name):
            nd = parent.get(name)
            if nd.kind == NodeKind.LINK:
                if resolve_link:
                    # TODO: supports absolute links only for now
                    if linklevel >= 32:
                        raise self.lookup_exc_class(errno.ELOOP,
                                                    "Too many symbolic links encountered")
                    nd = self._get_node_for_path(self._fs, nd.target, throw=throw,
                                                 linklevel=linklevel + 1)
                    if nd is None:
                        return None
                    assert nd.kind != NodeKind.LINK
            return nd
        return None
''', '''        if not parent.has(name):
            return None
        nd = parent.get(name)
        if nd.kind != NodeKind.LINK or not resolve_link:
            return nd
        return self._follow(nd, throw, linklevel)


    def _follow(self, link, throw, linklevel):
        # TODO: supports absolute links only for now
        if linklevel >= 32:
            raise self.lookup_exc_class(errno.ELOOP,
                                        "Too many symbolic links encountered")
        nd = self._get_node_for_path(self._fs, link.target, throw=throw,
                                     linklevel=linklevel + 1)
        assert nd is None or nd.kind != NodeKind.LINK
        return nd
'''))
edit('mem_prev', 'C12 C13', 'memory.py', ('''        prev = None
        current = base
        for index, part in enumerate(steps):
            prev = current
            if (current is not None and current.kind == NodeKind.DIR
                and current.has(part)):
                is_last = index == len(steps) - 1
                current = self._child(current, part,
                                      resolve_link=follow_link if is_last else True,
                                      throw=throw,
                                      linklevel=linklevel)
            else:
                if throw:
                    p = '/'.join(steps)
                    raise self.lookup_exc_class(errno.ENOENT,
                                                "No such file or directory: %s" % p)
                else:
                    return [None, None]
        return [prev, current]
''', '''        prev, current = None, base
        last = len(steps) - 1
        for index, part in enumerate(steps):
            found = (current is not None and current.kind == NodeKind.DIR
                     and current.has(part))
            if not found:
                if not throw:
                    return [None, None]
                raise self.lookup_exc_class(errno.ENOENT,
                                            "No such file or directory: %s" % '/'.join(steps))
            prev, current = current, self._child(current, part,
                                                 follow_link or index < last,
                                                 throw, linklevel)
        return [prev, current]
'''))
edit('mem_kind', 'C12 C18', 'memory.py', ('''        if self._path(path):
            try:
                nd = self._get_node_for_path(self._fs, path, throw=False)
                if nd is None:
                    return False
                return nd.kind == NodeKind.DIR
            except OSError as e:
                if e.errno == errno.ELOOP:
                    return False

        # the root always exists and is always a dir
        return True
''', '''        # the root always exists and is always a dir
        return not self._path(path) or self._is_kind(path, NodeKind.DIR)


    def _is_kind(self, path, kind):
        try:
            nd = self._get_node_for_path(self._fs, path, throw=False)
        except OSError as e:
            if e.errno != errno.ELOOP:
                raise
            return False
        return nd is not None and nd.kind == kind
'''), ('''        if self._path(path):
            try:
                nd = self._get_node_for_path(self._fs, path, throw=False)
                if nd is None:
                    return False
                return nd.kind == NodeKind.FILE
            except OSError as e:
                if e.errno == errno.ELOOP:
                    return False
        return False
''', '''        return bool(self._path(path)) and self._is_kind(path, NodeKind.FILE)
'''))
edit('mem_path_filter', 'C12 C13', 'memory.py', ('''        return "/".join([x for x in p.split("/") if x])
''', '''        return "/".join(filter(None, p.split("/")))
'''))
edit('mem_mkdir', 'C13 C21', 'memory.py', ('''            nd = self._get_dir(p.split("/")[:-1])
            dir_to_create = p.split("/")[-1]
            if nd.has(dir_to_create):
                raise OSError(errno.EEXIST, "File exists: %r" % str(path))
            self._create_child(nd, dir_to_create, MemoryDir())
''', '''            self._add(p, MemoryDir(), path)
'''), ('''            nd = self._get_dir(p.split("/")[:-1])
            file_to_create = p.split("/")[-1]
            if nd.has(file_to_create):
                raise OSError(errno.EEXIST, "File exists: %r" % str(link_name))
            self._create_child(nd, file_to_create, MemorySymlink(target))
''', '''            self._add(p, MemorySymlink(target), link_name)


    def _add(self, p, node, path):
        steps = p.split("/")
        name = steps.pop()
        parent = self._get_dir(steps)
        if parent.has(name):
            raise OSError(errno.EEXIST, "File exists: %r" % str(path))
        self._create_child(parent, name, node)
'''))
edit('mem_open_write', 'C14 C16 C13', 'memory.py', ('''        if nd.has(file_to_create):
            cnd = self._child(nd, file_to_create)
            if cnd is not None and cnd.kind == NodeKind.DIR:
                raise IOError(errno.EISDIR, "File is directory" )
            cnd.reset()
            return MemoryFileProxy(cnd, False, binary=binary)
        else:
            f = MemoryFile(p)
            self._create_child(nd, file_to_create, f)
            return MemoryFileProxy(f, False, binary=binary)
''', '''        if not nd.has(file_to_create):
            f = MemoryFile(p)
            self._create_child(nd, file_to_create, f)
        else:
            f = self._child(nd, file_to_create)
            if f is not None and f.kind == NodeKind.DIR:
                raise IOError(errno.EISDIR, "File is directory" )
            f.reset()
        return MemoryFileProxy(f, False, binary)
'''))
edit('mem_open_dispatch', 'C14 C16', 'memory.py', ('''            binary = (options and "b" in options)
            if options is None or "r" in options:
                return self._open_for_read(path, binary=binary)
            elif "w" in options:
                return self._open_for_write(path, binary=binary)
            elif "a" in options:
                return self._open_for_append(path, binary=binary)
            else:
                raise OSError(errno.EINVAL, "The mode flag is not valid")
''', '''            if options is None:
                options = "r"
            binary = "b" in options
            for flag, opener in (("r", self._open_for_read),
                                 ("w", self._open_for_write),
                                 ("a", self._open_for_append)):
                if flag in options:
                    return opener(path, binary)
            raise OSError(errno.EINVAL, "The mode flag is not valid")
'''))
edit('mem_reset', 'C14 C15 C16', 'memory.py', ('''        self.path = path
        self._data = BytesIO()
        self._line_reader = None
        self.mtime = self.ctime = time.time()
        self.mode = 0
        self.lock = self.FILE_LOCKS[self.path]


    def reset''', '''        self.path = path
        self.reset()


    def reset'''))
edit('mem_readlines', 'C14', 'memory.py', ('''        for line in self:
            yield line
''', '''        while True:
            line = self._data.readline()
            if not line:
                return
            yield line
'''))
edit('mem_readlines_iter', 'C14', 'memory.py', ('''        line = self.readline()
        if line:
            return line
        else:
            raise StopIteration
''', '''        line = self._data.readline()
        if not line:
            raise StopIteration()
        return line
'''))
edit('mem_proxy_encode', 'C14', 'memory.py', ('''        return data if self.binary or isinstance(data, bytes) else data.encode("utf-8")
''', '''        if not self.binary and not isinstance(data, bytes):
            data = data.encode("utf-8")
        return data
'''), ('''        return self.decode(self.mem_file.read(*args, **kwargs))
''', '''        data = self.mem_file.read(*args, **kwargs)
        return self.decode(data)
'''))
edit('mem_lock', 'C16', 'memory.py', ('''        if self.fail_on_lock:
            if not self.lock.acquire(False):
                raise LockFileObtainException
        else:
            self.lock.acquire()
        return mfile
''', '''        blocking = not self.fail_on_lock
        if not self.lock.acquire(blocking):
            raise LockFileObtainException()
        return mfile
'''))
edit('mem_lock_exit', 'C16', 'memory.py', ('''        self.lock.release()
        if self.cleanup:
            self.path.remove()
''', '''        try:
            self.lock.release()
        finally:
            if self.cleanup:
                self.path.remove()
'''))
edit('mem_setinfo', 'C15', 'memory.py', ('''            if "mode" in set_info:
                current.mode = set_info["mode"]
            if "mtime" in set_info:
                current.mtime = set_info["mtime"]
            return
''', '''            for name in ("mode", "mtime"):
                if name in set_info:
                    setattr(current, name, set_info[name])
            return
'''))
edit('mem_setexec', 'C15', 'memory.py', ('''        mask = stat.S_IXUSR | stat.S_IXGRP | stat.S_IXOTH
        new_mode = (self.info(path).mode & ~mask) | mode
        self.info(path, dict(mode=new_mode))
''', '''        current = self._get_node_for_path(self._fs, path)
        current.mode = current.mode & ~0o111 | mode
'''))
edit('mem_copystat', 'C15 C18', 'memory.py', ('''        src_current = self._get_node_for_path(self._fs, src)
        dest_current = self._get_node_for_path(self._fs, dest)
        dest_current.mtime = src_current.mtime
        dest_current.mode = src_current.mode
''', '''        info = self.info(src)
        self.info(dest, dict(mode=info.mode, mtime=info.mtime))
'''))
edit('mem_removefile', 'C13 C17', 'memory.py', ('''        steps = [x for x in self._path(path).split("/") if x]
        parent, _ = self._get_node_prev(self._fs, steps, follow_link=False)
        if parent is not None:
            self._del_child(parent, steps[-1])
''', '''        steps = self._path(path).split("/")
        parent = self._get_node_prev(self._fs, steps, False)[0]
        if parent is None:
            return
        self._del_child(parent, steps[-1])
'''))
edit('mem_removedir', 'C13 C17', 'memory.py', ('''        if prev is not None:
            part = steps[-1]
            if self._child(prev, part).isempty():
                self._del_child(prev, part)
            else:
                raise OSError(errno.ENOTEMPTY, "Directory not empty: %r" % path)
''', '''        if prev is None:
            return
        if not self._child(prev, steps[-1]).isempty():
            raise OSError(errno.ENOTEMPTY, "Directory not empty: %r" % path)
        self._del_child(prev, steps[-1])
'''))
edit('mem_dir_size', 'C13 C22', 'memory.py', ('''    def keys(self):
        return list(self._files.keys())
''', '''    def keys(self):
        return list(self._files)
'''), ('''        return len(self._files) == 0
''', '''        return not self._files
'''))
edit('mem_islink', 'C12', 'memory.py', ('''        if self._path(path):
            nd = self._get_node_for_path(self._fs, path, follow_link=False,
                                         throw=False)
            if nd is None:
                return False
            return nd.kind == NodeKind.LINK
        return False
''', '''        if not self._path(path):
            return False
        nd = self._get_node_for_path(self._fs, path, False, False)
        return nd is not None and nd.kind == NodeKind.LINK
'''))
# --- local ---------------------------------------------------------------
edit('loc_info', 'C25 C15', 'localfs.py', ('''        stats = stat_func(p)
        ctime = stats[stat.ST_CTIME]
        mtime = stats[stat.ST_MTIME]
        atime = stats[stat.ST_ATIME]
        size = stats[stat.ST_SIZE]
        mode = stats[stat.ST_MODE]
        return Bunch(
            ctime = datetime.datetime.fromtimestamp(ctime),
            mtime = datetime.datetime.fromtimestamp(mtime),
            atime = datetime.datetime.fromtimestamp(atime),
            size = size,
            mode = mode,
            )
''', '''        stats = stat_func(p)
        convert = datetime.datetime.fromtimestamp
        return Bunch(
            ctime = convert(stats[stat.ST_CTIME]),
            mtime = convert(stats[stat.ST_MTIME]),
            atime = convert(stats[stat.ST_ATIME]),
            size = stats.st_size,
            mode = stats.st_mode,
            )
'''))
edit('loc_info_split', 'C25 C15', 'localfs.py', ('''        if set_info is not None:
            if "mode" in set_info:
                chmod_func(p, set_info["mode"])
            return
''', '''        if set_info is not None:
            mode = set_info.get("mode")
            if mode is not None:
                chmod_func(p, mode)
            return
'''))
edit('loc_open', 'C25', 'localfs.py', ('''        if options is not None:
            return open(self._path(unc), options)
        else:
            return open(self._path(unc))
''', '''        args = [self._path(unc)]
        if options is not None:
            args.append(options)
        return open(*args)
'''))
edit('loc_move', 'C19', 'localfs.py', ('''        if dest.scheme == 'file':
            if source.isdir() and dest.isdir():
                dest /= source.basename()
            return shutil.move(source.path, dest.path)
        else:
            return super(LocalFileSystem, self).move(source, dest)
''', '''        if dest.scheme != self.scheme:
            return super(LocalFileSystem, self).move(source, dest)
        if self.isdir(source) and self.isdir(dest):
            dest = dest / source.basename()
        return shutil.move(source.path, dest.path)
'''))
edit('loc_copystat', 'C25 C18', 'localfs.py', ('''        shutil.copystat(source.path, dest.path)
''', '''        shutil.copystat(self._path(source), self._path(dest))
'''))
edit('loc_unlink', 'C25 C17', 'localfs.py', ('''        return os.unlink(pth)
''', '''        return os.remove(pth)
'''))
edit('loc_mkdir', 'C25 C21', 'localfs.py', ('''        path = self._path(unc)
        if path:
            return os.mkdir(path)
''', '''        name = self._path(unc)
        if not name:
            return
        os.mkdir(name)
'''))
# --- zip -----------------------------------------------------------------
edit('zip_ispart_any', 'C23 C24', 'zip.py', ('''        for item in self._ziphandle.namelist():
            result = compare_path_strings(path_string, item)
            if result in expected:
                return True
        return False
''', '''        return any(compare_path_strings(path_string, item) in expected
                   for item in self._ziphandle.namelist())
'''))
edit('zip_content_prefix', 'C23', 'zip.py', ('''    for i, item in enumerate(p1_parts):
        if item != p2_parts[i]:
            return ''
    return p2_parts[i+1]
''', '''    count = len(p1_parts)
    return p2_parts[count] if p2_parts[:count] == p1_parts else ''
'''))
edit('zip_listdir', 'C23 C22', 'zip.py', ('''        content_set = set()
        for item in self._ziphandle.namelist():
            citem = content_item(path_string, item)
            if citem:
                content_set.add(citem)

        return list(sorted(content_set))
''', '''        items = {content_item(path_string, item) for item in self._ziphandle.namelist()}
        items.discard('')
        return sorted(items)
'''))
edit('zip_open', 'C24', 'zip.py', ('''        self.open_zip(options)
        if options is None:
            options = 'r'
        if 'r' in options:
            return self._open_for_reading(unc, options)
        elif 'w' in options:
            return self._open_for_writing(unc, options)
''', '''        if options is None:
            options = 'r'
        self.open_zip(options)
        if 'r' in options:
            return self._open_for_reading(unc, options)
        if 'w' in options:
            return self._open_for_writing(unc, options)
'''))
edit('zip_open_zip', 'C24 C23', 'zip.py', ('''        if options is None or 'r' in options:
            zip_options = 'r'
            options = 'rb'
        if 'w' in options:
            if self._zip_file_path().isfile():
                zip_options = 'a'
                options = 'r+b'
            else:
                zip_options = 'w'
                options = 'wb'

        self._file_handle = self._zip_file_path().open(options)
''', '''        zip_file = self._zip_file_path()
        if options is None or 'r' in options:
            zip_options, options = 'r', 'rb'
        elif 'w' in options:
            zip_options, options = ('a', 'r+b') if zip_file.isfile() else ('w', 'wb')

        self._file_handle = zip_file.open(options)
'''))
edit('zip_read', 'C24', 'zip.py', ('''        path_string = self._path(unc)
        try:
            self._ziphandle.getinfo(path_string)
            return self._ziphandle.open(path_string)
        except KeyError:
            raise FileDoesNotExistError()
''', '''        try:
            return self._ziphandle.open(self._path(unc), 'r')
        except KeyError:
            raise FileDoesNotExistError()
'''))
edit('zip_exit', 'C24', 'zip.py', ('''        self.zip_backend.open_zip('w')
        self.zip_backend._ziphandle.writestr(self.path_string,
                                             self.byte_buffer.getvalue())
        self.byte_buffer.close()
        self.zip_backend.close_zip()
        self.zip_backend.open_zip()
''', '''        backend, data = self.zip_backend, self.byte_buffer.getvalue()
        self.byte_buffer.close()
        backend.open_zip('w')
        try:
            backend._ziphandle.writestr(self.path_string, data)
        finally:
            backend.close_zip()
        backend.open_zip()
'''))
# --- misc ----------------------------------------------------------------
edit('tmp_close', 'C26', 'misc.py', ('''        retval = self.handle.close()
        os.unlink(self.tmpfilename)
        return retval
''', '''        result = self.handle.close()
        os.remove(self.tmpfilename)
        return result
'''))
edit('tmp_finally', 'C26', 'misc.py', ('''        retval = self.handle.close()
        os.unlink(self.tmpfilename)
        return retval
''', '''        try:
            return self.handle.close()
        finally:
            os.unlink(self.tmpfilename)
'''))


def run(job):
    name, props, file, changes = job
    top = tempfile.mkdtemp(prefix='refactoring')
    os.chmod(top, 0o755)
    out = []
    try:
        repo = os.path.join(top, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        path = os.path.join(repo, 'abl/vpath/base', file)
        with open(path) as f:
            s = f.read()
        for old, new in changes:
            assert s.count(old) == 1, (name, s.count(old), old)
            s = s.replace(old, new)
        with open(path, 'w') as f:
            f.write(s)
        t = subprocess.run(['/opt/venv/bin/python', '-B', '-m', 'pytest', 'tests', '-q', '-p', 'no:cacheprovider'], cwd=repo,
                           env=dict(os.environ, PYTHONPATH=repo), capture_output=True, text=True)
        out.append('%-20s %s' % (name, t.stdout.strip().splitlines()[-1]))
        for p in props:
            # a copy: checks write their evidence
            r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), p, 'quick'], cwd=HERE,
                               env=dict(os.environ, VERIF_REPO=repo), capture_output=True, text=True)
            text = r.stdout + r.stderr
            found = any(l.startswith('VIOLATION') and 'no-failing-input-found' not in l for l in text.splitlines())
            state = 'quiet' if r.returncode == 0 else 'ALARM' if found else 'no-input' if r.returncode == 1 else 'BROKEN'
            out.append('    %-20s %s %s' % (name, p, state))
            if state != 'quiet':
                out += ['        ' + l[:300] for l in text.splitlines()[-4:]]
    except Exception as e:
        out.append('%s: %r' % (name, e))
    finally:
        shutil.rmtree(top)
    print('\n'.join(out), flush=True)


def main():
    from concurrent.futures import ThreadPoolExecutor
    wanted = sys.argv[1:]
    jobs = [j for j in ALL if not wanted or any(j[0].startswith(w) for w in wanted)]
    with ThreadPoolExecutor(int(os.environ.get('WORKERS', 4))) as pool:
        list(pool.map(run, jobs))


if __name__ == '__main__':
    import refactorings, refactorings2, refactorings3     # one list for all series
    refactorings.main()
