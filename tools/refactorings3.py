"""a third series of behaviour-preserving edits: other idioms of the language and the standard library"""
from refactorings import edit

# --- uriparse, simpleuri -------------------------------------------------
edit('y_qs_generator', 'C01 C02 C08', 'simpleuri.py', ('''    result = {}
    qparts = query.split('&')
    for item in qparts:
        key, value = item.split('=', 1)
        key = key.strip()
        value = value.strip()
        result[key] = unquote_plus(value)
    return result
''', '''    def pairs():
        for item in query.split('&'):
            key, value = item.split('=', 1)
            yield key.strip(), unquote_plus(value.strip())
    return dict(pairs())
'''))
edit('y_netloc_format', 'C01 C02 C08', 'simpleuri.py', ('''        if self.hostname:
            if self.port:
                self.netloc = ':'.join([self.hostname,str(self.port)])
            else:
                self.netloc = self.hostname
''', '''        if self.hostname:
            self.netloc = f'{self.hostname}:{self.port}' if self.port else self.hostname
'''))
edit('y_netloc_format2', 'C01 C08', 'simpleuri.py', ("':'.join([self.hostname,str(self.port)])", "'{}:{}'.format(self.hostname, self.port)"))
edit('y_str_percent', 'C02 C07', 'simpleuri.py', ('''            parts += [':', str(self.port)]
        parts += [self.path, rest]

        return ''.join(parts)
''', '''            parts.append(':%d' % self.port)

        return ''.join(parts) + self.path + rest
'''))
edit('y_str_credentials', 'C02 C07', 'simpleuri.py', ('''        if self.username:
            parts.append(self.username)
        if self.password:
            parts += [':', self.password]
        if self.username or self.password:
            parts.append('@')
''', '''        credentials = self.username or ''
        if self.password:
            credentials += ':' + self.password
        if credentials:
            parts.extend([credentials, '@'])
'''))
edit('y_eq_all', 'C08', 'simpleuri.py', ('''        return (
            self.scheme == other.scheme and
            self.netloc == other.netloc and
            self.path == other.path and
            self.query == other.query
            )
''', '''        return all(
            getattr(self, name) == getattr(other, name)
            for name in ('scheme', 'netloc', 'path', 'query')
            )
'''))
edit('y_eq_not_implemented', 'C08', 'simpleuri.py', ('''        if not isinstance(other, self.__class__):
            return False
''', '''        if not isinstance(other, type(self)):
            return False
'''))
edit('y_urisplit_span', 'C01 C02', 'uriparse.py', ('''        uri = uri[:m.start(2)]+'__inner_part__'+uri[m.end(2):]
''', '''        start, end = m.span(2)
        uri = '__inner_part__'.join((uri[:start], uri[end:]))
'''))
edit('y_urisplit_search', 'C01 C02', 'uriparse.py', ('''    if m is not None:
        authority = authority.replace''', '''    if inner_value:
        authority = authority.replace'''))
edit('y_unsplit_format', 'C02 C28', 'uriparse.py', ('''    result = ''
    if scheme:
        result += scheme + ':'
    if authority:
        result += '//' + authority
    if path:
        result += path
    if query:
        result += '?' + query
    if fragment:
        result += '#' + fragment
    return result


def split''', '''    return ''.join((
        scheme + ':' if scheme else '',
        '//' + authority if authority else '',
        path or '',
        '?' + query if query else '',
        '#' + fragment if fragment else '',
        ))


def split'''))
edit('y_parser_comp', 'C28', 'uriparse.py', ('''        dlist = list(self._defaults)
        for d in range(len(self._defaults)):
            if dlist[d]:
                dlist[d] = str(dlist[d])
        self._defaults = dlist
''', '''        self._defaults = [str(d) if d else d for d in self._defaults]
'''))
edit('y_parser_star', 'C28', 'uriparse.py', ('''        return tuple([self.scheme_of(uri)] + list(self.parser_for(uri)(defaults).parse(uri)))
''', '''        parser = self.parser_for(uri)(defaults)
        return (self.scheme_of(uri), *parser.parse(uri))
'''))
edit('y_parser_partition', 'C28', 'uriparse.py', ('''        return uri.split(':')[0]
''', '''        return uri.partition(':')[0]
'''))
edit('y_parser_dict', 'C28', 'uriparse.py', ('''        self._parsers = {}
        self._parsers.update(schemes)
        self._parsers.update(extra)
''', '''        self._parsers = {**schemes, **extra}
'''))
edit('y_parser_for', 'C28', 'uriparse.py', ('''        return self._parsers.get(self.scheme_of(uri), DefaultURIParser)
''', '''        try:
            return self._parsers[self.scheme_of(uri)]
        except KeyError:
            return DefaultURIParser
'''))
edit('y_dirname', 'C28', 'uriparse.py', ('''    q = p
    while q and not q.endswith('/'):
        q = q[:-1]
    return q
''', '''    head, slash, _ = p.rpartition('/')
    return head + slash
'''))

# --- fs ------------------------------------------------------------------
edit('y_create_setdefault', 'C09 C29', 'fs.py', ('''            if key not in self.connections:
                conn = self.schemes[scheme](*key[1:-1], **extras)
                self.connections[key] = conn
''', '''            if key in self.connections:
                return
            factory = self.schemes[scheme]
            _, hostname, port, username, password, vpath_connector, _ = key
            self.connections[key] = factory(hostname, port, username, password, vpath_connector, **extras)
'''))
edit('y_create_acquire', 'C09 C29', 'fs.py', ('''        with self.creation_locks[scheme]:
            # another thread may have created it in the meantime
            if key not in self.connections:
                conn = self.schemes[scheme](*key[1:-1], **extras)
                self.connections[key] = conn
''', '''        lock = self.creation_locks[scheme]
        lock.acquire()
        try:
            # another thread may have created it in the meantime
            if key not in self.connections:
                self.connections[key] = self.schemes[scheme](*key[1:-1], **extras)
        finally:
            lock.release()
'''))
edit('y_cleanup_static', 'C10', 'fs.py', ('''                try:
                    conn.close()
                except:
                    print("### Exception while closing connection %s" % conn)
                    traceback.print_exc()
                del self.connections[key]

''', '''                self._close(conn)
                self.connections.pop(key)


    @staticmethod
    def _close(conn):
        try:
            conn.close()
        except BaseException:
            print("### Exception while closing connection {}".format(conn))
            traceback.print_exc()

'''))
edit('y_cleanup_filter', 'C10', 'fs.py', ('''        for key, conn in list(self.connections.items()):
            if ((now - conn.last_used) > self.clean_timeout) or force:
                try:
''', '''        stale = [
            (key, conn)
            for key, conn in self.connections.items()
            if force or now - conn.last_used > self.clean_timeout
            ]
        for key, conn in stale:
            if True:
                try:
'''))
edit('y_remove_chain', 'C17', 'fs.py', ('''        for fname in files:
            connection.removefile(root / fname)

        for dname in dirs:
            d = root / dname
            if connection.islink(d):
                connection.removefile(d)
            else:
                connection.removedir(d)
''', '''        for name in files + dirs:
            entry = root / name
            if name in files or connection.islink(entry):
                connection.removefile(entry)
            else:
                connection.removedir(entry)
'''))
edit('y_remove_choice', 'C17', 'fs.py', ('''            d = root / dname
            if connection.islink(d):
                connection.removefile(d)
            else:
                connection.removedir(d)
''', '''            d = root / dname
            remove = connection.removefile if connection.islink(d) else connection.removedir
            remove(d)
'''))
edit('y_uri_match', 'C01 C06', 'fs.py', ('''    scheme = 'file'
    if isinstance(uri, BaseUri):
        scheme = uri.scheme
    else:
        m = scheme_re.match(uri)
        if m is not None:
            scheme = m.group(1)

    return''', '''    if isinstance(uri, BaseUri):
        scheme = uri.scheme
    elif (m := scheme_re.match(uri)):
        scheme = m.group(1)
    else:
        scheme = 'file'

    return'''))
edit('y_init_prefix', 'C01 C06', 'fs.py', ('''            if uri.startswith('file://'):
                uri = uri[7:]
''', '''            uri = uri.removeprefix('file://')
'''))
edit('y_init_loop', 'C01 C07 C09', 'fs.py', ('''        if not self.username:
            if 'username' in self.extras:
                self.username = self.extras['username']
            elif 'username' in self.parse_result.query:
                self.username = self.parse_result.query['username']
        if not self.password:
            if 'password' in self.extras:
                self.password = self.extras['password']
            elif 'password' in self.parse_result.query:
                self.password = self.parse_result.query['password']
''', '''        for name in ('username', 'password'):
            if not getattr(self, name):
                for source in (self.extras, self.parse_result.query):
                    if name in source:
                        setattr(self, name, source[name])
                        break
'''))
edit('y_extras_merge', 'C07 C09', 'fs.py', ('''        extras = self.extras.copy()
        if self.scheme not in ('http','https'):
            extras.update(self.query)

        return extras
''', '''        if self.scheme in ('http', 'https'):
            return dict(self.extras)
        return {**self.extras, **self.query}
'''))
edit('y_get_connection_filter', 'C07 C09 C11', 'fs.py', ('''        extras = self._extras()
        extras.pop('username', None)
        extras.pop('password', None)
        return CONNECTION''', '''        extras = {
            name: value for name, value in self._extras().items()
            if name not in ('username', 'password')
            }
        return CONNECTION'''))
edit('y_scheme_or', 'C01 C08', 'fs.py', ('''        if not self._scheme:
            scheme = self.parse_result.scheme
            self._scheme = scheme
        return self._scheme
''', '''        self._scheme = self._scheme or self.parse_result.scheme
        return self._scheme
'''))
edit('y_with_connection_wraps', 'C11', 'fs.py', ('''    self.connection = self.get_connection()
    self.connection.last_used = time.time()
    self.connection.pre_call_hook(self, func)
    return func(self, *args, **argd)
''', '''    connection = self.connection = self.get_connection()
    setattr(connection, 'last_used', time.time())
    connection.pre_call_hook(self, func)
    result = func(self, *args, **argd)
    return result
'''))
edit('y_walk_sort_late', 'C20', 'fs.py', ('''        names = sorted(self.listdir(top))

        dirs = []
        nondirs = []
        for name in names:
            if self.isdir(top / name):
                dirs.append(name)
            else:
                nondirs.append(name)
''', '''        dirs, nondirs = [], []
        for name in self.listdir(top):
            (dirs if self.isdir(top / name) else nondirs).append(name)
        dirs.sort()
        nondirs.sort()
'''))
edit('y_makedirs_flat', 'C21', 'fs.py', ('''        pth, tail = path.split()
        if not pth.isdir():
            self.makedirs(pth)
        if tail:
            return path.mkdir()
        else:
            return path
''', '''        parent, name = path.split()
        if not parent.isdir():
            parent.makedirs()
        return path.mkdir() if name else path
'''))
edit('y_copy_stack', 'C18', 'fs.py', ('''                with source.open('rb') as infs, dest.open('wb') as outfs:
                    shutil.copyfileobj(infs, outfs, 8192)
                if use_same_backend:
                    self.copystat(source, dest)
''', '''                with source.open('rb') as infs:
                    with dest.open('wb') as outfs:
                        shutil.copyfileobj(infs, outfs, length=8192)
                if use_same_backend:
                    self.copystat(source, dest)
'''))
edit('y_md5_walrus', 'C27', 'fs.py', ('''            block = inf.read(4096)
            while block:
                hash_.update(block)
                block = inf.read(4096)
''', '''            while block := inf.read(4096):
                hash_.update(block)
'''))
edit('y_md5_partial', 'C27', 'fs.py', ('''            block = inf.read(4096)
            while block:
                hash_.update(block)
                block = inf.read(4096)
''', '''            for block in iter(functools.partial(inf.read, 8192), b''):
                hash_.update(block)
'''), ('''import fnmatch
''', '''import fnmatch
import functools
'''))

# --- memory --------------------------------------------------------------
edit('y_mem_lookup_contextmanager', 'C12 C13 C14', 'memory.py', ('''class LookupExceptionClass(object):
    def __init__(self, fs, exc_class):
        self.fs = fs
        self.exc_class = exc_class
        self.prev_exc_class = None

    def __enter__(self):
        self.prev_exc_class = self.fs.lookup_exc_class
        self.fs.lookup_exc_class = self.exc_class
        return self

    def __exit__(self, *args):
        self.fs.lookup_exc_class = self.prev_exc_class
''', '''from contextlib import contextmanager


@contextmanager
def LookupExceptionClass(fs, exc_class):
    previous, fs.lookup_exc_class = fs.lookup_exc_class, exc_class
    try:
        yield
    finally:
        fs.lookup_exc_class = previous
'''))
edit('y_mem_path_filter', 'C12 C13', 'memory.py', ('''        return "/".join([x for x in p.split("/") if x])
''', '''        return "/".join(filter(None, p.split("/")))
'''))
edit('y_mem_mkdir_slices', 'C13 C21', 'memory.py', ('''            nd = self._get_dir(p.split("/")[:-1])
            dir_to_create = p.split("/")[-1]
            if nd.has(dir_to_create):
''', '''            *parents, dir_to_create = p.split("/")
            nd = self._get_dir(parents)
            if nd.has(dir_to_create):
'''))
edit('y_mem_kinds', 'C12', 'memory.py', ('''                nd = self._get_node_for_path(self._fs, path, throw=False)
                if nd is None:
                    return False
                return nd.kind == NodeKind.FILE
''', '''                nd = self._get_node_for_path(self._fs, path, throw=False)
                return nd is not None and nd.kind == NodeKind.FILE
'''))
edit('y_mem_steps', 'C13 C22', 'memory.py', ('''        nd = self._get_dir([x for x in self._path(path).split("/") if x])
''', '''        p = self._path(path)
        nd = self._get_dir(p.split("/") if p else [])
'''))
edit('y_mem_lock_enter', 'C16', 'memory.py', ('''        if self.fail_on_lock:
            if not self.lock.acquire(False):
                raise LockFileObtainException
        else:
            self.lock.acquire()
        return mfile
''', '''        obtained = self.lock.acquire(blocking=not self.fail_on_lock)
        if not obtained:
            raise LockFileObtainException()
        return mfile
'''))
edit('y_mem_lock_try', 'C16', 'memory.py', ('''        self.lock.release()
        if self.cleanup:
            self.path.remove()
''', '''        try:
            self.lock.release()
        finally:
            if self.cleanup:
                self.path.remove()
'''))
edit('y_mem_readable', 'C14', 'memory.py', ('''    def _check_readable(self):
        if not self.readable:
            raise IOError(errno.EBADF, "bad file descriptor")
''', '''    def _check_readable(self):
        if self.readable:
            return
        raise OSError(errno.EBADF, os.strerror(errno.EBADF))
'''), ('''import errno
''', '''import errno
import os
'''))
edit('y_mem_readlines_map', 'C14', 'memory.py', ('''        for line in self.mem_file.readlines():
            yield self.decode(line)
''', '''        yield from map(self.decode, self.mem_file.readlines())
'''))
edit('y_mem_size', 'C15 C14', 'memory.py', ('''        return len(self._data.getvalue())
''', '''        return self._data.getbuffer().nbytes
'''))
edit('y_mem_set_loop', 'C15', 'memory.py', ('''            if "mode" in set_info:
                current.mode = set_info["mode"]
            if "mtime" in set_info:
                current.mtime = set_info["mtime"]
            return
''', '''            for field in ("mode", "mtime"):
                if field in set_info:
                    setattr(current, field, set_info[field])
            return
'''))
edit('y_mem_copystat_tuple', 'C15 C18', 'memory.py', ('''        dest_current.mtime = src_current.mtime
        dest_current.mode = src_current.mode
''', '''        dest_current.mtime, dest_current.mode = src_current.mtime, src_current.mode
'''))

# --- zip, localfs, misc --------------------------------------------------
edit('y_zip_set', 'C23', 'zip.py', ('''        content_set = set()
        for item in self._ziphandle.namelist():
            citem = content_item(path_string, item)
            if citem:
                content_set.add(citem)

        return list(sorted(content_set))
''', '''        items = (content_item(path_string, item) for item in self._ziphandle.namelist())
        return sorted({item for item in items if item})
'''))
edit('y_zip_any', 'C23', 'zip.py', ('''        for item in self._ziphandle.namelist():
            result = compare_path_strings(path_string, item)
            if result in expected:
                return True
        return False
''', '''        return any(
            compare_path_strings(path_string, item) in expected
            for item in self._ziphandle.namelist()
            )
'''))
edit('y_zip_compare_slice', 'C23', 'zip.py', ('''    for i, item in enumerate(list1):
        if item != list2[i]:
            return 0
    if len(list2) > len(list1):
        return ISDIR
    else:
        return ISFILE
''', '''    if list2[:len(list1)] != list1:
        return 0
    return ISDIR if len(list2) > len(list1) else ISFILE
'''))
edit('y_zip_startswith', 'C23', 'zip.py', ('''    if len(path2) < len(path1):
        return 0
    if path1 == path2:
        return ISFILE
    else:
        p1_parts = path1.split(path_sep)
        p2_parts = path2.split(path_sep)
        if len(p2_parts) < len(p1_parts):
            return 0
        else:
            return compare_parts(p1_parts, p2_parts)
''', '''    if path1 == path2:
        return ISFILE
    if path2.startswith(path1 + path_sep):
        return ISDIR
    return 0
'''))
edit('y_zip_getinfo', 'C24', 'zip.py', ('''        try:
            self._ziphandle.getinfo(path_string)
            return self._ziphandle.open(path_string)
        except KeyError:
            raise FileDoesNotExistError()
''', '''        try:
            return self._ziphandle.open(path_string, 'r')
        except KeyError as e:
            raise FileDoesNotExistError() from e
'''))
edit('y_zip_options', 'C24 C23', 'zip.py', ('''        if options is None or 'r' in options:
            zip_options = 'r'
            options = 'rb'
        if 'w' in options:
            if self._zip_file_path().isfile():
                zip_options = 'a'
                options = 'r+b'
            else:
                zip_options = 'w'
                options = 'wb'

        self._file_handle = self._zip_file_path().open(options)
''', '''        zip_file = self._zip_file_path()
        if options is None or 'r' in options:
            zip_options, options = 'r', 'rb'
        elif 'w' in options:
            zip_options, options = ('a', 'r+b') if zip_file.isfile() else ('w', 'wb')

        self._file_handle = zip_file.open(options)
'''))
edit('y_tmp_cm', 'C26', 'misc.py', ('''        retval = self.handle.close()
        os.unlink(self.tmpfilename)
        return retval
''', '''        try:
            return self.handle.close()
        finally:
            os.remove(self.tmpfilename)
'''))
edit('y_wd_return', 'C26', 'misc.py', ('''        os.chdir(self.cwd)
''', '''        os.chdir(self.cwd)
        return None
'''))
edit('y_loc_items', 'C25', 'localfs.py', ('''        stats = stat_func(p)
        ctime = stats[stat.ST_CTIME]
        mtime = stats[stat.ST_MTIME]
        atime = stats[stat.ST_ATIME]
        size = stats[stat.ST_SIZE]
        mode = stats[stat.ST_MODE]
        return Bunch(
            ctime = datetime.datetime.fromtimestamp(ctime),
            mtime = datetime.datetime.fromtimestamp(mtime),
            atime = datetime.datetime.fromtimestamp(atime),
            size = size,
            mode = mode,
            )
''', '''        stats = stat_func(p)
        when = lambda field: datetime.datetime.fromtimestamp(stats[field])
        return Bunch(
            ctime=when(stat.ST_CTIME),
            mtime=when(stat.ST_MTIME),
            atime=when(stat.ST_ATIME),
            size=stats[stat.ST_SIZE],
            mode=stats[stat.ST_MODE],
            )
'''))
edit('y_loc_attributes', 'C25', 'localfs.py', ('''        size = stats[stat.ST_SIZE]
        mode = stats[stat.ST_MODE]
''', '''        size = stats.st_size
        mode = stats.st_mode
'''))
edit('y_loc_open_args', 'C25', 'localfs.py', ('''        if options is not None:
            return open(self._path(unc), options)
        else:
            return open(self._path(unc))
''', '''        return open(self._path(unc), 'r' if options is None else options)
'''))
edit('y_loc_lock', 'C16', 'localfs.py', ('''        return LockFile(self._path(path), fail_on_lock=fail_on_lock, cleanup=cleanup)
''', '''        options = dict(fail_on_lock=fail_on_lock, cleanup=cleanup)
        return LockFile(path.path, **options)
'''))
edit('y_zip_suppress', 'C24', 'zip.py', ("""        try:
            self._ziphandle.getinfo(path_string)
            return self._ziphandle.open(path_string)
        except KeyError:
            raise FileDoesNotExistError()
""", """        with contextlib.suppress(KeyError):
            return self._ziphandle.open(path_string)
        raise FileDoesNotExistError()
"""), ("""from io import BytesIO
""", """import contextlib
from io import BytesIO
"""))
edit('y_cleanup_suppress', 'C10', 'fs.py', ("""                try:
                    conn.close()
                except:
                    print("### Exception while closing connection %s" % conn)
                    traceback.print_exc()
                del self.connections[key]
""", """                with suppress(BaseException):
                    conn.close()
                del self.connections[key]
"""), ("""import traceback
""", """import traceback
from contextlib import suppress
"""))

edit('y_open_match', 'C12 C13 C14 C15', 'memory.py', ('''            if options is None or "r" in options:
                return self._open_for_read(path, binary=binary)
            elif "w" in options:
                return self._open_for_write(path, binary=binary)
            elif "a" in options:
                return self._open_for_append(path, binary=binary)
            else:
                raise OSError(errno.EINVAL, "The mode flag is not valid")
''', '''            kind = 'r' if options is None else next((k for k in 'rwa' if k in options), None)
            match kind:
                case 'r':
                    opener = self._open_for_read
                case 'w':
                    opener = self._open_for_write
                case 'a':
                    opener = self._open_for_append
                case _:
                    raise OSError(errno.EINVAL, "The mode flag is not valid")
            return opener(path, binary=binary)
'''))
edit('y_zip_match', 'C23 C24', 'zip.py', ('''        if 'r' in options:
            return self._open_for_reading(unc, options)
        elif 'w' in options:
            return self._open_for_writing(unc, options)
''', '''        match ('r' in options, 'w' in options):
            case (True, _):
                return self._open_for_reading(unc, options)
            case (False, True):
                return self._open_for_writing(unc, options)
'''))
edit('y_node_match', 'C12', 'memory.py', ('''                elif value.kind == NodeKind.LINK:''', '''                elif (lambda v: v.kind)(value) == NodeKind.LINK:'''))
