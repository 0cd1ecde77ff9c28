"""second series of behaviour-preserving edits (see refactorings.py)"""
from refactorings import edit

# --- uriparse ---------------------------------------------------------------
edit('x_join_auth_list', 'C02 C28 C01', 'uriparse.py', ('''    result = ''
    if user or passwd:
        result += user or ''
        if passwd:
            result += ':' + passwd
        result += '@'
    if host:
        result += host
    if port:
        result += ':' + port
    return result
''', '''    pieces = []
    if user or passwd:
        pieces.append(user or '')
        if passwd:
            pieces.extend([':', passwd])
        pieces.append('@')
    if host:
        pieces.append(host)
    if port:
        pieces.append(':' + port)
    return ''.join(pieces)
'''))
edit('x_split_auth_helper', 'C01 C02 C28', 'uriparse.py', ('''    if userinfo and ':' in userinfo:
        user, passwd = userinfo.split(':', 1)
    else:
        user, passwd = userinfo, None
    if hostport and ':' in hostport:
        host, port = hostport.split(':', 1)
    else:
        host, port = hostport, None
    if not host:
        host = None
    return (user, passwd, host, port)
''', '''    user, passwd = _split_colon(userinfo)
    host, port = _split_colon(hostport)
    return (user, passwd, host or None, port)


def _split_colon(text):
    if text and ':' in text:
        return text.split(':', 1)
    return text, None
'''))
edit('x_unsplit_format', 'C02 C28', 'uriparse.py', ('''    result = ''
    if scheme:
        result += scheme + ':'
    if authority:
        result += '//' + authority
    if path:
        result += path
    if query:
        result += '?' + query
    if fragment:
        result += '#' + fragment
    return result
''', '''    return ''.join([
        '%s:' % scheme if scheme else '',
        '//%s' % authority if authority else '',
        path or '',
        '?%s' % query if query else '',
        '#%s' % fragment if fragment else '',
    ])
'''))
edit('x_urisplit_replace', 'C01 C02 C28 C03', 'uriparse.py', ('''    if scheme not in ['http', 'https']:
        if fragment is not None:
            path = '#'.join([path, fragment])
            fragment = ''
''', '''    is_web = scheme in ('http', 'https')
    if not is_web and fragment is not None:
        path, fragment = path + '#' + fragment, ''
'''))
# --- fs: registry -------------------------------------------------------------
edit('x_cleanup_helper', 'C10 C29', 'fs.py', ('''            if ((now - conn.last_used) > self.clean_timeout) or force:
                try:
                    conn.close()
                except:
                    print("### Exception while closing connection %s" % conn)
                    traceback.print_exc()
                del self.connections[key]
''', '''            if force or self._is_stale(conn, now):
                self._close(conn)
                del self.connections[key]


    def _is_stale(self, conn, now):
        return (now - conn.last_used) > self.clean_timeout


    def _close(self, conn):
        try:
            conn.close()
        except:
            print("### Exception while closing connection %s" % conn)
            traceback.print_exc()
'''))
edit('x_cleanup_list', 'C10', 'fs.py', ('''        for key, conn in list(self.connections.items()):
            if ((now - conn.last_used) > self.clean_timeout) or force:
                try:
''', '''        stale = [(key, conn) for key, conn in self.connections.items()
                 if force or now - conn.last_used > self.clean_timeout]
        for key, conn in stale:
            if True:
                try:
'''))
edit('x_cleanup_oldest', 'C10', 'fs.py', ('''        now = time.time()
        for key, conn in list(self.connections.items()):
            if ((now - conn.last_used) > self.clean_timeout) or force:
''', '''        oldest = time.time() - self.clean_timeout
        for key in list(self.connections.keys()):
            conn = self.connections[key]
            if force or conn.last_used < oldest:
'''))
edit('x_cleaner_until', 'C10', 'fs.py', ('''            now = time.time()
            try:
                while (time.time() - now) < self.clean_interval:
                    if not self.run_clean_thread:
''', '''            end = time.time() + self.clean_interval
            try:
                while time.time() < end:
                    if not self.run_clean_thread:
'''))
# --- fs: BaseUri ---------------------------------------------------------------
edit('x_with_connection', 'C11', 'fs.py', ('''    self.connection = self.get_connection()
    self.connection.last_used = time.time()
    self.connection.pre_call_hook(self, func)
    return func(self, *args, **argd)
''', '''    self.connection = conn = self.get_connection()
    conn.last_used = time.time()
    conn.pre_call_hook(self, func)
    result = func(self, *args, **argd)
    return result
'''))
edit('x_get_connection', 'C09 C11', 'fs.py', ('''        extras = self._extras()
        extras.pop('username', None)
        extras.pop('password', None)
        return CONN''', '''        extras = self._extras()
        for name in ('username', 'password'):
            if name in extras:
                del extras[name]
        return CONN'''))
edit('x_get_connection_comp', 'C09 C11', 'fs.py', ('''        extras = self._extras()
        extras.pop('username', None)
        extras.pop('password', None)
        return CONN''', '''        extras = dict((k, v) for k, v in self._extras().items()
                      if k not in ('username', 'password'))
        return CONN'''))
edit('x_credentials', 'C01 C07 C09 C11', 'fs.py', ('''        if not self.username:
            if 'username' in self.extras:
                self.username = self.extras['username']
            elif 'username' in self.parse_result.query:
                self.username = self.parse_result.query['username']
        if not self.password:
            if 'password' in self.extras:
                self.password = self.extras['password']
            elif 'password' in self.parse_result.query:
                self.password = self.parse_result.query['password']
''', '''        for source in (self.extras, self.parse_result.query):
            if not self.username and 'username' in source:
                self.username = source['username']
                break
        for source in (self.extras, self.parse_result.query):
            if not self.password and 'password' in source:
                self.password = source['password']
                break
'''))
edit('x_init_split', 'C01 C03 C05 C06 C07', 'fs.py', ('''            if uri.startswith('file://'):
                uri = uri[7:]
            uri = normalize_uri(uri, '\\\\')
            if not '://' in uri and not (uri == '.' or uri.startswith(('/', './'))):
                uri = './'+uri
            if not '://' in uri:
                uri = 'file://'+uri
            self.uri = uri
''', '''            uri = self._complete(uri)
            self.uri = uri
'''), ('''    def get_connection(self):
        # the cred''', '''    @staticmethod
    def _complete(text):
        if text.startswith('file://'):
            text = text[len('file://'):]
        text = normalize_uri(text, '\\\\')
        if '://' in text:
            return text
        if text != '.' and not text.startswith('/') and not text.startswith('./'):
            text = './' + text
        return 'file://' + text


    def get_connection(self):
        # the cred'''))
edit('x_eq_early', 'C08 C03', 'fs.py', ('''        if isinstance(other, BaseUri):
            return self.parse_result == other.parse_result
        else:
            return False
''', '''        if not isinstance(other, BaseUri):
            return False
        return self.parse_result == other.parse_result
'''))
edit('x_eq_and', 'C08 C03', 'fs.py', ('''        if isinstance(other, BaseUri):
            return self.parse_result == other.parse_result
        else:
            return False
''', '''        return isinstance(other, BaseUri) and self.parse_result == other.parse_result
'''))
edit('x_split_find', 'C03 C04 C06 C07', 'fs.py', ('''        try:
            first, second = path.rsplit('/', 1)
            # we might be already on the root
            if not first:
                first = '/'
        except ValueError:
            first = '.' if path else ''
            second = path
        return''', '''        if '/' in path:
            cut = path.rfind('/')
            first, second = path[:cut] or '/', path[cut + 1:]
        else:
            first, second = ('.' if path else ''), path
        return'''))
edit('x_directory_for', 'C03 C04 C06', 'fs.py', ('''        newpath = self
        while level>0:
            newpath = newpath.split()[0]
            level -= 1
        return newpath
''', '''        result = self
        for _ in range(level):
            result, _name = result.split()
        return result
'''))
edit('x_last_for', 'C03 C04', 'fs.py', ('''        if not parts:
            return ''
        if len(parts) > 1:
            if not parts[-1]:
                return parts[-2]
            else:
                return parts[-1]
''', '''        if not parts:
            return ''
        if len(parts) > 1:
            return parts[-1] if parts[-1] else parts[-2]
'''))
# --- fs: FileSystem ----------------------------------------------------------------
edit('x_copy_split', 'C18 C19', 'fs.py', ('''        if not recursive:
            assert source.isfile()
            if dest.isdir():
                dest = dest / source.last()

            if source.islink() and not followlinks:
                self._copy_link(source, dest)
            else:
                with source.open('rb') as infs, dest.open('wb') as outfs:
                    shutil.copyfileobj(infs, outfs, 8192)
                if use_same_backend:
                    self.copystat(source, dest)
        else:
''', '''        if not recursive:
            assert source.isfile()
            if dest.isdir():
                dest = dest / source.last()
            self._copy_one(source, dest, followlinks, use_same_backend)
        else:
'''), ('''                        if srcf.islink() and not followlinks:
                            self._copy_link(srcf, destf)
                        else:
                            with srcf.open('rb') as infs, destf.open('wb') as outfs:
                                shutil.copyfileobj(infs, outfs, 8192)
                            if use_same_backend:
                                self.copystat(srcf, destf)
''', '''                        self._copy_one(srcf, destf, followlinks, use_same_backend)


    def _copy_one(self, source, dest, followlinks, with_stat):
        if not followlinks and source.islink():
            self._copy_link(source, dest)
            return
        with source.open('rb') as infs:
            with dest.open('wb') as outfs:
                shutil.copyfileobj(infs, outfs, 8192)
        if with_stat:
            self.copystat(source, dest)
'''))
edit('x_copy_ignore', 'C18', 'fs.py', ('''        if ignore is not None:
            ignore = set(ignore)
        else:
            ignore = set()
''', '''        ignore = frozenset(ignore or ())
'''))
edit('x_copy_dirs_slice', 'C18', 'fs.py', ('''                    for folder in dirs[:]:
                        if folder in ignore:
                            dirs.remove(folder)
                            continue
                        ddir''', '''                    dirs[:] = [d for d in dirs if d not in ignore]
                    for folder in dirs:
                        ddir'''))
edit('x_copy_early_return', 'C18 C19', 'fs.py', ('''            if source.islink() and not followlinks:
                self._copy_link(source, droot)
            else:
                droot.makedirs()
''', '''            if source.islink() and not followlinks:
                self._copy_link(source, droot)
                return
            if True:
                droot.makedirs()
'''))
edit('x_copy_order', 'C18 C19', 'fs.py', ('''        if not source.exists():
            raise FileDoesNotExistError(str(source))

        if not recursive:
''', '''        missing = not source.exists()
        if missing:
            raise FileDoesNotExistError(str(source))

        if not recursive:
'''))
edit('x_makedirs', 'C21 C18', 'fs.py', ('''        if path.isdir():
            return path
        pth, tail = path.split()
        if not pth.isdir():
            self.makedirs(pth)
        if tail:
            return path.mkdir()
        else:
            return path
''', '''        if path.isdir():
            return path
        parent, name = path.split()
        if not parent.isdir():
            self.makedirs(parent)
        return path.mkdir() if name else path
'''))
edit('x_walk_lists', 'C20 C17 C18', 'fs.py', ('''        dirs = []
        nondirs = []
        for name in names:
            if self.isdir(top / name):
                dirs.append(name)
            else:
                nondirs.append(name)
''', '''        dirs, nondirs = [], []
        for name in names:
            child = top / name
            target = dirs if self.isdir(child) else nondirs
            target.append(name)
'''))
edit('x_walk_guard', 'C20 C17 C18', 'fs.py', ('''            path = top / name
            if not path.islink() or followlinks:
                for x in''', '''            path = top / name
            descend = followlinks or not path.islink()
            if descend:
                for x in'''))
edit('x_walk_kwargs', 'C20 C17', 'fs.py', ('''                for x in self.walk(path, topdown=topdown, followlinks=followlinks):
                    yield x
''', '''                for root, subdirs, files in self.walk(path, topdown, followlinks):
                    yield root, subdirs, files
'''))
edit('x_glob_join', 'C22', 'fs.py', ('''        res = []
        for f in path.listdir():
            if fnmatch.fnmatch(f, pattern):
                res.append(path / f)
        return res
''', '''        names = fnmatch.filter(path.listdir(), pattern)
        return [path / name for name in names]
'''))
edit('x_move', 'C19', 'fs.py', ('''        if source.isfile():
            source.copy(destination)
            source.remove()
        else:
            source.copy(destination, recursive=True)
            source.remove('r')
''', '''        if not source.isfile():
            source.copy(destination, recursive=True)
            source.remove('r')
            return
        source.copy(destination)
        source.remove()
'''))
# --- memory ----------------------------------------------------------------------
edit('x_mem_enumerate', 'C12 C13', 'memory.py', ('''        prev = None
        current = base
        for index, part in enumerate(steps):
            prev = current
''', '''        prev, current = None, base
        last_index = len(steps) - 1
        for index, part in enumerate(steps):
            prev = current
'''), ('''                is_last = index == len(steps) - 1
''', '''                is_last = index == last_index
'''))
edit('x_mem_guard', 'C12 C13', 'memory.py', ('''            if (current is not None and current.kind == NodeKind.DIR
                and current.has(part)):
                is_last = index == len(steps) - 1
                current = self._child(current, part,
                                      resolve_link=follow_link if is_last else True,
                                      throw=throw,
                                      linklevel=linklevel)
            else:
                if throw:
                    p = '/'.join(steps)
                    raise self.lookup_exc_class(errno.ENOENT,
                                                "No such file or directory: %s" % p)
                else:
                    return [None, None]
''', '''            if (current is None or current.kind != NodeKind.DIR
                or not current.has(part)):
                if not throw:
                    return [None, None]
                raise self.lookup_exc_class(errno.ENOENT,
                                            "No such file or directory: %s" % '/'.join(steps))
            is_last = index == len(steps) - 1
            current = self._child(current, part,
                                  resolve_link=follow_link or not is_last,
                                  throw=throw,
                                  linklevel=linklevel)
'''))
edit('x_mem_isdir', 'C12 C13 C18', 'memory.py', ('''    def isdir(self, path):
        if self._path(path):
            try:
                nd = self._get_node_for_path(self._fs, path, throw=False)
                if nd is None:
                    return False
                return nd.kind == NodeKind.DIR
            except OSError as e:
                if e.errno == errno.ELOOP:
                    return False
''', '''    def isdir(self, path):
        if self._path(path):
            try:
                nd = self._get_node_for_path(self._fs, path, throw=False)
            except OSError as e:
                if e.errno == errno.ELOOP:
                    return False
            else:
                return nd is not None and nd.kind == NodeKind.DIR
'''))
edit('x_mem_parent', 'C13 C21 C12', 'memory.py', ('''        if p:
            nd = self._get_dir(p.split("/")[:-1])
            dir_to_create = p.split("/")[-1]
            if nd.has(dir_to_create):
                raise OSError(errno.EEXIST, "File exists: %r" % str(path))
            self._create_child(nd, dir_to_create, MemoryDir())
''', '''        if not p:
            return
        steps = p.split("/")
        parent, name = self._get_dir(steps[:-1]), steps[-1]
        if parent.has(name):
            raise OSError(errno.EEXIST, "File exists: %r" % str(path))
        self._create_child(parent, name, MemoryDir())
'''))
edit('x_mem_write', 'C14 C16 C13', 'memory.py', ('''            cnd = self._child(nd, file_to_create)
            if cnd is not None and cnd.kind == NodeKind.DIR:
                raise IOError(errno.EISDIR, "File is directory" )
            cnd.reset()
            return MemoryFileProxy(cnd, False, binary=binary)
        else:
            f = MemoryFile(p)
            self._create_child(nd, file_to_create, f)
            return MemoryFileProxy(f, False, binary=binary)
''', '''            f = self._child(nd, file_to_create)
            if f is not None and f.kind == NodeKind.DIR:
                raise IOError(errno.EISDIR, "File is directory" )
            f.reset()
        else:
            f = MemoryFile(p)
            self._create_child(nd, file_to_create, f)
        return MemoryFileProxy(f, False, binary=binary)
'''))
edit('x_mem_proxy_next', 'C14', 'memory.py', ('''        self._check_readable()
        return self.decode(next(self.mem_file))
''', '''        line = self.readline()
        if not line:
            raise StopIteration
        return line
'''))
edit('x_mem_file_next', 'C14', 'memory.py', ('''        line = self.readline()
        if line:
            return line
        else:
            raise StopIteration
''', '''        line = self._data.readline()
        if not line:
            raise StopIteration
        return line
'''))
edit('x_mem_init_reset', 'C14 C15 C16', 'memory.py', ('''        self.path = path
        self._data = BytesIO()
        self._line_reader = None
        self.mtime = self.ctime = time.time()
        self.mode = 0
        self.lock = self.FILE_LOCKS[self.path]
''', '''        self.path = path
        self.reset()
'''))
edit('x_mem_readlines', 'C14', 'memory.py', ('''        self._check_readable()
        for line in self.mem_file.readlines():
            yield self.decode(line)
''', '''        self._check_readable()
        while True:
            line = self.mem_file.readline()
            if not line:
                break
            yield self.decode(line)
'''))
edit('x_mem_lock', 'C16', 'memory.py', ('''        if self.fail_on_lock:
            if not self.lock.acquire(False):
                raise LockFileObtainException
        else:
            self.lock.acquire()
        return mfile
''', '''        acquired = self.lock.acquire(not self.fail_on_lock)
        if not acquired:
            raise LockFileObtainException
        return mfile
'''))
edit('x_mem_info_items', 'C15', 'memory.py', ('''            if "mode" in set_info:
                current.mode = set_info["mode"]
            if "mtime" in set_info:
                current.mtime = set_info["mtime"]
            return
''', '''            for key in ("mode", "mtime"):
                if key in set_info:
                    setattr(current, key, set_info[key])
            return
'''))
edit('x_mem_info_get', 'C15', 'memory.py', ('''            if "mode" in set_info:
                current.mode = set_info["mode"]
            if "mtime" in set_info:
                current.mtime = set_info["mtime"]
            return
''', '''            current.mode = set_info.get("mode", current.mode)
            current.mtime = set_info.get("mtime", current.mtime)
            return
'''))
edit('x_mem_removedir', 'C13 C17', 'memory.py', ('''        if prev is not None:
            part = steps[-1]
            if self._child(prev, part).isempty():
                self._del_child(prev, part)
            else:
                raise OSError(errno.ENOTEMPTY, "Directory not empty: %r" % path)
''', '''        if prev is None:
            return
        part = steps[-1]
        if not self._child(prev, part).isempty():
            raise OSError(errno.ENOTEMPTY, "Directory not empty: %r" % path)
        self._del_child(prev, part)
'''))
edit('x_mem_readlink', 'C12', 'memory.py', ('''        if self._path(path):
            nd = self._get_node_for_path(self._fs, path, follow_link=False)
            if nd.kind == NodeKind.LINK:
                return nd.target
        raise OSError(errno.EINVAL, "Not a link")
''', '''        nd = None
        if self._path(path):
            nd = self._get_node_for_path(self._fs, path, follow_link=False)
        if nd is None or nd.kind != NodeKind.LINK:
            raise OSError(errno.EINVAL, "Not a link")
        return nd.target
'''))
edit('x_mem_open_modes', 'C14 C16', 'memory.py', ('''            if options is None or "r" in options:
                return self._open_for_read(path, binary=binary)
            elif "w" in options:
                return self._open_for_write(path, binary=binary)
            elif "a" in options:
                return self._open_for_append(path, binary=binary)
            else:
                raise OSError(errno.EINVAL, "The mode flag is not valid")
''', '''            if options is None:
                return self._open_for_read(path, binary=binary)
            for flag, opener in (("r", self._open_for_read),
                                 ("w", self._open_for_write),
                                 ("a", self._open_for_append)):
                if flag in options:
                    return opener(path, binary=binary)
            raise OSError(errno.EINVAL, "The mode flag is not valid")
'''))
# --- zip --------------------------------------------------------------------------
edit('x_zip_compare', 'C23 C24', 'zip.py', ('''    if len(path2) < len(path1):
        return 0
    if path1 == path2:
        return ISFILE
    else:
        p1_parts = path1.split(path_sep)
        p2_parts = path2.split(path_sep)
        if len(p2_parts) < len(p1_parts):
            return 0
        else:
            return compare_parts(p1_parts, p2_parts)
''', '''    if path1 == path2:
        return ISFILE
    p1_parts = path1.split(path_sep)
    p2_parts = path2.split(path_sep)
    if len(p2_parts) < len(p1_parts):
        return 0
    return compare_parts(p1_parts, p2_parts)
'''))
edit('x_zip_parts', 'C23', 'zip.py', ('''    for i, item in enumerate(list1):
        if item != list2[i]:
            return 0
    if len(list2) > len(list1):
''', '''    if list2[:len(list1)] != list1:
        return 0
    if len(list2) > len(list1):
'''))
edit('x_zip_parts_zip', 'C23', 'zip.py', ('''    for i, item in enumerate(list1):
        if item != list2[i]:
            return 0
    if len(list2) > len(list1):
''', '''    for item, other in zip(list1, list2):
        if item != other:
            return 0
    if len(list2) > len(list1):
'''))
edit('x_zip_content_zip', 'C23', 'zip.py', ('''    for i, item in enumerate(p1_parts):
        if item != p2_parts[i]:
            return ''
    return p2_parts[i+1]
''', '''    for item, other in zip(p1_parts, p2_parts):
        if item != other:
            return ''
    return p2_parts[len(p1_parts)]
'''))
edit('x_zip_listdir_comp', 'C23 C22', 'zip.py', ('''        content_set = set()
        for item in self._ziphandle.namelist():
            citem = content_item(path_string, item)
            if citem:
                content_set.add(citem)

        return list(sorted(content_set))
''', '''        items = [content_item(path_string, name) for name in self._ziphandle.namelist()]
        return sorted(set(item for item in items if item))
'''))
edit('x_zip_ispart_codes', 'C23 C24', 'zip.py', ('''        for item in self._ziphandle.namelist():
            result = compare_path_strings(path_string, item)
            if result in expected:
                return True
        return False
''', '''        found = [compare_path_strings(path_string, item)
                 for item in self._ziphandle.namelist()]
        return any(code in expected for code in found)
'''))
edit('x_zip_open_modes', 'C24 C23', 'zip.py', ('''        if options is None or 'r' in options:
            zip_options = 'r'
            options = 'rb'
        if 'w' in options:
            if self._zip_file_path().isfile():
                zip_options = 'a'
                options = 'r+b'
            else:
                zip_options = 'w'
                options = 'wb'

        self._file_handle = self._zip_file_path().open(options)
''', '''        zip_file = self._zip_file_path()
        if options is None or 'r' in options:
            zip_options, options = 'r', 'rb'
        elif 'w' in options:
            zip_options, options = ('a', 'r+b') if zip_file.isfile() else ('w', 'wb')

        self._file_handle = zip_file.open(options)
'''))
# --- localfs, misc ---------------------------------------------------------------
edit('x_loc_open', 'C25', 'localfs.py', ('''        if options is not None:
            return open(self._path(unc), options)
        else:
            return open(self._path(unc))
''', '''        path = self._path(unc)
        if options is None:
            return open(path)
        return open(path, options)
'''))
edit('x_loc_info_bunch', 'C25 C15', 'localfs.py', ('''        stats = stat_func(p)
        ctime = stats[stat.ST_CTIME]
        mtime = stats[stat.ST_MTIME]
        atime = stats[stat.ST_ATIME]
        size = stats[stat.ST_SIZE]
        mode = stats[stat.ST_MODE]
        return Bunch(
            ctime = datetime.datetime.fromtimestamp(ctime),
            mtime = datetime.datetime.fromtimestamp(mtime),
            atime = datetime.datetime.fromtimestamp(atime),
            size = size,
            mode = mode,
            )
''', '''        stats = stat_func(p)
        to_time = datetime.datetime.fromtimestamp
        return Bunch(
            ctime=to_time(stats[stat.ST_CTIME]),
            mtime=to_time(stats[stat.ST_MTIME]),
            atime=to_time(stats[stat.ST_ATIME]),
            size=stats[stat.ST_SIZE],
            mode=stats[stat.ST_MODE],
            )
'''))
edit('x_loc_setexec', 'C25', 'localfs.py', ('''        mask = stat.S_IXUSR | stat.S_IXGRP | stat.S_IXOTH
        new_mode = (self.info(unc).mode & ~mask) | mode
        self.info(unc, dict(mode=new_mode))
''', '''        all_exec = stat.S_IXUSR | stat.S_IXGRP | stat.S_IXOTH
        old_mode = self.info(unc).mode
        self.info(unc, {'mode': old_mode & ~all_exec | mode})
'''))
edit('x_loc_move', 'C19', 'localfs.py', ('''        if dest.scheme == 'file':
            if source.isdir() and dest.isdir():
                dest /= source.basename()
            return shutil.move(source.path, dest.path)
        else:
            return super(LocalFileSystem, self).move(source, dest)
''', '''        if dest.scheme != 'file':
            return super(LocalFileSystem, self).move(source, dest)
        if dest.isdir() and source.isdir():
            dest = dest / source.basename()
        return shutil.move(source.path, dest.path)
'''))
edit('x_tmp_read', 'C26', 'misc.py', ('''        retval = self.handle.close()
        os.unlink(self.tmpfilename)
        return retval
''', '''        result = self.handle.close()
        os.unlink(self.tmpfilename)
        return result
'''), ('''    def __exit__(self, exc_type, exc_value, tb):
        self.close()
''', '''    def __exit__(self, *exc_info):
        self.close()
'''))
# --- simpleuri ----------------------------------------------------------------------
edit('x_simple_str', 'C01 C02 C07', 'simpleuri.py', ('''        if (
            (self.scheme.startswith('http') and self.hostname) or
            not self.scheme.startswith('http')
            ):
            parts = [self.scheme, '://']
        else:
            parts = []
''', '''        is_http = self.scheme.startswith('http')
        parts = []
        if self.hostname or not is_http:
            parts = [self.scheme, '://']
'''))
