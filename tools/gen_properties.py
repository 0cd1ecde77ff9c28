"""Writes /verif/properties.jsonl (kept as a script so that the list is reviewable)."""
import json, os
P = []
B = 'abl/vpath/base/'
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=[B + f for f in files],
                               state=[dict(name=n, meaning=m, where=B + w) for n, m, w in state],
                               mechanism=[dict(name=n, where=B + w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))

p('C01', 'URI text decomposes into exactly its components',
  "For every URI text scheme://[user[:password]@]host[:port]/path[?key=value&...] (scheme of two or more letters, components present not empty and free of the reserved delimiters, backslash and newline), the URI object reports exactly those components: absent user or password as absent, absent port as 0, query values percent- and plus-decoded; a user name or password given only by keyword or only in the query is reported as well. "
  "For scheme://((inner))/path the inner text (one line, without double parentheses) is reported whole and unchanged, whatever delimiters it contains. "
  "A '#' in the path of a URI that is not http or https stays part of the path, and in http(s) it separates the fragment.",
  ['inputs'], 'all URI texts of the stated grammar, all component strings',
  'The tests parse about fifteen literal URIs; the property ranges over all component strings and over every combination of present and absent components.',
  ['uriparse.py', 'simpleuri.py', 'fs.py'],
  [('urisplit', 'uriparse.py'), ('split_authority', 'uriparse.py'), ('UriParse.__init__', 'simpleuri.py'),
   ('parse_query_string', 'simpleuri.py'), ('BaseUri.__init__', 'fs.py')],
  observe=['scheme, hostname, port, username, password, path, query, vpath_connector, fragment of a URI'])

p('C02', 'A URI written out and read back is the same URI',
  "For every URI of the supported grammar (plain, with credentials, port, nested inner URI, query or fragment; http(s) with a host; query keys of unreserved characters; local paths without '://' and not starting with '.' or '..' as a component), converting it to text and parsing that text again gives a URI that is equal to the first and has the same user, password, inner URI and fragment. "
  "Splitting a URI text (http(s), or another scheme without '#') into its five RFC 3986 parts and joining them again, and splitting an authority and joining it again, give back the text that was split, as long as each part present is not empty.",
  ['inputs'], 'all URIs of the grammar; all 5-part texts; all authorities',
  'Two round trips are tested, with one query each; nothing tests credentials, ports, inner URIs, values that need quoting, or the inverse pairs.',
  ['simpleuri.py', 'uriparse.py'],
  [('UriParse.__str__', 'simpleuri.py'), ('UriParse.as_list', 'simpleuri.py'), ('uri_from_parts', 'simpleuri.py'),
   ('uriunsplit', 'uriparse.py'), ('join_authority', 'uriparse.py')],
  observe=['str(uri)', 'urisplit/uriunsplit', 'split_authority/join_authority'])

p('C03', 'Joining appends path components and nothing else',
  "For every URI p and names n1..nk (k >= 1, free of '?', '#', backslash, the nested-URI brackets and, on local paths, ':'), the path of p joined with n1..nk is the path of p without trailing slashes, followed by '/' and each name, where all but the last name lose leading and trailing slashes and the last name is kept as given. "
  "The '/' operator and join with one argument are the same operation, and adding a suffix to a URI without query appends exactly that text to the path. "
  "Joining never changes scheme, host, port or the nested inner URI.",
  ['inputs'], 'all URIs p, all names, any number of names',
  'Tests join a handful of literal names, always one at a time and mostly without trailing slashes.',
  ['fs.py', 'simpleuri.py'],
  [('BaseUri.join', 'fs.py'), ('BaseUri.__add__', 'fs.py'), ('BaseUri.__truediv__', 'fs.py'), ('uri_from_parts', 'simpleuri.py')],
  observe=['path of the joined URI'])

p('C04', 'Splitting a path undoes joining',
  "For every URI p whose path does not end in '/' and is not a bare root, and every non-empty name n without '/', '?', '#' or backslash (on local paths also without ':'), p/n splits into p and n, its basename and last component are n, and going up one level gives p. "
  "Going up k levels undoes k joins, going up from the root stays at the root, and the last component of a path with trailing slashes is the component before them. "
  "The extension split of a path is the extension split of its basename, and a query is never part of the basename.",
  ['inputs'], 'all URIs, all names, all level counts',
  'Tests cover five literal paths and levels up to five.',
  ['fs.py'],
  [('BaseUri.split', 'fs.py'), ('BaseUri.directory', 'fs.py'), ('BaseUri.basename', 'fs.py'), ('BaseUri.last', 'fs.py'), ('BaseUri.splitext', 'fs.py')],
  observe=['split(), directory(level), basename(), last(), splitext()'])

p('C05', 'Windows separators and drives convert without loss',
  "For every absolute drive path X:\\a\\b... given with backslash as separator, the URI's path property returns exactly the text given, while its internal form is /X/a/b... with forward slashes only. "
  "For every forward-slash path, conversion to the internal form is the identity. "
  "Joining such URIs, and splitting those of which the directory part has at least one component below the drive, keeps the separator convention.",
  ['inputs'], 'all drive letters, all component strings and depths',
  'Six literal windows paths are tested.',
  ['fs.py', 'localfs.py'],
  [('normalize_uri', 'fs.py'), ('denormalize_path', 'fs.py'), ('BaseUri.__init__', 'fs.py'), ('LocalFileSystemUri.path', 'localfs.py'), ('BaseUri.unipath', 'fs.py')],
  observe=['path, uri and unipath of URI(text, sep="\\\\")'])

p('C06', 'Absolute paths stay absolute and relative paths stay relative',
  "For every local path text without scheme, query, '://' or backslash (an absolute one not starting with a '.' or '..' component), the URI built from it denotes the same file as the text: an absolute text (including one whose first component starts with a dot) yields exactly that absolute path, and a relative text - including './x', '../x', '.hidden' and '..' - yields a relative path that names the same file. "
  "The absolute/relative classification of the URI agrees with that of the text. "
  "Absolute paths of the in-memory backend whose first component starts with a dot (but is not '.' or '..') are usable like any other.",
  ['inputs'], 'all local path texts (no scheme, no query, no backslash)',
  "Only './'-less and plain absolute texts are tested; no test uses a path starting with a dot.",
  ['fs.py', 'uriparse.py', 'localfs.py', 'memory.py'],
  [('BaseUri.__init__', 'fs.py'), ('BaseUri.path', 'fs.py'), ('BaseUri.is_absolute', 'fs.py'), ('urisplit', 'uriparse.py')],
  observe=['path, is_absolute'])

p('C07', 'Derived URIs keep their endpoint and are isolated from the original',
  "Every URI derived from another by joining, splitting, going up, adding a suffix or copying keeps scheme, host, port, user, password and nested inner URI, and carries the same combined query "
  "and extra arguments (a suffix: for URIs without written query; split and directory: for schemes other than http), so that it is served by the same backend connection. "
  "Changing the query or the extra arguments of the derived URI never changes the original, and vice versa.",
  ['inputs', 'histories'], 'all URIs, all derivation chains, all later modifications',
  'Tests check one extra argument on one URI and never derive with credentials or look at aliasing.',
  ['fs.py'],
  [('BaseUri.__init__', 'fs.py'), ('BaseUri.join', 'fs.py'), ('BaseUri.split', 'fs.py'), ('BaseUri.__add__', 'fs.py'), ('BaseUri._extras', 'fs.py')],
  observe=['attributes of derived URIs', 'identity of the connection'])

p('C08', 'URI equality is decided by scheme, location, path and query',
  "Two URIs are equal exactly when their scheme, host with port, path and query arguments are all equal, independent of how they were written or which extra arguments they carry. "
  "A URI is never equal to an object that is not a URI, and != is always the negation of ==.",
  ['inputs'], 'all pairs of URIs and all other objects',
  'Four literal pairs are tested.',
  ['fs.py', 'simpleuri.py'],
  [('BaseUri.__eq__', 'fs.py'), ('BaseUri.__ne__', 'fs.py'), ('UriParse.__eq__', 'simpleuri.py')],
  observe=['==, !='])

p('C09', 'One connection per endpoint',
  "Asking the connection registry twice for the same scheme, host, port, user, password, nested inner URI and extra arguments (names other than those of the components) returns the same connection as long as it was not closed in between, and asking with any of these different returns a different connection. "
  "A new connection is built by the factory registered for the scheme with exactly these arguments in their roles, and existing connections are unaffected. "
  "An unregistered scheme is refused with the no-scheme error and leaves the registry unchanged.",
  ['inputs', 'histories'], 'all registry states and all argument combinations, any history of requests and cleanups (sequential)',
  'One test compares three connections that differ in one extra argument.',
  ['fs.py'],
  [('ConnectionRegistry.get_connection', 'fs.py'), ('ConnectionRegistry.create', 'fs.py'), ('ConnectionRegistry.register', 'fs.py'),
   ('BaseUri.get_connection', 'fs.py'), ('BaseUri._key', 'fs.py'), ('FileSystem.__init__', 'fs.py')],
  state=[('connections', 'open connections by endpoint key', 'fs.py'), ('schemes', 'factory per scheme', 'fs.py')],
  observe=['identity and attributes of returned connections'])

p('C10', 'Cleanup closes exactly the stale connections',
  "A registry cleanup at time t closes and forgets every connection whose last use is more than the timeout before t, and no other; a forced cleanup closes and forgets all of them. "
  "Each is closed exactly once, and a connection whose close fails is forgotten too and does not keep the others from being closed. "
  "Shutdown stops the cleaner and leaves no connection open.",
  ['inputs', 'histories', 'fault_sequences'], 'all sets of connections, all last-use times, timeouts and failing closes',
  'Tests only call a forced cleanup as a fixture; no test has a stale connection or a failing close.',
  ['fs.py'],
  [('ConnectionRegistry.cleanup', 'fs.py'), ('ConnectionRegistry.shutdown', 'fs.py')],
  state=[('connections', 'open connections by endpoint key', 'fs.py')],
  observe=['close() calls, registry content'])

p('C11', 'Every path operation reaches the right backend unaltered',
  "Every file-system operation on a URI first obtains the connection for that URI's current endpoint, marks that connection as just used and announces the operation to the backend's hook, "
  "and only then calls the backend operation of the same name, exactly once, with the URI and the caller's arguments unaltered; "
  "the backend's result or exception is what the caller gets. If the hook refuses by raising, the backend operation is not called.",
  ['inputs'], 'all operations, all arguments, all backend results and exceptions',
  'Tests exercise the operations on two backends with default arguments and do not look at argument passing, hook order or last-use stamps.',
  ['fs.py'],
  [('with_connection', 'fs.py'), ('BaseUri operations (copy, copystat, move, remove, open, makedirs, mkdir, exists, isfile, isdir, isexec, set_exec, islink, readlink, symlink, mtime, walk, listdir, info, sync, glob, lock)', 'fs.py')],
  observe=['calls received by the backend'])

p('C12', 'In-memory lookups follow the tree and its links, and always end',
  "For every in-memory tree and every path, exists, isfile and isdir answer according to the node reached by following the path component by component and every symbolic link on the way, and islink and readlink according to the last component without following it. "
  "exists, isfile and isdir never raise and always end, even with link cycles: a missing entry, a non-directory on the way, a dangling link or more than 32 nested links make them answer false, while operations that need the node fail with the operating system error of that case (no such file, not a directory, too many links). "
  "exists holds exactly when isfile or isdir holds, and the root is always an existing directory.",
  ['inputs', 'histories'], 'all trees with all link structures (cyclic, dangling, nested) and all paths',
  'Tests use a few literal trees with at most two links, never a link or file as an intermediate component of a missing path, nor equal component names.',
  ['memory.py'],
  [('MemoryFileSystem._get_node_prev', 'memory.py'), ('MemoryFileSystem._child', 'memory.py'), ('MemoryFileSystem._get_node_for_path', 'memory.py'),
   ('exists/isfile/isdir/islink/readlink', 'memory.py')],
  state=[('_fs', 'the tree of directory, file and link nodes', 'memory.py')],
  observe=['exists(), isfile(), isdir(), islink(), readlink()'])

p('C13', 'In-memory creation and removal change exactly one entry',
  "In every in-memory tree, making a directory, creating a file by opening it for writing, and creating a symbolic link add exactly the addressed entry to its parent directory, and removing a file, link or empty directory takes away exactly the addressed entry (a link itself, never its target); every other entry of every directory stays as it was. "
  "Making a directory or link over an existing entry fails with 'exists', removing a non-empty directory fails with 'not empty', writing over a directory fails with 'is a directory', and a missing parent fails with 'no such file'. "
  "A failing operation changes nothing.",
  ['inputs', 'histories'], 'all trees, all paths, all operation histories',
  'Tests look at the entry just created or removed in small trees and never at the rest of the tree or at the state after an error.',
  ['memory.py'],
  [('MemoryFileSystem.mkdir', 'memory.py'), ('MemoryFileSystem._open_for_write', 'memory.py'), ('MemoryFileSystem.symlink', 'memory.py'),
   ('MemoryFileSystem.removefile', 'memory.py'), ('MemoryFileSystem.removedir', 'memory.py'), ('BaseUri.remove', 'fs.py'), ('MemoryDir', 'memory.py')],
  state=[('_fs', 'the tree of directory, file and link nodes', 'memory.py')],
  observe=['listdir() of every directory before and after'])

p('C14', 'An in-memory file holds exactly the bytes written to it',
  "Reading an in-memory file after any sequence of complete open-write-close cycles returns exactly the last content written with mode 'w' followed by everything written with mode 'a' since, for every content including the empty one, as bytes in binary mode and as the UTF-8 decoded text in text mode; opening with 'w' discards the old content and opening with 'a' never alters what is there. "
  "Iterating over the lines yields the content split after each newline. "
  "A file opened for writing or appending cannot be read through that handle, and opening through a link reads or writes the link's target.",
  ['inputs', 'histories'], 'all contents, all chunkings, all sequences of opens',
  'Tests write one short ASCII string each; append is never tested on the memory backend.',
  ['memory.py'],
  [('MemoryFile', 'memory.py'), ('MemoryFileProxy', 'memory.py'), ('MemoryFileSystem.open', 'memory.py'),
   ('_open_for_read/_open_for_write/_open_for_append', 'memory.py')],
  state=[('_data', 'the bytes of a file', 'memory.py')],
  observe=['open().read()'])

p('C15', 'Mode and time metadata change only as asked',
  "Setting the executable bits replaces exactly the three execute bits of the mode by those given and keeps all other bits; the executable test is true exactly when one of the asked-for bits is set. "
  "Setting info changes only the fields given, on the node addressed (on the in-memory backend the link itself when links are not followed); copying metadata makes mode and modification time of the target equal to the source's and leaves the source alone. "
  "This holds on the in-memory backend for every field and on the local backend for the mode.",
  ['inputs', 'histories'], 'all modes, masks and times; all nodes',
  'Tests set one bit on a fresh file with mode zero or the umask default.',
  ['memory.py', 'localfs.py'],
  [('set_exec/isexec/info/copystat/mtime', 'memory.py'), ('set_exec/isexec/info/copystat/mtime', 'localfs.py')],
  state=[('mode, mtime', 'node metadata', 'memory.py')],
  observe=['info(), isexec(), mtime()'])

p('C16', 'Locks are exclusive per path and always released',
  "Within a lock block on a path of the in-memory backend the lock of that path is held and the block gets a writable file for that path; two handles of the same path share one lock and different paths never do. "
  "Leaving the block, normally or by an exception, releases the lock, and with cleanup the file is removed. "
  "With fail-on-lock, a path that is locked already is refused with the lock error and the holder's lock stays held; the local backend hands exactly these options to the lock file.",
  ['inputs', 'histories'], 'all paths, all histories of lock and unlock, all exits',
  'Tests lock one path once in each mode.',
  ['memory.py', 'localfs.py', 'fs.py'],
  [('MemoryLock', 'memory.py'), ('MemoryFile.FILE_LOCKS', 'memory.py'), ('MemoryFileSystem.lock', 'memory.py'), ('LocalFileSystem.lock', 'localfs.py'), ('BaseUri.lock', 'fs.py')],
  state=[('FILE_LOCKS', 'lock per path', 'memory.py')],
  observe=['lock state inside and after the block'])

p('C17', 'Recursive removal deletes the whole tree and nothing outside it',
  "Removing a directory (other than the root) recursively deletes every file, directory and link in it and the directory itself. "
  "It never follows a symbolic link: a link is removed as a link, and nothing outside the removed directory is touched, whatever links point out of it or back into it. "
  "Removing a link removes only the link; removing something that does not exist fails with the does-not-exist error and changes nothing; removing a non-empty directory without asking for recursion changes nothing.",
  ['inputs'], 'all trees and link structures',
  'Tests remove five literal trees.',
  ['fs.py'],
  [('remove_dir_recursively', 'fs.py'), ('BaseUri.remove', 'fs.py'), ('FileSystem.walk', 'fs.py')],
  observe=['tree before and after'])

p('C18', 'Copying reproduces the source and leaves it alone',
  "Copying a file gives the target (or the entry of the same name inside an existing target directory) exactly the source's bytes; copying a directory recursively into a fresh target outside the source reproduces every directory and file below it at the same relative path with the same bytes, except directories whose name is in the ignore list, and creates nothing else. "
  "With links not followed, each link of the source becomes a link with the same target; with links followed, their contents are copied. "
  "The source is never changed, everything written lies in the target, and within one backend the metadata of files is copied too.",
  ['inputs'], 'all source trees, names, contents, link structures and option combinations; source and target disjoint',
  'Tests copy about twenty literal trees of depth two with one-line contents, none with unusual names or a trailing slash.',
  ['fs.py'],
  [('FileSystem.copy', 'fs.py'), ('FileSystem._copy_link', 'fs.py'), ('FileSystem.walk', 'fs.py')],
  observe=['target and source tree after the copy'])

p('C19', 'Moving transfers everything and removes only the source',
  "After moving a file or a directory tree to a different place that lies outside it, the target holds exactly what the source held and the source is gone; a directory moved onto an existing directory (that has no entry of that name) ends up inside it under its own name, otherwise it takes the target's name. "
  "If the copying step fails, the source is still complete. "
  "A move within the local backend is handed to the operating system's move with exactly the source and the resolved target.",
  ['inputs', 'fault_sequences'], 'all trees, targets and failing copies; source and target disjoint',
  'Tests move three literal trees.',
  ['fs.py', 'localfs.py'],
  [('FileSystem.move', 'fs.py'), ('LocalFileSystem.move', 'localfs.py')],
  observe=['source and target after the move'])

p('C20', 'Walking visits every directory once with its exact contents',
  "A walk yields each directory reachable from the top exactly once per path, with every entry listed exactly once in sorted order among the directories or the other entries according to its type. "
  "Parents come before children top-down and after them bottom-up, and siblings come in sorted order. "
  "With links not followed a link to a directory is listed but not entered; top-down, directories the caller removes from the yielded list are not entered.",
  ['inputs'], 'all trees, both orders, both link policies, all prunings',
  'Tests walk one tree shape per option combination.',
  ['fs.py'],
  [('FileSystem.walk', 'fs.py')],
  observe=['sequence of yielded triples'])

p('C21', 'makedirs creates exactly the missing ancestors',
  "After makedirs on any path, the path and all its ancestors are directories; directories that were there before are untouched, each missing one is created once and parents before children, and nothing else is created. "
  "It can be repeated without error, and it fails without creating anything below a file that is in the way.",
  ['inputs'], 'all trees and all paths, any number of missing ancestors',
  'Tests only create paths of depth two and three where everything is missing.',
  ['fs.py'],
  [('FileSystem.makedirs', 'fs.py')],
  observe=['sequence of mkdir calls, resulting tree'])

p('C22', 'Listing and globbing return exactly the entries of the directory',
  "Listing a directory returns the names of all its entries, each exactly once and sorted, on the in-memory and the local backend. "
  "Globbing returns exactly the children whose name matches the shell pattern, each as the directory joined with the name, in listing order.",
  ['inputs'], 'all directories, all names, all patterns',
  'Tests list one or two entries and glob two files with two patterns.',
  ['fs.py', 'memory.py', 'localfs.py'],
  [('FileSystem.glob', 'fs.py'), ('MemoryFileSystem.listdir', 'memory.py'), ('LocalFileSystem.listdir', 'localfs.py')],
  observe=['listdir(), glob()'])

p('C23', 'A zip file is presented as the tree its entry names describe',
  "In a zip file a path (absolute and normalised) is a file exactly when an entry has that name, and a directory exactly when it is the root or a proper component-wise ancestor of some entry; it exists exactly when it is one of these, and textual prefixes that are not whole components do not count. "
  "Listing a directory returns each distinct next component below it exactly once, sorted. "
  "Listing the root of a missing zip file returns nothing, and all these queries work on a fresh connection as well as on a used one.",
  ['inputs'], 'all sets of entry names and all paths (absolute, normalised)',
  'Tests use four literal names and always query a connection that has been used for writing first.',
  ['zip.py'],
  [('content_item', 'zip.py'), ('compare_path_strings', 'zip.py'), ('compare_parts', 'zip.py'), ('ZipFileSystem._ispart', 'zip.py'), ('ZipFileSystem.listdir', 'zip.py')],
  observe=['exists(), isfile(), isdir(), listdir() on zip URIs'])

p('C24', 'A zip entry written is the entry read, and the others survive',
  "After writing a zip entry through a with-block, reading it returns exactly the bytes written, and every other entry of that zip file still has its content, whether the zip file existed before or not. "
  "Reading an entry that does not exist in a zip file fails with the does-not-exist error. "
  "When the block ends the zip file is complete on its backend, and the entry is visible to later queries at once.",
  ['inputs', 'histories'], 'all entry names, contents and write histories',
  'Tests write one or two entries of three bytes.',
  ['zip.py'],
  [('WriteStatement', 'zip.py'), ('ZipFileSystem.open', 'zip.py'), ('ZipFileSystem.open_zip', 'zip.py'), ('ZipFileSystem.close_zip', 'zip.py')],
  observe=['open().read() on zip URIs'])

p('C25', 'Local operations are exactly the operating system operations',
  "Each operation of the local backend (on POSIX) performs exactly one file-system effect, the operating system's own one of that meaning, on exactly the path of the URI, and returns or raises what the system did: queries have no effect, removing a file unlinks only it, removing a directory is only attempted on a path that is not a link, link creation has target and link name in the right order. "
  "Information is that of the link itself only if the path is a link and links are not followed, and setting information changes only the mode.",
  ['inputs'], 'all paths, all argument values, all results and exceptions of the operating system',
  'Tests run on one directory tree; the local symlink tests are switched off except on a Mac.',
  ['localfs.py'],
  [('LocalFileSystem methods', 'localfs.py')],
  observe=['operating system calls made'])

p('C26', 'Scoped helpers always restore and clean up',
  "Leaving a working-directory block, normally or by any exception, restores the working directory that was current when the object was created, and inside the block the working directory is the given path. "
  "Closing a temporary file handle, explicitly or by leaving its block in any way, closes the file and deletes exactly that file, after which reads fail; reading before returns the file's content. "
  "Exceptions from the block are never swallowed.",
  ['inputs', 'fault_sequences'], 'all paths, all exceptions inside the block, nesting',
  'The working-directory helper has no test, and the temporary-file test class is not collected.',
  ['misc.py'],
  [('WorkingDirectory', 'misc.py'), ('TempFileHandle', 'misc.py')],
  observe=['current directory, existence of the file'])

p('C27', 'The md5 of a path is the md5 of its whole content',
  "The md5 of a file is the hexadecimal MD5 digest of its complete byte content, whatever its length and however many blocks a read returns, and computing it changes neither the file nor any other.",
  ['inputs'], 'all contents of any length, all short-read patterns',
  'No test calls it.',
  ['fs.py'],
  [('BaseUri.md5', 'fs.py')],
  observe=['md5()'])

p('C28', 'The generic URI parser fills in defaults and nothing else',
  "Parsing a URI with the generic parser returns its scheme followed by exactly the components present (not empty) in the text; each absent component is replaced by the default the caller gave, or else by the default of the scheme's parser (unknown schemes use the generic default), and defaults never override a present component. "
  "Registered extra parsers take precedence for their scheme only. "
  "Resolving a reference against a base yields the reference itself if it has another scheme, and otherwise takes authority, path, query and fragment from the reference as soon as it has them.",
  ['inputs'], 'all URI texts, all default tuples, all extra parser tables',
  'No test calls it; the self test in the module is not run.',
  ['uriparse.py'],
  [('URLParser.parse', 'uriparse.py'), ('MailtoURIParser.parse', 'uriparse.py'), ('URIParser', 'uriparse.py'), ('urljoin', 'uriparse.py')],
  observe=['URIParser().parse(), urljoin()'])

p('C29', 'Concurrent first requests for one endpoint share one connection',
  "When several threads ask at the same time for a connection to the same endpoint, and no cleanup closes it meanwhile, all of them get the same connection. "
  "It is built once and stays registered, and no connection that was built is lost, whatever other endpoints are requested at the same time.",
  ['schedules'], 'all interleavings of concurrent requests',
  'There is no multi-threaded test.',
  ['fs.py'],
  [('ConnectionRegistry.create', 'fs.py')],
  state=[('creation_locks', 'one lock per scheme around creation', 'fs.py')],
  observe=['identity of returned connections'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
