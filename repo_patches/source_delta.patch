From d79db3cf1b92181d1681cf8962bbe11fa2535c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 01/27] fix: urisplit failed without authority and mangled
 '((..))' outside of it

---
 abl/vpath/base/uriparse.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index e5524b4..b3d4bd5 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -65,18 +65,19 @@ def urisplit(uri):
        ('scheme', 'authority', 'path', 'query', 'fragment')
 
     """
-    inner_part = re.compile(r'\(\(.*?\)\)')
-    m = inner_part.search(uri)
+    inner_part = re.compile(r'([^:/?#]+:)?//(\(\(.*?\)\))')
+    m = inner_part.match(uri)
     inner_value = ''
     if m is not None:
-        inner_value = uri[m.start():m.end()]
-        uri = uri[:m.start()]+'__inner_part__'+uri[m.end():]
+        inner_value = m.group(2)
+        uri = uri[:m.start(2)]+'__inner_part__'+uri[m.end(2):]
     # regex straight from STD 66 section B
     regex = '^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?'
     p = re.match(regex, uri).groups()
     scheme, authority, path, query, fragment = p[1], p[3], p[4], p[6], p[8]
     #if not path: path = None
-    authority = authority.replace('__inner_part__', inner_value)
+    if m is not None:
+        authority = authority.replace('__inner_part__', inner_value)
     if authority == '.':
         path = ''.join([authority, path])
         authority = None
-- 
2.43.0


From d1fcb70d44afc6bb5640cadf035782c64889ae72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:19 +0000
Subject: [PATCH 02/27] fix: URIParser failed to unparse what it parsed and on
 URIs without authority

---
 abl/vpath/base/uriparse.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index b3d4bd5..40fc9a0 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -152,7 +152,8 @@ def join_authority(authority):
         if passwd:
             result += ':' + passwd
         result += '@'
-    result += host
+    if host:
+        result += host
     if port:
         result += ':' + port
     return result
@@ -182,7 +183,7 @@ class URLParser:
 
     def parse(self, urlinfo):
         scheme, authority, path, query, frag = urisplit(urlinfo)
-        user, passwd, host, port = split_authority(authority)
+        user, passwd, host, port = split_authority(authority or '')
         duser, dpasswd, dhost, dport, dpath, dquery, dfrag = self._defaults
         if user is None:
             user = duser
@@ -316,7 +317,8 @@ class URIParser(object):
         the rest of the pieces can be interpreted.
 
         """
-        return self.parser_for(pieces[0])(defaults).unparse(pieces)
+        parser = self.parser_for(pieces[0])(defaults)
+        return pieces[0] + ':' + parser.unparse(pieces[1:])
 
     # these work on any URI
     def scheme_of(self, uri):
-- 
2.43.0


From a0afe1dbb23e42f64f6e736cc1700c2cf758185d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 03/27] fix: relative paths like '../x' and '.hidden' became
 absolute ones

---
 abl/vpath/base/fs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 0248be2..148ffc8 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -277,7 +277,7 @@ class BaseUri(object):
             if uri.startswith('file://'):
                 uri = uri[7:]
             uri = normalize_uri(uri, '\\')
-            if not '://' in uri and not (uri.startswith('/') or uri.startswith('.')):
+            if not '://' in uri and not (uri == '.' or uri.startswith(('/', './'))):
                 uri = './'+uri
             if not '://' in uri:
                 uri = 'file://'+uri
-- 
2.43.0


From 6193b99c38e77efcc8547190231fce8a9515dc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:27 +0000
Subject: [PATCH 04/27] fix: paths directly below the root starting with a dot
 became relative

---
 abl/vpath/base/fs.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 148ffc8..df814d5 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -195,6 +195,16 @@ def denormalize_path(path, sep='\\'):
         return path.replace('/', sep)
 
 
+def strip_root_of_relative(path):
+    """
+    '/./some/path' and '/../some/path' denote relative paths, but
+    '/.hidden/path' doesn't.
+    """
+    if path in ('/.', '/..') or path.startswith(('/./', '/../')):
+        return path[1:]
+    return path
+
+
 def remove_dir_recursively(connection, path):
     for root, dirs, files in connection.walk(path, topdown=False,
                                              followlinks=False):
@@ -333,8 +343,7 @@ class BaseUri(object):
 
     @property
     def path(self):
-        path = self.parse_result.path
-        parsed_path = path[1:] if path.startswith("/.") else path
+        parsed_path = strip_root_of_relative(self.parse_result.path)
 
         if os.name == "nt" and self.scheme == "file":
             parsed_path = os.path.normpath(re.sub(r"^/([a-zA-Z])/", r"\1:/", parsed_path))
@@ -406,9 +415,7 @@ class BaseUri(object):
 
     @property
     def is_absolute(self):
-        path = self.parse_result.path
-        if path.startswith('/.'):
-            path = path[1:]
+        path = strip_root_of_relative(self.parse_result.path)
         return path.startswith('/')
 
 
-- 
2.43.0


From 460f508677fd2c96e1f06fa27d72848bba31ed39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 05/27] fix: memory lookups failed on files, dangling links and
 repeated names within a path

---
 abl/vpath/base/memory.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index e8c7f65..f18f928 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -339,10 +339,11 @@ class MemoryFileSystem(FileSystem):
                        linklevel=0):
         prev = None
         current = base
-        for part in steps:
+        for index, part in enumerate(steps):
             prev = current
-            if current.has(part):
-                is_last = part == steps[-1]
+            if (current is not None and current.kind == NodeKind.DIR
+                and current.has(part)):
+                is_last = index == len(steps) - 1
                 current = self._child(current, part,
                                       resolve_link=follow_link if is_last else True,
                                       throw=throw,
-- 
2.43.0


From 3ae99511394bf9db0479d098d5bcafbc9337b7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 06/27] fix: memory backend confused files and directories
 instead of raising OSErrors

---
 abl/vpath/base/memory.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index f18f928..73da435 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -364,6 +364,21 @@ class MemoryFileSystem(FileSystem):
         return current
 
 
+    def _get_dir(self, steps):
+        nd = self._get_node(self._fs, steps)
+        if nd.kind != NodeKind.DIR:
+            raise self.lookup_exc_class(errno.ENOTDIR,
+                                        "Not a directory: %s" % '/'.join(steps))
+        return nd
+
+
+    def _get_file(self, path):
+        nd = self._get_node_for_path(self._fs, path)
+        if nd.kind == NodeKind.DIR:
+            raise IOError(errno.EISDIR, "Is a directory: %s" % path)
+        return nd
+
+
     def _get_node_for_path(self, base, unc, follow_link=True, throw=True,
                            linklevel=0):
         p = self._path(unc)
@@ -423,7 +438,7 @@ class MemoryFileSystem(FileSystem):
     def mkdir(self, path):
         p = self._path(path)
         if p:
-            nd = self._get_node(self._fs, p.split("/")[:-1])
+            nd = self._get_dir(p.split("/")[:-1])
             dir_to_create = p.split("/")[-1]
             if nd.has(dir_to_create):
                 raise OSError(errno.EEXIST, "File exists: %r" % str(path))
@@ -450,14 +465,14 @@ class MemoryFileSystem(FileSystem):
 
 
     def _open_for_read(self, path, binary=False):
-        nd = self._get_node_for_path(self._fs, path)
+        nd = self._get_file(path)
         nd.seek(0)
         return MemoryFileProxy(nd, True, binary=binary)
 
 
     def _open_for_write(self, path, binary=False):
         p = self._path(path)
-        nd = self._get_node(self._fs, p.split("/")[:-1])
+        nd = self._get_dir(p.split("/")[:-1])
         file_to_create = p.split("/")[-1]
 
         if nd.has(file_to_create):
@@ -473,7 +488,7 @@ class MemoryFileSystem(FileSystem):
 
 
     def _open_for_append(self, path, binary=False):
-        nd = self._get_node_for_path(self._fs, path)
+        nd = self._get_file(path)
         nd.seek(len(nd))
         return MemoryFileProxy(nd, False, binary=binary)
 
@@ -542,8 +557,7 @@ class MemoryFileSystem(FileSystem):
 
 
     def listdir(self, path):
-        nd = self._get_node(self._fs,
-                            [x for x in self._path(path).split("/") if x])
+        nd = self._get_dir([x for x in self._path(path).split("/") if x])
         return sorted(nd.keys())
 
 
@@ -615,7 +629,7 @@ class MemoryFileSystem(FileSystem):
     def symlink(self, target, link_name):
         p = self._path(link_name)
         if p:
-            nd = self._get_node(self._fs, p.split("/")[:-1])
+            nd = self._get_dir(p.split("/")[:-1])
             file_to_create = p.split("/")[-1]
             if nd.has(file_to_create):
                 raise OSError(errno.EEXIST, "File exists: %r" % str(link_name))
-- 
2.43.0


From fc0caa32c1b0a74dcfad2b5181fe84dde2cf8980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 07/27] fix: appending to an empty memory file inserted a zero
 byte

---
 abl/vpath/base/memory.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 73da435..5824cbf 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -45,11 +45,7 @@ class MemoryFile(object):
 
 
     def __len__(self):
-        pos = self._data.tell()
-        self._data.seek(-1,2)
-        length = self._data.tell() + 1
-        self._data.seek(pos)
-        return length
+        return self.size()
 
 
     def size(self):
-- 
2.43.0


From ae014b185bfc5c5fc8c18234e6f186376da01ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 08/27] fix: lines could be read from memory files opened for
 writing

---
 abl/vpath/base/memory.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 5824cbf..a5e92bf 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -146,9 +146,13 @@ class MemoryFileProxy(object):
         return data if self.binary else data.decode('utf-8')
 
 
-    def read(self, *args, **kwargs):
+    def _check_readable(self):
         if not self.readable:
             raise IOError(errno.EBADF, "bad file descriptor")
+
+
+    def read(self, *args, **kwargs):
+        self._check_readable()
         return self.decode(self.mem_file.read(*args, **kwargs))
 
 
@@ -173,6 +177,7 @@ class MemoryFileProxy(object):
 
 
     def __next__(self):
+        self._check_readable()
         return self.decode(next(self.mem_file))
 
 
@@ -180,10 +185,12 @@ class MemoryFileProxy(object):
 
 
     def readline(self):
+        self._check_readable()
         return self.decode(self.mem_file.readline())
 
 
     def readlines(self):
+        self._check_readable()
         for line in self.mem_file.readlines():
             yield self.decode(line)
 
-- 
2.43.0


From 89f2881537405c3c4fdbb652fb91aa99250e8ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 09/27] fix: zip queries failed on fresh connections and took
 the root for a file

---
 abl/vpath/base/zip.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index 62db8ab..8579ae4 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -203,7 +203,11 @@ class ZipFileSystem(FileSystem):
     def _ispart(self, unc, expected):
         path_string = self._path(unc)
         if path_string == '/':
-            return True
+            return ISDIR in expected
+        if self._ziphandle is None:
+            if not self._zip_file_path().exists():
+                return False
+            self.open_zip()
         for item in self._ziphandle.namelist():
             result = compare_path_strings(path_string, item)
             if result in expected:
-- 
2.43.0


From 0f3feb0c1714682d38f4a1af62e7cdfbe19419ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:52 +0000
Subject: [PATCH 10/27] fix: recursive copy from the root or a path with
 trailing slash mangled target paths

---
 abl/vpath/base/fs.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index df814d5..758a4cb 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -945,11 +945,12 @@ class FileSystem(object):
                 self._copy_link(source, droot)
             else:
                 droot.makedirs()
-                spth = source.path
-                spth_len = len(spth) + 1
+                # the prefix that is cut off below: the path of the source
+                # together with the separator following it
+                spth_len = len(source.path.rstrip(source.sep + '/')) + 1
                 for root, dirs, files in source.walk(followlinks=followlinks):
                     rpth = root.path
-                    tojoin = rpth[spth_len:].strip()
+                    tojoin = rpth[spth_len:]
                     if tojoin:
                         dbase = droot / tojoin
                     else:
-- 
2.43.0


From d7472c543a09cf39ea5cb4f8270920909c32f117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:21 +0000
Subject: [PATCH 11/27] fix: credentials given by keyword got lost in derived
 URIs and by query broke connecting

---
 abl/vpath/base/fs.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 758a4cb..5752f50 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -295,20 +295,24 @@ class BaseUri(object):
             self.sep = sep
             self.parse_result = UriParse(uri)
             self.extras = extras
-        if self.username is None:
+        if not self.username:
             if 'username' in self.extras:
-                self.username = self.extras.pop('username')
+                self.username = self.extras['username']
             elif 'username' in self.parse_result.query:
                 self.username = self.parse_result.query['username']
-        if self.password is None:
+        if not self.password:
             if 'password' in self.extras:
-                self.password = self.extras.pop('password')
+                self.password = self.extras['password']
             elif 'password' in self.parse_result.query:
                 self.password = self.parse_result.query['password']
 
 
     def get_connection(self):
-        return CONNECTION_REGISTRY.get_connection(*self._key(), **self._extras())
+        # the credentials are part of the key already
+        extras = self._extras()
+        extras.pop('username', None)
+        extras.pop('password', None)
+        return CONNECTION_REGISTRY.get_connection(*self._key(), **extras)
 
 
     def _extras(self):
-- 
2.43.0


From d6431df9ccf1704b6e5e4224d2d90622d6cb68bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:48 +0000
Subject: [PATCH 12/27] fix: query values were written out unquoted and could
 not be read back

---
 abl/vpath/base/simpleuri.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/abl/vpath/base/simpleuri.py b/abl/vpath/base/simpleuri.py
index e33ae77..5dfe111 100644
--- a/abl/vpath/base/simpleuri.py
+++ b/abl/vpath/base/simpleuri.py
@@ -22,7 +22,7 @@ def parse_query_string(query):
     result = {}
     qparts = query.split('&')
     for item in qparts:
-        key, value = item.split('=')
+        key, value = item.split('=', 1)
         key = key.strip()
         value = value.strip()
         result[key] = unquote_plus(value)
@@ -113,8 +113,7 @@ class UriParse(object):
 
     def __str__(self):
         if self.query:
-            qup = ['%s=%s' % (key, value) for key, value in list(self.query.items())]
-            rest = '?'+('&'.join(qup))
+            rest = '?'+urlencode(self.query)
         else:
             rest = ''
         if self.fragment:
-- 
2.43.0


From a82341d1beae12f1f127b4b4371022dc257e6e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:18 +0000
Subject: [PATCH 13/27] fix: copying a URI lost changes made to its query or
 scheme

---
 abl/vpath/base/fs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 5752f50..8bede69 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -282,6 +282,9 @@ class BaseUri(object):
             self.uri = uri.uri
             self.sep = uri.sep
             self.parse_result = UriParse(uri.uri)
+            # both may have been changed since uri was created
+            self.scheme = uri.scheme
+            self.parse_result.query = uri.query.copy()
             self.extras = uri.extras.copy()
         else:
             if uri.startswith('file://'):
-- 
2.43.0


From 6065c0b9a4f6c602e7bc7ad23cfc90dddc1eae40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:43 +0000
Subject: [PATCH 14/27] fix: a query made split and last return wrong
 components

---
 abl/vpath/base/fs.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 8bede69..ede703d 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -426,6 +426,12 @@ class BaseUri(object):
         return path.startswith('/')
 
 
+    def _uri_without_query(self):
+        # the nested uri of a connector might have a query of its own
+        start = self.uri.find('))') if self.vpath_connector else 0
+        return self.uri[:start] + self.uri[start:].partition('?')[0]
+
+
     def split(self):
         """
         split: like os.path.split
@@ -434,11 +440,12 @@ class BaseUri(object):
         @return: a 2 tuple. The first element is a URI instance and the second
                  a string, representing the basename.
         """
+        uri = self._uri_without_query()
         try:
-            first, second = self.uri.rsplit('/', 1)
+            first, second = uri.rsplit('/', 1)
         except ValueError:
             first = ''
-            second = self.uri
+            second = uri
         # we might be already on the root
         if first.endswith('//'):
             first = first + '/'
@@ -449,7 +456,7 @@ class BaseUri(object):
             sep=self.sep,
             **self._extras()
             ),
-            second.partition('?')[0]
+            second
             )
 
 
@@ -489,7 +496,7 @@ class BaseUri(object):
         @return: last part of uri
         @rvalue: str
         """
-        parts = self.uri.split('/')
+        parts = self._uri_without_query().split('/')
         if not parts:
             return ''
         if len(parts) > 1:
-- 
2.43.0


From df91377f3af18556941605b5ca9feb562fbdaaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 15/27] fix: splitting at the root of a host or a nested URI
 mangled the authority

---
 abl/vpath/base/fs.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index ede703d..3b956a0 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -432,6 +432,19 @@ class BaseUri(object):
         return self.uri[:start] + self.uri[start:].partition('?')[0]
 
 
+    def _root_and_path(self):
+        "the uri without query, cut where its path starts"
+        uri = self._uri_without_query()
+        if self.vpath_connector:
+            start = uri.find('))') + 2
+        else:
+            start = uri.find('://') + 3
+            if uri[start:start+2] not in ('.', './'):
+                slash = uri.find('/', start)
+                start = len(uri) if slash < 0 else slash
+        return uri[:start], uri[start:]
+
+
     def split(self):
         """
         split: like os.path.split
@@ -440,19 +453,17 @@ class BaseUri(object):
         @return: a 2 tuple. The first element is a URI instance and the second
                  a string, representing the basename.
         """
-        uri = self._uri_without_query()
+        root, path = self._root_and_path()
         try:
-            first, second = uri.rsplit('/', 1)
+            first, second = path.rsplit('/', 1)
+            # we might be already on the root
+            if not first:
+                first = '/'
         except ValueError:
-            first = ''
-            second = uri
-        # we might be already on the root
-        if first.endswith('//'):
-            first = first + '/'
-        if not first:
-            first = '.'
+            first = '.' if path else ''
+            second = path
         return (self.__class__(
-            first,
+            root + first,
             sep=self.sep,
             **self._extras()
             ),
@@ -496,7 +507,7 @@ class BaseUri(object):
         @return: last part of uri
         @rvalue: str
         """
-        parts = self._uri_without_query().split('/')
+        parts = self._root_and_path()[1].split('/')
         if not parts:
             return ''
         if len(parts) > 1:
-- 
2.43.0


From 7a73dad7c1a9ad91f6ac94d19582ae04adb50dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:12 +0000
Subject: [PATCH 16/27] fix: a '#' at the end of a path was dropped

---
 abl/vpath/base/uriparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index 40fc9a0..752fed1 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -84,7 +84,7 @@ def urisplit(uri):
     # bugfix: '#' might be a legal character in a file name
     # it only has special meaning in urls
     if scheme not in ['http', 'https']:
-        if fragment:
+        if fragment is not None:
             path = '#'.join([path, fragment])
             fragment = ''
     return (scheme, authority, path, query, fragment)
-- 
2.43.0


From 78c908cd44781f708cf2b4d0e06c5a018f0f907b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:15 +0000
Subject: [PATCH 17/27] fix: the root in front of a colon was taken for a drive

---
 abl/vpath/base/fs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 3b956a0..60e0c49 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -183,7 +183,7 @@ atexit.register(CONNECTION_REGISTRY.shutdown)
 def normalize_uri(uri, sep='/'):
     if sep != '/':
         uri = uri.replace(sep, '/')
-        if len(uri) > 1 and uri[1] == ':':
+        if len(uri) > 1 and uri[1] == ':' and uri[0] != '/':
             uri = '/'+uri[0]+uri[2:]
     return uri
 
-- 
2.43.0


From c78b1b29ae291f7f119469e70e8734af49114906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:53 +0000
Subject: [PATCH 18/27] fix: the mailto parser ignored the defaults it was
 given

---
 abl/vpath/base/uriparse.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index 752fed1..d0ff58c 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -258,6 +258,15 @@ class MailtoURIParser(URLParser):
     def parse(self, urlinfo):
         scheme, authority, path, query, frag = urisplit(urlinfo)
         user, host = path.split('@', 1)
+        duser, dhost, dquery, dfrag = self._defaults
+        if user == '':
+            user = duser
+        if host == '':
+            host = dhost
+        if query is None:
+            query = dquery
+        if frag is None:
+            frag = dfrag
         return (user, host, query, frag)
 
     def unparse(self, pieces):
-- 
2.43.0


From f1b034aaf3166144fdf83694b820dc99c437aa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:44 +0000
Subject: [PATCH 19/27] fix: urljoin took a '#fragment' reference for a path

---
 abl/vpath/base/uriparse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index d0ff58c..43d0b0c 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -372,6 +372,9 @@ def urljoin(base, url):
     import posixpath
     bscheme, bauthority, bpath, bquery, bfragment = urisplit(base)
     uscheme, uauthority, upath, uquery, ufragment = urisplit(url)
+    if uscheme is None and bscheme is not None:
+        # whether '#' separates a fragment depends on the scheme
+        uscheme, uauthority, upath, uquery, ufragment = urisplit(bscheme + ':' + url)
     if uscheme is not None and bscheme != uscheme:
         return url
     if uauthority is not None:
-- 
2.43.0


From 5a898015eb484806396df8eb755040beca93fc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:52 +0000
Subject: [PATCH 20/27] fix: urljoin glued a relative path to the authority of
 a base without path

---
 abl/vpath/base/uriparse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index 43d0b0c..e41b1e2 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -381,6 +381,9 @@ def urljoin(base, url):
         bauthority, bpath, bquery, bfragment = \
             uauthority, upath, uquery, ufragment
     elif upath != '':
+        if bauthority is not None and not bpath:
+            # nothing but a slash can follow the authority
+            bpath = '/'
         bpath = posixpath.normpath(_pathjoin(_dirname(bpath), upath))
         bquery, bfragment = uquery, ufragment
     elif uquery is not None:
-- 
2.43.0


From 078eb4187757964e5c699501079f5a6c49ef15e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:28 +0000
Subject: [PATCH 21/27] fix: urljoin doubled the root of paths resolved against
 a file in the root

---
 abl/vpath/base/uriparse.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index e41b1e2..f00d7d6 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -355,10 +355,12 @@ def _dirname(p):
 def _pathjoin(a,b):
     if not a or not b:
         return a or b
-    elif not b.startswith('/'):
-        return a+'/'+b
-    else:
+    elif b.startswith('/'):
         return b
+    elif a.endswith('/'):
+        return a+b
+    else:
+        return a+'/'+b
 
 def urljoin(base, url):
     """Join a base URL and a (possiby relative) URL.
-- 
2.43.0


From a343463fbb06df6913e09a6a879070bc95076713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 22/27] fix: memory paths with trailing or doubled slashes
 named entries without name

---
 abl/vpath/base/memory.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index a5e92bf..9380c58 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -394,10 +394,9 @@ class MemoryFileSystem(FileSystem):
 
     def _path(self, path):
         p = super(MemoryFileSystem, self)._path(path)
-        # cut off leading slash, that's our root
         assert p.startswith("/")
-        p = p[1:]
-        return p
+        # the leading slash is our root, other empty parts don't name anything
+        return "/".join([x for x in p.split("/") if x])
 
 
     def isdir(self, path):
@@ -569,18 +568,17 @@ class MemoryFileSystem(FileSystem):
 
 
     def removefile(self, path):
-        parent, _ = self._get_node_prev(self._fs,
-                                        [x for x in self._path(path).split("/") if x],
-                                        follow_link=False)
+        steps = [x for x in self._path(path).split("/") if x]
+        parent, _ = self._get_node_prev(self._fs, steps, follow_link=False)
         if parent is not None:
-            self._del_child(parent, path.last())
+            self._del_child(parent, steps[-1])
 
 
     def removedir(self, path):
-        prev, _ = self._get_node_prev(self._fs,
-                                            [x for x in self._path(path).split("/") if x])
+        steps = [x for x in self._path(path).split("/") if x]
+        prev, _ = self._get_node_prev(self._fs, steps)
         if prev is not None:
-            part = path.last()
+            part = steps[-1]
             if self._child(prev, part).isempty():
                 self._del_child(prev, part)
             else:
-- 
2.43.0


From e6d3bb012a6b50bbacf713ca6a9d34b34f2db704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:49 +0000
Subject: [PATCH 23/27] fix: copying a link to another backend created it in
 the source's backend

---
 abl/vpath/base/fs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 60e0c49..1aa81b0 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -927,9 +927,11 @@ class FileSystem(object):
 
     def _copy_link(self, source, dest):
         assert self.islink(source)
+        # the destination may be located in another backend
+        connection = dest.get_connection()
         if dest.isfile():
-            self.removefile(dest)
-        self.symlink(self.readlink(source), dest)
+            connection.removefile(dest)
+        connection.symlink(self.readlink(source), dest)
 
 
     def copy(self, source, dest, recursive=False, ignore=None,
-- 
2.43.0


From 7664cb504791677c4ff5cdb3b15f139a64984d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:20 +0000
Subject: [PATCH 24/27] fix: a zip entry was lost when the zip was used for
 something else while writing it

---
 abl/vpath/base/zip.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index 8579ae4..ffc185c 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -22,6 +22,8 @@ class WriteStatement(object):
 
 
     def __exit__(self, etype, evalue, etraceback):
+        # the zip may have been opened for something else in between
+        self.zip_backend.open_zip('w')
         self.zip_backend._ziphandle.writestr(self.path_string,
                                              self.byte_buffer.getvalue())
         self.byte_buffer.close()
-- 
2.43.0


From ebf8fbc81d429d219c92eff050991dee27176b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:41 +0000
Subject: [PATCH 25/27] fix: concurrent first requests for one endpoint created
 several connections

---
 abl/vpath/base/fs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 1aa81b0..cdd7630 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -75,8 +75,10 @@ class ConnectionRegistry(object):
 
     def create(self, scheme, key, extras):
         with self.creation_locks[scheme]:
-            conn = self.schemes[scheme](*key[1:-1], **extras)
-            self.connections[key] = conn
+            # another thread may have created it in the meantime
+            if key not in self.connections:
+                conn = self.schemes[scheme](*key[1:-1], **extras)
+                self.connections[key] = conn
 
 
     def get_connection(self,
-- 
2.43.0


From 18db8b56f2f945781e0dd77768fc61b4c040c413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:07 +0000
Subject: [PATCH 26/27] fix: join_authority dropped a password given without a
 user name

---
 abl/vpath/base/uriparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index f00d7d6..2880f8b 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -147,8 +147,8 @@ def join_authority(authority):
     """
     (user, passwd, host, port) = authority
     result = ''
-    if user:
-        result += user
+    if user or passwd:
+        result += user or ''
         if passwd:
             result += ':' + passwd
         result += '@'
-- 
2.43.0


From bd7ef71f9713aa8e34704f615560cea323a15f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:09 +0000
Subject: [PATCH 27/27] fix: the last component of a path with several trailing
 slashes was empty

Copying or moving a directory written that way into an existing directory
merged its contents into that directory.
---
 abl/vpath/base/fs.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index cdd7630..611e137 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -509,16 +509,7 @@ class BaseUri(object):
         @return: last part of uri
         @rvalue: str
         """
-        parts = self._root_and_path()[1].split('/')
-        if not parts:
-            return ''
-        if len(parts) > 1:
-            if not parts[-1]:
-                return parts[-2]
-            else:
-                return parts[-1]
-        else:
-            return parts[-1]
+        return self._root_and_path()[1].rstrip('/').split('/')[-1]
 
 
     def join(self, *args):
-- 
2.43.0

