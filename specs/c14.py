"""C14: an in-memory file holds exactly the bytes written to it"""
from memlib import *

ASSUMPTIONS = ['lookups lead to the node of the path (C12, C13)',
               'io.BytesIO: what is read, written and sought is a byte string and a position in it',
               'in text mode the bytes read are UTF-8 encoded text',
               'line feeds in UTF-8 encoded text are line feeds of the text']


class Contents:
    """the files of a directory: /f, and /l that is a link to it, and /g that nobody touches.

    Whatever was done before, their contents and positions are arbitrary."""
    def __init__(self, w):
        self.w = w
        self.fs = w.fs
        self.buffers = []
        if SYMBOLIC:
            external('io.BytesIO', self.buffer)
        self.other = self.create('g')
        self.file = self.create('f')
        self.fs.URI('memory:///f').symlink(self.fs.URI('memory:///l'))

    def buffer(self, data=b''):
        b = Bytes(data)
        self.buffers.append(b)
        return b

    def create(self, name):
        "a file with any content, at any position"
        u = self.fs.URI('memory:///' + name)
        with u.open('wb') as f:
            before, after = fresh_bytes('before'), fresh_bytes('after')
            f.write(before + after)
            if not SYMBOLIC:
                f.seek(len(before))
            elif self.buffers:
                self.buffers[-1].before, self.buffers[-1].after = before, after
        self.content = before + after
        return self.content

    def now(self, name='f'):
        with self.fs.URI('memory:///' + name).open('rb') as f:
            return f.read()


def directory(w):
    w.root._files.known = [(n, None) for n in 'fgl']
    return Contents(w)


def data(binary, name):
    if binary:
        return fresh_bytes(name)
    return string(name)


def coded(data):
    return data if isinstance(data, bytes) else data.encode('utf-8')


def leave(f, how):
    if how == 'close':
        f.close()
    elif how == 'block':
        f.__exit__(None, None, None)


def through(c, link):
    return c.fs.URI('memory:///l' if link else 'memory:///f')


def unit_write():
    """Everything written before is `first`: any number of writes.  One more write adds
    what it is given."""
    with World() as w:
        c = directory(w)
        binary = choose('binary', False, True)
        u = through(c, choose('link', False, True))
        f = u.open('wb' if binary else 'w')
        ensure('the old content is discarded', c.now() == b'')
        f = u.open('wb' if binary else 'w')
        f.__enter__()
        first, more = data(binary, 'first'), data(binary, 'more')
        f.write(first)
        f.write(more)
        leave(f, choose('leave', 'close', 'block'))
        ensure('what was written', c.now() == coded(first) + coded(more))
        ensure('for every later reader', c.now() == coded(first) + coded(more))
        ensure('the other file is as it was', c.now('g') == c.other)
        if not binary:
            ensure('read back as text', c.fs.URI('memory:///f').open('r').read() == first + more)


def unit_bytes_in_text_mode():
    "bytes are written as they are"
    with World() as w:
        c = directory(w)
        mode = choose('mode', 'w', 'a')
        d = fresh_bytes('data')
        with through(c, False).open(mode) as f:
            f.write(d)
        ensure('what was written', c.now() == (d if mode == 'w' else c.file + d))


def unit_create():
    "the same for a file that was not there"
    with World() as w:
        c = directory(w)
        w.root._files.known.append(('n', None))
        u = c.fs.URI('memory:///n')
        binary = choose('binary', False, True)
        first, more = data(binary, 'first'), data(binary, 'more')
        f = u.open('wb' if binary else 'w')
        f.write(first)
        f.write(more)
        leave(f, choose('leave', 'close', 'block'))
        ensure('what was written', c.now('n') == coded(first) + coded(more))
        ensure('nothing else', c.now('f') == c.file and c.now('g') == c.other)


def unit_append():
    with World() as w:
        c = directory(w)
        binary = choose('binary', False, True)
        u = through(c, choose('link', False, True))
        f = u.open('ab' if binary else 'a')
        f.__enter__()
        first, more = data(binary, 'first'), data(binary, 'more')
        f.write(first)
        f.write(more)
        leave(f, choose('leave', 'close', 'block'))
        ensure('added at the end', c.now() == c.file + coded(first) + coded(more))
        ensure('the other file is as it was', c.now('g') == c.other)


def unit_open_changes_nothing():
    "opening for reading or appending, and reading"
    with World() as w:
        c = directory(w)
        u = through(c, choose('link', False, True))
        mode = choose('mode', None, 'r', 'rb', 'a', 'ab')
        f = u.open(mode) if mode is not None else u.open()
        if mode in ('rb',):
            f.read()
        leave(f, choose('leave', 'close', 'block'))
        ensure('content as it was', c.now() == c.file)


def unit_read():
    with World() as w:
        c = directory(w)
        u = through(c, choose('link', False, True))
        mode = choose('mode', None, 'r', 'rb')
        if mode == 'rb' or SYMBOLIC:
            want = c.file
        else:
            want = string('text').encode('utf-8')
            with u.open('wb') as f:
                f.write(want)
        f = u.open(mode) if mode is not None else u.open()
        ensure('the whole content', f.read() == (want if mode == 'rb' else want.decode('utf-8')))
        rest = f.read()
        ensure('and nothing more', rest == (b'' if mode == 'rb' else ''))


def unit_read_in_pieces():
    with World() as w:
        c = directory(w)
        f = through(c, choose('link', False, True)).open('rb')
        n = fresh_int('n', 0)
        first = f.read(n)
        rest = f.read()
        ensure('all of it', first + rest == c.file)
        ensure('at most as much as asked for', len(first) <= n)
        ensure('as much as there is', len(first) == n or len(rest) == 0)


def unit_write_only():
    "nothing can be read through a handle for writing, and trying does no harm"
    with World() as w:
        c = directory(w)
        mode = choose('mode', 'w', 'wb', 'a', 'ab')
        u = c.fs.URI('memory:///f')
        f = u.open(mode)
        first = fresh_bytes('first')
        f.write(first)
        how = choose('reading', 'read', 'read some', 'readline', 'readlines', 'iterate')
        if how == 'read':
            r = outcome(f.read)
        elif how == 'read some':
            r = outcome(f.read, 1)
        elif how == 'readline':
            r = outcome(f.readline)
        elif how == 'readlines':
            r = outcome(lambda: list(f.readlines()))
        else:
            r = outcome(lambda: next(iter(f)))
        ensure('refused', error(r, errno.EBADF), r)
        more = fresh_bytes('more')
        f.write(more)
        f.close()
        ensure('what was written', c.now() == (b'' if mode[0] == 'w' else c.file) + first + more)


def unit_readline():
    """One line of what has not been read yet, from any position on.

    Induction: reading starts at the beginning (unit_read), and every line read leaves
    what follows it."""
    with World() as w:
        c = directory(w)
        binary = choose('binary', True, False)
        f, lines = some_lines(c, binary)
        how = choose('how', 'readline', 'next', 'for')
        if how == 'readline':
            r = outcome(f.readline)
        elif how == 'next':
            r = outcome(lambda: next(f))
        else:
            r = outcome(lambda: next(iter(f)))
        if lines == []:
            ensure('no more', (r[0] == 'raise' and isinstance(r[1], StopIteration)) if how != 'readline'
                   else r[0] == 'return' and r[1] == (b'' if binary else ''), r)
        else:
            ensure('the next line', r[0] == 'return' and r[1] == (lines[0] if binary else lines[0].decode('utf-8')), r)
            if SYMBOLIC:
                # on to the next line: the loop goes on with what follows
                outcome(lambda: next(g))


def some_lines(c, binary):
    "a file opened for reading, and what is left: the next line and what follows it"
    shape = choose('left', 'nothing', 'unfinished line', 'line')
    u = c.fs.URI('memory:///f')
    if shape == 'nothing':
        lines = []
    else:
        line = fresh_bytes('line', 1 if shape == 'unfinished line' else 0, exclude=b'\n') if SYMBOLIC else \
            string('line', exclude='\n', minlen=1 if shape == 'unfinished line' else 0).encode('utf-8')
        lines = [line] if shape == 'unfinished line' else [line + b'\n', fresh_bytes('rest') if SYMBOLIC else string('rest').encode('utf-8')]
    before = fresh_bytes('before')
    after = lines[0] + (lines[1] if len(lines) > 1 else b'') if lines else b''
    with u.open('wb') as f:
        f.write(before + after)
    f = u.open('rb' if binary else 'r')
    if SYMBOLIC:
        c.buffers[-1].before, c.buffers[-1].after = before, after
    else:
        f.seek(len(before))
    return f, lines


class Reading:
    """invariant of the loops that read line by line: some lines are delivered, the file
    is at the beginning of the next one, if there is one"""
    def __init__(self, c, lines):
        self.c = c
        self.lines = lines
        invariant('*', 0, self.reading)

    def reading(self, L):
        if L.mode == 'assume':
            b = self.c.buffers[-1]
            shape = pick('nothing', 'unfinished line', 'line')
            b.before = fresh_bytes('delivered')
            line = fresh_bytes('line', 1 if shape == 'unfinished line' else 0, exclude=b'\n')
            if shape == 'nothing':
                self.lines = []
            elif shape == 'unfinished line':
                self.lines = [line]
            else:
                self.lines = [line + b'\n', fresh_bytes('rest')]
            b.after = self.lines[0] + (self.lines[1] if len(self.lines) > 1 else b'') if self.lines else b''
        elif L.mode == 'step':
            L.check('at the next line', self.c.buffers[-1].after == (self.lines[1] if len(self.lines) > 1 else b''))


def unit_readlines():
    "the generator yields line after line, for any number of lines"
    with World() as w:
        c = directory(w)
        binary = choose('binary', True, False)
        f, lines = some_lines(c, binary)
        if SYMBOLIC:
            state = Reading(c, lines)
        g = f.readlines()
        r = outcome(lambda: next(g))
        if SYMBOLIC:
            lines = state.lines
        if lines == []:
            ensure('no more', r[0] == 'raise' and isinstance(r[1], StopIteration))
        else:
            ensure('the next line', r[0] == 'return' and r[1] == (lines[0] if binary else lines[0].decode('utf-8')), r)
            if SYMBOLIC:
                # on to the next line: the loop goes on with what follows
                outcome(lambda: next(g))


def native_cycles():
    "sequences of cycles on several files, compared with a description of the contents"
    fs = repo('fs')
    fs.CONNECTION_REGISTRY.cleanup(force=True)
    want = {}
    links = {}
    for n in range(choose('steps', 3, 5, 9)):
        name = choose('name %d' % n, 'a', 'b', 'c')
        u = fs.URI('memory:///' + name)
        op = choose('op %d' % n, 'write', 'append', 'read', 'lines', 'link', 'text')
        real_name = links.get(name, name)
        text = choose('text %d' % n, '', 'x', 'a\nb', '\n', '\n\nc\n', '\ufeffa\r\n', '\x00\x85\u2028', 'é€\U0001f600\n', 'ab' * 50)
        binary = choose('binary %d' % n, True, False)
        if op == 'link':
            if name not in want and name not in links:
                to = choose('to %d' % n, 'a', 'b', 'c')
                if to != name and to in want:
                    fs.URI('memory:///' + to).symlink(u)
                    links[name] = to
            continue
        if op == 'write' or real_name not in want:
            with u.open('wb' if binary else 'w') as f:
                f.write(text.encode('utf-8') if binary else text)
            want[real_name] = text
        elif op == 'append':
            f = u.open('ab' if binary else 'a')
            f.write(text.encode('utf-8') if binary else text)
            f.close()
            want[real_name] += text
        elif op == 'lines':
            with u.open('rb' if binary else 'r') as f:
                got = list(choose('how %d' % n, lambda: f.readlines(), lambda: f)())
            lines = (want[real_name].encode('utf-8') if binary else want[real_name]).split(b'\n' if binary else '\n')
            end = b'\n' if binary else '\n'
            ensure('lines', got == [x + end for x in lines[:-1]] + [x for x in lines[-1:] if x], (got, lines))
        for x in want:
            ensure('bytes', fs.URI('memory:///' + x).open('rb').read() == want[x].encode('utf-8'), x)
            ensure('text', fs.URI('memory:///' + x).open('r').read() == want[x], x)
        for x in links:
            ensure('through a link', fs.URI('memory:///' + x).open().read() == want[links[x]], x)
            ensure('still a link', fs.URI('memory:///' + x).islink())
