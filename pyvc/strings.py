"""Symbolic strings ("ropes").

A rope is a sequence of pieces: literals, atoms (unknown strings with a
character set, a minimal length and excluded substrings) and joins (unknown
numbers of elements of a symbolic sequence, separated by a literal).  String
operations are evaluated exactly; where the result depends on an unknown, the
path is split into exhaustive and disjoint cases which refine the atoms.  What
a refinement cannot express is kept as residual constraint for the string
solvers.
"""
import string as _string
import z3
from .core import ctx, Unsupported, PathEnd

ALPHA = _string.ascii_letters + _string.digits + '._-~ +%&=@:/?#()\\\n!*,;'


class CharSet(object):
    __slots__ = ('neg', 'chars')

    def __init__(self, chars, neg=False):
        self.chars = frozenset(chars)
        self.neg = neg

    def has(self, c):
        return (c in self.chars) != self.neg

    def compl(self):
        return CharSet(self.chars, not self.neg)

    def inter(self, o):
        if self.neg and o.neg:
            return CharSet(self.chars | o.chars, True)
        if self.neg:
            return CharSet(o.chars - self.chars)
        if o.neg:
            return CharSet(self.chars - o.chars)
        return CharSet(self.chars & o.chars)

    def union(self, o):
        return self.compl().inter(o.compl()).compl()

    def minus(self, o):
        return self.inter(o.compl())

    def empty(self):
        return not self.neg and not self.chars

    def subset(self, o):
        return self.minus(o).empty()

    def single(self):
        if not self.neg and len(self.chars) == 1:
            return next(iter(self.chars))
        return None

    def sample(self):
        return [c for c in ALPHA if self.has(c)] or sorted(self.chars)[:5]

    def __repr__(self):
        return ('^' if self.neg else '') + '[' + ''.join(sorted(self.chars)) + ']'

    def __eq__(self, o):
        return isinstance(o, CharSet) and self.neg == o.neg and self.chars == o.chars

    def __hash__(self):
        return hash((self.neg, self.chars))


ANY = CharSet('', True)
WS = CharSet([chr(c) for c in range(0x3001) if chr(c).isspace()])


class Atom(object):
    __slots__ = ('name', 'cs', 'minlen', 'char', 'nosub', 'neq', 'notend', 'notstart', 'defn',
                 'subst', 'n', '_len', 'uneq')

    def __init__(self, name, cs=ANY, minlen=0, char=False, nosub=(), defn=None):
        c = ctx()
        self.name = c.fresh(name)
        self.cs = cs
        self.char = char
        self.minlen = 1 if char else minlen
        self.nosub = frozenset(nosub)
        self.neq = frozenset()
        self.uneq = set()        # atoms known to differ
        self.notend = frozenset()
        self.notstart = frozenset()
        self.defn = defn
        self.subst = None
        self._len = None
        self.n = len(c.atoms)
        c.atoms.append(self)
        if cs.empty() and self.minlen:
            raise PathEnd('empty character set')

    def __repr__(self):
        return '<%s>' % self.name

    def restrict(self, cs):
        self.cs = self.cs.inter(cs)
        if self.cs.empty():
            if self.minlen:
                raise PathEnd('no character left')
            self.set([])
        elif self.char and self.cs.single() is not None:
            self.set([self.cs.single()])

    def set(self, pieces):
        assert self.subst is None
        self.subst = list(pieces)
        if self._len is not None:
            ctx().assume_z3(self._len == len_z3(norm(pieces)))
        c = ctx()
        if self.minlen > 1:
            q = norm(pieces)
            need = self.minlen - sum(len(x) if isinstance(x, str) else x.minlen for x in q)
            if need > 0:
                flex = [x for x in q if not isinstance(x, str) and not getattr(x, 'char', False)]
                if not flex:
                    raise PathEnd('too short')
                if len(flex) == 1 and isinstance(flex[0], Atom):
                    flex[0].minlen += need
                else:
                    c.strc.append(('minlen', list(pieces), self.minlen))
        # residual facts that the new pieces do not carry
        for lit in self.nosub:
            _residual_nosub(pieces, lit)
        for lit in self.neq:
            c.strc.append(('neq', list(pieces), [lit]))
        for o in list(self.uneq):
            c.strc.append(('neq', list(pieces), [o]))
        for lit in self.notend:
            c.strc.append(('notend', list(pieces), lit))
        for lit in self.notstart:
            c.strc.append(('notstart', list(pieces), lit))
        check_residual()


def _residual_nosub(pieces, lit):
    ctx().strc.append(('nosub', list(pieces), lit))


def check_residual():
    "cheap evaluation of residual constraints that became concrete"
    c = ctx()
    for con in c.strc:
        p = norm(con[1])
        if con[0] == 'minlen':
            if all(isinstance(x, str) or getattr(x, 'char', False) for x in p) and \
                    sum(len(x) if isinstance(x, str) else 1 for x in p) < con[2]:
                raise PathEnd('too short')
        elif con[0] == 'neq':
            q = norm(con[2])
            if p == q:
                raise PathEnd('contradiction')
        elif con[0] == 'nosub':
            if any(isinstance(x, str) and con[2] in x for x in p):
                raise PathEnd('contradiction')
        elif con[0] == 'notend':
            if p and isinstance(p[-1], str) and p[-1].endswith(con[2]):
                raise PathEnd('contradiction')
        elif con[0] == 'notstart':
            if p and isinstance(p[0], str) and p[0].startswith(con[2]):
                raise PathEnd('contradiction')


class Join(object):
    """sep.join(seq[lo:hi]), hi - lo >= 1; seq yields ropes"""
    __slots__ = ('sep', 'seq', 'lo', 'hi', '_len')

    def __init__(self, sep, seq, lo, hi):
        self.sep, self.seq, self.lo, self.hi = sep, seq, lo, hi
        self._len = None

    @property
    def cs(self):
        return self.seq.elem_cs.union(CharSet(self.sep))

    @property
    def minlen(self):
        return self.seq.elem_min

    def first(self):
        "(element, rest pieces)"
        c = ctx()
        if c.branch_z3(self.hi - self.lo == 1, 'single'):
            return norm(pieces_of(self.seq.get(self.lo))), []
        return (norm(pieces_of(self.seq.get(self.lo))),
                [self.sep, Join(self.sep, self.seq, z3.simplify(self.lo + 1), self.hi)])

    def last(self):
        c = ctx()
        if c.branch_z3(self.hi - self.lo == 1, 'single'):
            return [], norm(pieces_of(self.seq.get(self.lo)))
        h = z3.simplify(self.hi - 1)
        return ([Join(self.sep, self.seq, self.lo, h), self.sep],
                norm(pieces_of(self.seq.get(h))))

    def __repr__(self):
        return '<%r.join(%s[%s:%s])>' % (self.sep, self.seq.name, self.lo, self.hi)

    def __eq__(self, o):
        return (isinstance(o, Join) and o.sep == self.sep and o.seq is self.seq
                and ctx().valid(z3.And(o.lo == self.lo, o.hi == self.hi)))

    __hash__ = None


class Rope(object):
    __slots__ = ('_p',)

    def __init__(self, pieces):
        self._p = list(pieces)

    @property
    def pieces(self):
        self._p = norm(self._p)
        return self._p

    def __repr__(self):
        return 'Rope(%s)' % ' '.join(repr(p) for p in self.pieces)

    __hash__ = None

    def __eq__(self, o):
        raise Unsupported('internal: comparison of ropes by ==')


class BRope(object):
    "a symbolic byte string: an opaque rope over bytes"
    __slots__ = ('rope',)

    def __init__(self, rope):
        self.rope = rope

    def __repr__(self):
        return 'bytes:%r' % (self.rope,)


def norm(pieces):
    out = []
    stack = list(reversed(pieces))
    while stack:
        p = stack.pop()
        if isinstance(p, str):
            if p:
                if out and isinstance(out[-1], str):
                    out[-1] += p
                else:
                    out.append(p)
        elif isinstance(p, Atom):
            if p.subst is not None:
                stack.extend(reversed(p.subst))
            else:
                out.append(p)
        elif isinstance(p, Join):
            out.append(p)
        elif isinstance(p, Rope):
            stack.extend(reversed(p._p))
        else:
            raise Unsupported('string piece %r' % (p,))
    return out


def mk(pieces):
    "a string value: str if concrete, Rope otherwise"
    p = norm(pieces)
    if not p:
        return ''
    if len(p) == 1 and isinstance(p[0], str):
        return p[0]
    return Rope(p)


def pieces_of(v):
    if isinstance(v, str):
        return [v] if v else []
    if isinstance(v, Rope):
        return v.pieces
    if isinstance(v, (Atom, Join)):
        return norm([v])
    raise Unsupported('not a string: %r' % (v,))


def is_str(v):
    return isinstance(v, (str, Rope))


def concat(*vs):
    out = []
    for v in vs:
        out += pieces_of(v)
    return mk(out)


# -- refinement ------------------------------------------------------------------

def _copyfacts(a, name, cs, minlen=0):
    return Atom(a.name + name, cs, minlen, nosub=a.nosub)


def split_empty(a):
    "fork: True if the atom is empty (and then removed)"
    c = ctx()
    if a.minlen:
        return False
    if a.defn and a.defn[0] in ('utf8encode', 'utf8decode'):
        # empty if and only if what is coded is empty
        if at_least(pieces_of(a.defn[1][0]), 1):
            a.minlen = 1
            if a._len is not None:
                c.assume_z3(a._len >= 1)
            return False
        a.set([])
        return True
    if c.choose(2, '%s empty?' % a.name) == 0:
        a.minlen = 1
        if a._len is not None:
            c.assume_z3(a._len >= 1)
            if c.check() == z3.unsat:
                raise PathEnd('is empty')
        return False
    if a._len is not None:
        c.assume_z3(a._len == 0)
        if c.check() == z3.unsat:
            raise PathEnd('is not empty')
    if '' in a.neq:
        raise PathEnd('nonempty')
    a.set([])
    return True


def first_char(pieces, want=None):
    """materialise the first character: returns (char or char atom, rest) or None
    if empty.  With `want` (a CharSet) the character is known to be in or out of it."""
    while True:
        pieces = norm(pieces)
        if not pieces:
            return None
        p = pieces[0]
        if isinstance(p, str):
            return p[0], norm([p[1:]] + pieces[1:])
        if isinstance(p, Join):
            e, rest = p.first()
            pieces = e + rest + pieces[1:]
            continue
        if p.char:
            if want is not None and not p.cs.subset(want) and not p.cs.inter(want).empty():
                if ctx().choose(2, '%s in %r' % (p.name, want)) == 0:
                    p.restrict(want)
                else:
                    p.restrict(want.compl())
                continue
            return p, pieces[1:]
        if split_empty(p):
            continue
        cs = p.cs
        if want is not None:
            i = cs.inter(want)
            o = cs.minus(want)
            if not i.empty() and not o.empty():
                cs = i if ctx().choose(2, '%s starts in %r' % (p.name, want)) == 0 else o
        ch = Atom(p.name + '.c', cs, char=True) if cs.single() is None else cs.single()
        rest = _copyfacts(p, '.r', p.cs)
        p.set([ch, rest])


def last_char(pieces, want=None):
    while True:
        pieces = norm(pieces)
        if not pieces:
            return None
        p = pieces[-1]
        if isinstance(p, str):
            return norm(pieces[:-1] + [p[:-1]]), p[-1]
        if isinstance(p, Join):
            rest, e = p.last()
            pieces = pieces[:-1] + rest + e
            continue
        if p.char:
            if want is not None and not p.cs.subset(want) and not p.cs.inter(want).empty():
                if ctx().choose(2, '%s in %r' % (p.name, want)) == 0:
                    p.restrict(want)
                else:
                    p.restrict(want.compl())
                continue
            return pieces[:-1], p
        if split_empty(p):
            continue
        cs = p.cs
        if want is not None:
            i = cs.inter(want)
            o = cs.minus(want)
            if not i.empty() and not o.empty():
                cs = i if ctx().choose(2, '%s ends in %r' % (p.name, want)) == 0 else o
        ch = Atom(p.name + '.e', cs, char=True) if cs.single() is None else cs.single()
        rest = _copyfacts(p, '.b', p.cs)
        p.set([rest, ch])


def char_in(ch, cs):
    if isinstance(ch, str):
        return cs.has(ch)
    if ch.cs.subset(cs):
        return True
    if ch.cs.inter(cs).empty():
        return False
    if ctx().choose(2, '%s in %r' % (ch.name, cs)) == 0:
        ch.restrict(cs)
        return True
    ch.restrict(cs.compl())
    return False


def cut_at(pieces, cs):
    "(before, at, after) for the first character in cs, or None"
    pieces = norm(pieces)
    before = []
    while pieces:
        p = pieces[0]
        if isinstance(p, str):
            for i, ch in enumerate(p):
                if cs.has(ch):
                    return norm(before + [p[:i]]), ch, norm([p[i + 1:]] + pieces[1:])
            before.append(p)
            pieces = pieces[1:]
            continue
        if p.cs.inter(cs).empty():
            before.append(p)
            pieces = pieces[1:]
            continue
        if isinstance(p, Join):
            if not p.seq.elem_cs.inter(cs).empty() and not (p.seq.elem_min and p.seq.elem_cs.subset(cs)):
                raise Unsupported('search inside of joined elements')
            e, rest = p.first()
            pieces = norm(e + rest + pieces[1:])
            continue
        if p.char:
            if char_in(p, cs):
                return norm(before), (p if p.subst is None else p.subst[0]), pieces[1:]
            pieces = norm(pieces)
            continue
        if p.cs.subset(cs):
            if split_empty(p):
                pieces = norm(pieces)
                continue
            first_char([p])
            pieces = norm(pieces)
            continue
        inside = p.cs.inter(cs)
        if ctx().choose(2, '%s has %r' % (p.name, cs)) == 0:
            p.restrict(cs.compl())
        else:
            x = _copyfacts(p, '.x', p.cs.minus(cs))
            ch = inside.single() or Atom(p.name + '.c', inside, char=True)
            y = _copyfacts(p, '.y', p.cs)
            p.set([x, ch, y])
        pieces = norm(pieces)
    return None


def rcut_at(pieces, cs):
    pieces = norm(pieces)
    after = []
    while pieces:
        p = pieces[-1]
        if isinstance(p, str):
            for i in range(len(p) - 1, -1, -1):
                if cs.has(p[i]):
                    return norm(pieces[:-1] + [p[:i]]), p[i], norm([p[i + 1:]] + after)
            after.insert(0, p)
            pieces = pieces[:-1]
            continue
        if p.cs.inter(cs).empty():
            after.insert(0, p)
            pieces = pieces[:-1]
            continue
        if isinstance(p, Join):
            if not p.seq.elem_cs.inter(cs).empty() and not (p.seq.elem_min and p.seq.elem_cs.subset(cs)):
                raise Unsupported('search inside of joined elements')
            rest, e = p.last()
            pieces = norm(pieces[:-1] + rest + e)
            continue
        if p.char:
            if char_in(p, cs):
                return pieces[:-1], (p if p.subst is None else p.subst[0]), norm(after)
            pieces = norm(pieces)
            continue
        if p.cs.subset(cs):
            if split_empty(p):
                pieces = norm(pieces)
                continue
            last_char([p])
            pieces = norm(pieces)
            continue
        inside = p.cs.inter(cs)
        if ctx().choose(2, '%s has %r' % (p.name, cs)) == 0:
            p.restrict(cs.compl())
        else:
            x = _copyfacts(p, '.x', p.cs)
            ch = inside.single() or Atom(p.name + '.c', inside, char=True)
            y = _copyfacts(p, '.y', p.cs.minus(cs))
            p.set([x, ch, y])
        pieces = norm(pieces)
    return None


def starts_with(pieces, lit):
    "rest pieces after lit, or None; forks"
    for i, c in enumerate(lit):
        pieces = norm(pieces)
        # quick exit without refining
        if not pieces:
            return None
        p = pieces[0]
        if isinstance(p, str):
            n = min(len(p), len(lit) - i)
            if p[:n] != lit[i:i + n]:
                return None
            if n == len(lit) - i:
                return norm([p[n:]] + pieces[1:])
        elif isinstance(p, Atom) and not p.cs.has(c) and p.minlen:
            return None
        if isinstance(p, Atom) and any(lit[i:].startswith(x) for x in p.notstart) and not isinstance(p, str):
            if len(pieces) == 1 or p.char:
                return None
        fc = first_char(pieces, CharSet(c))
        if fc is None:
            return None
        ch, rest = fc
        if isinstance(ch, str):
            if ch != c:
                return None
        elif not char_in(ch, CharSet(c)):
            return None
        pieces = rest
    return norm(pieces)


def ends_with(pieces, lit):
    for i in range(len(lit) - 1, -1, -1):
        c = lit[i]
        pieces = norm(pieces)
        if not pieces:
            return None
        p = pieces[-1]
        if isinstance(p, str):
            n = min(len(p), i + 1)
            if p[-n:] != lit[i + 1 - n:i + 1]:
                return None
            if n == i + 1:
                return norm(pieces[:-1] + [p[:-n]])
        elif isinstance(p, Atom) and not p.cs.has(c) and p.minlen:
            return None
        elif isinstance(p, Atom) and lit[:i + 1] in p.notend and len(pieces) == 1:
            return None
        lc = last_char(pieces, CharSet(c))
        if lc is None:
            return None
        rest, ch = lc
        if isinstance(ch, str):
            if ch != c:
                return None
        elif not char_in(ch, CharSet(c)):
            return None
        pieces = rest
    return norm(pieces)


def may_start(pieces, lit):
    "False only if the pieces surely do not start with lit (no refinement)"
    pieces = norm(pieces)
    i = 0
    for p in pieces:
        if isinstance(p, str):
            n = min(len(p), len(lit) - i)
            if p[:n] != lit[i:i + n]:
                return False
            i += n
        elif isinstance(p, Atom):
            if not p.minlen:
                return True
            if not p.cs.has(lit[i]):
                return False
            if not p.char:
                return True
            i += 1
        else:
            return p.cs.has(lit[i])
        if i >= len(lit):
            return True
    return False


def find_sub(pieces, lit):
    "(before, after) around the first occurrence of lit, or None; forks"
    if not lit:
        return [], norm(pieces)
    if len(lit) == 1:
        r = cut_at(pieces, CharSet(lit))
        return None if r is None else (r[0], r[2])
    before = []
    pieces = norm(pieces)
    lits = CharSet(lit)
    guard = 0
    while pieces:
        guard += 1
        if guard > 300:
            raise Unsupported('unbounded search for %r' % lit)
        p = pieces[0]
        if isinstance(p, str):
            hit = False
            for off in range(len(p)):
                k = min(len(lit), len(p) - off)
                if p[off:off + k] != lit[:k]:
                    continue
                if k == len(lit):
                    return norm(before + [p[:off]]), norm([p[off + k:]] + pieces[1:])
                if not may_start(pieces[1:], lit[k:]):
                    continue
                rest = starts_with(pieces[1:], lit[k:])
                pieces = norm(pieces)
                if rest is not None:
                    return norm(before + [p[:off]]), rest
                # the refinement may have merged literals: search again
                hit = True
                break
            if hit:
                q = norm(pieces)
                if q and isinstance(q[0], str) and len(q[0]) > len(p):
                    pieces = q
                    continue
                # skip the part already searched
                before.append(p[:off + 1])
                pieces = norm([p[off + 1:]] + q[1:])
                continue
            before.append(p)
            pieces = pieces[1:]
            continue
        if isinstance(p, Join):
            if p.cs.inter(CharSet(lit[0])).empty():
                before.append(p)
                pieces = pieces[1:]
                continue
            if all(ch in lit for ch in p.sep) and p.seq.elem_min and p.seq.elem_cs.inter(lits).empty() and len(set(lit)) == 1:
                # separators are never adjacent inside; one may touch the neighbours
                # only if an element is empty
                before.append(p)
                pieces = pieces[1:]
                continue
            if p.seq.elem_cs.inter(lits).empty() and p.seq.elem_min and not all(ch == p.sep for ch in lit):
                before.append(p)
                pieces = pieces[1:]
                continue
            raise Unsupported('search inside of joined elements')
        if not p.cs.has(lit[0]):
            before.append(p)
            pieces = pieces[1:]
            continue
        if p.char:
            if may_start(pieces[1:], lit[1:]):
                if char_in(p, CharSet(lit[0])):
                    pieces = norm(pieces)
                    continue
            before.append(p)
            pieces = norm(pieces[1:])
            continue
        if all(p.cs.has(ch) for ch in lit) and not any(n in lit for n in p.nosub):
            if ctx().choose(2, '%s contains %r' % (p.name, lit)) == 0:
                p.nosub |= {lit}
            else:
                x = Atom(p.name + '.x', p.cs, 0, nosub=p.nosub | {lit})
                y = _copyfacts(p, '.y', p.cs)
                p.set([x, lit, y])
                _residual_nosub([x, lit[:-1]], lit)
                return norm(before + [x]), norm([y] + pieces[1:])
        # straddling occurrences
        done = False
        for k in range(len(lit) - 1, 0, -1):
            if lit[:k] in p.notend or not all(p.cs.has(ch) for ch in lit[:k]):
                continue
            if any(n in lit[:k] for n in p.nosub):
                continue
            if not may_start(pieces[1:], lit[k:]):
                continue
            rest = starts_with(pieces[1:], lit[k:])
            pieces = norm(pieces)
            if pieces and pieces[0] is not p:
                done = True
                break
            if rest is None:
                continue
            if ctx().choose(2, '%s ends with %r' % (p.name, lit[:k])) == 0:
                p.notend |= {lit[:k]}
                continue
            z = _copyfacts(p, '.z', p.cs)
            p.set([z, lit[:k]])
            return norm(before + [z]), rest
        if done:
            continue
        before.append(p)
        pieces = norm(pieces[1:])
    return None


def rfind_sub(pieces, lit):
    if len(lit) == 1:
        r = rcut_at(pieces, CharSet(lit))
        return None if r is None else (r[0], r[2])
    pieces = norm(pieces)
    if all(isinstance(p, str) for p in pieces):
        s = ''.join(pieces)
        i = s.rfind(lit)
        return None if i < 0 else ([s[:i]], [s[i + len(lit):]])
    # all occurrences from the left
    best = None
    done = []
    rest = pieces
    for _ in range(50):
        r = find_sub(rest, lit)
        if r is None:
            return best
        best = (norm(done + r[0]), r[1])
        fc = first_char([lit] + r[1])
        done = norm(done + r[0] + [lit[0]])
        rest = norm([lit[1:]] + r[1])
    raise Unsupported('unbounded search from the right')


# -- lengths -----------------------------------------------------------------------

def len_z3(pieces):
    tot = z3.IntVal(0)
    for p in norm(pieces):
        if isinstance(p, str):
            tot = tot + len(p)
        elif isinstance(p, Atom):
            if p.char:
                tot = tot + 1
            else:
                if p._len is None:
                    p._len = z3.Int('len(%s)' % p.name)
                    ctx().assume_z3(p._len >= p.minlen)
                tot = tot + p._len
        else:
            key = ('joinlen', id(p.seq), str(p.lo), str(p.hi), p.sep)
            m = ctx().memo
            if key not in m:
                m[key] = z3.Int(ctx().fresh('len(join %s)' % p.seq.name))
                ctx().assume_z3(m[key] >= (p.hi - p.lo) * p.seq.elem_min + (p.hi - p.lo - 1) * len(p.sep))
            tot = tot + m[key]
    return z3.simplify(tot)


def min_len(pieces):
    return sum(len(p) if isinstance(p, str) else p.minlen for p in norm(pieces))


def fixed_len(pieces):
    n = 0
    for p in norm(pieces):
        if isinstance(p, str):
            n += len(p)
        elif isinstance(p, Atom) and p.char:
            n += 1
        else:
            return None
    return n


def at_least(pieces, k):
    "fork: length >= k (k concrete)"
    if min_len(pieces) >= k:
        return True
    n = 0
    while n < k:
        fc = first_char(pieces)
        if fc is None:
            return False
        pieces = fc[1]
        n += 1
        if n + min_len(pieces) >= k:
            return True
    return True


def take(pieces, k):
    "(first k characters, rest); fewer if the string is shorter; k concrete"
    head = []
    pieces = norm(pieces)
    while k > 0:
        if not pieces:
            break
        p = pieces[0]
        if isinstance(p, str):
            head.append(p[:k])
            if len(p) > k:
                pieces = norm([p[k:]] + pieces[1:])
                k = 0
            else:
                k -= len(p)
                pieces = pieces[1:]
            continue
        fc = first_char(pieces)
        if fc is None:
            break
        head.append(fc[0])
        pieces = fc[1]
        k -= 1
    return norm(head), norm(pieces)


def take_last(pieces, k):
    tail = []
    pieces = norm(pieces)
    while k > 0:
        lc = last_char(pieces)
        if lc is None:
            break
        tail.insert(0, lc[1])
        pieces = lc[0]
        k -= 1
    return norm(pieces), norm(tail)


def split_at_term(pieces, n):
    "split at a symbolic offset that must be a piece boundary (or inside of a literal)"
    c = ctx()
    pieces = norm(pieces)
    off = z3.IntVal(0)
    for i in range(len(pieces) + 1):
        if c.valid(off == n):
            return pieces[:i], pieces[i:]
        if i < len(pieces):
            p = pieces[i]
            if isinstance(p, str):
                for j in range(1, len(p)):
                    if c.valid(off + j == n):
                        return norm(pieces[:i] + [p[:j]]), norm([p[j:]] + pieces[i + 1:])
            off = z3.simplify(off + len_z3([p]))
    if c.valid(n >= off):
        return pieces, []
    # decide boundary by boundary
    off = z3.IntVal(0)
    for i in range(len(pieces) + 1):
        if c.branch_z3(off == n, 'offset'):
            return pieces[:i], pieces[i:]
        if i < len(pieces):
            off = z3.simplify(off + len_z3([pieces[i]]))
    if c.branch_z3(n >= off, 'beyond'):
        return pieces, []
    # inside of one of the pieces
    off = z3.IntVal(0)
    for i, p in enumerate(pieces):
        end = z3.simplify(off + len_z3([p]))
        if c.branch_z3(z3.And(n > off, n < end), 'inside'):
            if isinstance(p, Atom) and not p.char:
                l, r = _copyfacts(p, '.l', p.cs, 1), _copyfacts(p, '.r', p.cs, 1)
                c.assume_z3(len_z3([l]) == n - off)
                p.set([l, r])
                return pieces[:i] + [l], [r] + pieces[i + 1:]
            break
        off = end
    raise Unsupported('offset inside of an unknown part of a string')


# -- equality ------------------------------------------------------------------------

def same(a, b):
    "syntactic equality of normal forms"
    a, b = norm(a), norm(b)
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            if not (isinstance(x, str) and isinstance(y, str) and x == y):
                return False
        elif x is not y and not _same_piece(x, y):
            return False
    return True


def _same_piece(x, y):
    if x is y:
        return True
    if isinstance(x, Atom) and isinstance(y, Atom) and x.defn and y.defn:
        return (x.defn[0] == y.defn[0] and len(x.defn[1]) == len(y.defn[1])
                and all(_same_arg(p, q) for p, q in zip(x.defn[1], y.defn[1])))
    if isinstance(x, Join) and isinstance(y, Join):
        if x == y:
            return True
        if x.sep != y.sep or x.seq is y.seq or not ctx().valid(z3.And(x.lo == y.lo, x.hi == y.hi)):
            return False
        from .seqs import elementwise_same
        return elementwise_same(x.seq, y.seq)
    return False


def _same_arg(p, q):
    if isinstance(p, (str, Rope)) and isinstance(q, (str, Rope)):
        return same(pieces_of(p), pieces_of(q))
    if z3.is_expr(p) and z3.is_expr(q):
        return ctx().valid(p == q)
    return p is q or (type(p) == type(q) and not isinstance(p, Rope) and p == q)


def equal(a, b):
    "decide a == b, forking"
    c = ctx()
    guard = 0
    while True:
        guard += 1
        if guard > 200:
            raise Unsupported('string comparison does not end')
        a, b = norm(a), norm(b)
        # strip common prefix and suffix
        while a and b:
            x, y = a[0], b[0]
            if isinstance(x, str) and isinstance(y, str):
                n = 0
                while n < len(x) and n < len(y) and x[n] == y[n]:
                    n += 1
                if n < len(x) and n < len(y):
                    return False
                a, b = norm([x[n:]] + a[1:]), norm([y[n:]] + b[1:])
                if n == 0:
                    break
            elif not isinstance(x, str) and not isinstance(y, str) and _same_piece(x, y):
                a, b = a[1:], b[1:]
            else:
                break
        while a and b:
            x, y = a[-1], b[-1]
            if isinstance(x, str) and isinstance(y, str):
                n = 0
                while n < len(x) and n < len(y) and x[-1 - n] == y[-1 - n]:
                    n += 1
                if n < len(x) and n < len(y):
                    return False
                a, b = norm(a[:-1] + [x[:len(x) - n]]), norm(b[:-1] + [y[:len(y) - n]])
                if n == 0:
                    break
            elif not isinstance(x, str) and not isinstance(y, str) and _same_piece(x, y):
                a, b = a[:-1], b[:-1]
            else:
                break
        if not a and not b:
            return True
        if not a or not b:
            r = a or b
            if min_len(r):
                return False
            # empty?  refine piece by piece
            for p in r:
                if not split_empty(p):
                    return False
            continue
        fa, fb = fixed_len(a), fixed_len(b)
        if fa is not None and min_len(b) > fa or fb is not None and min_len(a) > fb:
            return False
        if fa is not None and fb is not None and fa != fb:
            return False
        # quick refutation by first / last characters
        x, y = a[0], b[0]
        cx = CharSet(x[0]) if isinstance(x, str) else x.cs
        cy = CharSet(y[0]) if isinstance(y, str) else y.cs
        if ((isinstance(x, str) or x.minlen) and (isinstance(y, str) or y.minlen)
                and cx.inter(cy).empty()):
            return False
        # a required character of a literal that cannot occur on the other side
        if _impossible(a, b) or _impossible(b, a):
            return False
        # single atom against something
        if len(a) == 1 and isinstance(a[0], Atom):
            return _atom_eq(a[0], b)
        if len(b) == 1 and isinstance(b[0], Atom):
            return _atom_eq(b[0], a)
        # delimited heads: X c ... == Y c ... with c outside of X and Y
        r = _delimited(a, b)
        if r is None:
            r = _delimited_last(a, b)
        if r is not None:
            (a1, a2), (b1, b2) = r
            if not equal(a1, b1):
                return False
            a, b = a2, b2
            continue
        # a literal on one side: compare character by character
        if isinstance(x, str) or isinstance(y, str):
            lit, other = (x, b) if isinstance(x, str) else (y, a)
            if isinstance(other[0], Atom):
                fc = first_char(other, CharSet(lit[0]))
                if fc is None or not char_in(fc[0], CharSet(lit[0])):
                    return False
                continue
        if isinstance(x, Join) != isinstance(y, Join):
            if isinstance(x, Join):
                e, rest = x.first()
                a = norm(e + rest + a[1:])
            else:
                e, rest = y.first()
                b = norm(e + rest + b[1:])
            continue
        if isinstance(x, Atom) and isinstance(y, Atom) and x.char and y.char:
            if not _atom_eq(x, [y]):
                return False
            continue
        # give up refining: the solvers decide
        if c.choose(2, 'equal?') == 0:
            c.strc.append(('eq', a, b))
            return True
        c.strc.append(('neq', a, b))
        return False


def _impossible(a, b):
    "a literal character in a that no piece of b can produce"
    for p in a:
        if isinstance(p, str):
            for ch in set(p):
                if not any((ch in q) if isinstance(q, str) else q.cs.has(ch) for q in b):
                    return True
    return False


def _delimited(a, b):
    def head(p, q):
        # p = X c rest ; q's prefix up to the first c must be determinable
        out = []
        for i, x in enumerate(p):
            if isinstance(x, str):
                return out, x[0], norm([x] + p[i + 1:])
            if isinstance(x, Join):
                return None
            out.append(x)
        return None
    h = head(a, b)
    g = head(b, a)
    for (h1, other) in ((h, b), (g, a)):
        if h1 is None or not h1[0]:
            continue
        X, c, _ = h1
        if any(x.cs.has(c) for x in X):
            continue
        # first c in other without refinement
        pre = []
        for i, y in enumerate(other):
            if isinstance(y, str):
                j = y.find(c)
                if j >= 0:
                    r2 = (norm(pre + [y[:j]]), norm([y[j:]] + other[i + 1:]))
                    r1 = (X, h1[2])
                    return (r1, r2) if other is b else (r2, r1)
                pre.append(y)
            elif y.cs.has(c):
                break
            else:
                pre.append(y)
    return None


def _delimited_last(a, b):
    for (p, o) in ((a, b), (b, a)):
        X = []
        c = None
        for i in range(len(p) - 1, -1, -1):
            x = p[i]
            if isinstance(x, str):
                c = x[-1]
                before = norm(p[:i + 1])
                break
            if isinstance(x, Join):
                break
            X.insert(0, x)
        if c is None or not X or any(x.cs.has(c) for x in X):
            continue
        post = []
        for i in range(len(o) - 1, -1, -1):
            y = o[i]
            if isinstance(y, str):
                j = y.rfind(c)
                if j >= 0:
                    r1 = (X, before)
                    r2 = (norm([y[j + 1:]] + post), norm(o[:i] + [y[:j + 1]]))
                    return (r1, r2) if o is b else (r2, r1)
                post.insert(0, y)
            elif y.cs.has(c):
                break
            else:
                post.insert(0, y)
    return None


def _atom_eq(x, b):
    c = ctx()
    b = norm(b)
    if len(b) == 1 and isinstance(b[0], str):
        lit = b[0]
        if lit in x.neq or not all(x.cs.has(ch) for ch in lit) or len(lit) < x.minlen:
            return False
        if x.char and len(lit) != 1:
            return False
        if any(n in lit for n in x.nosub) or any(lit.endswith(n) for n in x.notend):
            return False
        if x.defn and x.defn[0] == 'str':
            # the decimal text of a number
            if lit != str(int(lit)) or not c.branch_z3(x.defn[1][0] == int(lit), '%s=%s' % (x.name, lit)):
                return False
            x.set([lit])
            return True
        if c.choose(2, '%s=%r' % (x.name, lit)) == 0:
            x.neq |= {lit}
            if x.char:
                x.restrict(CharSet(lit).compl())
            return False
        x.set([lit])
        return True
    if len(b) == 1 and isinstance(b[0], Atom):
        y = b[0]
        if y in x.uneq or x in y.uneq:
            return False
        if x.defn and y.defn and x.defn[0] == y.defn[0]:
            # injective functions
            if x.defn[0] == 'str':
                return c.branch_z3(x.defn[1][0] == y.defn[1][0], '%s=%s' % (x.name, y.name))
            if x.defn[0] == 'quote_plus':
                return equal(pieces_of(x.defn[1][0]), pieces_of(y.defn[1][0]))
        cs = x.cs.inter(y.cs)
        if cs.empty() and (x.minlen or y.minlen):
            return False
        if c.choose(2, '%s=%s' % (x.name, y.name)) == 0:
            x.uneq.add(y)
            y.uneq.add(x)
            c.strc.append(('neq', [x], [y]))
            return False
        if y.defn is None and x.defn is not None:
            x, y = y, x
        y.restrict(cs)
        if y.subst is None:
            y.minlen = max(x.minlen, y.minlen)
            y.char = x.char or y.char
            y.nosub |= x.nosub
            y.neq |= x.neq
            y.notend |= x.notend
            y.uneq |= x.uneq
            if y in x.uneq:
                raise PathEnd('contradiction')
        x.set([y])
        return True
    # atom against several pieces
    if x in b:
        rest = [p for p in b if p is not x]
        if min_len(rest):
            return False
        return all(split_empty(p) for p in rest if isinstance(p, Atom))
    for p in b:
        if isinstance(p, str):
            if not all(x.cs.has(ch) for ch in p) or any(n in p for n in x.nosub):
                return False
        elif p.minlen and p.cs.inter(x.cs).empty():
            return False
    if x.char:
        fc = first_char(b)
        if fc is None:
            return False
        if not equal([fc[0]], [x]):
            return False
        return equal(fc[1], [])
    if c.choose(2, '%s=...' % x.name) == 0:
        c.strc.append(('neq', [x], list(b)))
        return False
    for p in b:
        if isinstance(p, Atom) and p.subst is None:
            p.restrict(x.cs)
            p.nosub |= x.nosub
        elif isinstance(p, Join) and not p.cs.subset(x.cs):
            raise Unsupported('joined elements in equality')
    x.set(b)
    return True


# -- functions on strings ---------------------------------------------------------------

def fn_atom(fn, args, cs=ANY, minlen=0, nosub=(), char=False):
    "an uninterpreted function application; equal arguments give the same atom"
    m = ctx().memo.setdefault(('fn', fn), [])
    for a, at in m:
        if len(a) == len(args) and all(_same_arg(p, q) for p, q in zip(a, args)):
            return mk([at])
    at = Atom(fn + '(' + ','.join(_short(a) for a in args) + ')', cs, minlen, char, nosub, defn=(fn, list(args)))
    m.append((list(args), at))
    return mk([at])


def _short(a):
    s = repr(a)
    return s if len(s) < 40 else s[:37] + '...'
