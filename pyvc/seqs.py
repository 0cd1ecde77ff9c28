"""Sequences of unknown length, and images of them under loop bodies."""
import z3
from .core import ctx, Unsupported, PathEnd
from . import heap
from .strings import ANY, CharSet
from .values import mkint


class Seq(object):
    """elements get(i), 0 <= i < length.  `make(name)` builds an unknown element."""

    def __init__(self, name, make, length=None, elem_cs=ANY, elem_min=0, distinct=False, sorted_=False):
        c = ctx()
        self.name = c.fresh(name)
        self.make = make
        self.length = z3.Int('len(%s)' % self.name) if length is None else length
        c.assume_z3(self.length >= 0)
        self.elem_cs, self.elem_min = elem_cs, elem_min
        self.distinct = distinct
        self.sorted = sorted_
        self.memo = []

    def __repr__(self):
        return '<seq %s>' % self.name

    def root(self):
        return self

    def get(self, i):
        c = ctx()
        i = z3.simplify(i)
        probing = c.memo.get('probing')
        if probing is not None:
            # the element at an index unlike all others (see Interp.probe)
            k = (id(self), str(i))
            if k not in probing:
                probing[k] = self.make('probe_' + self.name)
            return probing[k]
        for j, v in self.memo:
            if i.eq(j) or c.valid(i == j):
                return v
        for j, v in self.memo:
            if not c.valid(i != j) and c.branch_z3(i == j, 'same index of %s' % self.name):
                return v
        v = self.new(i)
        if self.distinct:
            from .interp import py_eq
            for j, w in self.memo:
                if py_eq(v, w):
                    raise PathEnd('distinct elements')
        self.memo.append((i, v))
        return v

    def new(self, i):
        return self.make('%s[%s]' % (self.name, str(i).replace('\n', '')))

    def fresh_index(self, lo, hi):
        c = ctx()
        i = z3.Int(c.fresh('i_' + self.name))
        c.assume_z3(z3.And(i >= lo, i < hi))
        if c.check() == z3.unsat:
            raise PathEnd('empty')
        return i

    def uniform_get(self, i):
        return self.get(i)


class MapSeq(Seq):
    "f applied to every element of another sequence (exactly one value each)"

    def __init__(self, seq, fn, elem_cs=ANY, elem_min=0):
        self.name = 'map(%s)' % seq.name
        self.seq = seq
        time = heap.mark()
        self.fn = lambda v, i: heap.at(time, fn, v, i)
        self.length = seq.length
        self.elem_cs, self.elem_min = elem_cs, elem_min
        self.distinct = self.sorted = False
        self.memo = []

    def root(self):
        return self.seq.root()

    def get(self, i):
        c = ctx()
        i = z3.simplify(i)
        probing = c.memo.get('probing')
        if probing is not None:
            k = (id(self), str(i))
            if k not in probing:
                probing[k] = self.fn(self.seq.get(i), i)
            return probing[k]
        for j, v in self.memo:
            if i.eq(j) or c.valid(i == j):
                return v
        v = self.fn(self.seq.get(i), i)
        self.memo.append((i, v))
        return v


class Seg(object):
    "item of a PList: the elements lo..hi of a sequence"
    __slots__ = ('seq', 'lo', 'hi')

    def __init__(self, seq, lo=None, hi=None):
        self.seq = seq
        self.lo = z3.IntVal(0) if lo is None else z3.simplify(lo)
        self.hi = seq.length if hi is None else z3.simplify(hi)

    def __repr__(self):
        return '%s[%s:%s]' % (self.seq.name, self.lo, self.hi)

    def size(self):
        return self.hi - self.lo

    def generic(self):
        i = self.seq.fresh_index(self.lo, self.hi)
        return self.seq.get(i), i


class Img(object):
    """item of a PList / PSet / PDict: the values emitted by `emit(elem, i)` (any
    number per element, in order) for the elements of source (a Seg or Img)"""
    __slots__ = ('src', 'emit', 'memo', 'time')

    def __init__(self, src, emit):
        self.src = src
        self.emit = emit
        self.memo = []
        self.time = heap.mark()

    def __repr__(self):
        return '<image of %r>' % (self.src,)

    def at(self, key, elem):
        v = self.vals(key, elem)
        if any(isinstance(x, (Seg, Img)) for x in v):
            raise Unsupported('a collection of unknown collections')
        return v

    def vals(self, key, elem):
        "the emissions, parts of unknown length among them"
        c = ctx()
        for k, v in self.memo:
            if same_key(k, key):
                return v
        v = heap.at(self.time, self.emit, elem, key)
        self.memo.append((key, v))
        return v

    def generic(self):
        e, key = self.src.generic()
        vals = self.vals(key, e)
        if not vals:
            raise PathEnd('element emits nothing')
        n = ctx().choose(len(vals), 'emission') if len(vals) > 1 else 0
        if isinstance(vals[n], (Seg, Img)):
            v, inner = vals[n].generic()
            return v, ('img', key, n, inner)
        return vals[n], ('img', key, n)

    def known(self):
        "(values, key) for all elements of the source known so far"
        out = []
        for e, key in known_elements(self.src):
            for n, v in enumerate(self.vals(key, e)):
                if isinstance(v, (Seg, Img)):
                    out += [(w, ('img', key, n, k)) for w, k in known_elements(v)]
                else:
                    out.append((v, ('img', key, n)))
        return out


def known_elements(src):
    if isinstance(src, Img):
        return src.known()
    c = ctx()
    seq = src.seq
    base = seq
    while isinstance(base, MapSeq):
        base = base.seq
    out = []
    for j, _ in list(base.memo):
        if c.valid(z3.And(j >= src.lo, j < src.hi)):
            out.append((seq.get(j), j))
    return out


def same_key(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_key(x, y) for x, y in zip(a, b))
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b) or ctx().valid(a == b)
    return type(a) == type(b) and not z3.is_expr(a) and a == b


def generic_item(item):
    return item.generic()


def probing(f):
    "f(i) for an index i unlike all others, taking no decision; None if one is needed"
    c = ctx()
    saved, outer = c.choose, c.memo.get('probing')

    class Fork(Exception):
        pass

    def nochoose(n, label=''):
        if n == 1:
            return 0
        raise Fork()
    c.choose = nochoose
    c.memo['probing'] = {}
    try:
        return f(z3.Int(c.fresh('probe')))
    except (Fork, Unsupported):
        return None
    finally:
        c.choose = saved
        c.memo['probing'] = outer


def elementwise_same(x, y):
    "do two sequences over the same one hold the same texts everywhere?"
    from .strings import same, pieces_of, is_str
    if x.root() is not y.root():
        return False

    def f(i):
        a, b = x.get(i), y.get(i)
        return a is b or is_str(a) and is_str(b) and same(pieces_of(a), pieces_of(b))
    return bool(probing(f))


def plain_name(seq):
    "the name of a sequence without its numbering"
    import re
    return re.sub(r'[!\d]+|\[.*\]', '', seq.root().name)
