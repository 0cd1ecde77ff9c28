"""Trusted contracts of builtins and of the standard library."""
import codecs
import ast
import errno as _errno
import os.path as _osp
import re as _re
import stat as _stat
import urllib.parse as _up
import posixpath as _pp
import fnmatch as _fn
import z3

from .core import ctx, Unsupported, PathEnd
from . import strings as S
from . import regex as R
from .strings import (Rope, BRope, Atom, Join, is_str, mk, pieces_of, CharSet, WS, norm, fn_atom, concat)
from .values import (SInt, SReal, mkreal, zreal, SBV, SBool, PClass, PObj, PFunc, Native, Bound, Prop, StaticM, ClassM,
                     PModule, PyExc, Model, Opaque, PList, PDict, PSet, mkint, mkbool, zint)
from .seqs import Seq, MapSeq, Seg, Img
from . import interp as I
from .interp import (truth, py_eq, throw, make_exc, contains, dict_set, dict_find, dict_del, set_add,
                     guard_old, born, check_readable, _E, OBJECT, TYPE, INT, BOOL, FLOAT, STR, BYTES,
                     BYTEARRAY, LIST, TUPLE, DICT, SET, FROZENSET, NONETYPE, FUNCTION, GENERATOR, BASEEXC)

CTORS = {}


def nat(name, fn):
    return Native(name, lambda it, a, k: fn(it, *a, **k))


def ropeconst(v):
    return isinstance(v, str)


# -- type tests -------------------------------------------------------------------

def class_of(v):
    if v is None:
        return NONETYPE
    if isinstance(v, (bool, SBool)):
        return BOOL
    if isinstance(v, (int, SInt, SBV)):
        return INT
    if isinstance(v, (float, SReal)):
        return FLOAT
    if is_str(v):
        return STR
    if isinstance(v, (bytes, BRope)):
        return BYTES
    if isinstance(v, tuple):
        return TUPLE
    if isinstance(v, PList):
        return LIST
    if isinstance(v, PDict):
        return DICT
    if isinstance(v, PSet):
        return FROZENSET if v.frozen else SET
    if isinstance(v, PObj):
        return v.cls
    if isinstance(v, (PFunc, Native, Bound)):
        return FUNCTION
    if isinstance(v, PClass):
        return TYPE
    return None


def type_name(v):
    c = class_of(v)
    return c.name if c is not None else type(v).__name__


def isinst(it, v, cls):
    if isinstance(cls, tuple):
        return any(truth(isinst(it, v, c)) for c in cls)
    if isinstance(v, Model):
        return v.py_isinstance(it, cls)
    if isinstance(cls, Native):
        ctor = getattr(cls, 'cls', None)
        if ctor is not None:
            return isinst(it, v, ctor)
    if not isinstance(cls, PClass):
        if isinstance(cls, Model) and hasattr(cls, 'py_instancecheck'):
            return cls.py_instancecheck(it, v)
        throw('TypeError', 'isinstance() arg 2 must be a type')
    c = class_of(v)
    if c is None:
        return False
    return c.issub(cls)


# -- text of values ------------------------------------------------------------------

def to_str(it, v):
    if is_str(v):
        return v
    if isinstance(v, (bool, int, float)) or v is None:
        return str(v)
    if isinstance(v, SInt):
        return int_text(v)
    if isinstance(v, PObj):
        if v.cls.issub(BASEEXC) and not any('__str__' in c.d for c in v.cls.mro):
            a = v.d['args']
            if v.cls.issub(_E['OSError']) and len(a) >= 2:
                return concat('[Errno ', to_str(it, a[0]), '] ', to_str(it, a[1]))
            if len(a) == 0:
                return ''
            if len(a) == 1:
                return to_str(it, a[0])
            return to_repr(it, tuple(a))
        if v.cls.has('__str__'):
            return it.call(it.class_attr(v, '__str__'), [])
        return to_repr(it, v)
    if isinstance(v, Model) and hasattr(v, 'py_str'):
        return v.py_str(it)
    return to_repr(it, v)


def to_repr(it, v):
    if isinstance(v, (str, bool, int, float, bytes)) or v is None:
        return repr(v)
    if isinstance(v, PObj) and v.cls.has('__repr__'):
        return it.call(it.class_attr(v, '__repr__'), [])
    if isinstance(v, SInt):
        return int_text(v)
    if isinstance(v, Rope):
        return fn_atom('repr', [v], minlen=1)
    if isinstance(v, tuple):
        return concat('(', *([x for e in v for x in (to_repr(it, e), ', ')] + [')']))
    if isinstance(v, PList) and not any(isinstance(x, (Seg, Img)) for x in v.items):
        return concat('[', *([x for e in v.items for x in (to_repr(it, e), ', ')] + [']']))
    return mk([Atom('repr')])


def int_text(v):
    c = ctx()
    m = c.memo.setdefault('int_text', [])
    for t, at in m:
        if t.eq(v.t) or c.valid(t == v.t):
            return mk([at])
    if not c.branch_z3(v.t >= 0, 'nonneg'):
        raise Unsupported('text of a negative integer')
    at = Atom('str(%s)' % v.t, CharSet('0123456789'), 1, defn=('str', [v.t]))
    m.append((v.t, at))
    return mk([at])


def text_int(it, v):
    "int(text)"
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            throw('ValueError', 'invalid literal for int()')
    p = pieces_of(v)
    if len(p) == 1 and isinstance(p[0], Atom) and p[0].defn and p[0].defn[0] == 'str':
        return mkint(p[0].defn[1][0])
    digits = CharSet('0123456789')
    allowed = digits.union(WS).union(CharSet('+-_'))
    if S.cut_at(p, digits.compl()) is not None:
        # not plain digits: other accepted forms are left open
        c = ctx()
        if S.cut_at(norm(p), allowed.compl()) is not None:
            # unicode digits are ignored
            throw('ValueError', 'invalid literal for int()')
        if c.choose(2, 'int() of odd text') == 0:
            throw('ValueError', 'invalid literal for int()')
        t = z3.Int(c.fresh('int'))
        return mkint(t)
    if not S.at_least(norm(p), 1):
        throw('ValueError', 'invalid literal for int()')
    c = ctx()
    m = c.memo.setdefault('text_int', [])
    for q, t in m:
        if S.same(q, p):
            return mkint(t)
    t = z3.Int(c.fresh('int'))
    c.assume_z3(t >= 0)
    m.append((norm(p), t))
    return mkint(t)


# -- operators -----------------------------------------------------------------------

_DUNDER = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.FloorDiv: 'floordiv',
           ast.Mod: 'mod', ast.BitAnd: 'and', ast.BitOr: 'or', ast.BitXor: 'xor', ast.LShift: 'lshift',
           ast.RShift: 'rshift', ast.Pow: 'pow'}


def binop(it, op, a, b):
    t = type(op)
    if t is ast.Add:
        if is_str(a) and is_str(b):
            return concat(a, b)
        if isinstance(a, (bytes, BRope)) and isinstance(b, (bytes, BRope)):
            return bcat(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, PList) and isinstance(b, PList):
            check_readable(a)
            check_readable(b)
            return born(PList(a.items + b.items))
    if t is ast.Mod and is_str(a):
        return percent(it, a, b)
    if t is ast.Mult and isinstance(a, PList) and isinstance(b, int):
        return born(PList(a.items * b))
    if t is ast.Mult and isinstance(a, str) and isinstance(b, int):
        return a * b
    if isinstance(a, PSet) and isinstance(b, PSet):
        return set_op(it, t, a, b)
    num = (bool, int, float, SInt, SReal, SBV, SBool)
    if isinstance(a, num) and isinstance(b, num):
        return arith(it, t, a, b)
    n = _DUNDER.get(t)
    if isinstance(a, PObj):
        f = it.class_attr(a, '__%s__' % n)
        if f is not None:
            return it.call(f, [b])
    if isinstance(b, PObj):
        f = it.class_attr(b, '__r%s__' % n)
        if f is not None:
            return it.call(f, [a])
    if isinstance(a, Model) and hasattr(a, 'py_binop'):
        return a.py_binop(it, n, b)
    if isinstance(b, Model) and hasattr(b, 'py_rbinop'):
        return b.py_rbinop(it, n, a)
    if isinstance(a, PDict) and isinstance(b, PDict) and t is ast.BitOr:
        d = born(PDict(a.entries))
        for k, v in b.entries:
            dict_set(d, k, v)
        return d
    if isinstance(a, I.Havoc) or isinstance(b, I.Havoc):
        raise Unsupported('loop-carried variable without invariant')
    throw('TypeError', 'unsupported operand types for %s: %s and %s' % (n, type_name(a), type_name(b)))


def set_op(it, t, a, b):
    check_readable(a)
    check_readable(b)
    if any(isinstance(x, (Seg, Img)) for x in a.items + b.items):
        if t is ast.BitOr:
            return born(PSet(a.items + b.items))
        if t is ast.Sub and all(isinstance(x, (Seg, Img)) for x in a.items):
            return born(PSet([Img(x, lambda v, k: [] if truth(contains(b, v)) else [v]) for x in a.items]))
        raise Unsupported('set operation')
    if t is ast.BitOr:
        r = born(PSet(a.items))
        for x in b.items:
            set_add(r, x)
        return r
    if t is ast.BitAnd:
        return born(PSet([x for x in a.items if truth(contains(b, x))]))
    if t is ast.Sub:
        return born(PSet([x for x in a.items if not truth(contains(b, x))]))
    raise Unsupported('set operation')


def arith(it, t, a, b):
    conc = (bool, int, float)
    if isinstance(a, conc) and isinstance(b, conc):
        try:
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b,
                    ast.Div: lambda: a / b, ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b,
                    ast.BitAnd: lambda: a & b, ast.BitOr: lambda: a | b, ast.BitXor: lambda: a ^ b,
                    ast.LShift: lambda: a << b, ast.RShift: lambda: a >> b, ast.Pow: lambda: a ** b}[t]()
        except ZeroDivisionError:
            throw('ZeroDivisionError')
    if t in (ast.BitAnd, ast.BitOr, ast.BitXor):
        x, y = I.zbv(a), I.zbv(b)
        return mkbv({ast.BitAnd: x & y, ast.BitOr: x | y, ast.BitXor: x ^ y}[t])
    real = (float, SReal)
    if isinstance(a, real) or isinstance(b, real) or t is ast.Div:
        x, y = zreal(a), zreal(b)
        if t is ast.Add:
            return mkreal(x + y)
        if t is ast.Sub:
            return mkreal(x - y)
        if t is ast.Mult:
            return mkreal(x * y)
        if t is ast.Div and isinstance(b, conc) and b:
            return mkreal(x / y)
        if t is ast.FloorDiv and isinstance(b, conc) and b > 0:
            return mkreal(z3.ToReal(z3.ToInt(x / y)))
        raise Unsupported('arithmetic on symbolic real numbers')
    x, y = zint(a), zint(b)
    if t is ast.Add:
        return mkint(x + y)
    if t is ast.Sub:
        return mkint(x - y)
    if t is ast.Mult:
        return mkint(x * y)
    if t in (ast.FloorDiv, ast.Mod) and isinstance(b, int) and b > 0:
        return mkint(x / y if t is ast.FloorDiv else x % y)
    raise Unsupported('arithmetic on symbolic integers')


def mkbv(t):
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_signed_long()
    return SBV(t)


def order(it, op, a, b):
    t = type(op)
    num = (bool, int, float, SInt, SReal)
    if isinstance(a, num) and isinstance(b, num):
        sym = (SInt, SReal)
        if not isinstance(a, sym) and not isinstance(b, sym):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[t]
        if any(isinstance(v, (float, SReal)) for v in (a, b)):
            if any(isinstance(v, float) and abs(v) == float('inf') for v in (a, b)):
                x, y = (v if isinstance(v, float) and abs(v) == float('inf') else 0 for v in (a, b))
                return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[t]
            x, y = zreal(a), zreal(b)
        else:
            x, y = zint(a), zint(b)
        return mkbool({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[t])
    if isinstance(a, str) and isinstance(b, str):
        return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[t]
    if isinstance(a, (SBV, int)) and isinstance(b, (SBV, int)):
        x, y = I.zbv(a), I.zbv(b)
        return mkbool({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[t])
    if isinstance(a, PObj):
        f = it.class_attr(a, {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__', ast.GtE: '__ge__'}[t])
        if f is not None:
            return it.call(f, [b])
    raise Unsupported('ordering of %r and %r' % (a, b))


def percent(it, fmt, args):
    if not isinstance(fmt, str):
        raise Unsupported('symbolic format')
    vals = list(args) if isinstance(args, tuple) else [args]
    out = []
    i = 0
    pos = 0
    for m in _re.finditer(r'%(?:\((\w+)\))?([-0-9.]*)([a-zA-Z%])', fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(3) == '%':
            out.append('%')
            continue
        if m.group(1):
            v = it.getitem(args, m.group(1))
        else:
            if i >= len(vals):
                throw('TypeError', 'not enough arguments for format string')
            v = vals[i]
            i += 1
        if m.group(2):
            raise Unsupported('format width')
        k = m.group(3)
        if k == 's':
            out.append(to_str(it, v))
        elif k == 'r':
            out.append(to_repr(it, v))
        elif k in 'di':
            if not isinstance(v, (int, SInt)):
                throw('TypeError', '%d format: a number is required')
            out.append(to_str(it, int(v) if isinstance(v, bool) else v))
        else:
            raise Unsupported('format %' + k)
    out.append(fmt[pos:])
    if i < len(vals) and isinstance(args, tuple):
        throw('TypeError', 'not all arguments converted during string formatting')
    return concat(*out)


def bcat(a, b):
    if isinstance(a, bytes) and isinstance(b, bytes):
        return a + b
    return mkbytes(concat(brope(a), brope(b)))


def brope(v):
    "bytes as rope over characters 0..255"
    if isinstance(v, bytes):
        return v.decode('latin-1')
    return v.rope


def mkbytes(r):
    if isinstance(r, str):
        return r.encode('latin-1')
    return BRope(r)


# -- iteration -----------------------------------------------------------------------

def raw_items(it, v):
    if isinstance(v, PList):
        check_readable(v)
        return list(v.items)
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, PSet):
        check_readable(v)
        return each_once(v.items)
    if isinstance(v, PDict):
        check_readable(v)
        return [Img(e.src, lambda x, k, e=e: [p[0] for p in e.at(k, x)]) if isinstance(e, Img) else e[0]
                for e in v.entries]
    if isinstance(v, str):
        return list(v)
    if isinstance(v, (range,)):
        return list(v)
    if isinstance(v, I.PGen):
        out = []
        while True:
            m = v.resume()
            if m[0] == 'stop':
                return out
            if isinstance(m[1], I.YieldMany):
                out.append(m[1].src)
            else:
                out.append(m[1])
            if len(out) > 500:
                raise Unsupported('generator does not end')
    if isinstance(v, Model) and hasattr(v, 'py_items'):
        return v.py_items(it)
    if isinstance(v, Rope):
        if S.fixed_len(v.pieces) is not None:
            out = []
            for p in v.pieces:
                out += list(p) if isinstance(p, str) else [mk([p])]
            return out
        raise Unsupported('iteration over the characters of an unknown string')
    if isinstance(v, PObj):
        f = it.class_attr(v, '__iter__')
        if f is not None:
            r = it.call(f, [])
            if r is v or isinstance(r, PObj):
                nx = it.class_attr(r, '__next__')
                out = []
                while True:
                    try:
                        out.append(it.call(nx, []))
                    except PyExc as e:
                        if e.obj.cls.issub(_E['StopIteration']):
                            return out
                        raise
                    if len(out) > 200:
                        raise Unsupported('iterator does not end')
            return raw_items(it, r)
    if isinstance(v, I.Havoc):
        raise Unsupported('loop-carried variable %s has no invariant' % v.name)
    throw('TypeError', '%s object is not iterable' % type_name(v))


def length(it, v):
    if isinstance(v, (str, bytes, tuple)):
        return len(v)
    if isinstance(v, Rope):
        n = S.fixed_len(v.pieces)
        return n if n is not None else mkint(S.len_z3(v.pieces))
    if isinstance(v, BRope):
        return length(it, v.rope)
    if isinstance(v, (PList, PSet)):
        check_readable(v)
        tot = z3.IntVal(0)
        for x in v.items:
            if isinstance(x, Seg):
                tot = tot + (x.hi - x.lo)
            elif isinstance(x, Img):
                c = ctx()
                m = c.memo.setdefault('imglen', {})
                if id(x) not in m:
                    t = z3.Int(c.fresh('len(img)'))
                    c.assume_z3(t >= 0)
                    m[id(x)] = (t, x)
                tot = tot + m[id(x)][0]
            else:
                tot = tot + 1
        return mkint(tot)
    if isinstance(v, PDict):
        check_readable(v)
        if any(isinstance(x, Img) for x in v.entries):
            raise Unsupported('length of symbolic dictionary')
        return len(v.entries)
    if isinstance(v, PObj):
        f = it.class_attr(v, '__len__')
        if f is not None:
            return it.call(f, [])
    if isinstance(v, Model) and hasattr(v, 'py_len'):
        return v.py_len(it)
    if isinstance(v, I.Havoc):
        raise Unsupported('loop-carried variable without invariant')
    throw('TypeError', 'object of type %s has no len()' % type_name(v))


def idx(it, i):
    if isinstance(i, bool):
        return int(i)
    if isinstance(i, (int, SInt)):
        return i
    throw('TypeError', 'indices must be integers')


def getitem(it, o, i):
    if isinstance(o, I.Havoc):
        raise Unsupported('loop-carried variable %s has no invariant' % o.name)
    if isinstance(o, PDict):
        if hasattr(o, 'sym'):
            pass
        e = dict_find(o, i)
        if e is None:
            if o.default_factory is not None:
                v = it.call(o.default_factory, [])
                dict_set(o, i, v)
                return v
            raise PyExc(make_exc('KeyError', i))
        return e[1]
    if isinstance(o, (str, Rope)):
        return str_item(it, o, i)
    if isinstance(o, tuple):
        if isinstance(i, slice):
            if all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
                return o[i]
            raise Unsupported('symbolic slice of tuple')
        i = idx(it, i)
        if isinstance(i, SInt):
            for k in range(len(o)):
                if truth(py_eq(i, k)):
                    return o[k]
            throw('IndexError', 'tuple index out of range')
        if not -len(o) <= i < len(o):
            throw('IndexError', 'tuple index out of range')
        return o[i]
    if isinstance(o, PList):
        check_readable(o)
        return list_item(it, o, i)
    if isinstance(o, bytes):
        try:
            return o[i]
        except IndexError:
            throw('IndexError')
    if isinstance(o, BRope):
        if isinstance(i, slice):
            return mkbytes(str_item(it, o.rope, i))
        raise Unsupported('index of bytes')
    if isinstance(o, PObj):
        f = it.class_attr(o, '__getitem__')
        if f is not None:
            return it.call(f, [i])
    if isinstance(o, Model) and hasattr(o, 'py_getitem'):
        return o.py_getitem(it, i)
    throw('TypeError', '%s object is not subscriptable' % type_name(o))


def setitem(it, o, i, v):
    if isinstance(o, PDict):
        if o.default_factory is not None and False:
            pass
        dict_set(o, i, v)
        return
    if isinstance(o, PList):
        guard_old(o)
        check_readable(o)
        if isinstance(i, slice):
            if i.step is None and isinstance(i.start or 0, int):
                if i.start is None and i.stop is None:
                    o.items = list(raw_items(it, v))
                    return
            raise Unsupported('slice assignment')
        i = idx(it, i)
        n = len(o.items)
        if isinstance(i, int) and not any(isinstance(x, (Seg, Img)) for x in o.items):
            if not -n <= i < n:
                throw('IndexError', 'list assignment index out of range')
            o.items[i] = v
            return
        if isinstance(i, int) and i < 0 and not any(isinstance(x, (Seg, Img)) for x in o.items[i:]):
            o.items[i] = v
            return
        raise Unsupported('assignment to an element of a symbolic list')
    if isinstance(o, Model) and hasattr(o, 'py_setitem'):
        o.py_setitem(it, i, v)
        return
    if isinstance(o, PObj):
        f = it.class_attr(o, '__setitem__')
        if f is not None:
            it.call(f, [i, v])
            return
    throw('TypeError', '%s object does not support item assignment' % type_name(o))


def _drop_first(items):
    "(first element, rest) or None if empty; forks"
    c = ctx()
    items = list(items)
    while items:
        x = items[0]
        if isinstance(x, Seg):
            if c.branch_z3(x.hi > x.lo, 'nonempty'):
                return x.seq.get(x.lo), [Seg(x.seq, z3.simplify(x.lo + 1), x.hi)] + items[1:]
            items = items[1:]
        elif isinstance(x, Img):
            raise Unsupported('first element of a filtered list')
        else:
            return x, items[1:]
    return None


def _drop_last(items):
    c = ctx()
    items = list(items)
    while items:
        x = items[-1]
        if isinstance(x, Seg):
            if c.branch_z3(x.hi > x.lo, 'nonempty'):
                h = z3.simplify(x.hi - 1)
                return items[:-1] + [Seg(x.seq, x.lo, h)], x.seq.get(h)
            items = items[:-1]
        elif isinstance(x, Img):
            raise Unsupported('last element of a filtered list')
        else:
            return items[:-1], x
    return None


def symbolic_slice(items, lo, hi):
    c = ctx()
    if any(isinstance(x, Img) for x in items):
        raise Unsupported('slice of a filtered list')

    def size(x):
        return x.hi - x.lo if isinstance(x, Seg) else z3.IntVal(1)
    n = z3.simplify(sum([size(x) for x in items], z3.IntVal(0)))

    def pos(x, default):
        if x is None:
            return default
        t = zint(x)
        if not c.branch_z3(t >= 0, 'index sign'):
            t = n + t
            if not c.branch_z3(t >= 0, 'clip'):
                return z3.IntVal(0)
        if not c.branch_z3(t <= n, 'clip'):
            return n
        return t

    def split(items, t):
        head, rest = [], list(items)
        while rest and not c.valid(t <= 0):
            x = rest[0]
            if c.branch_z3(t >= size(x), 'reaches beyond'):
                head.append(rest.pop(0))
                t = z3.simplify(t - size(x))
                continue
            if isinstance(x, Seg):
                head.append(Seg(x.seq, x.lo, z3.simplify(x.lo + t)))
                rest[0] = Seg(x.seq, z3.simplify(x.lo + t), x.hi)
            break
        return head, rest
    a, b = pos(lo, z3.IntVal(0)), pos(hi, n)
    if not c.branch_z3(a <= b, 'slice'):
        return born(PList())
    head, rest = split(items, b)
    return born(PList(split(head, a)[1]))


def list_item(it, o, i):
    items = o.items
    symbolic = any(isinstance(x, (Seg, Img)) for x in items)
    if isinstance(i, slice):
        if i.step is not None:
            if i.step == -1 and not symbolic and i.start is None and i.stop is None:
                return born(PList(items[::-1]))
            raise Unsupported('slice step')
        if not symbolic and all(x is None or isinstance(x, int) for x in (i.start, i.stop)):
            return born(PList(items[i]))
        lo, hi = i.start, i.stop
        out = list(items)
        c = ctx()
        if len(out) == 1 and isinstance(out[0], Seg) and all(x is None or isinstance(x, (int, SInt)) for x in (lo, hi)):
            s = out[0]
            n = s.hi - s.lo

            def pos(x, default):
                if x is None:
                    return default
                t = zint(x)
                if not c.branch_z3(t >= 0, 'index sign'):
                    t = n + t
                    if not c.branch_z3(t >= 0, 'clip'):
                        return z3.IntVal(0)
                if not c.branch_z3(t <= n, 'clip'):
                    return n
                return t
            a, b = pos(lo, z3.IntVal(0)), pos(hi, n)
            if not c.branch_z3(a <= b, 'slice'):
                return born(PList())
            return born(PList([Seg(s.seq, s.lo + a, s.lo + b)]))
        if isinstance(lo, SInt) or isinstance(hi, SInt):
            if not all(x is None or isinstance(x, (int, SInt)) for x in (lo, hi)):
                raise Unsupported('symbolic slice')
            return symbolic_slice(out, lo, hi)
        if isinstance(lo, int) and lo > 0:
            for _ in range(lo):
                r = _drop_first(out)
                if r is None:
                    out = []
                    break
                out = r[1]
        elif isinstance(lo, int) and lo < 0:
            tail = []
            rest = list(out)
            for _ in range(-lo):
                r = _drop_last(rest)
                if r is None:
                    break
                rest = r[0]
                tail.insert(0, r[1])
            out = tail
        elif lo not in (None, 0):
            raise Unsupported('symbolic slice')
        if isinstance(hi, int) and hi < 0:
            for _ in range(-hi):
                r = _drop_last(out)
                if r is None:
                    out = []
                    break
                out = r[0]
        elif isinstance(hi, int):
            lo0 = lo or 0
            if not isinstance(lo0, int) or lo0 < 0:
                raise Unsupported('slice')
            head = []
            for _ in range(max(0, hi - lo0)):
                r = _drop_first(out)
                if r is None:
                    break
                head.append(r[0])
                out = r[1]
            out = head
        elif hi is not None:
            raise Unsupported('symbolic slice')
        return born(PList(out))
    i = idx(it, i)
    c = ctx()
    if isinstance(i, int) and not symbolic:
        if not -len(items) <= i < len(items):
            throw('IndexError', 'list index out of range')
        return items[i]
    if isinstance(i, int) and i >= 0:
        out = list(items)
        for _ in range(i):
            r = _drop_first(out)
            if r is None:
                throw('IndexError', 'list index out of range')
            out = r[1]
        r = _drop_first(out)
        if r is None:
            throw('IndexError', 'list index out of range')
        return r[0]
    if isinstance(i, int):
        out = list(items)
        for _ in range(-i - 1):
            r = _drop_last(out)
            if r is None:
                throw('IndexError', 'list index out of range')
            out = r[0]
        r = _drop_last(out)
        if r is None:
            throw('IndexError', 'list index out of range')
        return r[1]
    t = i.t
    if not c.branch_z3(t >= 0, 'index sign'):
        t = z3.simplify(zint(length(it, o)) + t)
        if not c.branch_z3(t >= 0, 'range'):
            throw('IndexError', 'list index out of range')
    off = z3.IntVal(0)
    for x in items:
        n = (x.hi - x.lo) if isinstance(x, Seg) else z3.IntVal(1)
        if isinstance(x, Img):
            raise Unsupported('index into a filtered list')
        if c.branch_z3(t < off + n, 'which item'):
            if isinstance(x, Seg):
                return x.seq.get(z3.simplify(x.lo + t - off))
            return x
        off = z3.simplify(off + n)
    throw('IndexError', 'list index out of range')


def str_item(it, o, i):
    if isinstance(i, slice):
        if i.step is not None:
            if isinstance(o, str) and all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
                return o[i]
            raise Unsupported('slice step')
        lo, hi = i.start, i.stop
        if isinstance(o, str) and all(x is None or isinstance(x, int) for x in (lo, hi)):
            return o[lo:hi]
        p = pieces_of(o)
        if lo is not None and not (isinstance(lo, int) and lo == 0):
            if isinstance(lo, int) and lo > 0:
                if isinstance(hi, int) and hi >= 0:
                    if hi <= lo:
                        return ''
                    hi = hi - lo
                elif isinstance(hi, SInt):
                    raise Unsupported('slice')
                p = S.take(p, lo)[1]
            elif isinstance(lo, int):
                q = S.take_last(p, -lo)
                if hi is None:
                    return mk(q[1])
                raise Unsupported('slice')
            else:
                a, b = split_term(p, lo.t)
                if hi is None:
                    return mk(b)
                if isinstance(hi, (SInt, int)):
                    if isinstance(hi, int) and hi < 0:
                        return mk(S.take_last(b, -hi)[0])
                    n = z3.simplify(zint(hi) - lo.t)
                    if not ctx().branch_z3(n >= 0, 'slice'):
                        return ''
                    if z3.is_int_value(n):
                        return mk(S.take(b, n.as_long())[0])
                    return mk(split_term(b, n)[0])
        if hi is None:
            return mk(p)
        if isinstance(hi, int):
            if hi >= 0:
                return mk(S.take(p, hi)[0])
            return mk(S.take_last(p, -hi)[0])
        return mk(split_term(p, hi.t)[0])
    i = idx(it, i)
    if isinstance(o, str) and isinstance(i, int):
        if not -len(o) <= i < len(o):
            throw('IndexError', 'string index out of range')
        return o[i]
    p = pieces_of(o)
    if isinstance(i, int) and i >= 0:
        if not S.at_least(p, i + 1):
            throw('IndexError', 'string index out of range')
        rest = S.take(norm(p), i)[1]
        return mk([S.first_char(rest)[0]])
    if isinstance(i, int):
        if not S.at_least(p, -i):
            throw('IndexError', 'string index out of range')
        rest = S.take_last(norm(p), -i - 1)[0]
        return mk([S.last_char(rest)[1]])
    a, b = split_term(p, i.t)
    fc = S.first_char(b)
    if fc is None:
        throw('IndexError', 'string index out of range')
    return mk([fc[0]])


def split_term(p, t):
    c = ctx()
    if not c.branch_z3(t >= 0, 'offset sign'):
        n = S.len_z3(p)
        t = z3.simplify(n + t)
        if not c.branch_z3(t >= 0, 'clip'):
            return [], norm(p)
    return S.split_at_term(p, t)


# -- methods of builtin values ----------------------------------------------------------

def chars_arg(v):
    if v is None:
        return WS
    if not isinstance(v, str):
        p = pieces_of(v)
        if all(isinstance(x, Atom) and x.char for x in p):
            raise Unsupported('strip of unknown characters')
        raise Unsupported('strip of unknown characters')
    return CharSet(v)


def _disjoint(x, cs):
    return not any(cs.has(ch) for ch in x) if isinstance(x, str) else x.cs.inter(cs).empty()


def do_lstrip(p, cs):
    return _strip(p, cs, 0)


def do_rstrip(p, cs):
    return _strip(p, cs, -1)


def _strip(p, cs, end):
    p = norm(p)
    while p:
        if all(_disjoint(x, cs) for x in p):
            return p
        x = p[end]
        if isinstance(x, str):
            y = x.lstrip(''.join(ch for ch in set(x) if cs.has(ch))) if end == 0 else \
                x.rstrip(''.join(ch for ch in set(x) if cs.has(ch)))
            if not any(cs.has(ch) for ch in x):
                y = x
            if y:
                return norm([y] + p[1:]) if end == 0 else norm(p[:-1] + [y])
            p = p[1:] if end == 0 else p[:-1]
            continue
        if _disjoint(x, cs) and isinstance(x, Atom):
            if S.split_empty(x):
                p = norm(p)
                continue
            return p
        if isinstance(x, S.Join) and x.seq.elem_min and x.seq.elem_cs.inter(cs).empty():
            # a non-empty element is at either end
            return p
        if ctx().memo.get('probing') is not None:
            # no decision can be taken about the elements of a sequence as a whole
            u = CharSet('')
            for q in p:
                u = u.union(CharSet(q) if isinstance(q, str) else q.cs)
            return pieces_of(fn_atom('lstrip' if end == 0 else 'rstrip',
                                     [mk(p), mk([Atom('strip', cs)]) if False else repr(cs)], u))
        r = S.cut_at(p, cs.compl()) if end == 0 else S.rcut_at(p, cs.compl())
        if r is None:
            return []
        return norm([r[1]] + r[2]) if end == 0 else norm(r[0] + [r[1]])
    return p


def join_strip(p, cs, left):
    return do_lstrip(p, cs) if left else do_rstrip(p, cs)


def str_split(it, s, sep=None, maxsplit=-1):
    p = pieces_of(s)
    if sep is None:
        if isinstance(s, str):
            return born(PList(s.split(None, maxsplit)))
        raise Unsupported('split at white space')
    if not isinstance(sep, str):
        raise Unsupported('split at unknown separator')
    if sep == '':
        throw('ValueError', 'empty separator')
    if isinstance(maxsplit, SInt):
        raise Unsupported('symbolic maxsplit')
    out = []
    if maxsplit >= 0:
        for _ in range(maxsplit):
            r = S.find_sub(p, sep)
            if r is None:
                break
            out.append(mk(r[0]))
            p = norm(r[1])
        out.append(mk(p))
        return born(PList(out))
    return born(PList(split_all(p, sep)))


def split_all(p, sep):
    "all components; joins at component boundaries become segments"
    c = ctx()
    out = []
    cur = []
    p = norm(p)
    n = 0
    while p:
        n += 1
        if n > 400:
            raise Unsupported('unbounded split')
        x = p[0]
        if isinstance(x, str):
            i = x.find(sep)
            if i < 0:
                # a separator could straddle only for longer separators
                if len(sep) > 1:
                    break
                cur.append(x)
                p = p[1:]
                continue
            out.append(mk(cur + [x[:i]]))
            cur = []
            p = norm([x[i + len(sep):]] + p[1:]) if x[i + len(sep):] else list(p[1:])
            if not p:
                out.append(mk(cur))
                return out
            if not x[i + len(sep):] and isinstance(p[0], Join) and p[0].sep == sep and p[0].seq.elem_cs.inter(CharSet(sep)).empty():
                p, cur = split_join(p, sep, out, cur)
                if p is None:
                    return out
            continue
        if isinstance(x, Join):
            if x.sep != sep or not x.seq.elem_cs.inter(CharSet(sep)).empty():
                raise Unsupported('split of joined elements')
            if not cur:
                p, cur = split_join(p, sep, out, cur)
                if p is None:
                    return out
                continue
            e, rest = x.first()
            p = norm(e + rest + p[1:])
            continue
        if len(sep) == 1 and not x.cs.has(sep):
            cur.append(x)
            p = p[1:]
            continue
        if len(sep) > 1:
            break
        # the atom may contain any number of separators
        k = c.choose(3, '%s split at %r' % (x.name, sep))
        if k == 0:
            x.restrict(CharSet(sep).compl())
        elif k == 1:
            a = Atom(x.name + '.h', x.cs.minus(CharSet(sep)), 0)
            b = Atom(x.name + '.t', x.cs.minus(CharSet(sep)), 0)
            if x.char:
                x.restrict(CharSet(sep))
            else:
                x.set([a, sep, b])
        else:
            if x.char:
                raise PathEnd('character')
            cs = x.cs.minus(CharSet(sep))
            a = Atom(x.name + '.h', cs, 0)
            b = Atom(x.name + '.t', cs, 0)
            sq = Seq(x.name + '.parts', lambda nm: mk([Atom(nm, cs, 0)]), elem_cs=cs)
            c.assume_z3(sq.length >= 1)
            x.set([a, sep, Join(sep, sq, z3.IntVal(0), sq.length), sep, b])
        p = norm(p)
        continue
    else:
        out.append(mk(cur))
        return out
    # general case: longer separators
    p = norm(cur + p)
    while True:
        r = S.find_sub(p, sep)
        if r is None:
            out.append(mk(p))
            return out
        out.append(mk(r[0]))
        p = norm(r[1])
        n += 1
        if n > 60:
            raise Unsupported('unbounded split')


def split_join(p, sep, out, cur):
    """p starts with a join that begins a component"""
    x = p[0]
    rest = p[1:]
    if not rest:
        out.append(Seg(x.seq, x.lo, x.hi))
        return None, None
    if isinstance(rest[0], str) and rest[0].startswith(sep):
        out.append(Seg(x.seq, x.lo, x.hi))
        r = norm([rest[0][len(sep):]] + rest[1:]) if len(rest[0]) > len(sep) else rest[1:]
        if not r:
            out.append('')
            return None, None
        return r, []
    a, e = x.last()
    return norm(a + e + rest), []


def str_rsplit(it, s, sep=None, maxsplit=-1):
    if not isinstance(sep, str):
        raise Unsupported('rsplit')
    if maxsplit < 0:
        return str_split(it, s, sep)
    p = pieces_of(s)
    out = []
    for _ in range(maxsplit):
        r = S.rfind_sub(p, sep)
        if r is None:
            break
        out.insert(0, mk(r[1]))
        p = norm(r[0])
    out.insert(0, mk(p))
    return born(PList(out))


def str_partition(it, s, sep):
    r = S.find_sub(pieces_of(s), sep)
    if r is None:
        return (mk(pieces_of(s)), '', '')
    return (mk(r[0]), sep, mk(r[1]))


def str_rpartition(it, s, sep):
    r = S.rfind_sub(pieces_of(s), sep)
    if r is None:
        return ('', '', mk(pieces_of(s)))
    return (mk(r[0]), sep, mk(r[1]))


def str_replace(it, s, old, new, count=-1):
    if not isinstance(old, str) or not is_str(new):
        raise Unsupported('replace of unknown text')
    if isinstance(s, str) and isinstance(new, str):
        return s.replace(old, new, count)
    if isinstance(count, int) and count >= 0:
        out, p = [], pieces_of(s)
        for _ in range(count):
            r = S.find_sub(p, old)
            if r is None:
                break
            out += r[0] + pieces_of(new)
            p = norm(r[1])
        return mk(out + p)
    if len(old) == 1 and isinstance(new, str) and len(new) <= 1:
        out = []
        for p in pieces_of(s):
            if isinstance(p, str):
                out.append(p.replace(old, new))
            elif not p.cs.has(old):
                out.append(p)
            elif isinstance(p, Join):
                if p.seq.elem_cs.has(old):
                    raise Unsupported('replace inside of joined elements')
                out.append(Join(p.sep.replace(old, new), p.seq, p.lo, p.hi))
            elif p.char:
                if S.char_in(p, CharSet(old)):
                    out.append(new)
                else:
                    out.append(p)
            else:
                out += replace_atom(p, old, new)
        return mk(out)
    out = []
    p = pieces_of(s)
    for _ in range(30):
        r = S.find_sub(p, old)
        if r is None:
            return mk(out + norm(p))
        out += r[0] + pieces_of(new)
        p = norm(r[1])
    raise Unsupported('unbounded replace')


def replace_atom(p, old, new):
    """character replacement as an uninterpreted function with its algebra:
    replacing back is the identity if the new character did not occur"""
    if p.defn and p.defn[0] == 'replace' and p.defn[1][1] == new and p.defn[1][2] == old:
        inner = p.defn[1][0]
        ip = pieces_of(inner)
        if len(ip) == 1 and isinstance(ip[0], Atom) and not ip[0].cs.has(old):
            return ip
    cs = p.cs.minus(CharSet(old)).union(CharSet(new))
    a = fn_atom('replace', [Rope([p]), old, new], cs, p.minlen if new else 0)
    return pieces_of(a)


def str_join(it, sep, lst):
    items = raw_items(it, lst)
    c = ctx()
    segs = [x for x in items if isinstance(x, Seg)]
    if any(isinstance(x, Img) for x in items):
        if len(items) == 1:
            at = Atom('joined', ANYCS)
            at.defn = ('join', [sep, items[0]])
            return mk([at])
        raise Unsupported('join of a filtered list')
    if not segs:
        for x in items:
            if not is_str(x):
                throw('TypeError', 'sequence item: expected str instance, %s found' % type_name(x))
        out = []
        for i, x in enumerate(items):
            if i:
                out += pieces_of(sep)
            out += pieces_of(x)
        return mk(out)
    out = []
    first = True
    for x in items:
        if isinstance(x, Seg):
            if not c.branch_z3(x.hi > x.lo, 'nonempty'):
                continue
            if not first:
                out += pieces_of(sep)
            if not isinstance(sep, str):
                raise Unsupported('join with unknown separator')
            out.append(Join(sep, x.seq, x.lo, x.hi))
        else:
            if not first:
                out += pieces_of(sep)
            out += pieces_of(x)
        first = False
    return merge_joins(norm(out))


ANYCS = S.ANY


def merge_joins(p):
    "J[a:b] sep J[b:c] -> J[a:c]"
    out = []
    c = ctx()
    i = 0
    while i < len(p):
        x = p[i]
        if isinstance(x, Join):
            while (i + 2 < len(p) and p[i + 1] == x.sep and isinstance(p[i + 2], Join)
                   and p[i + 2].sep == x.sep and p[i + 2].seq is x.seq and c.valid(p[i + 2].lo == x.hi)):
                x = Join(x.sep, x.seq, x.lo, p[i + 2].hi)
                i += 2
        out.append(x)
        i += 1
    return mk(out)


def str_startswith(it, s, pre, *rest):
    if rest:
        raise Unsupported('startswith with position')
    if isinstance(pre, tuple):
        return any(str_startswith(it, s, x) for x in pre)
    if isinstance(s, str) and isinstance(pre, str):
        return s.startswith(pre)
    if not isinstance(pre, str):
        p, q = pieces_of(s), pieces_of(pre)
        if S.same(p[:len(q)], q):
            return True
        return starts_with_rope(p, q)
    return S.starts_with(pieces_of(s), pre) is not None


def starts_with_rope(p, q):
    p, q = norm(p), norm(q)
    while p and q:
        if isinstance(p[0], str) and isinstance(q[0], str):
            n = min(len(p[0]), len(q[0]))
            if p[0][:n] != q[0][:n]:
                return False
            p, q = norm([p[0][n:]] + p[1:]), norm([q[0][n:]] + q[1:])
        elif not isinstance(p[0], str) and S.same(p[:1], q[:1]):
            p, q = p[1:], q[1:]
        else:
            # what is before a delimiter that both have: equal up to it, and then on
            n = next((i for i, x in enumerate(q) if isinstance(x, str)), 0)
            if n == 0 or not all(isinstance(x, Atom) and not x.cs.has(q[n][0]) for x in q[:n]):
                break
            r = S.cut_at(p, CharSet(q[n][0]))
            if r is None or not S.equal(r[0], q[:n]):
                return False
            # the delimiter itself is compared in the next round
            p, q = norm([q[n][0]] + list(r[2])), norm(q[n:])
    if not q:
        return True
    if not p:
        return S.equal([], q)
    if len(q) >= 1 and isinstance(q[-1], str) and len(q[-1]) == 1 and all(
            isinstance(x, Atom) and not x.cs.has(q[-1]) for x in q[:-1]):
        # up to the first delimiter
        r = S.cut_at(p, CharSet(q[-1]))
        if r is None:
            return False
        return S.equal(r[0], q[:-1])
    raise Unsupported('startswith of unknown text')


def str_endswith(it, s, suf):
    if isinstance(suf, tuple):
        return any(str_endswith(it, s, x) for x in suf)
    if isinstance(s, str) and isinstance(suf, str):
        return s.endswith(suf)
    if not isinstance(suf, str):
        raise Unsupported('endswith of unknown text')
    return S.ends_with(pieces_of(s), suf) is not None


def str_find(it, s, sub, *a, right=False):
    if a:
        if isinstance(s, str) and isinstance(sub, str) and all(isinstance(x, int) for x in a):
            return s.rfind(sub, *a) if right else s.find(sub, *a)
        lo = a[0]
        if len(a) > 1 or not isinstance(lo, (int, SInt)) or isinstance(lo, int) and lo < 0 or not isinstance(sub, str):
            raise Unsupported('find with position')
        p = pieces_of(s)
        if isinstance(lo, int):
            rest = S.take(p, lo)[1]
            if not S.at_least(p, lo):
                return -1
        else:
            if not ctx().valid(lo.t >= 0):
                raise Unsupported('find with position')
            if not ctx().valid(lo.t <= S.len_z3(p)) and not ctx().branch_z3(lo.t <= S.len_z3(p), 'position'):
                return -1
            rest = split_term(p, lo.t)[1]
        r = (S.rfind_sub if right else S.find_sub)(rest, sub)
        if r is None:
            return -1
        return mkint(z3.simplify(zint(lo) + S.len_z3(r[0])))
    if not isinstance(sub, str):
        raise Unsupported('find of unknown text')
    r = (S.rfind_sub if right else S.find_sub)(pieces_of(s), sub)
    if r is None:
        return -1
    return mkint(S.len_z3(r[0]))


def str_count(it, s, sub):
    if isinstance(s, str) and isinstance(sub, str):
        return s.count(sub)
    n, p = 0, pieces_of(s)
    while n < 30:
        r = S.find_sub(p, sub)
        if r is None:
            return n
        p = norm(r[1])
        n += 1
    raise Unsupported('unbounded count')


def str_format(it, s, args, kw):
    if not isinstance(s, str):
        raise Unsupported('symbolic format')
    out, pos, auto = [], 0, 0
    for m in _re.finditer(r'\{\{|\}\}|\{([^{}:!]*)(![rs])?(:[^{}]*)?\}', s):
        out.append(s[pos:m.start()])
        pos = m.end()
        if m.group(0) in ('{{', '}}'):
            out.append(m.group(0)[0])
            continue
        if m.group(3) not in (None, ':', ':s'):
            raise Unsupported('format specification')
        n = m.group(1)
        if n == '':
            v = args[auto]
            auto += 1
        elif n.isdigit():
            v = args[int(n)]
        elif n.isidentifier():
            v = kw[n]
        else:
            raise Unsupported('format field')
        if m.group(3) == ':s' and m.group(2) is None and not S.is_str(v):
            raise Unsupported('format specification')
        out.append(to_repr(it, v) if m.group(2) == '!r' else to_str(it, v))
    out.append(s[pos:])
    return concat(*out)


def b_str(name, real):
    def f(it, s, *a):
        if isinstance(s, str) and all(isinstance(x, (str, int)) for x in a):
            return real(s, *a)
        return fn_atom('str.' + name, [s] + list(a))
    return f


def codec_of(enc):
    if not isinstance(enc, str):
        raise Unsupported('encoding')
    try:
        return codecs.lookup(enc).name
    except LookupError:
        throw('LookupError', 'unknown encoding')


def str_encode(it, s, enc='utf-8', errors='strict'):
    if isinstance(s, str):
        return s.encode(enc, errors)
    p = pieces_of(s)
    codec = codec_of(enc)
    if codec != 'utf-8':
        return mkbytes(fn_atom('encode ' + codec, [Rope(list(p))]))
    # decode . encode = identity
    if len(p) == 1 and isinstance(p[0], Atom) and p[0].defn and p[0].defn[0] == 'utf8decode':
        return mkbytes(p[0].defn[1][0])
    return mkbytes(concat(*[enc_piece(x) for x in p]))


def enc_piece(x):
    if isinstance(x, str):
        return x.encode('utf-8').decode('latin-1')
    if isinstance(x, Atom) and x.defn and x.defn[0] == 'utf8decode':
        return x.defn[1][0]
    return fn_atom('utf8encode', [Rope([x])], minlen=x.minlen)


def bytes_decode(it, b, enc='utf-8', errors='strict'):
    if isinstance(b, bytes):
        try:
            return b.decode(enc, errors)
        except UnicodeDecodeError:
            throw('UnicodeDecodeError', 'invalid')
    codec = codec_of(enc)
    if codec != 'utf-8':
        return fn_atom('decode ' + codec, [b.rope])
    out = []
    run = []            # pieces that need not be complete characters

    def flush():
        if all(isinstance(x, str) for x in run):
            try:
                out.append(''.join(run).encode('latin-1').decode('utf-8'))
            except UnicodeDecodeError:
                throw('UnicodeDecodeError', 'invalid')
        else:
            least = max([0] + [x.minlen for x in run if isinstance(x, Atom)])
            out.append(fn_atom('utf8decode', [Rope(list(run))], minlen=1 if least else 0))
        del run[:]
    for x in pieces_of(b.rope):
        if isinstance(x, Atom) and x.defn and x.defn[0] == 'utf8encode':
            flush()
            out.append(x.defn[1][0])
        else:
            run.append(x)
    flush()
    return concat(*out)


def isdigit(it, s):
    if isinstance(s, str):
        return s.isdigit()
    if not S.at_least(pieces_of(s), 1):
        return False
    return S.cut_at(pieces_of(s), CharSet('0123456789').compl()) is None


STR_METHODS = {
    'split': lambda it, s, a, k: str_split(it, s, *a, **k),
    'rsplit': lambda it, s, a, k: str_rsplit(it, s, *a, **k),
    'partition': lambda it, s, a, k: str_partition(it, s, *a),
    'rpartition': lambda it, s, a, k: str_rpartition(it, s, *a),
    'replace': lambda it, s, a, k: str_replace(it, s, *a),
    'join': lambda it, s, a, k: str_join(it, s, *a),
    'startswith': lambda it, s, a, k: str_startswith(it, s, *a),
    'endswith': lambda it, s, a, k: str_endswith(it, s, *a),
    'strip': lambda it, s, a, k: mk(do_rstrip(do_lstrip(pieces_of(s), chars_arg(a[0] if a else None)),
                                            chars_arg(a[0] if a else None))),
    'lstrip': lambda it, s, a, k: mk(do_lstrip(pieces_of(s), chars_arg(a[0] if a else None))),
    'rstrip': lambda it, s, a, k: mk(do_rstrip(pieces_of(s), chars_arg(a[0] if a else None))),
    'find': lambda it, s, a, k: str_find(it, s, *a),
    'rfind': lambda it, s, a, k: str_find(it, s, *a, right=True),
    'count': lambda it, s, a, k: str_count(it, s, *a),
    'format': lambda it, s, a, k: str_format(it, s, a, k),
    'encode': lambda it, s, a, k: str_encode(it, s, *a, **k),
    'isdigit': lambda it, s, a, k: isdigit(it, s),
    'removeprefix': lambda it, s, a, k: _removeprefix(it, s, a[0]),
    'removesuffix': lambda it, s, a, k: _removesuffix(it, s, a[0]),
    'splitlines': lambda it, s, a, k: _concrete(s, 'splitlines', a),
    'index': lambda it, s, a, k: _index(it, s, a),
    'isalpha': lambda it, s, a, k: _concrete(s, 'isalpha', a),
    'isalnum': lambda it, s, a, k: _concrete(s, 'isalnum', a),
    'isidentifier': lambda it, s, a, k: _concrete(s, 'isidentifier', a),
}
for _n in ('lower', 'upper', 'title', 'capitalize', 'casefold', 'swapcase', 'ljust', 'rjust', 'zfill', 'expandtabs'):
    STR_METHODS[_n] = (lambda n: lambda it, s, a, k: b_str(n, getattr(str, n))(it, s, *a))(_n)


def _concrete(s, n, a):
    if isinstance(s, str):
        r = getattr(s, n)(*a)
        return born(PList(r)) if isinstance(r, list) else r
    raise Unsupported('str.%s of unknown text' % n)


def _index(it, s, a):
    r = str_find(it, s, *a)
    if isinstance(r, int) and r < 0:
        throw('ValueError', 'substring not found')
    return r


def _affix(pre):
    if not isinstance(pre, str):
        raise Unsupported('removing unknown text')
    return pre


def _removeprefix(it, s, pre):
    _affix(pre)
    r = S.starts_with(pieces_of(s), pre)
    return mk(pieces_of(s)) if r is None else mk(r)


def _removesuffix(it, s, pre):
    _affix(pre)
    r = S.ends_with(pieces_of(s), pre)
    return mk(pieces_of(s)) if r is None else mk(r)


def list_append(it, l, x):
    if l.tag is not None:
        l.tag.append(x)
        return
    guard_old(l)
    l.items.append(x)


def list_extend(it, l, xs):
    items = raw_items(it, xs)
    if l.tag is not None:
        if any(isinstance(x, (Seg, Img)) for x in items):
            raise Unsupported('extend inside of a loop')
        l.tag.extend(items)
        return
    guard_old(l)
    l.items.extend(items)


def list_pop(it, l, i=-1):
    guard_old(l)
    check_readable(l)
    if i == -1:
        r = _drop_last(l.items)
        if r is None:
            throw('IndexError', 'pop from empty list')
        l.items = r[0]
        return r[1]
    if i == 0:
        r = _drop_first(l.items)
        if r is None:
            throw('IndexError', 'pop from empty list')
        l.items = r[1]
        return r[0]
    if any(isinstance(x, (Seg, Img)) for x in l.items):
        raise Unsupported('pop')
    return l.items.pop(i)


def list_remove(it, l, x):
    if l.tag is not None:
        l.tag.append(I.Removed(x))
        return
    guard_old(l)
    check_readable(l)
    if any(isinstance(e, (Seg, Img)) for e in l.items):
        raise Unsupported('remove from a symbolic list')
    for i, e in enumerate(l.items):
        if truth(py_eq(e, x)):
            del l.items[i]
            return
    throw('ValueError', 'list.remove(x): x not in list')


def list_insert(it, l, i, x):
    guard_old(l)
    check_readable(l)
    if i == 0:
        l.items.insert(0, x)
        return
    if any(isinstance(e, (Seg, Img)) for e in l.items):
        raise Unsupported('insert')
    l.items.insert(i, x)


def list_index(it, l, x):
    check_readable(l)
    for i, e in enumerate(l.items):
        if isinstance(e, (Seg, Img)):
            raise Unsupported('index in symbolic list')
        if truth(py_eq(e, x)):
            return i
    throw('ValueError', 'not in list')


def list_sort(it, l, key=None, reverse=False):
    guard_old(l)
    r = do_sorted(it, l, key, reverse)
    l.items = r.items


def list_count(it, l, x):
    return sum(1 for e in it.items_list(l) if truth(py_eq(e, x)))


def list_reverse(it, l):
    guard_old(l)
    if any(isinstance(e, (Seg, Img)) for e in l.items):
        raise Unsupported('reverse')
    l.items.reverse()


def list_clear(it, l):
    guard_old(l)
    l.items = []


LIST_METHODS = {'append': list_append, 'extend': list_extend, 'pop': list_pop, 'remove': list_remove,
                'insert': list_insert, 'index': list_index, 'sort': list_sort, 'count': list_count,
                'reverse': list_reverse, 'clear': list_clear,
                'copy': lambda it, l: born(PList(raw_items(it, l)))}


def dict_get(it, d, k, default=None):
    e = dict_find(d, k)
    return default if e is None else e[1]


def dict_pop(it, d, k, *default):
    e = dict_find(d, k)
    if e is None:
        if default:
            return default[0]
        raise PyExc(make_exc('KeyError', k))
    guard_old(d)
    d.entries = [x for x in d.entries if x is not e]
    return e[1]


def dict_update(it, d, *a, **kw):
    for src in a:
        if isinstance(src, PDict):
            check_readable(src)
            if any(isinstance(e, Img) for e in src.entries):
                guard_old(d)
                keep = [e for e in d.entries if isinstance(e, list) and dict_find(src, e[0]) is None]
                if any(isinstance(e, Img) for e in d.entries):
                    raise Unsupported('update with a symbolic dictionary')
                d.entries = keep + [e if isinstance(e, Img) else list(e) for e in src.entries]
                continue
            for e in src.entries:
                dict_set(d, e[0], e[1])
        elif isinstance(src, Model) and hasattr(src, 'py_update_into'):
            src.py_update_into(it, d)
        else:
            for x in it.items_list(src):
                k, v = it.unpack(x, 2)
                dict_set(d, k, v)
    _dictupd(it, d, kw)


def dict_setdefault(it, d, k, default=None):
    e = dict_find(d, k)
    if e is not None:
        return e[1]
    dict_set(d, k, default)
    return default


def dict_clear(it, d):
    guard_old(d)
    d.entries = []


def dict_items(it, d):
    check_readable(d)
    return born(PList([e if isinstance(e, Img) else (e[0], e[1]) for e in d.entries]))


def dict_values(it, d):
    check_readable(d)
    return born(PList([Img(e.src, lambda x, k, e=e: [p[1] for p in e.at(k, x)]) if isinstance(e, Img) else e[1]
                       for e in d.entries]))


def dict_popitem(it, d):
    guard_old(d)
    if not d.entries:
        throw('KeyError', 'empty')
    e = d.entries.pop()
    return (e[0], e[1])


def copy_dict(it, d):
    check_readable(d)
    r = born(PDict())
    r.entries = [e if isinstance(e, Img) else list(e) for e in d.entries]
    r.default_factory = d.default_factory
    return r


DICT_METHODS = {'get': dict_get, 'pop': dict_pop, 'update': dict_update, 'setdefault': dict_setdefault,
                'clear': dict_clear, 'items': dict_items, 'values': dict_values, 'popitem': dict_popitem,
                'keys': lambda it, d: born(PList(raw_items(it, d))), 'copy': copy_dict}


def set_discard(it, s, x, strict=False):
    guard_old(s)
    check_readable(s)
    if any(isinstance(e, (Seg, Img)) for e in s.items):
        if strict:
            raise Unsupported('removal from a symbolic set')

        def others(v, k):
            return [] if truth(py_eq(v, x)) else [v]
        s.items = [it.image(e, others, True) if isinstance(e, (Seg, Img)) else e for e in s.items
                   if isinstance(e, (Seg, Img)) or not truth(py_eq(e, x))]
        return
    for i, e in enumerate(s.items):
        if truth(py_eq(e, x)):
            del s.items[i]
            return
    if strict:
        throw('KeyError', x)


def to_insert(it, v):
    "what is inserted when a set is made of it"
    if isinstance(v, PSet):
        check_readable(v)
        return list(v.items)
    return raw_items(it, v)


def set_update(it, s, *a):
    for src in a:
        for x in to_insert(it, src):
            if isinstance(x, (Seg, Img)):
                I.add_item(s, x if isinstance(x, Img) else Img(x, lambda v, k: [v]))
            else:
                set_add(s, x)


SET_METHODS = {'add': lambda it, s, x: set_add(s, x), 'update': set_update,
               'discard': set_discard, 'remove': lambda it, s, x: set_discard(it, s, x, True),
               'union': lambda it, s, *a: _union(it, s, a),
               'copy': lambda it, s: born(PSet(to_insert(it, s))),
               'issubset': lambda it, s, o: all(truth(contains(o, x)) for x in it.items_list(s)),
               'difference': lambda it, s, o: set_op(it, ast.Sub, s, born(PSet(to_insert(it, o)))),
               'intersection': lambda it, s, o: set_op(it, ast.BitAnd, s, born(PSet(to_insert(it, o)))),
               'clear': lambda it, s: _sclear(s)}


def _sclear(s):
    guard_old(s)
    s.items = []


def _union(it, s, a):
    r = born(PSet(to_insert(it, s)))
    set_update(it, r, *a)
    return r


def _bytes_partition(it, b, sep):
    if isinstance(b, bytes) and isinstance(sep, bytes):
        return b.partition(sep)
    return tuple(mkbytes(x) for x in STR_METHODS['partition'](it, brope(b), (brope(sep),), {}))


BYTES_METHODS = {'decode': lambda it, b, *a, **k: bytes_decode(it, b, *a, **k),
                 'partition': _bytes_partition}


def value_method(it, o, name):
    if isinstance(o, (str, Rope)):
        f = STR_METHODS.get(name)
        if f is None:
            if hasattr(str, name):
                raise Unsupported('str.%s' % name)
            return None
        return Native('str.' + name, lambda it, a, k: f(it, o, a, k))
    table = None
    if isinstance(o, PList):
        table = LIST_METHODS
        base = list
    elif isinstance(o, PDict):
        if name == 'default_factory':
            if o.default_factory is None:
                return None
            return o.default_factory
        table = DICT_METHODS
        base = dict
    elif isinstance(o, PSet):
        table = SET_METHODS
        base = set
    elif isinstance(o, (bytes, BRope)):
        table = BYTES_METHODS
        base = bytes
    elif isinstance(o, tuple):
        table = {'index': lambda it, t, x: list_index(it, PList(t), x),
                 'count': lambda it, t, x: list_count(it, PList(t), x)}
        base = tuple
    elif isinstance(o, R.SymMatch):
        return match_method(o, name)
    if table is None:
        return None
    f = table.get(name)
    if f is None:
        if hasattr(base, name):
            raise Unsupported('%s.%s' % (base.__name__, name))
        return None
    return Native('%s.%s' % (base.__name__, name), lambda it, a, k: f(it, o, *a, **k))


def fix_pos(v):
    if isinstance(v, tuple) and v[0] == 'len':
        return mkint(S.len_z3(v[1]))
    return v


def match_method(m, name):
    if name == 'group':
        return Native('group', lambda it, a, k: m.group(*a) if len(a) <= 1 else tuple(m.group(x) for x in a))
    if name == 'groups':
        return Native('groups', lambda it, a, k: m.groups(*a))
    if name in ('start', 'end'):
        return Native(name, lambda it, a, k: fix_pos(getattr(m, name)(*a)))
    if name == 'span':
        return Native(name, lambda it, a, k: (fix_pos(m.start(*a)), fix_pos(m.end(*a))))
    raise Unsupported('match.%s' % name)


# -- sorted ---------------------------------------------------------------------------------

def do_sorted(it, v, key=None, reverse=False):
    items = raw_items(it, v)
    if not any(isinstance(x, (Seg, Img)) for x in items):
        if all(isinstance(x, str) for x in items) and key is None:
            return born(PList(sorted(items, reverse=bool(reverse))))
        if all(isinstance(x, int) for x in items) and key is None:
            return born(PList(sorted(items, reverse=bool(reverse))))
        if len(items) <= 1:
            return born(PList(items))
        if key is None and not reverse and all(isinstance(x, tuple) and x and isinstance(x[0], str) for x in items):
            return born(PList(sorted(items, key=lambda t: t[0])))
        # an unknown permutation
        out = []
        rest = list(items)
        while rest:
            out.append(rest.pop(ctx().choose(len(rest), 'sort order')))
        r = born(PList(out))
        return r
    if key is not None or truth(reverse):
        raise Unsupported('sorted with key')
    ctx().stats.trusted.add('sorted: an ordered permutation of its argument')
    if len(items) == 1:
        x = items[0]
        if isinstance(x, Seg) and not isinstance(x.seq, Gathered):
            if x.seq.sorted:
                return born(PList([x]))
            sq = sorted_seq(x)
            return born(PList([Seg(sq, z3.IntVal(0), z3.simplify(x.hi - x.lo))]))
    if len(items) == 1 and isinstance(items[0], Seg) and isinstance(items[0].seq, Gathered):
        g = items[0].seq
        return born(PList([gathered(g.given, g.once, True)]))
    return born(PList([gathered(items, False, True)]))


class Gathered(Seq):
    """the given values in an order that is not known: each different value once (a set), or all
    of them; `sorted`: in ascending order"""

    def __init__(self, given, once, in_order):
        c = ctx()
        self.given, self.once, self.sorted, self.distinct = given, once, in_order, once
        self.name = c.fresh('sorted' if in_order else 'gathered')
        self.length = z3.Int('len(%s)' % self.name)
        c.assume_z3(self.length >= 0)
        self.elem_cs, self.elem_min = S.ANY, 0
        self.memo = []

    def make(self, name):
        raise Unsupported('an element of a gathered collection that is derived from another one')

    def new(self, i):
        c = ctx()
        x = self.given[c.choose(len(self.given), 'which part')] if len(self.given) > 1 else self.given[0]
        if not isinstance(x, (Seg, Img)):
            return x
        v, key = x.generic()
        I.instantiate_for(x, key)
        return v


def gathered(items, once, in_order):
    g = Gathered(list(items), once, in_order)
    return Seg(g, z3.IntVal(0), g.length)


def each_once(items):
    "the elements of a set"
    if all(isinstance(x, (Seg, Img)) is False for x in items):
        return list(items)
    if len(items) == 1 and isinstance(items[0], Seg) and items[0].seq.distinct:
        return list(items)
    return [gathered(items, True, False)]


def sorted_seq(x):
    "the elements of a segment in sorted order, as a sequence of its own"
    src = x.seq
    # the same elements always come out in the same order
    known = ctx().memo.setdefault('sorted', [])
    for s0, lo, hi, r in known:
        if s0 is src and lo.eq(x.lo) and hi.eq(x.hi):
            return r

    class Sorted(Seq):
        def __init__(self):
            self.name = 'sorted(%s)' % src.name
            self.length = z3.simplify(x.hi - x.lo)
            self.elem_cs, self.elem_min = src.elem_cs, src.elem_min
            self.distinct = src.distinct
            self.sorted = True
            self.memo = []
            self.perm = []

        def root(self):
            return self

        def make(self, name):
            s, chain = src, []
            while isinstance(s, MapSeq):
                chain.append(s.fn)
                s = s.seq
            v = s.make(name)
            for fn in reversed(chain):
                v = fn(v, z3.Int(ctx().fresh('any')))
            return v

        def get(self, i):
            c = ctx()
            i = z3.simplify(i)
            for j, v in self.memo:
                if i.eq(j) or c.valid(i == j):
                    return v
            for j, v in self.memo:
                if not c.valid(i != j) and c.branch_z3(i == j, 'same index'):
                    return v
            k = z3.Int(c.fresh('perm'))
            c.assume_z3(z3.And(k >= x.lo, k < x.hi))
            for j, kk in self.perm:
                c.assume_z3(z3.Implies(i != j, k != kk))
            self.perm.append((i, k))
            v = src.get(k)
            I.instantiate_facts(src.root(), k)
            self.memo.append((i, v))
            return v
    r = Sorted()
    known.append((src, x.lo, x.hi, r))
    return r


# -- builtins ----------------------------------------------------------------------------------

def b_len(it, v):
    return length(it, v)


def b_range(it, *a):
    if all(isinstance(x, int) for x in a):
        return born(PList(list(range(*a))))
    if len(a) == 1:
        lo, hi = 0, a[0]
    elif len(a) == 2:
        lo, hi = a
    else:
        raise Unsupported('range with step')
    c = ctx()
    n = z3.simplify(zint(hi) - zint(lo))
    if not c.branch_z3(n > 0, 'range'):
        return born(PList())
    return born(PList([Seg(RangeSeq(zint(lo), n))]))


class RangeSeq(Seq):
    def __init__(self, lo, n):
        self.name = 'range'
        self.start = lo
        self.length = n
        self.elem_cs, self.elem_min = S.ANY, 0
        self.distinct = True
        self.sorted = True
        self.memo = []
        self.name = ctx().fresh('range')

    def get(self, i):
        i = z3.simplify(i)
        if not any(i.eq(j) for j, _ in self.memo):
            self.memo.append((i, mkint(self.start + i)))
        return mkint(self.start + i)


class ZipSeq(Seq):
    """index-wise combination of sequences over the same indices"""

    def __init__(self, segs, fn):
        self.segs = segs
        self.fn = fn
        s = segs[0]
        self.name = 'zip(%s)' % s.seq.name
        self.length = z3.simplify(s.hi - s.lo)
        self.elem_cs, self.elem_min = S.ANY, 0
        self.distinct = self.sorted = False
        self.memo = []

    def root(self):
        return self.segs[0].seq.root()

    @property
    def base(self):
        return self.segs[0]

    def get(self, i):
        c = ctx()
        i = z3.simplify(i)
        for j, v in self.memo:
            if i.eq(j) or c.valid(i == j):
                return v
        v = self.fn([s.seq.get(z3.simplify(s.lo + i)) for s in self.segs], i)
        self.memo.append((i, v))
        return v


class EnumSeq(MapSeq):
    "enumerate: same indices as the underlying sequence"

    def __init__(self, seq, lo, start):
        MapSeq.__init__(self, seq, lambda v, i: (mkint(start + i - lo), v))
        self.name = 'enumerate(%s)' % seq.name


def b_enumerate(it, v, start=0):
    out = []
    pos = zint(start)
    for x in raw_items(it, v):
        if isinstance(x, Seg):
            out.append(Seg(EnumSeq(x.seq, x.lo, pos), x.lo, x.hi))
            pos = z3.simplify(pos + x.hi - x.lo)
        elif isinstance(x, Img):
            raise Unsupported('enumerate of a filtered list')
        else:
            out.append((mkint(pos), x))
            pos = z3.simplify(pos + 1)
    return born(PList(out))


def b_zip(it, *a):
    lists = [list(raw_items(it, x)) for x in a]
    out = []
    c = ctx()
    while all(lists):
        heads = [l[0] for l in lists]
        if any(isinstance(h, Img) for h in heads):
            raise Unsupported('zip of a filtered list')
        if any(isinstance(h, Seg) and c.valid(h.hi <= h.lo) for h in heads):
            for l in lists:
                if isinstance(l[0], Seg) and c.valid(l[0].hi <= l[0].lo):
                    l.pop(0)
            continue
        if all(isinstance(h, Seg) for h in heads):
            n = heads[0].hi - heads[0].lo
            for h in heads[1:]:
                if not c.branch_z3(n <= h.hi - h.lo, 'shorter'):
                    n = h.hi - h.lo
            n = z3.simplify(n)
            first = heads[0]

            def comb(v, i, heads=heads, first=first):
                return tuple([v] + [h.seq.get(z3.simplify(h.lo + i - first.lo)) for h in heads[1:]])
            ms = MapSeq(first.seq, comb)
            ms.name = 'zip(%s)' % ','.join(h.seq.name for h in heads)
            out.append(Seg(ms, first.lo, first.lo + n))
            for l in lists:
                h = l[0]
                l[0] = Seg(h.seq, h.lo + n, h.hi)
            # one of them is used up
            for l in lists:
                if c.valid(l[0].hi <= l[0].lo):
                    l.pop(0)
            continue
        vals = []
        stop = False
        for l in lists:
            r = _drop_first(l)
            if r is None:
                stop = True
                break
            vals.append(r[0])
            l[:] = r[1]
        if stop:
            break
        out.append(tuple(vals))
    return born(PList(out))


def b_isinstance(it, v, cls):
    return isinst(it, v, cls)


def b_any(it, v, want=True):
    for x in raw_items(it, v):
        if isinstance(x, (Seg, Img)):
            c = ctx()
            if c.choose(2, 'any/all') == 0:
                e, key = x.generic()
                I.instantiate_for(x, key)
                if truth(e) == want:
                    return want
                raise PathEnd('not the witness')

            def fact(el, key, x=x):
                vs = [el] if isinstance(x, Seg) else x.at(key, el)
                for y in vs:
                    if truth(y) == want:
                        raise PathEnd('all elements')
            src = x if isinstance(x, Seg) else x.src
            I.for_all(src, fact)
            if isinstance(src, Seg):
                for e, k in I.known_elements(src):
                    fact(e, k)
        elif truth(x) == want:
            return want
    return not want


def b_getattr(it, o, name, *default):
    if not isinstance(name, str):
        raise Unsupported('getattr with unknown name')
    try:
        return it.getattr(o, name)
    except PyExc as e:
        if default and e.obj.cls.issub(_E['AttributeError']):
            return default[0]
        raise


def b_hasattr(it, o, name):
    if isinstance(o, Model) and hasattr(o, 'py_hasattr'):
        return o.py_hasattr(it, name)
    try:
        it.getattr(o, name)
        return True
    except PyExc as e:
        if e.obj.cls.issub(_E['AttributeError']):
            return False
        raise


def b_property(it, fget=None, fset=None, fdel=None, doc=None):
    return Prop(fget, fset)


def b_super(it, *a):
    if len(a) == 2:
        return I.Super(a[0], a[1])
    raise Unsupported('super()')


def b_type(it, v):
    c = class_of(v)
    if c is None:
        if isinstance(v, Model) and hasattr(v, 'py_class'):
            return v.py_class(it)
        raise Unsupported('type()')
    return c


def b_minmax(name):
    def f(it, *a, **k):
        items = it.items_list(a[0]) if len(a) == 1 else list(a)
        if k:
            raise Unsupported(name)
        if all(isinstance(x, (int, float)) for x in items):
            if not items:
                throw('ValueError')
            return (min if name == 'min' else max)(items)
        cur = items[0]
        for x in items[1:]:
            less = truth(order(it, ast.Lt(), x, cur))
            if less == (name == 'min'):
                cur = x
        return cur
    return f


def b_int(it, *a):
    if not a:
        return 0
    v = a[0]
    if len(a) > 1:
        if all(isinstance(x, (str, int)) for x in a):
            return int(*a)
        raise Unsupported('int with base')
    if isinstance(v, (int, float)):
        return int(v)
    if isinstance(v, (SInt, SBV)):
        return v
    if isinstance(v, SReal):
        return mkint(z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
    if is_str(v):
        return text_int(it, v)
    if isinstance(v, SBool):
        return mkint(z3.If(v.t, 1, 0))
    throw('TypeError', 'int() argument')


def b_str_ctor(it, *a):
    return to_str(it, a[0]) if a else ''


def b_list(it, *a):
    return born(PList(raw_items(it, a[0]) if a else []))


def b_tuple(it, *a):
    if not a:
        return ()
    if isinstance(a[0], tuple):
        return a[0]
    items = raw_items(it, a[0])
    if any(isinstance(x, (Seg, Img)) for x in items):
        return born(PList(items))
    return tuple(items)


def b_dict(it, *a, **kw):
    d = born(PDict())
    if a and isinstance(a[0], PDict):
        return _dictupd(it, copy_dict(it, a[0]), kw)
    if a:
        for x in raw_items(it, a[0]):
            if isinstance(x, Img):
                d.entries.append(x)
            elif isinstance(x, Seg):
                d.entries.append(Img(x, lambda v, k: [v]))
            else:
                k, v = it.unpack(x, 2)
                dict_set(d, k, v)
    return _dictupd(it, d, kw)


def _dictupd(it, d, kw):
    d.default_factory = getattr(d, 'default_factory', None)
    for k, v in kw.items():
        if k == '**sym':
            dict_update(it, d, PDict(list(v)))
        else:
            dict_set(d, k, v)
    return d


def b_set(it, *a, frozen=False):
    s = born(PSet(frozen=frozen))
    if a:
        if isinstance(a[0], Model) and hasattr(a[0], 'py_frozen'):
            return a[0].py_frozen(it)
        for x in to_insert(it, a[0]):
            if isinstance(x, (Seg, Img)):
                s.items.append(x)
            else:
                fr = s.items
                if not any(e is x or (not isinstance(e, (Seg, Img)) and truth(py_eq(e, x))) for e in fr):
                    s.items.append(x)
    return s


def b_bool(it, *a):
    if not a:
        return False
    if isinstance(a[0], SBool):
        return a[0]
    return truth(a[0])


def b_iter(it, v, *sentinel):
    if sentinel:
        return I.CallIter(v, sentinel[0])
    if isinstance(v, I.PGen):
        return v
    if isinstance(v, PObj):
        own = it.class_attr(v, '__iter__')
        r = v if own is None else it.call(own, [])
        if isinstance(r, I.PGen) or isinstance(r, PObj) and it.class_attr(r, '__next__') is not None:
            return r
        v = r
    return ListIter(raw_items(it, v))


class ListIter(Model):
    model_name = 'iterator'

    def __init__(self, items):
        self.items = list(items)

    def py_items(self, it):
        r, self.items = self.items, []
        return r


def b_next(it, v, *default):
    if isinstance(v, I.PGen):
        m = v.resume()
        if m[0] == 'stop':
            if default:
                return default[0]
            throw('StopIteration')
        return m[1]
    if isinstance(v, ListIter):
        r = _drop_first(v.items)
        if r is None:
            if default:
                return default[0]
            throw('StopIteration')
        v.items = r[1]
        return r[0]
    if isinstance(v, PObj):
        f = it.class_attr(v, '__next__')
        if f is not None:
            try:
                return it.call(f, [])
            except PyExc as e:
                if default and e.obj.cls.issub(_E['StopIteration']):
                    return default[0]
                raise
    raise Unsupported('next()')


def b_reversed(it, v):
    items = raw_items(it, v)
    if any(isinstance(x, (Seg, Img)) for x in items):
        raise Unsupported('reversed symbolic list')
    return born(PList(items[::-1]))


def interpreted(it, name, source):
    "a function given by its Python text"
    known = it.__dict__.setdefault('given_by_text', {})
    if name not in known:
        m = PModule('text', {'__name__': 'text', '__file__': 'text'})
        m.package = ''
        m.path = 'text'
        fr = I.Frame(m)
        fr.locals = m.d
        it.exec_block(ast.parse(source).body, fr)
        known[name] = m.d[name]
    return known[name]


def b_map(it, f, *a):
    if len(a) != 1:
        return born(PList([it.call(f, list(t)) for t in it.items_list(b_zip(it, *a))]))
    if isinstance(a[0], I.PGen):
        # as the generator it stands for
        return it.call(interpreted(it, '_map', 'def _map(f, values):\n    for x in values:\n        yield f(x)\n'), [f, a[0]])
    out = []
    for x in raw_items(it, a[0]):
        if isinstance(x, (Seg, Img)):
            out.append(it.image(x, lambda e, k: [it.call(f, [e])], False))
        else:
            out.append(it.call(f, [x]))
    return born(PList(out))


def b_filter(it, f, v):
    out = []
    test = (lambda e: truth(e)) if f is None else (lambda e: truth(it.call(f, [e])))
    for x in raw_items(it, v):
        if isinstance(x, (Seg, Img)):
            emit = lambda e, k: [e] if test(e) else []
            if isinstance(x, Seg) and it.identity(x, emit):
                out.append(x)
            else:
                out.append(Img(x, emit))
        elif test(x):
            out.append(x)
    return born(PList(out))


def b_sum(it, v, start=0):
    r = start
    for x in it.items_list(v):
        r = binop(it, ast.Add(), r, x)
    return r


def b_repr(it, v):
    return to_repr(it, v)


def b_print(it, *a, **k):
    return None


def b_open(it, *a, **k):
    return ext(it, 'open', a, k)


def b_id(it, v):
    raise Unsupported('id()')


def b_hash(it, v):
    raise Unsupported('hash()')


def b_setattr(it, o, n, v):
    it.setattr(o, n, v)


def b_callable(it, v):
    return isinstance(v, (PFunc, Native, Bound, PClass)) or (isinstance(v, PObj) and v.cls.has('__call__'))


def b_chr(it, v):
    return chr(v)


def b_ord(it, v):
    if isinstance(v, str):
        return ord(v)
    raise Unsupported('ord')


def b_abs(it, v):
    if isinstance(v, (int, float)):
        return abs(v)
    return mkint(z3.If(zint(v) >= 0, zint(v), -zint(v)))


def b_object(it, *a):
    return born(PObj(OBJECT))


def ctor(cls, fn):
    CTORS[id(cls)] = lambda it, a, k: fn(it, *a, **k)


ctor(STR, b_str_ctor)
ctor(INT, b_int)
ctor(BOOL, b_bool)
ctor(LIST, b_list)
ctor(TUPLE, b_tuple)
ctor(DICT, b_dict)
ctor(SET, b_set)
ctor(FROZENSET, lambda it, *a: b_set(it, *a, frozen=True))
ctor(TYPE, b_type)
ctor(OBJECT, b_object)
ctor(FLOAT, lambda it, *a: mkreal(zreal(a[0])) if a and isinstance(a[0], (SInt, SReal)) else (float(a[0]) if a else 0.0))
ctor(BYTES, lambda it, *a: b_bytes(it, *a))


def b_bytes(it, *a):
    if not a:
        return b''
    v = a[0]
    if isinstance(v, (bytes, BRope)):
        return v
    if is_str(v):
        return str_encode(it, v, *a[1:])
    if isinstance(v, PObj):
        f = it.class_attr(v, '__bytes__')
        if f is not None:
            return it.call(f, [])
    raise Unsupported('bytes()')


def make_builtins(it):
    d = {}
    for name, fn in [('len', b_len), ('range', b_range), ('enumerate', b_enumerate), ('zip', b_zip),
                     ('isinstance', b_isinstance), ('any', b_any),
                     ('all', lambda it, v: b_any(it, v, want=False)), ('getattr', b_getattr),
                     ('hasattr', b_hasattr), ('property', b_property), ('super', b_super),
                     ('min', b_minmax('min')), ('max', b_minmax('max')), ('iter', b_iter), ('next', b_next),
                     ('reversed', b_reversed), ('map', b_map), ('filter', b_filter), ('sum', b_sum),
                     ('repr', b_repr), ('print', b_print), ('sorted', do_sorted), ('open', b_open),
                     ('id', b_id), ('hash', b_hash), ('setattr', b_setattr), ('callable', b_callable),
                     ('chr', b_chr), ('ord', b_ord), ('abs', b_abs),
                     ('staticmethod', lambda it, f: StaticM(f)), ('classmethod', lambda it, f: ClassM(f)),
                     ('issubclass', lambda it, c, k: any(c.issub(x) for x in (k if isinstance(k, tuple) else (k,))))]:
        d[name] = nat(name, fn)
    for c in (OBJECT, TYPE, INT, BOOL, FLOAT, STR, BYTES, LIST, TUPLE, DICT, SET, FROZENSET, BYTEARRAY):
        d[c.name] = c
    d.update(_E)
    d['NotImplemented'] = Opaque('NotImplemented')
    d['Ellipsis'] = Opaque('Ellipsis')
    d['__debug__'] = True
    return d


# -- external effects --------------------------------------------------------------------------

def event(it, *ev):
    "append to the ghost trace"
    I.add_item(it.trace, tuple(ev))


def ext(it, name, a, k):
    """an external function: the unit's contract for it, else a pure default"""
    h = it.ext.get(name) if hasattr(it, 'ext') else None
    if h is None and hasattr(it, 'ext'):
        h = it.ext.get('*')
        if h is not None:
            return h(it, name, list(a), dict(k))
    if h is None:
        raise Unsupported('no contract for %s in this unit' % name)
    ctx().stats.trusted.add(name)
    return h(it, list(a), dict(k)) if not isinstance(h, (PFunc, Bound)) else it.call(h, list(a), dict(k))


def extmod(name, consts=None):
    def getter(attr):
        return Native(name + '.' + attr, lambda it, a, k: ext(it, name + '.' + attr, a, k))
    return PModule(name, dict(consts or {}), getter)


class Regex(Model):
    model_name = 'regex'

    def __init__(self, pattern, flags=0):
        self.pattern, self.flags = pattern, flags
        self.rx = _re.compile(pattern, flags)

    def _m(self, s, full=False):
        if isinstance(s, str):
            m = self.rx.fullmatch(s) if full else self.rx.match(s)
            return None if m is None else ConcMatch(m)
        return R.match(self.pattern, self.flags, s, full)

    def m_match(self, it, s):
        return self._m(s)

    def m_fullmatch(self, it, s):
        return self._m(s, True)

    def m_search(self, it, s):
        if isinstance(s, str):
            m = self.rx.search(s)
            return None if m is None else ConcMatch(m)
        if self.pattern.startswith('^'):
            return R.match(self.pattern, self.flags, s)
        return search_literal(self, s)

    def m_sub(self, it, repl, s, count=0):
        if isinstance(s, str) and isinstance(repl, str):
            return self.rx.sub(repl, s, count)
        raise Unsupported('re.sub on unknown text')

    def m_split(self, it, s):
        if isinstance(s, str):
            return born(PList(self.rx.split(s)))
        raise Unsupported('re.split')

    def m_findall(self, it, s):
        if isinstance(s, str):
            return born(PList(self.rx.findall(s)))
        raise Unsupported('re.findall')

    def py_getattr(self, it, name):
        if name == 'pattern':
            return self.pattern
        return Model.py_getattr(self, it, name)


def search_literal(rx, s):
    """search for a pattern of the form  literal-prefix lazy literal: leftmost occurrence
    of the prefix from which the rest matches"""
    tree = list(R.parse(rx.pattern, rx.flags))
    lit = ''

    def lead(nodes):
        out = ''
        for n in nodes:
            if n[0] is R.sc.LITERAL:
                out += chr(n[1])
            elif n[0] is R.sc.SUBPATTERN:
                sub, complete = lead(list(n[1][3]))
                out += sub
                if not complete:
                    return out, False
            else:
                return out, False
        return out, True
    lit, _ = lead(tree)
    if not lit:
        raise Unsupported('search for a pattern without literal prefix')
    before = []
    p = pieces_of(s)
    for _ in range(20):
        r = S.find_sub(p, lit)
        if r is None:
            return None
        t = R.parse(rx.pattern, rx.flags)
        st = R.State(norm(before + r[0]), norm([lit] + r[1]), {}, frozenset())
        res = R.run(list(t), st, lambda x: x, [])
        if res is not None:
            return R.SymMatch(res, t.state.groups - 1, dict(t.state.groupdict))
        before = norm(before + r[0] + [lit[0]])
        p = norm([lit[1:]] + r[1])
    raise Unsupported('unbounded search')


class ConcMatch(Model):
    model_name = 'match'

    def __init__(self, m):
        self.m = m

    def m_group(self, it, *a):
        return self.m.group(*a)

    def m_groups(self, it, *a):
        return self.m.groups(*a)

    def m_start(self, it, *a):
        return self.m.start(*a)

    def m_end(self, it, *a):
        return self.m.end(*a)

    def m_span(self, it, *a):
        return self.m.span(*a)


def re_flags(v):
    return int(v) if isinstance(v, int) else 0


def mod_re(it):
    def comp(it, p, flags=0):
        return p if isinstance(p, Regex) else Regex(p, flags)
    d = {'compile': nat('re.compile', comp), 'VERBOSE': int(_re.VERBOSE), 'X': int(_re.X),
         'IGNORECASE': int(_re.I), 'I': int(_re.I), 'DOTALL': int(_re.S), 'S': int(_re.S), 'MULTILINE': int(_re.M)}
    for n in ('match', 'search', 'fullmatch', 'findall', 'split'):
        d[n] = nat('re.' + n, lambda it, p, s, flags=0, n=n: getattr(comp(it, p, flags), 'm_' + n)(it, s))
    d['sub'] = nat('re.sub', lambda it, p, r, s, count=0, flags=0: comp(it, p, flags).m_sub(it, r, s, count))
    d['escape'] = nat('re.escape', lambda it, s: _re.escape(s))
    return PModule('re', d)


def path_fn(name, real, n=1):
    def f(it, *a):
        a = [mk(norm(pieces_of(x))) if isinstance(x, Rope) else x for x in a]
        if all(isinstance(x, str) for x in a):
            r = real(*a)
            return r
        if name == 'splitext':
            ctx().stats.trusted.add('os.path.splitext')
            return (fn_atom('splitext0', list(a)), fn_atom('splitext1', list(a)))
        if name in ('basename', 'dirname', 'split'):
            r = S.rcut_at(pieces_of(a[0]), CharSet('/'))
            if r is None:
                head, tail = '', a[0]
            else:
                h = norm(r[0])
                head, tail = mk(norm(do_rstrip(h, CharSet('/'))) or norm(h + ['/'])), mk(r[2])
            return {'basename': tail, 'dirname': head, 'split': (head, tail)}[name]
        if name == 'isabs':
            return str_startswith(it, a[0], '/')
        if name == 'join':
            cur = a[0]
            for x in a[1:]:
                if str_startswith(it, x, '/'):
                    cur = x
                elif not truth(cur) or str_endswith(it, cur, '/'):
                    cur = concat(cur, x)
                else:
                    cur = concat(cur, '/', x)
            return cur
        return fn_atom('os.path.' + name, list(a))
    return nat('os.path.' + name, f)


def mod_ospath(it):
    d = {'sep': '/', 'curdir': '.', 'pardir': '..'}
    for n in ('splitext', 'basename', 'dirname', 'split', 'isabs', 'join', 'normpath', 'expanduser'):
        d[n] = path_fn(n, getattr(_pp, n))
    return PModule('os.path', d, lambda attr: Native('os.path.' + attr, lambda it, a, k: ext(it, 'os.path.' + attr, a, k)))


def mod_os(it):
    m = extmod('os', {'sep': '/', 'name': 'posix', 'curdir': '.', 'altsep': None, 'linesep': '\n',
                      'strerror': nat('os.strerror', lambda it, n: __import__('os').strerror(n)),
                      'O_RDONLY': 0, 'F_OK': 0, 'R_OK': 4, 'W_OK': 2, 'X_OK': 1})
    m.d['path'] = it.import_module('os.path')
    m.d['error'] = _E['OSError']
    m.d['environ'] = Opaque('environ')
    m.d['fspath'] = nat('os.fspath', lambda it, p: p)
    return m


class TimeM(Model):
    pass


def t_time(it):
    c = ctx()
    if 'time.time' in getattr(it, 'ext', {}):
        return ext(it, 'time.time', [], {})
    last = c.memo.get('now')
    t = z3.Real(c.fresh('now'))
    if last is not None:
        c.assume_z3(t >= last)
    c.memo['now'] = t
    return SReal(t)


def mod_time(it):
    return PModule('time', {'time': nat('time.time', t_time), 'sleep': nat('time.sleep', lambda it, *a: ext(it, 'time.sleep', list(a), {}) if 'time.sleep' in getattr(it, 'ext', {}) else None)},
                   lambda attr: Native('time.' + attr, lambda it, a, k: ext(it, 'time.' + attr, a, k)))


class Thread(Model):
    model_name = 'Thread'

    def __init__(self, it, kw):
        self.kw = kw
        self.daemon = False

    def m_setDaemon(self, it, v):
        return None

    def m_start(self, it):
        return None

    def m_join(self, it, *a):
        event(it, 'thread.join', self)

    def m_is_alive(self, it):
        return mkbool(z3.Bool(ctx().fresh('alive')))

    def py_setattr(self, it, name, v):
        if name not in ('daemon', 'name'):
            raise Unsupported('Thread.%s' % name)

    def py_isinstance(self, it, cls):
        return False


class Lock(Model):
    """threading.Lock: acquire/release with ownership state"""
    model_name = 'Lock'
    n = 0

    def __init__(self, name='lock', locked=False):
        self.name = name
        self.locked = locked
        self.acquired = 0
        self.released = 0

    def __repr__(self):
        return '<%s>' % self.name

    def m_acquire(self, it, blocking=True, timeout=-1):
        event(it, 'lock.acquire', self, blocking)
        if self.locked is None:
            self.locked = ctx().choose(2, 'lock held?') == 1
        if self.locked:
            if truth(blocking):
                # waits until the other holder releases it
                event(it, 'lock.waited', self)
                self.acquired += 1
                return True
            return False
        self.locked = True
        self.acquired += 1
        return True

    def m_release(self, it):
        event(it, 'lock.release', self)
        if not self.locked:
            throw('RuntimeError', 'release unlocked lock')
        self.locked = False
        self.released += 1

    def m_locked(self, it):
        return self.locked

    def m___enter__(self, it):
        return self.m_acquire(it)

    def m___exit__(self, it, *a):
        self.m_release(it)
        return None


def mod_threading(it):
    return PModule('threading', {
        'Thread': Native('Thread', lambda it, a, k: Thread(it, k)),
        'Lock': Native('Lock', lambda it, a, k: new_lock(it, 'Lock', a, k)),
        'RLock': Native('RLock', lambda it, a, k: new_lock(it, 'RLock', a, k))})


def new_lock(it, kind, a, k):
    h = it.ext.get('threading.' + kind) if hasattr(it, 'ext') else None
    if h is not None:
        return it.call(h, a, k)
    return Lock(ctx().fresh('lock'))


def b_defaultdict(it, *a, **k):
    d = b_dict(it, *a[1:], **k)
    d.default_factory = a[0] if a else None
    return d


def mod_collections(it):
    return PModule('collections', {
        'defaultdict': nat('defaultdict', b_defaultdict),
        'OrderedDict': nat('OrderedDict', b_dict),
        'namedtuple': nat('namedtuple', lambda it, *a, **k: (_ for _ in ()).throw(Unsupported('namedtuple')))})


def mod_decorator(it):
    def decorator(it, caller, *a):
        def deco(it2, func):
            def call(it3, args, kw):
                # decorator.decorate: all arguments become positional, defaults applied
                loc = it3.bind_args(func, args, kw)
                na = func.node.args
                pos = [loc[x.arg] for x in na.posonlyargs + na.args]
                if na.vararg is not None:
                    pos += list(raw_items(it3, loc[na.vararg.arg]))
                k2 = {x.arg: loc[x.arg] for x in na.kwonlyargs}
                if na.kwarg is not None:
                    for e in loc[na.kwarg.arg].entries:
                        if isinstance(e, Img) or not isinstance(e[0], str):
                            k2.setdefault('**sym', []).append(e)
                        else:
                            k2[e[0]] = e[1]
                return it3.call(caller, [func] + pos, k2)
            n = Native(func.name, call, bind=True)
            n.wrapped = func
            n.decorator = caller
            return n
        if a:
            return deco(it, a[0])
        return Native('decorator', lambda it2, b, k: deco(it2, b[0]))
    return PModule('decorator', {'decorator': nat('decorator', decorator)})


def identity_of(name):
    return nat(name, lambda it, x, *a, **k: x)


def mod_urllib_parse(it):
    def unquote_plus(it, s, *a):
        if isinstance(s, str):
            return _up.unquote_plus(s)
        p = pieces_of(s)
        if len(p) == 1 and isinstance(p[0], Atom) and p[0].defn and p[0].defn[0] == 'quote_plus':
            return p[0].defn[1][0]
        # text without escapes is unchanged
        if all(isinstance(x, str) and not set(x) & set('+%') or
               isinstance(x, Atom) and not x.cs.has('+') and not x.cs.has('%') for x in p):
            return mk(p)
        return fn_atom('unquote_plus', [s])

    def quote_plus(it, s, *a):
        if isinstance(s, str):
            return _up.quote_plus(s)
        if isinstance(s, (int, SInt)):
            return to_str(it, s)
        p = pieces_of(s)
        safe = CharSet('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~')
        if all(isinstance(x, str) and all(safe.has(c) for c in x) or
               isinstance(x, Atom) and x.cs.subset(safe) for x in p):
            return mk(p)
        return fn_atom('quote_plus', [s], safe.union(CharSet('+%')), S.min_len(p))

    def pair(it, x):
        kk, vv = it.unpack(x, 2)
        return concat(quote_plus(it, kk if is_str(kk) else to_str(it, kk)), '=',
                      quote_plus(it, vv if is_str(vv) else to_str(it, vv)))

    def urlencode(it, q, *a, **k):
        items = raw_items(it, dict_items(it, q) if isinstance(q, PDict) else q)
        out = []
        for x in items:
            if isinstance(x, Img):
                if isinstance(q, PDict):
                    I.pairwise_distinct(x, lambda p: p[0])
                inner = x
                r = it.image(x.src, lambda e, key: [pair(it, p) for p in inner.at(key, e)], True) \
                    if isinstance(x.src, Seg) else x
                if not isinstance(r, Seg):
                    # every element emits exactly once?
                    raise Unsupported('urlencode of a filtered dictionary %r %r' % (x, q.entries))
                out.append(r)
            elif isinstance(x, Seg):
                out.append(it.image(x, lambda e, key: [pair(it, e)], False))
            else:
                out.append(pair(it, x))
        return str_join(it, '&', born(PList(out)))
    return PModule('urllib.parse', {'unquote_plus': nat('unquote_plus', unquote_plus),
                                    'quote_plus': nat('quote_plus', quote_plus),
                                    'urlencode': nat('urlencode', urlencode)},
                   lambda attr: Native('urllib.parse.' + attr, lambda it, a, k: ext(it, 'urllib.parse.' + attr, a, k)))


class Bunch(Model):
    model_name = 'Bunch'

    def __init__(self, d):
        self.d = dict(d)

    def py_getattr(self, it, name):
        if name in self.d:
            return self.d[name]
        throw('AttributeError', name)

    def py_setattr(self, it, name, v):
        guard_old(self, name)
        self.d[name] = v

    def py_contains(self, it, x):
        return x in self.d

    def py_getitem(self, it, i):
        if i not in self.d:
            throw('KeyError', i)
        return self.d[i]


def mod_abl_util(it):
    lf = PClass('LockFileObtainException', [_E['Exception']], {})

    def bunch(it, *a, **kw):
        return born(Bunch(kw))
    return PModule('abl.util', {
        'Bunch': nat('Bunch', bunch),
        'LockFile': Native('LockFile', lambda it, a, k: ext(it, 'abl.util.LockFile', a, k)),
        'LockFileObtainException': lf,
        'NullHandler': nat('NullHandler', lambda it, *a: Opaque('handler'))})


class Any(Model):
    "an object whose methods do nothing of interest (logging and the like)"
    model_name = 'any'

    def py_getattr(self, it, name):
        return self

    def py_call(self, it, a, k):
        return self

    def py_setattr(self, it, name, v):
        pass


class EntryPoints(Model):
    model_name = 'entry points'

    def __init__(self, eps):
        self.eps = eps

    def py_call(self, it, a, k):
        return self

    def m_select(self, it, **k):
        return born(PList([EntryPoint(*e) for e in self.eps]))

    def py_getattr(self, it, name):
        if name == 'get':
            throw('AttributeError', 'get')
        return Model.py_getattr(self, it, name)


class EntryPoint(Model):
    model_name = 'entry point'

    def __init__(self, mod, attr):
        self.mod, self.attr = mod, attr

    def m_load(self, it):
        return it.getattr(it.import_module(self.mod), self.attr)


def mod_errno(it):
    d = {k: getattr(_errno, k) for k in dir(_errno) if k.startswith('E')}
    return PModule('errno', d)


def mod_stat(it):
    d = {k: getattr(_stat, k) for k in dir(_stat) if k.startswith(('S_I', 'ST_')) and isinstance(getattr(_stat, k), int)}
    return PModule('stat', d, lambda attr: Native('stat.' + attr, lambda it, a, k: ext(it, 'stat.' + attr, a, k)))


def mod_sys(it):
    return PModule('sys', {'platform': 'linux', 'version_info': (3, 12, 0, 'final', 0), 'maxsize': 2 ** 63 - 1,
                           'stdout': Any(), 'stderr': Any(), 'modules': Any(), 'path': born(PList())},
                   lambda attr: Native('sys.' + attr, lambda it, a, k: ext(it, 'sys.' + attr, a, k)))


def fnm(it, name, pat):
    if isinstance(name, str) and isinstance(pat, str):
        return _fn.fnmatch(name, pat)
    c = ctx()
    m = c.memo.setdefault('fnmatch', [])
    for (a, b), v in m:
        if S._same_arg(a, name) and S._same_arg(b, pat):
            return v
    v = mkbool(z3.Bool(c.fresh('fnmatch')))
    c.stats.trusted.add('fnmatch.fnmatch')
    m.append(((name, pat), v))
    return v


def make_modules(it):
    def lazy(f):
        return lambda: f(it)
    mods = {
        're': lazy(mod_re), 'os': lazy(mod_os), 'os.path': lazy(mod_ospath), 'posixpath': lazy(mod_ospath),
        'time': lazy(mod_time), 'threading': lazy(mod_threading), 'collections': lazy(mod_collections),
        'decorator': lazy(mod_decorator), 'urllib.parse': lazy(mod_urllib_parse),
        'urllib': lambda: PModule('urllib', {'parse': it.import_module('urllib.parse')}),
        'abl.util': lazy(mod_abl_util), 'errno': lazy(mod_errno), 'stat': lazy(mod_stat), 'sys': lazy(mod_sys),
        'fnmatch': lambda: PModule('fnmatch', {'fnmatch': nat('fnmatch', fnm), 'fnmatchcase': nat('fnmatchcase', fnm),
                                               'filter': nat('filter', lambda it, l, p: b_filter(
                                                   it, nat('m', lambda it, x: fnm(it, x, p)), l))}),
        'hashlib': lambda: extmod('hashlib'),
        'shutil': lambda: extmod('shutil', {'Error': _E['OSError']}),
        'traceback': lambda: PModule('traceback', {'print_exc': nat('print_exc', lambda it, *a, **k: None),
                                                   'format_exc': nat('format_exc', lambda it, *a, **k: '')}),
        'atexit': lambda: PModule('atexit', {'register': nat('register', lambda it, f, *a: event(it, 'atexit', f) if False else f)}),
        'importlib': lambda: PModule('importlib', {}),
        'importlib.metadata': lambda: PModule('importlib.metadata', {'entry_points': EntryPoints(it.entry_points)}),
        'io': lambda: extmod('io'),
        'mimetypes': lambda: extmod('mimetypes'),
        'zipfile': lambda: extmod('zipfile'),
        'datetime': lambda: PModule('datetime', {'datetime': ExtObj('datetime.datetime')}),
        'logging': lambda: PModule('logging', {}, lambda attr: Any()),
        'functools': lambda: PModule('functools', {
            'partial': Native('partial', lambda it, a, k: Native('partial', lambda it2, b, k2: it2.call(a[0], a[1:] + b, dict(k, **k2)))),
            'wraps': nat('wraps', lambda it, f: Native('wraps', lambda it2, b, k: b[0])),
            'reduce': Native('reduce', lambda it2, a, k: it2.call(interpreted(it2, 'reduce', REDUCE), a, k))}),
        'pkgutil': lambda: PModule('pkgutil', {'extend_path': nat('extend_path', lambda it, p, n: p)}),
        'itertools': lambda: mod_itertools(it),
        'operator': lambda: mod_text(it, 'operator', OPERATOR),
        'tempfile': lambda: extmod('tempfile'),
        'contextlib': lambda: PModule('contextlib', {
            'contextmanager': nat('contextlib.contextmanager', I.contextmanager),
            'suppress': nat('contextlib.suppress', lambda it, *classes: Suppress(classes)),
            'ExitStack': nat('contextlib.ExitStack', lambda it: it.call(interpreted(it, 'ExitStack', EXITSTACK), [])),
            'closing': nat('contextlib.closing', lambda it, x: Closing(x))}),
        'warnings': lambda: PModule('warnings', {'warn': nat('warn', lambda it, *a, **k: None)}),
        'posix': lambda: extmod('posix'),
    }
    return mods


# functions of the standard library, as their documentation describes them
OPERATOR = """
def itemgetter(*ks):
    def get(x):
        return x[ks[0]] if len(ks) == 1 else tuple(x[k] for k in ks)
    return get
def attrgetter(name):
    def get(x):
        for part in name.split('.'):
            x = getattr(x, part)
        return x
    return get
def methodcaller(name, *a, **kw):
    return lambda x: getattr(x, name)(*a, **kw)
def eq(a, b): return a == b
def ne(a, b): return a != b
def lt(a, b): return a < b
def le(a, b): return a <= b
def gt(a, b): return a > b
def ge(a, b): return a >= b
def add(a, b): return a + b
def sub(a, b): return a - b
def or_(a, b): return a | b
def and_(a, b): return a & b
def not_(a): return not a
def truth(a): return bool(a)
def is_(a, b): return a is b
def is_not(a, b): return a is not b
def contains(a, b): return b in a
def getitem(a, b): return a[b]
"""

ITERTOOLS = """
def takewhile(f, xs):
    for x in xs:
        if not f(x):
            break
        yield x
def dropwhile(f, xs):
    dropping = True
    for x in xs:
        if dropping and f(x):
            continue
        dropping = False
        yield x
def filterfalse(f, xs):
    for x in xs:
        if not (x if f is None else f(x)):
            yield x
def starmap(f, xs):
    for x in xs:
        yield f(*x)
def repeat(x, n):
    for _ in range(n):
        yield x
"""

REDUCE = """
def reduce(f, xs, *first):
    given = bool(first)
    value = first[0] if first else None
    for x in xs:
        value = f(value, x) if given else x
        given = True
    if not given:
        raise TypeError('reduce() of empty iterable with no initial value')
    return value
"""

EXITSTACK = """
class ExitStack:
    def __init__(self):
        self.todo = []
    def __enter__(self):
        return self
    def enter_context(self, manager):
        value = manager.__enter__()
        self.todo.append(manager.__exit__)
        return value
    def push(self, f):
        self.todo.append(f.__exit__ if hasattr(f, '__exit__') else f)
        return f
    def callback(self, f, *a, **kw):
        def call(cls, error, tb):
            f(*a, **kw)
            return False
        self.todo.append(call)
        return f
    def pop_all(self):
        new = ExitStack()
        new.todo, self.todo = self.todo, []
        return new
    def close(self):
        self.__exit__(None, None, None)
    def __exit__(self, cls, error, tb):
        raised = None
        while self.todo:
            f = self.todo.pop()
            try:
                if f(cls, error, tb):
                    cls, error, tb, raised = None, None, None, None
            except BaseException as e:
                cls, error, raised = type(e), e, e
        if raised is not None:
            raise raised
        return error is None
"""


def mod_text(it, name, source):
    given = {n.name: Native(n.name, lambda it2, a, k, nm=n.name: it2.call(interpreted(it2, nm, source), a, k))
             for n in ast.parse(source).body}
    return PModule(name, given)


def mod_itertools(it):
    m = mod_text(it, 'itertools', ITERTOOLS)
    m.d['chain'] = nat('chain', lambda it, *a: born(PList(sum((raw_items(it, x) for x in a), []))))
    return m


class Suppress(Model):
    model_name = 'contextlib.suppress'

    def __init__(self, classes):
        self.classes = classes

    def m___enter__(self, it):
        return None

    def m___exit__(self, it, cls=None, obj=None, tb=None):
        return cls is not None and isinst(it, obj, tuple(self.classes))


class Closing(Model):
    model_name = 'contextlib.closing'

    def __init__(self, x):
        self.x = x

    def m___enter__(self, it):
        return self.x

    def m___exit__(self, it, cls=None, obj=None, tb=None):
        it.call(it.getattr(self.x, 'close'), [])
        return False


class ExtObj(Model):
    "external class: its functions have contracts by name"

    def __init__(self, name):
        self.name = name
        self.model_name = name

    def py_getattr(self, it, attr):
        return Native(self.name + '.' + attr, lambda it, a, k: ext(it, self.name + '.' + attr, a, k))

    def py_call(self, it, a, k):
        return ext(it, self.name, a, k)
