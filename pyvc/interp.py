"""Symbolic interpreter for the Python of /repo (and of the specifications)."""
import ast
import os
import sys
import threading
import z3

from .core import ctx, Ctx, Unsupported, PathEnd, ObligationFailed
from . import strings as S
from . import heap
from .strings import Rope, BRope, is_str, mk, pieces_of, CharSet
from .values import (SInt, SReal, mkreal, zreal, SBV, SBool, PClass, PObj, PFunc, Native, Bound, Prop, StaticM, ClassM,
                     PModule, PyExc, Model, Opaque, PList, PDict, PSet, mkint, mkbool, zint)
from .seqs import Seq, MapSeq, Seg, Img, known_elements

threading.stack_size(256 * 1024 * 1024)
sys.setrecursionlimit(60000)

NORMAL, RETURN, BREAK, CONTINUE = 0, 1, 2, 3


class Havoc(object):
    "value of a loop-carried variable without invariant"

    def __init__(self, name, resolve=None):
        self.name = name
        self.resolve = resolve      # works out the value when it is read


class Frame(object):
    __slots__ = ('locals', 'parent', 'module', 'func', 'names', 'globals_', 'nonlocals', 'is_class', 'gen', 'ret', 'exc')

    def __init__(self, module, parent=None, func=None, names=None, is_class=False):
        self.locals = {}
        self.parent = parent
        self.module = module
        self.func = func
        self.names = names
        self.globals_ = ()
        self.nonlocals = ()
        self.is_class = is_class
        self.gen = None
        self.ret = None
        self.exc = None


# ---------------------------------------------------------------------------------
# static helpers

_assigned_cache = {}


def assigned_names(node):
    "names bound in a function body or statement list (not in nested scopes)"
    key = id(node)
    hit = _assigned_cache.get(key)
    if hit is not None:
        return hit[0]
    out, glob, nonl = set(), set(), set()

    def target(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                target(e)
        elif isinstance(t, ast.Starred):
            target(t.value)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for ch in ast.walk(n):
                if isinstance(ch, ast.NamedExpr):
                    target(ch.target)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                target(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)):
            target(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    target(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                target(t)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        for ch in ast.iter_child_nodes(n):
            visit(ch)
    body = node if isinstance(node, list) else node.body
    if isinstance(body, list):
        for s in body:
            visit(s)
    res = (out - glob - nonl, glob, nonl)
    _assigned_cache[key] = (res, node)
    return res


_gen_cache = {}


def is_generator(node):
    hit = _gen_cache.get(id(node))
    if hit is not None:
        return hit[0]

    def visit(n):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp, ast.ListComp)):
            return False
        return any(visit(c) for c in ast.iter_child_nodes(n))
    r = (not isinstance(node, ast.Lambda)) and any(visit(s) for s in node.body)
    _gen_cache[id(node)] = (r, node)
    return r


def yields(node):
    "does the statement yield?"
    hit = _gen_cache.get(id(node))
    if hit is None:
        r = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node))
        hit = _gen_cache[id(node)] = (r, node)
    return hit[0]


# ---------------------------------------------------------------------------------
# builtin classes

def _mkcls(name, *bases):
    return PClass(name, bases, {})


OBJECT = _mkcls('object')
TYPE = _mkcls('type', OBJECT)
INT = _mkcls('int', OBJECT)
BOOL = _mkcls('bool', INT)
FLOAT = _mkcls('float', OBJECT)
STR = _mkcls('str', OBJECT)
BYTES = _mkcls('bytes', OBJECT)
BYTEARRAY = _mkcls('bytearray', OBJECT)
LIST = _mkcls('list', OBJECT)
TUPLE = _mkcls('tuple', OBJECT)
DICT = _mkcls('dict', OBJECT)
SET = _mkcls('set', OBJECT)
FROZENSET = _mkcls('frozenset', OBJECT)
NONETYPE = _mkcls('NoneType', OBJECT)
FUNCTION = _mkcls('function', OBJECT)
GENERATOR = _mkcls('generator', OBJECT)

BASEEXC = _mkcls('BaseException', OBJECT)
EXC = _mkcls('Exception', BASEEXC)
_E = {'BaseException': BASEEXC, 'Exception': EXC}


def _exc(name, base):
    _E[name] = _mkcls(name, _E[base])


for _n, _b in [('KeyboardInterrupt', 'BaseException'), ('SystemExit', 'BaseException'),
               ('GeneratorExit', 'BaseException'), ('ArithmeticError', 'Exception'),
               ('ZeroDivisionError', 'ArithmeticError'), ('AssertionError', 'Exception'),
               ('AttributeError', 'Exception'), ('EOFError', 'Exception'), ('ImportError', 'Exception'),
               ('LookupError', 'Exception'), ('IndexError', 'LookupError'), ('KeyError', 'LookupError'),
               ('NameError', 'Exception'), ('UnboundLocalError', 'NameError'), ('OSError', 'Exception'),
               ('FileNotFoundError', 'OSError'), ('FileExistsError', 'OSError'),
               ('IsADirectoryError', 'OSError'), ('NotADirectoryError', 'OSError'),
               ('PermissionError', 'OSError'), ('RuntimeError', 'Exception'),
               ('NotImplementedError', 'RuntimeError'), ('RecursionError', 'RuntimeError'),
               ('StopIteration', 'Exception'), ('TypeError', 'Exception'), ('ValueError', 'Exception'),
               ('UnicodeError', 'ValueError'), ('UnicodeDecodeError', 'UnicodeError'),
               ('Warning', 'Exception'), ('DeprecationWarning', 'Warning')]:
    _exc(_n, _b)
_E['IOError'] = _E['EnvironmentError'] = _E['OSError']

import errno as _errno
OSERR = {_errno.ENOENT: 'FileNotFoundError', _errno.EEXIST: 'FileExistsError',
         _errno.EISDIR: 'IsADirectoryError', _errno.ENOTDIR: 'NotADirectoryError',
         _errno.EACCES: 'PermissionError', _errno.EPERM: 'PermissionError'}


def make_exc(cls, *args):
    if isinstance(cls, str):
        cls = _E[cls]
    if cls is _E['OSError'] and len(args) >= 2 and isinstance(args[0], int) and args[0] in OSERR:
        cls = _E[OSERR[args[0]]]
    o = PObj(cls)
    o.d['args'] = tuple(args)
    if cls.issub(_E['OSError']):
        o.d['errno'] = args[0] if len(args) >= 2 else None
        o.d['strerror'] = args[1] if len(args) >= 2 else None
        o.d['filename'] = args[2] if len(args) >= 3 else None
    return o


def throw(cls, *args):
    raise PyExc(make_exc(cls, *args))


# ---------------------------------------------------------------------------------
# generic operations

def truth(v):
    "decide the truth of a value, forking"
    if v is None or isinstance(v, (bool, int, float, str, bytes, tuple)):
        return bool(v)
    c = ctx()
    if isinstance(v, SBool):
        return c.branch_z3(v.t)
    if isinstance(v, (SInt, SReal)):
        return c.branch_z3(v.t != 0)
    if isinstance(v, SBV):
        return c.branch_z3(v.t != 0)
    if isinstance(v, Rope):
        return S.at_least(v.pieces, 1)
    if isinstance(v, BRope):
        return truth(v.rope)
    if isinstance(v, PList):
        return truth_items(v)
    if isinstance(v, PSet):
        return truth_items(v)
    if isinstance(v, PDict):
        if v.tag is not None:
            raise Unsupported('reading a dictionary that a loop fills')
        return truth_items(v, v.entries)
    if isinstance(v, PObj):
        it = Interp.cur
        f = it.class_attr(v, '__bool__')
        if f is not None:
            return truth(it.call(f, [], {}))
        f = it.class_attr(v, '__len__')
        if f is not None:
            return truth(it.call(f, [], {}))
        return True
    if isinstance(v, Model):
        return truth(v.py_truth(Interp.cur))
    if isinstance(v, Havoc):
        raise Unsupported('loop-carried variable %s has no invariant' % v.name)
    return True


def truth_items(v, items=None):
    if v.tag is not None:
        raise Unsupported('reading a collection that a loop fills')
    c = ctx()
    items = v.items if items is None else items
    if any(not isinstance(x, (Seg, Img)) for x in items):
        return True
    for x in items:
        if isinstance(x, Seg):
            if c.branch_z3(x.hi - x.lo > 0, 'nonempty'):
                return True
        elif isinstance(x, Img):
            if c.choose(2, 'image empty?') == 0:
                x.generic()
                return True
            add_fact(x, 'empty')
        else:
            return True
    return False


FACTS = None


def add_fact(img, what):
    """every element of img.src emits nothing"""
    c = ctx()
    def closure(elem, key):
        no_values(img.vals(key, elem))
    for_all(img.src, closure)
    apply_facts_to_known(img.src, closure)
    src = img.src
    if isinstance(src, Seg) and c.branch_z3(src.hi - src.lo > 0, 'nonempty'):
        closure(src.seq.get(src.lo), src.lo)


def no_values(vals):
    "assume that there are no values here"
    for v in vals:
        if isinstance(v, Seg):
            if ctx().branch_z3(v.hi > v.lo, 'no elements'):
                raise PathEnd('emits nothing')
        elif isinstance(v, Img):
            emits_nothing(v)
        else:
            raise PathEnd('emits nothing')


def apply_facts_to_known(src, closure):
    if isinstance(src, Img):
        return
    for e, k in known_elements(src):
        closure(e, k)


def src_root(src):
    if isinstance(src, Seg):
        return src.seq.root()
    return src_root(src.src)


def instantiate_facts(root, idx):
    "apply all universally quantified facts about a sequence to one of its indices"
    c = ctx()
    done = c.memo.setdefault('facts_done', set())
    for n, (src, closure) in enumerate(list(c.memo.get('facts', ()))):
        if isinstance(src, Seg) and src.seq.root() is root:
            k = (n, str(idx))
            if k in done:
                continue
            if c.valid(z3.And(idx >= src.lo, idx < src.hi)):
                done.add(k)
                closure(src.seq.get(idx), idx)


def py_eq(a, b):
    "a == b as a concrete bool or SBool; strings and containers fork"
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta in (str, Rope) or tb in (str, Rope):
        if is_str(a) and is_str(b):
            if ta is str and tb is str:
                return a == b
            return S.equal(pieces_of(a), pieces_of(b))
        if isinstance(a, (PObj, Model)) or isinstance(b, (PObj, Model)):
            pass
        else:
            return False
    if isinstance(a, Havoc) or isinstance(b, Havoc):
        raise Unsupported('loop-carried variable without invariant')
    if isinstance(a, BRope) or isinstance(b, BRope):
        if isinstance(a, BRope) and isinstance(b, BRope):
            return py_eq(a.rope, b.rope)
        if isinstance(a, bytes):
            return a == b'' and not truth(b.rope) if a == b'' else _bytes_lit(a, b)
        if isinstance(b, bytes):
            return py_eq(b, a)
        return False
    if isinstance(a, SReal) or isinstance(b, SReal):
        num = (bool, int, float, SInt, SReal)
        if isinstance(a, num) and isinstance(b, num):
            if any(isinstance(x, float) and (x != x or abs(x) == float('inf')) for x in (a, b)):
                return False
            return mkbool(zreal(a) == zreal(b))
        if not (a is None or b is None or isinstance(a, (Model, PObj, Opaque)) or isinstance(b, (Model, PObj, Opaque))):
            return False
    if isinstance(a, (bool, int, SInt, SBool, SBV)) and isinstance(b, (bool, int, SInt, SBool, SBV)):
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
            return a == b
        if isinstance(a, SBool) or isinstance(b, SBool):
            x, y = (zbool(v) for v in (a, b))
            return mkbool(x == y)
        if isinstance(a, SBV) or isinstance(b, SBV):
            return mkbool(zbv(a) == zbv(b))
        return mkbool(zint(a) == zint(b))
    if a is None or b is None:
        if isinstance(a, Model):
            return a.py_eq(b) if hasattr(a, 'py_eq') else False
        if isinstance(b, Model):
            return b.py_eq(a) if hasattr(b, 'py_eq') else False
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not truth(py_eq(x, y)):
                return False
        return True
    if isinstance(a, PList) and isinstance(b, PList):
        return list_eq(a, b)
    if isinstance(a, PDict) and isinstance(b, PDict):
        return dict_eq(a, b)
    if isinstance(a, PSet) and isinstance(b, PSet):
        return set_eq(a, b)
    it = Interp.cur
    if isinstance(a, PObj):
        f = it.class_attr(a, '__eq__')
        if f is not None:
            return it.call(f, [b], {})
    if isinstance(b, PObj):
        f = it.class_attr(b, '__eq__')
        if f is not None:
            return it.call(f, [a], {})
    if isinstance(a, Model) and hasattr(a, 'py_eq'):
        return a.py_eq(b)
    if isinstance(b, Model) and hasattr(b, 'py_eq'):
        return b.py_eq(a)
    if isinstance(a, Bound) and isinstance(b, Bound):
        return a.func is b.func and a.self is b.self
    if isinstance(a, (float, int)) and isinstance(b, (float, int)):
        return a == b
    if isinstance(a, bytes) and isinstance(b, bytes):
        return a == b
    return False


def _bytes_lit(a, b):
    raise Unsupported('comparison of unknown bytes with a literal')


def zbool(v):
    if isinstance(v, SBool):
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    raise Unsupported('not a boolean')


def zbv(v):
    if isinstance(v, SBV):
        return v.t
    if isinstance(v, int):
        return z3.BitVecVal(v, SBV.WIDTH)
    raise Unsupported('not a bit vector: %r' % (v,))


def check_readable(v):
    if v.tag is not None:
        raise Unsupported('reading a collection that a loop fills')


def list_eq(a, b):
    check_readable(a)
    check_readable(b)
    c = ctx()
    x, y = list(a.items), list(b.items)
    guard = 0
    while True:
        guard += 1
        if guard > 100:
            raise Unsupported('list comparison')
        if not x and not y:
            return True
        if x and isinstance(x[0], Seg) and c.valid(x[0].lo >= x[0].hi):
            x.pop(0)
            continue
        if y and isinstance(y[0], Seg) and c.valid(y[0].lo >= y[0].hi):
            y.pop(0)
            continue
        if x and y and isinstance(x[0], Seg) and isinstance(y[0], Seg):
            p, q = x[0], y[0]
            from .models import Gathered
            if (isinstance(p.seq, Gathered) and isinstance(q.seq, Gathered) and p.seq is not q.seq
                    and p.seq.sorted and q.seq.sorted and p.seq.once == q.seq.once
                    and all(z.lo.eq(z3.IntVal(0)) and z.hi.eq(z.seq.length) for z in (p, q))):
                # the same values in order
                if not list_eq(PList(p.seq.given), PList(q.seq.given)):
                    raise Unsupported('comparison of collections whose order is not known')
                x.pop(0)
                y.pop(0)
                continue
            if p.seq is q.seq and c.valid(p.lo == q.lo):
                if c.valid(p.hi == q.hi):
                    x.pop(0)
                    y.pop(0)
                    continue
                if c.valid(p.hi <= q.hi):
                    x.pop(0)
                    y[0] = Seg(q.seq, p.hi, q.hi)
                    continue
                if c.valid(q.hi <= p.hi):
                    y.pop(0)
                    x[0] = Seg(p.seq, q.hi, p.hi)
                    continue
            if p.seq.root() is q.seq.root() and c.valid(z3.And(p.lo == q.lo, p.hi == q.hi)):
                # pointwise
                if c.choose(2, 'pointwise') == 0:
                    if not c.branch_z3(p.hi > p.lo):
                        raise PathEnd('empty')
                    i = p.seq.fresh_index(p.lo, p.hi)
                    pointwise(p, 0)
                    u, v = p.seq.get(i), q.seq.get(i)
                    pointwise(p, 1)
                    if not truth(py_eq(u, v)):
                        return False
                    raise PathEnd('pointwise equal')
                x.pop(0)
                y.pop(0)
                continue
        if x and y and x[0] is y[0]:
            x.pop(0)
            y.pop(0)
            continue
        if x and isinstance(x[0], Img) and empty_source(x[0]):
            x.pop(0)
            continue
        if y and isinstance(y[0], Img) and empty_source(y[0]):
            y.pop(0)
            continue
        if x and y and (isinstance(x[0], Img) and isinstance(y[0], (Img, Seg))
                        or isinstance(y[0], Img) and isinstance(x[0], (Img, Seg))):
            if not img_eq(x[0], y[0]):
                return False
            x.pop(0)
            y.pop(0)
            continue
        if x and isinstance(x[0], Img) or y and isinstance(y[0], Img):
            x, y = (x, y) if isinstance(x[0] if x else None, Img) else (y, x)
            # an image against single items (or nothing): does it emit anything?
            if not c.choose(2, 'some emission'):
                v, key = x[0].generic()
                instantiate_for(x[0], key)
                if not y:
                    return False
                raise Unsupported('comparison of a filtered list with single elements')
            emits_nothing(x.pop(0))
            continue
        if x and isinstance(x[0], Seg):
            if c.branch_z3(x[0].hi > x[0].lo):
                s = x[0]
                x[0:1] = [s.seq.get(s.lo), Seg(s.seq, s.lo + 1, s.hi)]
            else:
                x.pop(0)
            continue
        if y and isinstance(y[0], Seg):
            x, y = y, x
            continue
        if not x or not y:
            return False
        if not truth(py_eq(x.pop(0), y.pop(0))):
            return False


def dict_eq(a, b):
    check_readable(a)
    check_readable(b)
    if hasattr(a, 'sym') or hasattr(b, 'sym'):
        raise Unsupported('dict equality')
    if any(isinstance(e, Img) for e in a.entries + b.entries):
        # equal if built from equal insertions in the same order
        c = ctx()
        x, y = ([e for e in d.entries if not (isinstance(e, Img) and isinstance(e.src, Seg)
                                              and c.valid(e.src.lo >= e.src.hi))] for d in (a, b))
        if len(x) != len(y):
            raise Unsupported('comparison of symbolic dictionaries')
        for p, q in zip(x, y):
            if p is q:
                continue
            if isinstance(p, Img) and isinstance(q, Img):
                if not img_eq(p, q):
                    return False
            elif isinstance(p, Img) or isinstance(q, Img):
                raise Unsupported('comparison of symbolic dictionaries')
            else:
                if not truth(py_eq(p[0], q[0])):
                    raise Unsupported('comparison of symbolic dictionaries')
                if not truth(py_eq(p[1], q[1])):
                    return False
        return True
    if len(a.entries) != len(b.entries):
        return False
    for k, v in a.entries:
        e = dict_find(b, k)
        if e is None or not truth(py_eq(v, e[1])):
            return False
    return True


def set_eq(a, b):
    if any(isinstance(e, (Seg, Img)) for e in a.items + b.items):
        raise Unsupported('comparison of symbolic sets')
    return (all(truth(contains(b, x)) for x in a.items) and all(truth(contains(a, x)) for x in b.items))


def dict_find(d, key):
    check_readable(d)
    for e in d.entries:
        if not isinstance(e, Img) and e[0] is key and not any(isinstance(x, Img) for x in d.entries):
            return e
    for e in reversed(d.entries):
        if isinstance(e, Img):
            r = img_find(e, key)
            if r is not None:
                return r
        elif e[0] is key or truth(py_eq(e[0], key)):
            return e
    return None


def base_of(x):
    "the sequence segment a (nested) image is made from"
    while isinstance(x, Img):
        x = x.src
    return x


def emissions_at(x, i):
    "[(value, key)] that a segment or (nested) image has for index i"
    if isinstance(x, Seg):
        return [(x.seq.get(i), i)]
    out = []
    for e, key in emissions_at(x.src, i):
        if isinstance(e, (Seg, Img)):
            raise Unsupported('image of an image of collections')
        for n, v in enumerate(x.vals(key, e)):
            out.append((v, ('img', key, n)))
    return out


def restrict(x, key):
    "the part of a source before the element of that key; None if not known"
    if isinstance(x, Seg):
        return Seg(x.seq, x.lo, key) if z3.is_expr(key) else None
    if not (isinstance(key, tuple) and key[0] == 'img' and key[2] == 0 and len(key) == 3):
        return None
    r = restrict(x.src, key[1])
    return None if r is None else Img(r, x.emit)


def empty_source(x):
    b = base_of(x)
    return ctx().valid(b.lo >= b.hi)


def emits_nothing(img):
    "from here on: no element of the source emits anything"
    b = base_of(img)

    def closure(elem, key):
        no_values([v for v, _ in emissions_at(img, key)])
    for_all(b, closure)
    apply_facts_to_known(b, closure)


def pointwise(seg, stage):
    "counts the element by element comparisons begun and those that came to compare something"
    from .seqs import plain_name
    ctx().stats.pointwise.setdefault(plain_name(seg.seq), [0, 0])[stage] += 1


def img_eq(p, q):
    "the same emissions for every element of the same source"
    c = ctx()
    a, b = base_of(p), base_of(q)
    if not (a.seq.root() is b.seq.root() and c.valid(z3.And(a.lo == b.lo, a.hi == b.hi))):
        raise Unsupported('comparison of filtered collections')
    if c.choose(2, 'pointwise') == 1:
        return True
    if not c.branch_z3(a.hi > a.lo):
        raise PathEnd('empty')
    i = a.seq.fresh_index(a.lo, a.hi)
    pointwise(a, 0)
    x = emissions_at(p, i)
    instantiate_facts(a.seq.root(), i)
    y = emissions_at(q, i)
    pointwise(a, 1)
    if not list_eq(PList([v for v, _ in x]), PList([v for v, _ in y])):
        return False
    raise PathEnd('pointwise equal')


def events_eq(a, b):
    "list_eq up to the order of the parts that come from different collections"
    def grouped(l):
        check_readable(l)
        groups = []
        for v in l.items:
            root = base_of(v).seq.root() if isinstance(v, (Seg, Img)) else None
            for g in groups:
                if g[0] is root:
                    g[1].append(v)
                    break
            else:
                groups.append((root, [v]))
        return groups
    c = ctx()
    x, y = grouped(a), grouped(b)
    roots = [r for r, _ in x] + [r for r, _ in y if not any(r is q for q, _ in x)]
    for r in roots:
        u, v = ([w for q, g in side if q is r for w in g] for side in (x, y))
        if r is None or len(u) == 0 or len(v) == 0:
            if not list_eq(PList(u), PList(v)):
                return False
            continue
        p, q = base_of(u[0]), base_of(v[0])
        if any(not (c.valid(base_of(w).lo == p.lo) and c.valid(base_of(w).hi == p.hi)) for w in u + v):
            if not list_eq(PList(u), PList(v)):
                return False
            continue
        # all parts made from the same collection, element by element
        if c.choose(2, 'pointwise') == 1:
            continue
        if not c.branch_z3(p.hi > p.lo):
            raise PathEnd('empty')
        i = p.seq.fresh_index(p.lo, p.hi)
        pointwise(p, 0)
        instantiate_facts(p.seq.root(), i)
        us = [e for w in u for e, _ in emissions_at(w, i)]
        vs = [e for w in v for e, _ in emissions_at(w, i)]
        pointwise(p, 1)
        if not events_eq(PList(us), PList(vs)):
            return False
        raise PathEnd('pointwise equal')
    return True


def pairwise_distinct(e, what):
    "side obligation: the emissions of a symbolic collection have distinct keys"
    c = ctx()
    if c.choose(2, 'distinct keys') == 1:
        return
    i = e.src.seq.fresh_index(e.src.lo, e.src.hi)
    j = e.src.seq.fresh_index(e.src.lo, e.src.hi)
    c.assume_z3(i < j)
    if c.check() == z3.unsat:
        raise PathEnd('no two')
    for u in e.at(i, e.src.seq.get(i)):
        for v in e.at(j, e.src.seq.get(j)):
            if truth(py_eq(what(u), what(v))):
                raise Unsupported('keys that may coincide')
    raise PathEnd('distinct')


def img_find(e, key):
    "an entry of a symbolic part of a dictionary: a witness, or a universal fact"
    c = ctx()
    for v, _ in e.known():
        if truth(py_eq(v[0], key)):
            return [v[0], v[1]]
    if c.choose(2, 'key in %r' % (e,)) == 1:
        v, k = e.generic()
        instantiate_for(e, k)
        if not truth(py_eq(v[0], key)):
            raise PathEnd('not the witness')
        return [v[0], v[1]]
    if isinstance(e.src, Seg):
        def closure(elem, k):
            for v in e.at(k, elem):
                if truth(py_eq(v[0], key)):
                    raise PathEnd('not a key')
        for_all(e.src, closure)
    return None


def touch(obj):
    "guard: an object older than an enclosing generic iteration is modified"
    c = ctx()
    st = getattr(c, 'loop_stamp', None)
    if st is not None and id(obj) in st:
        raise Unsupported('a loop without invariant modifies %r' % (obj,))


def dict_set(d, key, value):
    if d.tag is not None:
        d.tag.append((key, value))
        return
    guard_old(d)
    e = dict_find(d, key) if not any(isinstance(x, Img) for x in d.entries) else None
    if e is None:
        d.entries.append([key, value])
    else:
        e[1] = value


def guarded(obj):
    young = ctx().memo.get('young')
    return young is not None and id(obj) not in young


def for_all(src, f):
    "a universally quantified fact about a source, in the present state"
    time = heap.mark()
    ctx().memo.setdefault('facts', []).append((src, lambda e, k: heap.at(time, f, e, k)))


def guard_old(obj, name=None):
    c = ctx()
    heap.note(obj, name)
    young = c.memo.get('young')
    if young is not None and id(obj) not in young:
        raise Unsupported('a loop without invariant modifies %r%s' % (obj, ' (%s)' % name if name else ''))


def born(obj):
    c = ctx()
    young = c.memo.get('young')
    if young is not None:
        young[id(obj)] = obj
    return obj


def dict_del(d, key):
    guard_old(d)
    e = dict_find(d, key)
    if e is None:
        throw('KeyError', key)
    d.entries = [x for x in d.entries if x is not e]


def contains(coll, x):
    c = ctx()
    if isinstance(coll, (str, Rope)):
        if not is_str(x):
            throw('TypeError', 'in <string> requires string')
        if isinstance(coll, str) and isinstance(x, str):
            return x in coll
        if not isinstance(x, str):
            raise Unsupported('symbolic substring test')
        return S.find_sub(pieces_of(coll), x) is not None
    if isinstance(coll, tuple):
        return any(truth(py_eq(e, x)) for e in coll)
    if isinstance(coll, (PList, PSet)):
        check_readable(coll)
        for e in coll.items:
            if isinstance(e, Seg):
                for v, _ in known_elements(e):
                    if truth(py_eq(v, x)):
                        return True
                if in_more(e, x):
                    return True
            elif isinstance(e, Img):
                for v, _ in e.known():
                    if truth(py_eq(v, x)):
                        return True
                if in_more(e, x):
                    return True
            elif truth(py_eq(e, x)):
                return True
        return False
    if isinstance(coll, PDict):
        return dict_find(coll, x) is not None
    if isinstance(coll, Model) and hasattr(coll, 'py_contains'):
        return coll.py_contains(Interp.cur, x)
    if isinstance(coll, PObj):
        f = Interp.cur.class_attr(coll, '__contains__')
        if f is not None:
            return truth(Interp.cur.call(f, [x], {}))
    raise Unsupported('in %r' % (coll,))


def in_more(src, x):
    "membership through an element that is not known yet"
    c = ctx()
    if isinstance(src, Seg) and c.valid(src.lo >= src.hi):
        return False
    if c.choose(2, 'member of %r' % src) == 1:
        v, key = src.generic()
        instantiate_for(src, key)
        if not truth(py_eq(v, x)):
            raise PathEnd('not the witness')
        return True
    # not a member: universally quantified fact
    if isinstance(src, Seg):
        def closure(elem, key):
            if truth(py_eq(elem, x)):
                raise PathEnd('not a member')
        for_all(src, closure)
    elif isinstance(src.src, Seg):
        def closure(elem, key):
            for v in src.at(key, elem):
                if truth(py_eq(v, x)):
                    raise PathEnd('not a member')
        for_all(src.src, closure)
    return False


def instantiate_for(src, key):
    while isinstance(src, Img):
        src = src.src
        key = key[1] if isinstance(key, tuple) and key[0] == 'img' else key
    if z3.is_expr(key):
        instantiate_facts(src.seq.root(), key)


# ---------------------------------------------------------------------------------

class PGen(Model):
    "generator of the interpreted program, run in its own thread with handoff"
    model_name = 'generator'

    def __init__(self, it, func, frame):
        self.it = it
        self.func = func
        self.frame = frame
        self.thread = None
        self.done = False
        self.started = False
        self.sinks = []
        frame.gen = self
        it.gens.append(self)

    def _run(self):
        self.go.acquire()
        try:
            if self.kill:
                return
            self.it.exec_block(self.func.node.body, self.frame)
            self.msg = ('stop', None)
        except PyExc as e:
            self.msg = ('exc', e)
        except _Kill:
            self.msg = ('stop', None)
        except BaseException as e:
            self.msg = ('raise', e)
        finally:
            self.done = True
            self.back.release()

    def resume(self, kind='next', val=None):
        if self.done:
            return ('stop', None)
        if not self.started:
            self.started = True
            self.kill = False
            self.go = threading.Semaphore(0)
            self.back = threading.Semaphore(0)
            self.thread = threading.Thread(target=self._run, daemon=True)
            self.thread.start()
        self.inject = (kind, val)
        self.msg = None
        self.go.release()
        self.back.acquire()
        if self.msg[0] == 'raise':
            raise self.msg[1]
        if self.msg[0] == 'exc':
            raise self.msg[1]
        return self.msg

    def give(self, item):
        "hand over a value (or part of unknown length), or keep it for the loop under way"
        if self.sinks:
            add_item(self.sinks[-1], item)
        elif item is None:
            raise Unsupported('unknown values yielded')
        else:
            self.do_yield(YieldMany(item) if isinstance(item, (Seg, Img)) else item)

    def do_yield(self, value):
        self.msg = ('yield', value)
        self.back.release()
        self.go.acquire()
        if self.kill:
            raise _Kill()
        if self.inject[0] == 'throw':
            raise self.inject[1]
        return None

    def dispose(self):
        if self.started and not self.done:
            self.kill = True
            self.go.release()
            self.thread.join(10)
        self.done = True

    def py_isinstance(self, it, cls):
        return cls in (GENERATOR, OBJECT)

    def m_close(self, it):
        self.dispose()


class ContextManager(Model):
    "what a function decorated with contextlib.contextmanager returns"
    model_name = 'context manager'

    def __init__(self, gen):
        self.gen = gen

    def m___enter__(self, it):
        m = self.gen.resume()
        if m[0] != 'yield' or isinstance(m[1], YieldMany):
            raise Unsupported('a context manager that yields nothing')
        return m[1]

    def m___exit__(self, it, cls=None, obj=None, tb=None):
        if cls is None:
            if self.gen.resume()[0] != 'stop':
                raise Unsupported('a context manager that yields twice')
            return False
        try:
            m = self.gen.resume('throw', PyExc(obj))
        except PyExc as e:
            if e.obj is obj:
                return False
            raise
        if m[0] != 'stop':
            raise Unsupported('a context manager that yields twice')
        return True


def contextmanager(it, f):
    def make(it, a, k):
        g = it.call(f, a, k)
        if not isinstance(g, PGen):
            raise Unsupported('contextlib.contextmanager of something else')
        return ContextManager(g)
    n = Native('contextmanager', make)
    n.bind = True
    return n


class _Kill(BaseException):
    pass


class Super(object):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Interp(object):
    cur = None

    def __init__(self, loader):
        self.loader = loader            # name -> (source path, AST) or model module
        self.modules = {}
        self.contracts = {}
        self.loopspecs = {}
        self.depth = 0
        self.gens = []
        self.trace = PList()            # ghost trace of external effects
        self.channels = {}              # further traces, by name
        self.builtins = None
        Interp.cur = self
        from . import models
        self.builtins = models.make_builtins(self)
        self.natives = models.make_modules(self)

    # -- modules ---------------------------------------------------------------
    def import_module(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        src = self.loader(name)
        if src is not None:
            path, tree, pkg = src
            m = PModule(name, {'__name__': name, '__file__': path})
            m.package = pkg
            m.path = path
            self.modules[name] = m
            fr = Frame(m)
            fr.locals = m.d
            self.exec_block(tree.body, fr)
            return m
        n = self.natives.get(name)
        if n is None:
            raise Unsupported('import of %s' % name)
        m = n() if callable(n) else n
        self.modules[name] = m
        return m

    def resolve_relative(self, module, name, level):
        if not level:
            return name
        pkg = module.package.split('.')
        if level > 1:
            pkg = pkg[:-(level - 1)]
        return '.'.join(pkg + ([name] if name else []))

    # -- attribute access --------------------------------------------------------
    def class_attr(self, obj, name):
        "attribute from the class only, bound; None if there is none"
        if isinstance(obj, PObj):
            try:
                v = obj.cls.lookup(name)
            except KeyError:
                return None
            return self.bind(v, obj, obj.cls)
        return None

    def bind(self, v, obj, cls):
        if isinstance(v, PFunc) or (isinstance(v, Native) and v.bind):
            return Bound(v, obj)
        if isinstance(v, Prop):
            return self.get_property(v, obj)
        if isinstance(v, StaticM):
            return v.f
        if isinstance(v, ClassM):
            return Bound(v.f, cls)
        return v

    def get_property(self, p, o):
        "call a getter; what it keeps in its object is a cache if it is what it returns"
        stack = ctx().memo.setdefault('getters', [])
        kept = []
        stack.append((o, kept))
        try:
            r = self.call(p.fget, [o], {})
        finally:
            stack.pop()
        for name, v in kept:
            if v is not r:
                raise Unsupported('a loop without invariant modifies %r (%s)' % (o, name))
            ctx().stats.trusted.add('properties that keep their value in their object: %s.%s' % (o.cls.name, name))
        return r

    def getattr(self, o, name):
        if isinstance(o, PObj):
            cls = o.cls
            try:
                v = cls.lookup(name)
                if isinstance(v, Prop):
                    try:
                        return self.get_property(v, o)
                    except PyExc as e:
                        if e.obj.cls.issub(_E['AttributeError']) and cls.has('__getattr__'):
                            return self.call(cls.lookup('__getattr__'), [o, name], {})
                        raise
                found = True
            except KeyError:
                found = False
            if name in o.d:
                return o.d[name]
            if found:
                return self.bind(v, o, cls)
            if name == '__class__':
                return cls
            if name == '__dict__':
                raise Unsupported('__dict__')
            if cls.issub(BASEEXC):
                if name == 'with_traceback':
                    return Native('with_traceback', lambda it, a, k: o)
                if name in ('__traceback__', '__cause__', '__context__'):
                    return None
            if cls.has('__getattr__'):
                return self.call(cls.lookup('__getattr__'), [o, name], {})
            throw('AttributeError', "'%s' object has no attribute '%s'" % (cls.name, name))
        if isinstance(o, Model):
            return o.py_getattr(self, name)
        if isinstance(o, PModule):
            if name in o.d:
                return o.d[name]
            if o.getter is not None:
                v = o.getter(name)
                if v is not None:
                    o.d[name] = v
                    return v
            full = o.name + '.' + name
            if full in self.natives or self.loader(full) is not None:
                v = self.import_module(full)
                o.d[name] = v
                return v
            if hasattr(o, 'path'):
                throw('AttributeError', 'module %s has no attribute %s' % (o.name, name))
            raise Unsupported('%s.%s' % (o.name, name))
        if isinstance(o, PClass):
            try:
                v = o.lookup(name)
            except KeyError:
                if name == '__name__':
                    return o.name
                if name == '__mro__':
                    return tuple(o.mro)
                if name == '__class__':
                    return TYPE
                m = self.type_method(o, name)
                if m is not None:
                    return m
                throw('AttributeError', 'type object %s has no attribute %s' % (o.name, name))
            if isinstance(v, StaticM):
                return v.f
            if isinstance(v, ClassM):
                return Bound(v.f, o)
            return v
        if isinstance(o, Super):
            mro = o.obj.cls.mro if isinstance(o.obj, PObj) else o.obj.mro
            for c in mro[mro.index(o.cls) + 1:]:
                if name in c.d:
                    return self.bind(c.d[name], o.obj, o.cls)
            if name == '__init__':
                return Native('object.__init__', lambda it, a, k: None)
            if name in ('__setattr__', '__enter__'):
                raise Unsupported('super().%s' % name)
            throw('AttributeError', 'super has no attribute %s' % name)
        if isinstance(o, PFunc):
            if name in o.d:
                return o.d[name]
            if name == '__name__':
                return o.name
            if name == '__doc__':
                return None
            throw('AttributeError', name)
        if isinstance(o, (Bound, Native)):
            if name == '__name__':
                return o.func.name if isinstance(o, Bound) else o.name
            if isinstance(o, Bound) and name == '__self__':
                return o.self
            throw('AttributeError', name)
        if isinstance(o, Prop):
            if name == 'setter':
                return Native('setter', lambda it, a, k: Prop(o.fget, a[0]))
            if name == 'getter':
                return Native('getter', lambda it, a, k: Prop(a[0], o.fset))
        if isinstance(o, Havoc):
            raise Unsupported('loop-carried variable %s has no invariant' % o.name)
        from . import models
        m = models.value_method(self, o, name)
        if m is None:
            throw('AttributeError', '%s has no attribute %s' % (models.type_name(o), name))
        return m

    def type_method(self, cls, name):
        "str.join and the like: unbound methods of builtin types"
        if cls in (STR, LIST, DICT, SET, BYTES, TUPLE, INT, OBJECT):
            if cls is DICT and name == 'fromkeys':
                return Native('dict.fromkeys', lambda it, a, k: PDict([[x, a[1] if len(a) > 1 else None]
                                                                    for x in it.items_list(a[0])]))
            if cls is OBJECT:
                if name == '__init__':
                    return Native('object.__init__', lambda it, a, k: None)
                return None
            return Native(cls.name + '.' + name,
                          lambda it, a, k: it.call(it.getattr(a[0], name), a[1:], k))
        return None

    def setattr(self, o, name, v):
        if isinstance(o, PObj):
            try:
                p = o.cls.lookup(name)
            except KeyError:
                p = None
            if isinstance(p, Prop):
                if p.fset is None:
                    throw('AttributeError', "can't set attribute %s" % name)
                self.call(p.fset, [o, v], {})
                return
            if o.cls.has('__setattr__'):
                f = o.cls.lookup('__setattr__')
                if isinstance(f, PFunc):
                    self.call(f, [o, name, v], {})
                    return
            if o.d.get(name, self) is not v:
                getters = ctx().memo.get('getters')
                if getters and getters[-1][0] is o and isinstance(v, str) and v and not o.d.get(name):
                    if guarded(o):
                        getters[-1][1].append((name, v))
                else:
                    guard_old(o, name)
            o.d[name] = v
            return
        if isinstance(o, Model):
            o.py_setattr(self, name, v)
            return
        if isinstance(o, PClass):
            guard_old(o, name)
            o.d[name] = v
            return
        if isinstance(o, (PFunc, PModule)):
            heap.note(o, name)
            o.d[name] = v
            return
        throw('AttributeError', 'cannot set %s' % name)

    # -- calls ---------------------------------------------------------------------
    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, Bound):
            return self.call(f.func, [f.self] + list(args), kw)
        if isinstance(f, PFunc):
            return self.call_func(f, args, kw)
        if isinstance(f, Native):
            if kw and '**sym' in kw and f.name not in ('dict', 'update') and not getattr(f, 'wrapped', None):
                raise Unsupported('keyword argument with symbolic name')
            if any(isinstance(x, (Seg, Img)) for x in args) and not getattr(f, 'wrapped', None):
                raise Unsupported('unknown number of arguments')
            return f.fn(self, list(args), kw)
        if isinstance(f, PClass):
            return self.instantiate(f, args, kw)
        if isinstance(f, Model):
            return f.py_call(self, list(args), kw)
        if isinstance(f, PObj):
            m = self.class_attr(f, '__call__')
            if m is not None:
                return self.call(m, args, kw)
        if isinstance(f, Havoc):
            raise Unsupported('loop-carried variable %s has no invariant' % f.name)
        throw('TypeError', '%r is not callable' % (f,))

    def instantiate(self, cls, args, kw):
        from . import models
        ctor = models.CTORS.get(id(cls))
        if any(isinstance(x, (Seg, Img)) for x in args) and (ctor is not None or cls.issub(BASEEXC)):
            raise Unsupported('unknown number of arguments')
        if ctor is not None:
            if kw and '**sym' in kw and cls.name != 'dict':
                raise Unsupported('keyword argument with symbolic name')
            return ctor(self, list(args), kw)
        if cls.issub(BASEEXC):
            o = make_exc(cls, *args)
            init = cls.lookup('__init__') if cls.has('__init__') else None
            if init is not None:
                self.call(init, [o] + list(args), kw)
            elif kw:
                throw('TypeError', 'exception takes no keyword arguments')
            return born(o)
        hook = self.contracts.get('new:' + cls.name)
        if hook is not None:
            return hook(self, cls, list(args), kw)
        for base in cls.mro:
            if id(base) in models.CTORS and base is not OBJECT:
                raise Unsupported('subclass %s of builtin %s' % (cls.name, base.name))
        if cls.has('__new__'):
            raise Unsupported('__new__')
        o = born(PObj(cls))
        if cls.has('__init__'):
            self.call(cls.lookup('__init__'), [o] + list(args), kw)
        elif args or kw:
            throw('TypeError', '%s() takes no arguments' % cls.name)
        return o

    def bind_args(self, f, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        args = list(args)
        kw = dict(kw)
        if any(isinstance(x, (Seg, Img)) for x in args[:len(pos)]):
            raise Unsupported('unknown number of arguments')
        sym = kw.pop('**sym', None)
        if sym:
            # keywords that are not known texts: which of the parameters do they name?
            sd = PDict(list(sym))
            for name in pos + [x.arg for x in a.kwonlyargs] + list(kw):
                e = dict_find(sd, name)
                if e is None:
                    continue
                if name in kw or name in pos[:len(args)]:
                    throw('TypeError', '%s() got multiple values for argument %s' % (f.name, name))
                if e not in sd.entries:
                    raise Unsupported('parameter %s given by an unknown keyword' % name)
                sd.entries = [x for x in sd.entries if x is not e]
                kw[name] = e[1]
            sym = sd.entries
            if sym and a.kwarg is None:
                throw('TypeError', '%s() got an unexpected keyword argument' % f.name)
        for i, name in enumerate(pos):
            if i < len(args):
                if name in kw:
                    throw('TypeError', '%s() got multiple values for argument %s' % (f.name, name))
                loc[name] = args[i]
            elif name in kw:
                loc[name] = kw.pop(name)
            else:
                j = i - (len(pos) - len(f.defaults))
                if j < 0:
                    throw('TypeError', '%s() missing argument %s' % (f.name, name))
                loc[name] = f.defaults[j]
        if len(args) > len(pos):
            if a.vararg is None:
                throw('TypeError', '%s() takes %d positional arguments but %d were given' % (f.name, len(pos), len(args)))
            rest = args[len(pos):]
            loc[a.vararg.arg] = born(PList(rest)) if any(isinstance(x, (Seg, Img)) for x in rest) else tuple(rest)
        elif a.vararg is not None:
            loc[a.vararg.arg] = ()
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg in kw:
                loc[x.arg] = kw.pop(x.arg)
            elif d is not _NODEF:
                loc[x.arg] = d
            else:
                throw('TypeError', '%s() missing keyword argument %s' % (f.name, x.arg))
        if a.kwarg is not None:
            dk = born(PDict([[k, v] for k, v in kw.items() if k != '**']))
            if '**' in kw:
                raise Unsupported('symbolic ** argument')
            if sym:
                dk.entries.extend(list(x) if isinstance(x, list) else x for x in sym)
            loc[a.kwarg.arg] = dk
        elif kw:
            throw('TypeError', '%s() got an unexpected keyword argument %s' % (f.name, sorted(kw)[0]))
        return loc

    def call_func(self, f, args, kw):
        h = self.contracts.get(f.qualname)
        if h is not None:
            ctx().stats.contracts.add(f.qualname)
            return h(self, f, list(args), kw)
        return self.run_body(f, args, kw)

    def run_body(self, f, args, kw):
        loc = self.bind_args(f, args, kw)
        fr = Frame(f.module, f.frame, f)
        if isinstance(f.node, ast.Lambda):
            fr.locals = loc
            fr.names = frozenset(loc)
            return self.eval(f.node.body, fr)
        names, glob, nonl = assigned_names(f.node)
        fr.names = names | set(loc)
        fr.globals_, fr.nonlocals = glob, nonl
        fr.locals = loc
        if hasattr(f.module, 'path') and f.module.path.startswith('/repo'):
            st = ctx().stats.functions
            st[f.qualname] = st.get(f.qualname, 0) + 1
        if is_generator(f.node):
            return PGen(self, f, fr)
        self.depth += 1
        if self.depth > 150:
            raise Unsupported('recursion without contract (%s)' % f.qualname)
        try:
            st = self.exec_block(f.node.body, fr)
        finally:
            self.depth -= 1
        return fr.ret if st == RETURN else None

    # -- names ------------------------------------------------------------------------
    def load(self, name, fr):
        f = fr
        if name in f.locals and (f.names is None or name in f.names or f.is_class):
            v = f.locals[name]
            return self.check_havoc(v)
        if f.names is not None and name in f.names and name not in f.globals_:
            throw('UnboundLocalError', 'local variable %s referenced before assignment' % name)
        if name not in f.globals_:
            p = f.parent
            while p is not None:
                if not p.is_class and name in p.locals and (p.names is None or name in p.names):
                    return self.check_havoc(p.locals[name])
                p = p.parent
        d = f.module.d
        if name in d:
            return d[name]
        if name in self.builtins:
            return self.builtins[name]
        throw('NameError', 'name %s is not defined' % name)

    def check_havoc(self, v):
        if isinstance(v, Havoc):
            if v.resolve is not None:
                return self.check_havoc(v.resolve())
            raise Unsupported('loop-carried variable %s has no invariant' % v.name)
        return v

    def store(self, name, v, fr):
        if name in fr.globals_:
            heap.note(fr.module, name)
            fr.module.d[name] = v
            return
        if name in fr.nonlocals:
            p = fr.parent
            while p is not None:
                if name in p.locals:
                    heap.note(p, name)
                    p.locals[name] = v
                    return
                p = p.parent
        heap.note(fr, name)
        fr.locals[name] = v

    # -- statements ---------------------------------------------------------------------
    def exec_block(self, body, fr):
        for s in body:
            st = self.exec_stmt(s, fr)
            if st:
                return st
        return NORMAL

    def exec_stmt(self, s, fr):
        return getattr(self, 's_' + type(s).__name__, self.s_unsupported)(s, fr)

    def s_unsupported(self, s, fr):
        raise Unsupported('statement %s at line %d' % (type(s).__name__, s.lineno))

    def s_Expr(self, s, fr):
        if not isinstance(s.value, ast.Constant):
            self.eval(s.value, fr)
        return NORMAL

    def s_Pass(self, s, fr):
        return NORMAL

    def s_Break(self, s, fr):
        return BREAK

    def s_Continue(self, s, fr):
        return CONTINUE

    def s_Global(self, s, fr):
        return NORMAL

    s_Nonlocal = s_Global

    def s_Return(self, s, fr):
        fr.ret = None if s.value is None else self.eval(s.value, fr)
        return RETURN

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)
        return NORMAL

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)
        return NORMAL

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load(t.id, fr)
            v = self.inplace(s.op, cur, self.eval(s.value, fr))
            self.store(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            v = self.inplace(s.op, self.getattr(o, t.attr), self.eval(s.value, fr))
            self.setattr(o, t.attr, v)
        else:
            o = self.eval(t.value, fr)
            i = self.eval_index(t.slice, fr)
            v = self.inplace(s.op, self.getitem(o, i), self.eval(s.value, fr))
            self.setitem(o, i, v)
        return NORMAL

    def inplace(self, op, cur, v):
        if isinstance(op, ast.Add) and isinstance(cur, PList):
            guard_old(cur) if cur.tag is None else None
            if cur.tag is not None:
                for x in self.items_list(v):
                    cur.tag.append(x)
            else:
                cur.items.extend(self.raw_items(v))
            return cur
        if isinstance(cur, PSet) and not cur.frozen and isinstance(op, ast.BitOr):
            for x in self.items_list(v):
                self.call(self.getattr(cur, 'add'), [x])
            return cur
        return self.binop(op, cur, v)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.setitem(o, self.eval_index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            n = len(t.elts)
            if star:
                k = star[0]
                items = PList(self.raw_items(v))
                after = n - k - 1
                for i in range(k):
                    if not truth(self.py_len_ge(items, n - 1)):
                        throw('ValueError', 'not enough values to unpack')
                    self.assign(t.elts[i], self.getitem(items, i), fr)
                self.assign(t.elts[k].value, self.getitem(items, slice(k, -after if after else None, None)), fr)
                for i in range(after):
                    self.assign(t.elts[n - after + i], self.getitem(items, -(after - i)), fr)
                return
            vals = self.unpack(v, n)
            for e, x in zip(t.elts, vals):
                self.assign(e, x, fr)
        else:
            raise Unsupported('assignment target')

    def py_len_ge(self, lst, k):
        n = self.length(lst)
        return n >= k if isinstance(n, int) else mkbool(zint(n) >= k)

    def unpack(self, v, n):
        if isinstance(v, tuple):
            vals = list(v)
        elif isinstance(v, PList):
            check_readable(v)
            if any(isinstance(x, (Seg, Img)) for x in v.items):
                ln = self.length(v)
                if not truth(py_eq(ln, n)):
                    throw('ValueError', 'wrong number of values to unpack')
                vals = [self.getitem(v, i) for i in range(n)]
            else:
                vals = list(v.items)
        else:
            vals = self.items_list(v)
        if len(vals) != n:
            throw('ValueError', 'not enough values to unpack (expected %d, got %d)' % (n, len(vals))
                  if len(vals) < n else 'too many values to unpack (expected %d)' % n)
        return vals

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id not in fr.locals:
                    throw('NameError', t.id)
                heap.note(fr, t.id)
                del fr.locals[t.id]
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                i = self.eval_index(t.slice, fr)
                self.delitem(o, i)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                if isinstance(o, PObj) and t.attr in o.d:
                    guard_old(o, t.attr)
                    del o.d[t.attr]
                else:
                    throw('AttributeError', t.attr)
            else:
                raise Unsupported('del')
        return NORMAL

    def s_If(self, s, fr):
        if truth(self.eval(s.test, fr)):
            return self.exec_block(s.body, fr)
        return self.exec_block(s.orelse, fr)

    def s_Assert(self, s, fr):
        if not truth(self.eval(s.test, fr)):
            throw('AssertionError', *([self.eval(s.msg, fr)] if s.msg is not None else []))
        return NORMAL

    def s_Raise(self, s, fr):
        if s.exc is None:
            f = fr
            while f is not None:
                if f.exc is not None:
                    raise PyExc(f.exc)
                f = f.parent
            throw('RuntimeError', 'No active exception to reraise')
        e = self.eval(s.exc, fr)
        if isinstance(e, PClass):
            e = self.call(e, [])
        if s.cause is not None:
            self.eval(s.cause, fr)
        if isinstance(e, Model) and getattr(e, 'is_exception', False):
            raise PyExc(e)
        if not isinstance(e, PObj) or not e.cls.issub(BASEEXC):
            throw('TypeError', 'exceptions must derive from BaseException')
        raise PyExc(e)

    def exc_match(self, obj, typ):
        if isinstance(typ, tuple):
            return any(self.exc_match(obj, t) for t in typ)
        if isinstance(obj, Model):
            return obj.py_isinstance(self, typ)
        return isinstance(typ, PClass) and obj.cls.issub(typ)

    def s_Try(self, s, fr):
        st = NORMAL
        pending = None
        try:
            try:
                st = self.exec_block(s.body, fr)
            except PyExc as e:
                for h in s.handlers:
                    if h.type is None or self.exc_match(e.obj, self.eval(h.type, fr)):
                        old = fr.exc
                        fr.exc = e.obj
                        if h.name:
                            self.store(h.name, e.obj, fr)
                        try:
                            st = self.exec_block(h.body, fr)
                        finally:
                            fr.exc = old
                            if h.name:
                                fr.locals.pop(h.name, None)
                        break
                else:
                    raise
            else:
                if st == NORMAL and s.orelse:
                    st = self.exec_block(s.orelse, fr)
        except PyExc as e:
            pending = e
        ret = fr.ret
        if s.finalbody:
            fs = self.exec_block(s.finalbody, fr)
            if fs:
                return fs
            fr.ret = ret
        if pending is not None:
            raise pending
        return st

    def s_With(self, s, fr):
        return self.with_items(s.items, s.body, fr)

    def with_items(self, items, body, fr):
        if not items:
            return self.exec_block(body, fr)
        item = items[0]
        mgr = self.eval(item.context_expr, fr)
        if isinstance(mgr, PObj):
            if not mgr.cls.has('__enter__') or not mgr.cls.has('__exit__'):
                throw('TypeError', 'object does not support the context manager protocol')
            enter = self.bind(mgr.cls.lookup('__enter__'), mgr, mgr.cls)
            exit_ = self.bind(mgr.cls.lookup('__exit__'), mgr, mgr.cls)
        else:
            enter = self.getattr(mgr, '__enter__')
            exit_ = self.getattr(mgr, '__exit__')
        v = self.call(enter, [])
        if item.optional_vars is not None:
            self.assign(item.optional_vars, v, fr)
        try:
            st = self.with_items(items[1:], body, fr)
        except PyExc as e:
            cls = e.obj.cls if isinstance(e.obj, PObj) else EXC
            if truth(self.call(exit_, [cls, e.obj, Opaque('traceback')])):
                return NORMAL
            raise
        ret = fr.ret
        self.call(exit_, [None, None, None])
        fr.ret = ret
        return st

    def s_Import(self, s, fr):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store(a.asname, m, fr)
            else:
                top = a.name.split('.')[0]
                self.store(top, self.import_module(top), fr)
        return NORMAL

    def s_ImportFrom(self, s, fr):
        name = self.resolve_relative(fr.module, s.module, s.level)
        if name == '__future__':
            return NORMAL
        m = self.import_module(name)
        for a in s.names:
            if a.name == '*':
                for k, v in list(m.d.items()):
                    if not k.startswith('_'):
                        self.store(k, v, fr)
                continue
            try:
                v = self.getattr(m, a.name)
            except PyExc:
                throw('ImportError', a.name)
            self.store(a.asname or a.name, v, fr)
        return NORMAL

    def s_FunctionDef(self, s, fr):
        f = self.make_func(s, fr, s.name)
        v = f
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d, fr), [v])
        self.store(s.name, v, fr)
        return NORMAL

    def make_func(self, node, fr, name):
        a = node.args
        defaults = [self.eval(d, fr) for d in a.defaults]
        kwd = [_NODEF if d is None else self.eval(d, fr) for d in a.kw_defaults]
        qn = name
        if fr.is_class:
            qn = fr.func + '.' + name
        elif fr.func is not None:
            qn = fr.func.qualname + '.<locals>.' + name
        parent = fr if (fr.func is not None or fr.is_class or fr.parent is not None) else None
        if parent is not None and fr.is_class:
            parent = fr.parent
        f = PFunc(name, node, fr.module, parent, defaults, kwd, qn)
        return f

    def s_ClassDef(self, s, fr):
        bases = [self.eval(b, fr) for b in s.bases]
        if s.keywords:
            raise Unsupported('class keywords')
        cf = Frame(fr.module, fr, s.name, None, True)
        if fr.func is None and not fr.is_class:
            cf.parent = None
        self.exec_block(s.body, cf)
        for b in bases:
            if not isinstance(b, PClass):
                raise Unsupported('base class %r' % (b,))
        cls = PClass(s.name, bases or [OBJECT], cf.locals, fr.module.name)
        for v in cf.locals.values():
            g = v
            while isinstance(g, (StaticM, ClassM)):
                g = g.f
            for h in ([g.fget, g.fset] if isinstance(g, Prop) else [g]):
                if isinstance(h, Native) and getattr(h, 'wrapped', None) is not None:
                    h = h.wrapped
                if isinstance(h, PFunc) and h.owner is None:
                    h.owner = cls
        v = cls
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d, fr), [v])
        self.store(s.name, v, fr)
        return NORMAL

    # -- loops ------------------------------------------------------------------------
    def s_While(self, s, fr):
        spec = self.find_loopspec(s, fr)
        if spec is not None:
            return self.while_spec(s, fr, spec)
        n = 0
        forked = 0
        while True:
            before = len(ctx().taken)
            if not truth(self.eval(s.test, fr)):
                return self.exec_block(s.orelse, fr)
            if len(ctx().taken) != before:
                forked += 1
                if forked > 8:
                    raise Unsupported('while loop without invariant at line %d' % s.lineno)
            st = self.exec_block(s.body, fr)
            if st == BREAK:
                return NORMAL
            if st == RETURN:
                return st
            n += 1
            if n > 5000:
                raise Unsupported('while loop does not end')

    def find_loopspec(self, s, fr):
        if fr.func is None or isinstance(fr.func, str):
            return None
        f = fr.func
        specs = self.loopspecs.get(f.qualname)
        if not specs:
            # a contract for whatever while loop is met in the code under test
            anywhere = self.loopspecs.get('*')
            if anywhere and f.module.d.get('__name__', '').startswith('abl.'):
                return anywhere[0]
            return None
        loops = [n for n in ast.walk(f.node) if isinstance(n, (ast.For, ast.While))]
        loops.sort(key=lambda n: (n.lineno, n.col_offset))
        if len(loops) == 1 or len(specs) == 1:
            # a single contract: for the loop of its kind
            idx = loops.index(s)
            return specs.get(idx, specs.get(0) if len(loops) == 1 else None)
        return specs.get(loops.index(s))

    def while_spec(self, s, fr, spec, test=None):
        c = ctx()
        c.stats.loops.add(fr.func.qualname)
        asg = assigned_names([s])[0]
        L = LoopState(self, fr, asg, z3.IntVal(0), None, 'init')
        self.call(spec, [L])
        # arbitrary iteration
        for n in asg:
            if n in fr.locals and n not in L.roles.values():
                heap.note(fr, n)
                fr.locals[n] = Havoc(n)
        i = z3.Int(c.fresh('iter'))
        c.assume_z3(i >= 0)
        A = LoopState(self, fr, asg, i, None, 'assume', L.roles)
        self.call(spec, [A])
        if not (test() if test is not None else truth(self.eval(s.test, fr))):
            return self.exec_block(s.orelse, fr)
        m0 = A.measure_val
        if m0 is not None and not truth(mkbool(zint(m0) >= 0)):
            fail('loop measure is bounded', 'line %d' % s.lineno)
        st = self.exec_block(s.body, fr)
        if st == BREAK:
            return NORMAL
        if st == RETURN:
            return st
        B = LoopState(self, fr, asg, z3.simplify(i + 1), None, 'step', L.roles)
        self.call(spec, [B])
        if m0 is not None and not truth(mkbool(zint(B.measure_val) < zint(m0))):
            fail('loop measure decreases', 'line %d' % s.lineno)
        raise PathEnd('loop invariant preserved')

    def s_For(self, s, fr):
        src = self.eval(s.iter, fr)
        if isinstance(src, PGen):
            return self.for_gen(s, fr, src)
        if isinstance(src, PObj):
            own = self.class_attr(src, '__iter__')
            r = src if own is None else self.call(own, [])
            pull = self.class_attr(r, '__next__') if isinstance(r, PObj) else None
            if pull is not None:
                return self.for_calls(s, fr, CallIter(pull, ENDS))
            if own is not None and isinstance(r, PGen):
                return self.for_gen(s, fr, r)
        if isinstance(src, CallIter):
            return self.for_calls(s, fr, src)
        visits = src if isinstance(src, Visits) else None
        items = self.raw_items(src if visits is None else visits.items)
        spec = self.find_loopspec(s, fr)
        items = list(items)
        current = []

        def bind(e, frm):
            if visits is not None:
                e2 = self.call(visits.enter, [e])
                current[:] = [e, e2]
                e = e2
            self.assign(s.target, e, frm)

        def run(frm):
            st = self.exec_block(s.body, frm)
            if visits is not None and st in (NORMAL, CONTINUE):
                self.call(visits.leave, list(current))
            return st
        while items:
            x = items.pop(0)
            if isinstance(x, (Seg, Img)):
                if spec is not None and isinstance(x, Seg):
                    st = self.for_spec(s, fr, x, spec)
                else:
                    before = dict(fr.locals)
                    st = self.loop_rule(x, fr, s.body, bind, run, assigned_names([s])[0], live=src)
                    if st == NORMAL and visits is None and isinstance(x, Seg):
                        self.last_targets(s, fr, x, before)
            else:
                bind(x, fr)
                st = run(fr)
            if st == BREAK:
                return NORMAL
            if st == RETURN:
                return st
        return self.exec_block(s.orelse, fr)

    def last_targets(self, s, fr, seg, before):
        "after a loop over all elements its targets are what they are for the last element"
        names = assigned_names([ast.copy_location(ast.Assign(targets=[s.target], value=None), s)])[0]
        if names & set(assigned_names(s.body)[0]):
            return
        done = []

        def resolve(name):
            if not done:
                done.append(1)
                if truth(mkbool(seg.hi > seg.lo)):
                    self.assign(s.target, seg.seq.get(z3.simplify(seg.hi - 1)), fr)
                else:
                    for n in names:
                        heap.note(fr, n)
                        if n in before:
                            fr.locals[n] = before[n]
                        else:
                            fr.locals.pop(n, None)
            if name not in fr.locals:
                throw('UnboundLocalError', 'local variable %s referenced before assignment' % name)
            return fr.locals[name]
        for n in names:
            if isinstance(fr.locals.get(n), Havoc) or n not in fr.locals:
                heap.note(fr, n)
                fr.locals[n] = Havoc(n, lambda n=n: resolve(n))

    def for_calls(self, s, fr, src):
        """for x in iter(f, sentinel), for x in an object with __next__: a while loop that
        starts with the call"""
        from . import models
        def test():
            try:
                x = self.call(src.fn, [])
            except PyExc as e:
                if src.sentinel is ENDS and e.obj.cls.issub(models._E['StopIteration']):
                    return False
                raise
            if src.sentinel is not ENDS and truth(py_eq(x, src.sentinel)):
                return False
            self.assign(s.target, x, fr)
            return True
        spec = self.find_loopspec(s, fr)
        if spec is not None:
            return self.while_spec(s, fr, spec, test)
        n = 0
        while test():
            st = self.exec_block(s.body, fr)
            if st == BREAK:
                return NORMAL
            if st == RETURN:
                return st
            n += 1
            if n > 60:
                raise Unsupported('loop without invariant at line %d' % s.lineno)
        return self.exec_block(s.orelse, fr)

    def for_gen(self, s, fr, gen):
        n = 0
        while True:
            m = gen.resume()
            if m[0] == 'stop':
                break
            if isinstance(m[1], YieldMany):
                # the generator stands for all elements of a source
                st = self.loop_rule(
                    m[1].src, fr, s.body,
                    lambda e, frm: self.assign(s.target, e, frm),
                    lambda frm: self.exec_block(s.body, frm),
                    assigned_names([s])[0])
            else:
                self.assign(s.target, m[1], fr)
                st = self.exec_block(s.body, fr)
            if st == BREAK:
                gen.dispose()
                return NORMAL
            if st == RETURN:
                gen.dispose()
                return st
            n += 1
            if n > 200:
                raise Unsupported('generator does not end')
        return self.exec_block(s.orelse, fr)

    def for_spec(self, s, fr, seg, spec):
        c = ctx()
        c.stats.loops.add(fr.func.qualname)
        asg = assigned_names([s])[0]
        n = z3.simplify(seg.hi - seg.lo)
        L = LoopState(self, fr, asg, z3.IntVal(0), n, 'init', seg=seg)
        self.call(spec, [L])
        for nm in asg:
            if nm in fr.locals and nm not in L.roles.values():
                heap.note(fr, nm)
                fr.locals[nm] = Havoc(nm)
        if c.choose(2, 'loop: iteration/exit') == 0:
            i = z3.Int(c.fresh('i'))
            c.assume_z3(z3.And(i >= 0, i < n))
            if c.check() == z3.unsat:
                raise PathEnd('no iteration')
            A = LoopState(self, fr, asg, i, n, 'assume', L.roles, seg=seg)
            self.call(spec, [A])
            self.assign(s.target, seg.seq.get(z3.simplify(seg.lo + i)), fr)
            st = self.exec_block(s.body, fr)
            if st in (BREAK, RETURN):
                return st
            B = LoopState(self, fr, asg, z3.simplify(i + 1), n, 'step', L.roles, seg=seg)
            self.call(spec, [B])
            raise PathEnd('loop invariant preserved')
        A = LoopState(self, fr, asg, n, n, 'assume', L.roles, seg=seg)
        self.call(spec, [A])
        return NORMAL

    def loop_rule(self, src, fr, body_nodes, bind, run, assigned, live=None):
        """a loop over a source of unknown length without loop-carried state except
        for collections that it only fills (or only takes the current element from)"""
        c = ctx()
        accs, removing = self.find_accumulators(body_nodes, fr)
        if any(r is live for r in removing):
            raise Unsupported('a loop removes from the list it iterates over')
        gen = sink = None
        if any(yields(n) for n in body_nodes):
            gen = self.gen_of(fr)
            sink = born(PList())
            accs.append(sink)
        if sink is None:
            return self.loop_rule_(src, fr, bind, run, assigned, accs, removing, (gen, sink))
        gen.sinks.append(sink)
        raised = None
        try:
            r = self.loop_rule_(src, fr, bind, run, assigned, accs, removing, (gen, sink))
        except PyExc as e:
            raised = e
        finally:
            gen.sinks.pop()
        for x in sink.items:
            gen.give(x)
        if raised is not None:
            raise raised
        return r

    def loop_rule_(self, src, fr, bind, run, assigned, accs, removing, gen):
        c = ctx()
        entry = dict(fr.locals)

        memo = []

        time = heap.mark()

        def emissions(elem, key):
            from .seqs import same_key
            for k, r in memo:
                if same_key(k, key):
                    return r
            return heap.at(time, evaluate, elem, key)

        def evaluate(elem, key):
            frm = Frame(fr.module, fr.parent, fr.func, fr.names, fr.is_class)
            frm.globals_, frm.nonlocals, frm.gen = fr.globals_, fr.nonlocals, fr.gen
            frm.locals = dict(entry)
            for n in assigned:
                if n in frm.locals:
                    frm.locals[n] = Havoc(n)
            if gen[1] is not None:
                gen[0].sinks.append(gen[1])
            try:
                ops, st = self.generic_iteration(frm, elem, bind, run, accs, quiet=True)
            finally:
                if gen[1] is not None:
                    gen[0].sinks.pop()
            if st not in (NORMAL, CONTINUE):
                raise PathEnd('iteration completed')
            memo.append((key, ops))
            return ops

        def fact(elem, key):
            emissions(elem, key)

        def collect(source, rest=()):
            for n, a in enumerate(accs):
                if any(a is r for r in removing):
                    self.check_removal(a, src)
                    heap.note(a)
                    left = Img(source, lambda e, k, n=n: [] if taken_out(emissions(e, k)[n], e) else [e])
                    a.items = [left] + list(rest)
                    continue
                img = Img(source, lambda e, k, n=n: emissions(e, k)[n])
                add_item(a, img)

        can_exit = c.choose(2, 'loop: one iteration / all completed') == 0
        if can_exit:
            if isinstance(src, Seg):
                elem, key = src.generic()
                prior = Seg(src.seq, src.lo, key)
            else:
                elem, key = src.generic()
                prior = restrict(src, key)
            instantiate_for(src, key)
            frm = fr
            for n in assigned:
                if n in frm.locals:
                    frm.locals[n] = Havoc(n)
            ops, st = self.generic_iteration(frm, elem, bind, run, accs, quiet=False,
                                             prior=prior, collect=collect, fact=fact)
            if st in (NORMAL, CONTINUE):
                raise PathEnd('covered by the general iteration')
            return st
        for_all(src, fact)
        collect(src)
        if isinstance(src, Seg):
            for e, k in known_elements(src):
                fact(e, k)
        for n in assigned:
            if n in fr.locals:
                heap.note(fr, n)
                fr.locals[n] = Havoc(n)
            elif n in (fr.names or ()):
                heap.note(fr, n)
                fr.locals[n] = Havoc(n)
        return NORMAL

    def generic_iteration(self, frm, elem, bind, run, accs, quiet, prior=None, collect=None, fact=None):
        c = ctx()
        old_young = c.memo.get('young')
        young = {}
        c.memo['young'] = young
        tags = [(a, a.tag) for a in accs]
        bufs = []
        for a in accs:
            buf = []
            bufs.append(buf)
            a.tag = buf
        c.memo['quiet'] = c.memo.get('quiet', 0) + (1 if quiet else 0)

        def restore():
            c.memo['quiet'] -= 1 if quiet else 0
            for a, t in tags:
                a.tag = t
            if old_young is not None:
                old_young.update(young)
            c.memo['young'] = old_young

        def flush():
            if prior is not None and collect is not None:
                for_all(prior, fact)
                collect(prior, [None])
            elif collect is not None and not quiet:
                # earlier elements of an image: unknown emissions
                if any(True for _ in accs):
                    for a in accs:
                        add_item(a, None)
            for a, b in zip(accs, bufs):
                for x in b:
                    if isinstance(x, Removed):
                        heap.note(a)
                        a.items = [None]
                    else:
                        add_item(a, x)
        try:
            bind(elem, frm)
            st = run(frm)
        except PyExc:
            restore()
            if quiet:
                raise PathEnd('iteration completed')
            flush()
            raise
        except BaseException:
            restore()
            raise
        restore()
        if st in (BREAK, RETURN) and not quiet:
            flush()
        return bufs, st

    def check_removal(self, a, src):
        if not (isinstance(src, Seg) and src.seq.distinct and len(a.items) == 1 and isinstance(a.items[0], Seg)
                and a.items[0].seq is src.seq and ctx().valid(z3.And(a.items[0].lo == src.lo, a.items[0].hi == src.hi))):
            raise Unsupported('a loop removes from another list')

    def find_accumulators(self, nodes, fr):
        out = [self.trace] + list(self.channels.values())
        removing = []
        names = ('append', 'add', 'extend', 'update', 'setdefault', 'insert', 'remove')

        aliases = {}
        for s in (nodes if isinstance(nodes, list) else [nodes]):
            for n in ast.walk(s):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) \
                        and isinstance(n.value, (ast.Name, ast.IfExp, ast.BoolOp)):
                    aliases.setdefault(n.targets[0].id, []).append(n.value)

        def consider(expr, removal=False, depth=0):
            if depth < 4:
                if isinstance(expr, ast.IfExp):
                    consider(expr.body, removal, depth + 1)
                    consider(expr.orelse, removal, depth + 1)
                    return
                if isinstance(expr, ast.BoolOp):
                    for x in expr.values:
                        consider(x, removal, depth + 1)
                    return
                if isinstance(expr, ast.Name):
                    for x in aliases.get(expr.id, ()):
                        consider(x, removal, depth + 1)
            try:
                if isinstance(expr, ast.Name):
                    if expr.id not in fr.locals and not self.visible(expr.id, fr):
                        return
                    v = self.load(expr.id, fr)
                elif isinstance(expr, ast.Attribute) and isinstance(expr.value, ast.Name):
                    b = expr.value.id
                    if b not in fr.locals and not self.visible(b, fr):
                        return
                    o = self.load(b, fr)
                    if not isinstance(o, PObj) or expr.attr not in o.d:
                        return
                    v = o.d[expr.attr]
                else:
                    return
            except (PyExc, Unsupported):
                return
            if isinstance(v, (PList, PSet, PDict)):
                if removal and not isinstance(v, PList):
                    return
                if not any(v is x for x in out):
                    out.append(v)
                if removal and not any(v is x for x in removing):
                    removing.append(v)
        for s in (nodes if isinstance(nodes, list) else [nodes]):
            for n in ast.walk(s):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in names:
                    consider(n.func.value, n.func.attr == 'remove')
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Subscript):
                            consider(t.value)
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    if isinstance(n.op, ast.Add) and n.target.id in fr.locals and isinstance(fr.locals[n.target.id], PList):
                        consider(n.target)
        return out, removing

    def visible(self, name, fr):
        p = fr.parent
        while p is not None:
            if name in p.locals:
                return True
            p = p.parent
        return False

    # -- expressions --------------------------------------------------------------------
    def eval(self, e, fr):
        return getattr(self, 'e_' + type(e).__name__, self.e_unsupported)(e, fr)

    def e_unsupported(self, e, fr):
        raise Unsupported('expression %s at line %d' % (type(e).__name__, e.lineno))

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.load(e.id, fr)

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), self.mangle(e.attr, fr))

    def mangle(self, name, fr):
        return name

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.raw_items(self.eval(x.value, fr)))
            else:
                out.append(self.eval(x, fr))
        return born(PList(out))

    def e_Set(self, e, fr):
        s = born(PSet())
        for x in self.elts(e.elts, fr):
            set_add(s, x)
        return s

    def elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.items_list(self.eval(x.value, fr)))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = born(PDict())
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v, fr)
                if not isinstance(src, PDict):
                    raise Unsupported('** of %r' % (src,))
                from . import models
                models.dict_update(self, d, src)
            else:
                dict_set(d, self.eval(k, fr), self.eval(v, fr))
        return d

    def e_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            if truth(v) != is_and:
                return v
        return v

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.store(e.target.id, v, fr)
        return v

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SBool):
                return mkbool(z3.Not(v.t))
            return not truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, SInt):
                return mkint(-v.t)
            if isinstance(v, SReal):
                return mkreal(-v.t)
            return -v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, SBV):
                return SBV(~v.t)
            if isinstance(v, int):
                return ~v
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported('unary operator')

    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.eval(e.left, fr), self.eval(e.right, fr))

    def binop(self, op, a, b):
        from . import models
        return models.binop(self, op, a, b)

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, fr)
            v = self.compare(op, left, right)
            if i == len(e.ops) - 1:
                return v
            if not truth(v):
                return False
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            r = self.is_(a, b)
            return not r if isinstance(r, bool) else mkbool(z3.Not(r.t))
        if isinstance(op, ast.Eq):
            return py_eq(a, b)
        if isinstance(op, ast.NotEq):
            if isinstance(a, PObj):
                f = self.class_attr(a, '__ne__')
                if f is not None:
                    return self.call(f, [b])
            r = py_eq(a, b)
            return mkbool(z3.Not(r.t)) if isinstance(r, SBool) else not truth(r)
        if isinstance(op, ast.In):
            return contains(b, a)
        if isinstance(op, ast.NotIn):
            r = contains(b, a)
            return not truth(r)
        from . import models
        return models.order(self, op, a, b)

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, Model) and hasattr(a, 'py_is'):
            return a.py_is(b)
        if isinstance(b, Model) and hasattr(b, 'py_is'):
            return b.py_is(a)
        if isinstance(a, (bool, int, str)) and isinstance(b, (bool, int, str)):
            return type(a) == type(b) and a == b
        if isinstance(a, SBool) and isinstance(b, bool) or isinstance(b, SBool) and isinstance(a, bool):
            return py_eq(a, b)
        if isinstance(a, (SInt, SReal, Rope)) and isinstance(b, (SInt, SReal, Rope, int, float, str)) and type(b) is not bool:
            raise Unsupported('identity of symbolic values')
        return False

    def e_IfExp(self, e, fr):
        return self.eval(e.body if truth(self.eval(e.test, fr)) else e.orelse, fr)

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr, '<lambda>')

    def e_Call(self, e, fr):
        f = e.func
        if isinstance(f, ast.Name) and f.id == 'super' and not e.args:
            fn = fr.func
            g = fr
            while not (isinstance(fn, PFunc) and fn.owner is not None) and g.parent is not None:
                g = g.parent
                fn = g.func
            first = fn.node.args.args[0].arg
            return Super(fn.owner, g.locals[first])
        if isinstance(f, ast.Name) and f.id in ('any', 'all', 'next') and len(e.args) >= 1 \
                and isinstance(e.args[0], ast.GeneratorExp) and f.id in self.builtins and \
                self.load(f.id, fr) is self.builtins[f.id]:
            return self.quantifier(f.id, e, fr)
        if isinstance(f, ast.Name) and f.id == 'locals':
            raise Unsupported('locals()')
        fn = self.eval(f, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.raw_items(self.eval(a.value, fr)))
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                if isinstance(v, PDict):
                    check_readable(v)
                    for en in v.entries:
                        if isinstance(en, Img) or not isinstance(en[0], str):
                            self.symbolic_kw(kw, en)
                            continue
                        if en[0] in kw:
                            throw('TypeError', 'got multiple values for keyword argument %s' % en[0])
                        kw[en[0]] = en[1]
                elif isinstance(v, Model) and hasattr(v, 'py_kwargs'):
                    kw['**'] = v
                else:
                    raise Unsupported('** of %r' % (v,))
            else:
                if k.arg in kw:
                    throw('TypeError', 'got multiple values for keyword argument %s' % k.arg)
                kw[k.arg] = v
        return self.call(fn, args, kw)

    def symbolic_kw(self, kw, en):
        kw.setdefault('**sym', []).append(en)

    def e_JoinedStr(self, e, fr):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                x = self.eval(v.value, fr)
                if v.format_spec is not None:
                    spec = self.eval(v.format_spec, fr)
                    if spec not in ('', 's') or (spec and v.conversion == -1 and not S.is_str(x)):
                        if type(x) not in (int, str, float) or not isinstance(spec, str) or v.conversion != -1:
                            raise Unsupported('format specification')
                        out.append(format(x, spec))
                        continue
                out.append(self.repr(x) if v.conversion == 114 else self.str(x))
        return S.concat(*out)

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        return self.getitem(o, self.eval_index(e.slice, fr))

    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(None if s.lower is None else self.eval(s.lower, fr),
                         None if s.upper is None else self.eval(s.upper, fr),
                         None if s.step is None else self.eval(s.step, fr))
        return self.eval(s, fr)

    def e_Starred(self, e, fr):
        raise Unsupported('starred expression')

    def e_Yield(self, e, fr):
        v = None if e.value is None else self.eval(e.value, fr)
        g = self.gen_of(fr)
        if v is None and not g.sinks:
            g.do_yield(None)
        else:
            g.give(v)
        return None

    def e_YieldFrom(self, e, fr):
        g = self.gen_of(fr)
        src = self.eval(e.value, fr)
        if isinstance(src, PGen):
            while True:
                m = src.resume()
                if m[0] == 'stop':
                    return None
                g.give(m[1].src if isinstance(m[1], YieldMany) else m[1])
        for x in self.raw_items(src):
            g.give(x)
        return None

    def gen_of(self, fr):
        f = fr
        while f is not None:
            if f.gen is not None:
                return f.gen
            f = f.parent
        raise Unsupported('yield')

    # comprehensions
    def e_ListComp(self, e, fr):
        return born(PList(self.comp(e, fr, lambda f: self.eval(e.elt, f))))

    def e_GeneratorExp(self, e, fr):
        return born(PList(self.comp(e, fr, lambda f: self.eval(e.elt, f))))

    def e_SetComp(self, e, fr):
        s = born(PSet())
        for x in self.comp(e, fr, lambda f: self.eval(e.elt, f)):
            if isinstance(x, (Seg, Img)):
                s.items.append(x)
            else:
                set_add(s, x)
        return s

    def e_DictComp(self, e, fr):
        d = born(PDict())
        for x in self.comp(e, fr, lambda f: (self.eval(e.key, f), self.eval(e.value, f))):
            if isinstance(x, (Seg, Img)):
                d.entries.append(x if isinstance(x, Img) else Img(x, lambda v, k: [v]))
            else:
                dict_set(d, x[0], x[1])
        return d

    def comp(self, e, fr, elt):
        cf = Frame(fr.module, fr, fr.func, None)
        cf.names = None
        return self.comp_gens(e.generators, 0, cf, elt)

    def comp_gens(self, gens, k, cf, elt):
        if k == len(gens):
            return [elt(cf)]
        g = gens[k]
        out = []
        src = self.eval(g.iter, cf)
        for x in self.raw_items(src):
            if isinstance(x, (Seg, Img)):
                entry = dict(cf.locals)

                def emit(el, key, entry=entry):
                    f2 = Frame(cf.module, cf.parent, cf.func, None)
                    f2.locals = dict(entry)
                    self.assign(g.target, el, f2)
                    for cond in g.ifs:
                        if not truth(self.eval(cond, f2)):
                            return []
                    r = self.comp_gens(gens, k + 1, f2, elt)
                    if any(isinstance(y, (Seg, Img)) for y in r):
                        raise Unsupported('nested comprehension')
                    return r
                out.append(self.image(x, emit, bool(g.ifs) or k + 1 < len(gens)))
            else:
                self.assign(g.target, x, cf)
                ok = True
                for cond in g.ifs:
                    if not truth(self.eval(cond, cf)):
                        ok = False
                        break
                if ok:
                    out.extend(self.comp_gens(gens, k + 1, cf, elt))
        return out

    def image(self, src, emit, filtering):
        """one value per element: a mapped sequence; filters: an image.  A filter that
        keeps every element (decided without looking at the element) is a map."""
        c = ctx()
        if isinstance(src, Seg):
            if filtering:
                if not self.uniform(src, emit):
                    return Img(src, emit)
            if not filtering and self.identity(src, emit):
                return src
            ms = MapSeq(src.seq, lambda v, i: one(emit(v, i)))
            r = self.try_uniform_value(src, emit)
            if isinstance(r, Rope) or isinstance(r, str):
                p = pieces_of(r)
                cs = CharSet('')
                for q in p:
                    cs = cs.union(CharSet(q) if isinstance(q, str) else q.cs)
                ms.elem_cs = cs
                ms.elem_min = S.min_len(p)
            if r is not None and r is self._probe_elem:
                return src
            return Seg(ms, src.lo, src.hi)
        return Img(src, emit)

    _probe_elem = None

    def probe(self, src, emit):
        "evaluate emit on a fresh element without taking decisions; None if it needs some"
        c = ctx()
        base = src.seq
        while isinstance(base, MapSeq):
            base = base.seq
        el = base.make('probe_' + base.name)
        x = src.seq
        chain = []
        while isinstance(x, MapSeq):
            chain.append(x.fn)
            x = x.seq
        saved = c.choose

        class Fork(Exception):
            pass

        def nochoose(n, label=''):
            if n == 1:
                return 0
            (os.environ.get('PYVC_FORK') and __import__('traceback').print_stack())
            raise Fork()
        c.choose = nochoose
        outer = c.memo.get('probing')
        c.memo['probing'] = {}
        try:
            i = z3.Int(c.fresh('probe'))
            v = el
            for fn in reversed(chain):
                v = fn(v, i)
            self._probe_elem = v
            return emit(v, i)
        except Fork:
            return None
        finally:
            c.choose = saved
            c.memo['probing'] = outer

    def uniform(self, src, emit):
        r = self.probe(src, emit)
        return r is not None and len(r) == 1

    def identity(self, src, emit):
        r = self.probe(src, emit)
        return r is not None and len(r) == 1 and r[0] is self._probe_elem

    def try_uniform_value(self, src, emit):
        r = self.probe(src, emit)
        return r[0] if r is not None and len(r) == 1 else None

    def quantifier(self, which, e, fr):
        ge = e.args[0]
        if which == 'next' or len(ge.generators) != 1:
            vals = self.eval(ge, fr)
            if which == 'next':
                if not truth(vals):
                    if len(e.args) > 1:
                        return self.eval(e.args[1], fr)
                    throw('StopIteration')
                return self.getitem(vals, 0)
            return self.call(self.builtins[which], [vals])
        g = ge.generators[0]
        cf = Frame(fr.module, fr, fr.func, None)
        src = self.eval(g.iter, cf)
        want = which == 'any'

        def run(f):
            for cond in g.ifs:
                if not truth(self.eval(cond, f)):
                    return NORMAL
            return BREAK if truth(self.eval(ge.elt, f)) == want else NORMAL
        for x in self.raw_items(src):
            if isinstance(x, (Seg, Img)):
                st = self.loop_rule(x, cf, [ast.Expr(ge.elt)],
                                    lambda el, f: self.assign(g.target, el, f), run, set())
            else:
                self.assign(g.target, x, cf)
                st = run(cf)
            if st == BREAK:
                return want
        return not want

    # -- containers -----------------------------------------------------------------------
    def raw_items(self, v):
        "items of an iterable, possibly with Seg / Img items"
        from . import models
        return models.raw_items(self, v)

    def items_list(self, v):
        items = self.raw_items(v)
        out = []
        for x in items:
            if isinstance(x, Seg):
                raise Unsupported('unknown number of elements')
            if isinstance(x, Img):
                raise Unsupported('unknown number of elements')
            out.append(x)
        return out

    def length(self, v):
        from . import models
        return models.length(self, v)

    def getitem(self, o, i):
        from . import models
        return models.getitem(self, o, i)

    def setitem(self, o, i, v):
        from . import models
        return models.setitem(self, o, i, v)

    def delitem(self, o, i):
        if isinstance(o, PDict):
            dict_del(o, i)
            return
        if isinstance(o, PList) and isinstance(i, slice) and i.step is None and (i.start is None or i.stop is None):
            guard_old(o)
            check_readable(o)
            o.items = ([] if i.start is None else self.getitem(o, slice(None, i.start)).items) + \
                      ([] if i.stop is None else self.getitem(o, slice(i.stop, None)).items)
            return
        if isinstance(o, PList) and isinstance(i, int) and i in (0, -1) and any(isinstance(x, (Seg, Img)) for x in o.items):
            from . import models
            models.list_pop(self, o, i)
            return
        if isinstance(o, PList) and isinstance(i, int):
            guard_old(o)
            check_readable(o)
            if any(isinstance(x, (Seg, Img)) for x in o.items):
                raise Unsupported('del in symbolic list')
            if not -len(o.items) <= i < len(o.items):
                throw('IndexError')
            del o.items[i]
            return
        if isinstance(o, Model) and hasattr(o, 'py_delitem'):
            o.py_delitem(self, i)
            return
        if isinstance(o, PObj):
            f = self.class_attr(o, '__delitem__')
            if f is not None:
                self.call(f, [i])
                return
        raise Unsupported('del of item')

    def str(self, v):
        from . import models
        return models.to_str(self, v)

    def repr(self, v):
        from . import models
        return models.to_repr(self, v)


class Removed(object):
    "what taking an element out of a list leaves in its buffer"
    def __init__(self, x):
        self.x = x


def taken_out(ops, elem):
    "was the current element taken out of the list?"
    out = False
    for x in ops:
        if not isinstance(x, Removed):
            raise Unsupported('a loop both fills and empties a list')
        if not truth(py_eq(x.x, elem)):
            raise Unsupported('a loop removes another element')
        out = True
    return out


class Visits(Model):
    "iterable of a specification: enter(e) makes the value of the loop, leave(e, value) ends the visit"
    model_name = 'visits'

    def __init__(self, items, enter, leave):
        self.items, self.enter, self.leave = items, enter, leave


class YieldMany(object):
    def __init__(self, src):
        self.src = src


def one(vals):
    if len(vals) != 1:
        raise Unsupported('element count')
    return vals[0]


def add_item(a, x):
    if a.tag is None:
        heap.note(a)
    if isinstance(a, PDict):
        if isinstance(x, tuple):
            if a.tag is not None:
                a.tag.append(x)
            elif any(isinstance(e, Img) for e in a.entries):
                a.entries.append([x[0], x[1]])
            else:
                dict_set(a, x[0], x[1])
        else:
            (a.tag if a.tag is not None else a.entries).append(x)
    elif isinstance(a, PSet):
        if a.tag is not None:
            a.tag.append(x)
        elif isinstance(x, Img) or x is None:
            a.items.append(x)
        else:
            set_add(a, x)
    else:
        (a.tag if a.tag is not None else a.items).append(x)


def set_add(s, x):
    if s.tag is not None:
        s.tag.append(x)
        return
    guard_old(s)
    for e in s.items:
        if isinstance(e, (Seg, Img)):
            continue
        if e is x or truth(py_eq(e, x)):
            return
    s.items.append(x)


_NODEF = object()


def fail(name, detail):
    raise ObligationFailed(name, detail)


ENDS = object()        # the call raises StopIteration


class CallIter(Model):
    "iter(f, sentinel)"
    model_name = 'callable_iterator'

    def __init__(self, fn, sentinel):
        self.fn, self.sentinel = fn, sentinel


class LoopState(Model):
    """argument of a loop invariant.  L.i and L.n: iterations done and in total;
    L.var(name, value): the variable has this value; L.get(name): current value of a
    loop-carried variable; L.check(label, cond): invariant predicate."""
    model_name = 'loop'

    def __init__(self, it, fr, assigned, i, n, mode, roles=None, seg=None):
        self.it, self.fr, self.assigned = it, fr, assigned
        self.i, self.n, self.mode = i, n, mode
        self.roles = {} if roles is None else roles
        self.measure_val = None
        self.seg = seg

    def py_getattr(self, it, name):
        if name == 'i':
            return mkint(self.i)
        if name == 'n':
            return mkint(self.n)
        if name == 'mode':
            return self.mode
        return Model.py_getattr(self, it, name)

    def find(self, role, value):
        if role in self.roles:
            return self.roles[role]
        loc = self.fr.locals
        if role in self.assigned and role in loc:
            self.roles[role] = role
            return role
        for n in sorted(self.assigned):
            if n in loc and n not in self.roles.values():
                v = loc[n]
                if v is value or (isinstance(v, (int, str, bool)) and type(v) == type(value) and v == value):
                    self.roles[role] = n
                    return n
        return None

    def m_var(self, it, role, value):
        n = self.find(role, value)
        if n is None:
            return None
        if self.mode == 'assume':
            heap.note(self.fr, n)
            self.fr.locals[n] = value
        else:
            cur = self.fr.locals.get(n)
            ok = truth(py_eq(cur, value)) if not isinstance(cur, Havoc) else False
            it.record('loop invariant of %s: %s' % (self.fr.func.qualname, role),
                      ok, 'after %s iterations %s is %r instead of %r' % (self.i, n, cur, value))
        return None

    def m_holder(self, it, role, value):
        "is the value kept in a loop-carried variable? (decided when the loop starts)"
        if self.mode == 'init':
            return self.find(role, value) is not None
        return role in self.roles

    def m_has(self, it, role):
        return role in self.assigned

    def m_get(self, it, name):
        return it.load(name, self.fr)

    def m_set(self, it, name, value):
        heap.note(self.fr, name)
        self.fr.locals[name] = value

    def m_check(self, it, label, cond):
        if self.mode == 'assume':
            if not truth(cond):
                raise PathEnd('assumed')
        else:
            it.record('loop invariant of %s: %s' % (self.fr.func.qualname, label), truth(cond), '')

    def m_measure(self, it, v):
        self.measure_val = v
