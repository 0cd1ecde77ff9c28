"""Values of the interpreted program that are not plain Python values."""
import z3
from .core import ctx, Unsupported
from .heap import epoch


class SInt(object):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SInt(%s)' % self.t

    __hash__ = None


class SReal(object):
    "a number that need not be whole; exact, unlike a machine float"
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SReal(%s)' % self.t

    __hash__ = None


class SBV(object):
    "an integer treated as bit vector (modes): non-negative, WIDTH bits"
    WIDTH = 32
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SBV(%s)' % self.t

    __hash__ = None


class SBool(object):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SBool(%s)' % self.t

    __hash__ = None


def mkint(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t)


def mkreal(t):
    return SReal(z3.simplify(t))


def zreal(v):
    if isinstance(v, SReal):
        return v.t
    if isinstance(v, SInt):
        return z3.ToReal(v.t)
    if isinstance(v, (bool, int)):
        return z3.RealVal(int(v))
    if isinstance(v, float) and v == v and abs(v) != float('inf'):
        n, d = v.as_integer_ratio()
        return z3.RealVal(n) / z3.RealVal(d) if d != 1 else z3.RealVal(n)
    raise Unsupported('not a real number: %r' % (v,))


def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def zint(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, SInt):
        return v.t
    raise Unsupported('not an integer: %r' % (v,))


class PClass(object):
    def __init__(self, name, bases, d, module=None):
        self.name = name
        self.bases = list(bases)
        self.d = d
        self.module = module
        self.mro = self._mro()

    def _mro(self):
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        out = [self]
        while any(seqs):
            seqs = [s for s in seqs if s]
            for s in seqs:
                cand = s[0]
                if not any(cand in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported('inconsistent mro')
            out.append(cand)
            for s in seqs:
                if s[0] is cand:
                    del s[0]
        return out

    def lookup(self, name):
        for c in self.mro:
            if name in c.d:
                return c.d[name]
        raise KeyError(name)

    def has(self, name):
        return any(name in c.d for c in self.mro)

    def issub(self, other):
        return other in self.mro

    def __repr__(self):
        return '<class %s>' % self.name


class PObj(object):
    def __init__(self, cls):
        self.cls = cls
        self.d = {}
        self.birth = epoch[0]

    def __repr__(self):
        return '<%s object>' % self.cls.name


class PFunc(object):
    def __init__(self, name, node, module, frame, defaults, kwdefaults, qualname):
        self.name = name
        self.node = node
        self.module = module
        self.frame = frame
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.qualname = qualname
        self.owner = None
        self.d = {}
        self.is_gen = None
        self.locals = None

    def __repr__(self):
        return '<function %s>' % self.qualname


class Native(object):
    def __init__(self, name, fn, bind=False):
        self.name = name
        self.fn = fn
        self.bind = bind      # bound as a method when looked up through a class

    def __repr__(self):
        return '<native %s>' % self.name


class Bound(object):
    def __init__(self, func, self_):
        self.func = func
        self.self = self_

    def __repr__(self):
        return '<bound %r>' % (self.func,)


class Prop(object):
    def __init__(self, fget=None, fset=None):
        self.fget, self.fset = fget, fset


class StaticM(object):
    def __init__(self, f):
        self.f = f


class ClassM(object):
    def __init__(self, f):
        self.f = f


class PModule(object):
    def __init__(self, name, d=None, getter=None):
        self.name = name
        self.d = d if d is not None else {}
        self.getter = getter

    def __repr__(self):
        return '<module %s>' % self.name


class PyExc(Exception):
    "an exception of the interpreted program"

    def __init__(self, obj):
        Exception.__init__(self, repr(obj))
        self.obj = obj


class Model(object):
    """base of native models of external objects; override py_* hooks"""
    model_name = 'model'

    def py_getattr(self, it, name):
        m = getattr(self, 'm_' + name, None)
        if m is None:
            raise Unsupported('%s.%s' % (self.model_name, name))
        return Native('%s.%s' % (self.model_name, name), lambda it, args, kw: m(it, *args, **kw))

    def py_setattr(self, it, name, value):
        raise Unsupported('%s.%s = ...' % (self.model_name, name))

    def py_truth(self, it):
        return True

    def py_call(self, it, args, kw):
        raise Unsupported('call of %s' % self.model_name)

    def py_isinstance(self, it, cls):
        return False


class Opaque(Model):
    "a value about which nothing is known but its identity"
    model_name = 'opaque'

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<%s>' % self.name


class PList(object):
    "list; segments of unknown length are Seg elements"
    __slots__ = ('items', 'tag', 'birth')

    def __init__(self, items=()):
        self.items = list(items)
        self.tag = None
        self.birth = epoch[0]

    def __repr__(self):
        return 'PList(%r)' % (self.items,)

    __hash__ = None


class PDict(object):
    "insertion ordered dictionary with symbolic keys"
    __slots__ = ('entries', 'default_factory', 'tag', 'birth')

    def __init__(self, entries=()):
        self.entries = [list(e) for e in entries]
        self.default_factory = None
        self.tag = None
        self.birth = epoch[0]

    def __repr__(self):
        return 'PDict(%r)' % (self.entries,)

    __hash__ = None


class PSet(object):
    __slots__ = ('items', 'frozen', 'tag', 'birth')

    def __init__(self, items=(), frozen=False):
        self.items = list(items)
        self.frozen = frozen
        self.tag = None
        self.birth = epoch[0]

    def __repr__(self):
        return 'PSet(%r)' % (self.items,)

    __hash__ = None
