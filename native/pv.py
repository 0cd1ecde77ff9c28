"""Concrete counterpart of the specification primitives: the contracts of specs/*.py
run as ordinary Python against the real code, with given or drawn values."""
import builtins
import importlib
import os
import random
import sys

SYMBOLIC = False
THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'


class Rejected(BaseException):
    "an assumption does not hold for the drawn values"


class Violated(BaseException):
    def __init__(self, label, detail=''):
        BaseException.__init__(self, label)
        self.label, self.detail = label, detail


class State(object):
    rng = random.Random(1)
    given = None
    drawn = {}
    events = []
    patches = []
    covered = {}
    ensured = 0


S = State()

TOKENS = ['a', 'b', 'ab', 'x.y', '.', '..', '.h', 'a b', 'a+b', '%41', '%2F', '%', '~', '((', '))', '(', ')', '#', '?',
          '/', '//', '\\', ':', '@', '&', '=', '0', '80', 'C', 'c:', 'é', 'A', '-', '_', '\n', ' ', 'http', 'file',
          '__inner_part__', 'memory', '://', "'", '"', ';', ',', '*', '[', ']', '!', '\t', '\u20ac', 'lib', 'zip']


def allowed(text, exclude, only, nosub):
    return (not any(ch in exclude for ch in text) and (only is None or all(ch in only for ch in text))
            and not any(x in text for x in nosub))


def draw_string(exclude='', only=None, minlen=0, nosub=(), char=False):
    r = S.rng
    pool = [t for t in TOKENS if allowed(t, exclude, only, ())]
    if only is not None:
        pool += list(only)[:80]
    for _ in range(200):
        if char:
            t = r.choice(pool)[:1]
        else:
            n = r.choice((0, 1, 1, 1, 1, 2, 2, 3, 4))
            t = ''.join(r.choice(pool) for _ in range(n))
            if r.random() < 0.02:
                t = t * 40
        if len(t) >= minlen and allowed(t, exclude, only, nosub):
            return t
    return ('a' if only is None else list(only)[0]) * max(1, minlen)


def _given(name, draw):
    if S.given is not None and name in S.given:
        v = S.given[name]
    else:
        v = draw()
    S.drawn[name] = v
    return v


def string(name, exclude='', only=None, minlen=0, nosub=(), char=False, notin=()):
    v = _given(name, lambda: draw_string(exclude, only, minlen, nosub, char))
    if len(v) < minlen or v in notin or not allowed(v, exclude, only, nosub) or (char and len(v) != 1):
        raise Rejected(name)
    return v


def strings(name, exclude='', only=None, minlen=0, least=0, most=None, distinct=False, ordered=False, notin=()):
    def draw():
        n = S.rng.choice((0, 0, 1, 1, 2, 2, 3, 4, 6))
        n = max(n, least)
        if most is not None:
            n = min(n, most)
        out = []
        for _ in range(n):
            t = draw_string(exclude, only, minlen)
            if distinct and t in out or t in notin:
                continue
            out.append(t)
        return sorted(out) if ordered else out
    v = list(_given(name, draw))
    if len(v) < least or (most is not None and len(v) > most):
        raise Rejected(name)
    if distinct and len(set(v)) != len(v):
        raise Rejected(name)
    for t in v:
        if len(t) < minlen or t in notin or not allowed(t, exclude, only, ()):
            raise Rejected(name)
    return v


def objects(name, make, least=0, distinct=True):
    return [make('%s%d' % (name, i)) for i in range(max(least, S.rng.choice((0, 1, 2, 3))))]


def content(name):
    v = _given(name, lambda: ''.join(S.rng.choice(('a', 'b\n', '\n', '\r\n', '\x00', '\xff', '\xc3\xa9', 'xyz' * 50, ''))
                                     for _ in range(S.rng.choice((0, 1, 2, 5)))))
    return v.encode('latin-1')


def choose(name, *alts):
    "the k-th choice of a name is the k-th given for it"
    name = 'choose ' + name
    k = None
    if S.given is not None and name in S.given:
        n = S.chosen.get(name, 0)
        S.chosen[name] = n + 1
        if n < len(S.given[name]):
            k = S.given[name][n]
    if k is None or k >= len(alts):
        k = S.rng.randrange(len(alts))
    S.drawn.setdefault(name, []).append(k)
    return alts[k]


def integer(name, lo=None, hi=None):
    v = _given(name, lambda: S.rng.randint(-5 if lo is None else lo,
                                             (max(lo or 0, 0) + S.rng.choice((3, 100, 100000))) if hi is None else hi))
    if (lo is not None and v < lo) or (hi is not None and v > hi):
        raise Rejected(name)
    return v


def number(name, lo=None, hi=None):
    "like integer, but need not be whole (here: a multiple of 1/64, so that sums are exact)"
    def draw():
        n = S.rng.randint(-5 if lo is None else int(lo), max(int(lo or 0), 0) + S.rng.choice((3, 100, 100000)) if hi is None else int(hi))
        return n + S.rng.choice((0, 0, 0, 1, 32, 63)) / 64.
    v = _given(name, draw)
    if (lo is not None and v < lo) or (hi is not None and v > hi):
        raise Rejected(name)
    return v


def bits(name):
    return _given(name, lambda: S.rng.getrandbits(S.rng.choice((3, 9, 12, 16))))


def boolean(name):
    return _given(name, lambda: S.rng.random() < 0.5)


class Opaque(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<%s>' % self.name


def opaque(name):
    return Opaque(name)


fresh = opaque


def fresh_string(name, **k):
    return draw_string(**k)


def fresh_bytes(name, minlen=0, exclude=b''):
    allowed = [i for i in range(256) if i not in exclude]
    return bytes(S.rng.choice(allowed) for _ in range(S.rng.choice((minlen, minlen + 1, minlen + 7))))


def fresh_int(name, lo=None, hi=None):
    return S.rng.randint(0 if lo is None else lo, 1000 if hi is None else hi)


def fresh_number(name, lo=None, hi=None):
    return fresh_int(name, lo, hi) + (S.rng.choice((0, 0, 0, 1, 32, 63)) / 64. if hi is None or hi > 1 else 0)


def fresh_bool(name):
    return S.rng.random() < 0.5


def pick(*alts):
    return S.rng.choice(alts)


def assume(cond):
    if not cond:
        raise Rejected()


def ensure(label, cond, detail=None):
    S.ensured += 1
    if not cond:
        raise Violated(label, '' if detail is None else repr(detail)[:1500])


def unreachable(label, detail=None):
    raise Violated(label, '' if detail is None else repr(detail)[:1500])


def attributes(o):
    return list(vars(o).items())


def same(a, b):
    return a is b


def cover(label):
    S.covered[label] = S.covered.get(label, 0) + 1


def outcome(fn, *a, **k):
    try:
        return ('return', fn(*a, **k))
    except (Rejected, Violated):
        raise
    except BaseException as e:
        return ('raise', e)


def repo(name):
    return importlib.import_module('abl.vpath.base' + ('.' + name if name else ''))


def external(name, fn):
    if name == '*':
        return
    if '.' not in name:
        holder, attr_ = builtins, name
    else:
        mod, attr_ = name.rsplit('.', 1)
        try:
            holder = importlib.import_module(mod)
        except ImportError:
            m2, cls = mod.rsplit('.', 1)
            holder = getattr(importlib.import_module(m2), cls)
    old = getattr(holder, attr_, None)
    try:
        setattr(holder, attr_, fn)
    except TypeError:
        return          # built-in types stay as they are
    S.patches.append((holder, attr_, old))


def contract(qualname, fn):
    "in concrete runs the real function is used"


def invariant(qualname, idx, fn):
    pass


def real(fn, *a, **k):
    return fn(*a, **k)


def undecorated(fn):
    fn = getattr(fn, '__func__', fn)
    return getattr(fn, '__wrapped__', fn)


def obj(cls, **attrs):
    o = cls.__new__(cls)
    for k, v in attrs.items():
        setattr(o, k, v)
    return o


def emit(*ev):
    S.events.append(tuple(ev))


def trace():
    return list(S.events)


def channels(*names):
    for n in names:
        S.channels[n] = []


def emit_to(channel, *ev):
    S.channels[channel].append(tuple(ev))


def events(channel):
    return list(S.channels[channel])


def same_events(a, b):
    return sorted(map(repr, a)) == sorted(map(repr, b))


def visits(items, enter, leave):
    for e in items:
        v = enter(e)
        yield v
        leave(e, v)


def predicate(name, *args):
    if (name, args) not in S.predicates:
        S.predicates[name, args] = S.rng.random() < 0.5
    return S.predicates[name, args]


def text_of(name, *args, exclude='', minlen=0):
    if (name, args) not in S.predicates:
        S.predicates[name, args] = string(name, exclude=exclude, minlen=minlen)
    return S.predicates[name, args]


def attr(o, name, *default):
    return getattr(o, name, *default)


def implies(a, b):
    return (not a) or b


def logical_not(a):
    return not a


def exception(name, *args):
    return getattr(builtins, name)(*args)


def lock(name, locked=None):
    import threading
    l = threading.Lock()
    if locked:
        l.acquire()
    return l


def generic(lst):
    lst = list(lst)
    if not lst:
        raise Rejected()
    return S.rng.choice(lst)


def native_text(v):
    return repr(v)


def run(fn, given=None, rng=None):
    """('ok' | 'rejected' | 'violated', label, detail, drawn values)"""
    S.given = given
    S.drawn = {}
    S.events = []
    S.channels = {}
    S.chosen = {}
    S.predicates = {}
    S.patches = []
    if rng is not None:
        S.rng = rng
    res = ('ok', '', '')
    try:
        try:
            fn()
        finally:
            for holder, a, old in reversed(S.patches):
                setattr(holder, a, old)
    except Rejected:
        res = ('rejected', '', '')
    except Violated as e:
        res = ('violated', e.label, e.detail)
    except BaseException as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-3:]
        res = ('violated', 'no unexpected exception', '%s: %s (%s)' % (
            type(e).__name__, e, '; '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb)))
    return res + (S.drawn,)
