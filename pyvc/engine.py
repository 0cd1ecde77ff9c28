"""Verification-condition engine: explores every path of a proof unit.

    python -m pyvc.engine SPEC UNIT [--limit SECONDS]      (prints JSON)
"""
import argparse
import ast
import faulthandler
import json
import os
import random
import sys
import threading
import time
import traceback

import z3

from .core import Ctx, ctx, Stats, Unsupported, PathEnd, ObligationFailed
from . import strings as S
from .strings import Rope, BRope, Atom, Join, CharSet, ANY, mk, norm, pieces_of, is_str
from .values import (SInt, SReal, zreal, SBV, SBool, PClass, PObj, PFunc, Native, Bound, PModule, PyExc, Model, Opaque,
                     PList, PDict, PSet, mkint, mkbool, zint)
from .seqs import Seq, Seg, Img
from . import interp as I
from . import models
from .interp import Interp, truth, py_eq
from . import smtstr
from .match import desugar

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_ast_cache = {}


def _parse(path):
    if path not in _ast_cache:
        with open(path, encoding='utf-8') as f:
            _ast_cache[path] = desugar(ast.parse(f.read(), path))
    return _ast_cache[path]


def loader(name):
    "(path, AST, package) of an interpreted module, None for modelled ones"
    if name == 'abl' or name.startswith('abl.vpath'):
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base):
            if name in ('abl', 'abl.vpath', 'abl.vpath.base'):
                init = os.path.join(base, '__init__.py')
                if name == 'abl.vpath.base':
                    return init, _parse(init), name
                return init, ast.parse(''), name
            return None
        if os.path.exists(base + '.py'):
            if name.endswith('._version'):
                return base + '.py', ast.parse('def get_versions():\n    return {"version": "0"}\n'), 'abl.vpath.base'
            return base + '.py', _parse(base + '.py'), name.rpartition('.')[0]
        return None
    path = os.path.join(HERE, 'specs', name.split('.')[-1] + '.py')
    if name.startswith('specs.') or '.' not in name and (name == 'common' or name.endswith('lib')) and os.path.exists(path):
        return path, _parse(path), 'specs'
    return None


def entry_points():
    import re
    text = open(os.path.join(REPO, 'pyproject.toml')).read()
    m = re.search(r'\[project\.entry-points\."abl\.vpath\.plugins"\]\n((?:[^\[\n].*\n|\n)*)', text)
    return re.findall(r'=\s*"([\w.]+):(\w+)"', m.group(1)) if m else []


# -- the primitives of specifications -------------------------------------------------

class Done(Exception):
    pass


def make_pv(it):
    d = {}

    def prim(f):
        d[f.__name__] = Native('pv.' + f.__name__, lambda it, a, k: f(*a, **k))
        return f

    def declare(name, kind, value):
        ctx().inputs.append((name, kind, value))
        return value

    @prim
    def string(name, exclude='', only=None, minlen=0, nosub=(), char=False, notin=()):
        cs = ANY if only is None else CharSet(only)
        cs = cs.minus(CharSet(exclude))
        at = Atom(name, cs, minlen, char=char, nosub=nosub)
        at.neq = frozenset(notin)
        return declare(name, 'str', mk([at]))

    @prim
    def strings(name, exclude='', only=None, minlen=0, least=0, most=None, distinct=False, ordered=False, notin=()):
        c = ctx()
        cs = (ANY if only is None else CharSet(only)).minus(CharSet(exclude))
        def element(nm):
            at = Atom(nm, cs, minlen)
            at.neq = frozenset(at.neq) | frozenset(notin)
            return mk([at])
        sq = Seq(name, element, elem_cs=cs, elem_min=minlen,
                 distinct=distinct, sorted_=ordered)
        c.assume_z3(sq.length >= least)
        if most is not None:
            c.assume_z3(sq.length <= most)
        v = PList([Seg(sq)])
        declare(name, 'strs', PList([Seg(sq)]))
        return v

    @prim
    def objects(name, make, least=0, distinct=True):
        "an unknown number of objects, each built by make(name)"
        sq = Seq(name, lambda nm: it.call(make, [nm]))
        ctx().assume_z3(sq.length >= least)
        return PList([Seg(sq)])

    @prim
    def content(name):
        v = BRope(mk([Atom(name, CharSet([chr(i) for i in range(256)]))]))
        return declare(name, 'bytes', v)

    @prim
    def choose(name, *alts):
        n = ctx().choose(len(alts), name)
        declare(name, 'choice', n)
        return alts[n]

    @prim
    def integer(name, lo=None, hi=None):
        c = ctx()
        t = z3.Int(c.fresh(name))
        if lo is not None:
            c.assume_z3(t >= zint(lo))
        if hi is not None:
            c.assume_z3(t <= zint(hi))
        return declare(name, 'int', SInt(t))

    @prim
    def number(name, lo=None, hi=None):
        "like integer, but need not be whole"
        c = ctx()
        t = z3.Real(c.fresh(name))
        if lo is not None:
            c.assume_z3(t >= zreal(lo))
        if hi is not None:
            c.assume_z3(t <= zreal(hi))
        return declare(name, 'real', SReal(t))

    @prim
    def bits(name):
        c = ctx()
        t = z3.BitVec(c.fresh(name), SBV.WIDTH)
        c.assume_z3(z3.ULT(t, 1 << 16))
        return declare(name, 'int', SBV(t))

    @prim
    def boolean(name):
        return declare(name, 'bool', SBool(z3.Bool(ctx().fresh(name))))

    @prim
    def opaque(name):
        return declare(name, 'opaque', Opaque(ctx().fresh(name)))

    @prim
    def assume(cond):
        if isinstance(cond, SBool):
            c = ctx()
            c.assume_z3(cond.t)
            if c.check() == z3.unsat:
                raise PathEnd('assumed')
            return
        if not truth(cond):
            raise PathEnd('assumed')

    @prim
    def ensure(label, cond, detail=None):
        record(label, cond, detail)

    @prim
    def unreachable(label, detail=None):
        record(label, False, detail)

    @prim
    def attributes(o):
        "the attributes an object has of its own: [(name, value)]"
        return PList([(n, v) for n, v in o.d.items()])

    @prim
    def same(a, b):
        r = it.is_(a, b)
        return r

    @prim
    def cover(label):
        ctx().cover(label)

    @prim
    def outcome(fn, *a, **k):
        try:
            return ('return', it.call(fn, list(a), k))
        except PyExc as e:
            return ('raise', e.obj)

    @prim
    def repo(name):
        return it.import_module('abl.vpath.base' + ('.' + name if name else ''))

    @prim
    def external(name, fn):
        it.ext[name] = fn

    @prim
    def contract(qualname, fn):
        it.contracts[qualname] = lambda it, f, a, k: it.call(fn, a, k)

    @prim
    def real(fn, *a, **k):
        "run the body of a function that has a contract"
        f = fn
        args = list(a)
        if isinstance(f, Bound):
            args.insert(0, f.self)
            f = f.func
        f = getattr(f, 'wrapped', f)
        return it.run_body(f, args, k)

    @prim
    def undecorated(fn):
        f = fn.func if isinstance(fn, Bound) else fn
        return getattr(f, 'wrapped', f)

    @prim
    def invariant(qualname, idx, fn):
        it.loopspecs.setdefault(qualname, {})[idx] = fn

    @prim
    def obj(cls, **attrs):
        o = I.born(PObj(cls))
        o.d.update(attrs)
        return o

    @prim
    def emit(*ev):
        models.event(it, *ev)

    @prim
    def trace():
        I.check_readable(it.trace)
        return PList(list(it.trace.items))

    @prim
    def channels(*names):
        for n in names:
            it.channels[n] = PList()

    @prim
    def emit_to(channel, *ev):
        if channel not in it.channels:
            raise Unsupported('channel %s' % channel)
        I.add_item(it.channels[channel], tuple(ev))

    @prim
    def events(channel):
        I.check_readable(it.channels[channel])
        return PList(list(it.channels[channel].items))

    @prim
    def same_events(a, b):
        "equal up to the order of what comes from different collections"
        return I.events_eq(a, b)

    @prim
    def visits(items, enter, leave):
        return I.Visits(items, enter, leave)

    @prim
    def predicate(name, *args):
        "an unknown but fixed property of its arguments"
        m = ctx().memo.setdefault('predicates', {}).setdefault(name, [])
        for b, v in m:
            if len(b) == len(args) and all(x is y or is_str(x) and is_str(y) and S._same_arg(x, y) for x, y in zip(b, args)):
                return v
        v = SBool(z3.Bool(ctx().fresh(name)))
        m.append((args, v))
        return v

    @prim
    def text_of(name, *args, exclude='', minlen=0):
        "an unknown text that depends on the arguments only"
        return S.fn_atom(name, list(args), ANY.minus(CharSet(exclude)), minlen)

    @prim
    def attr(o, name, *default):
        return models.b_getattr(it, o, name, *default)

    @prim
    def havoc(kind, name):
        raise Unsupported('havoc')

    @prim
    def implies(a, b):
        if not truth(a):
            return True
        return truth(b)

    @prim
    def logical_not(a):
        return mkbool(z3.Not(a.t)) if isinstance(a, SBool) else not truth(a)

    @prim
    def exception(name, *args):
        return I.make_exc(name, *args)

    @prim
    def lock(name, locked=None):
        return models.Lock(name, locked)

    @prim
    def pick(*alts):
        "an unnamed decision of the environment"
        return alts[ctx().choose(len(alts), 'env')]

    @prim
    def fresh_string(name, exclude='', only=None, minlen=0):
        cs = (ANY if only is None else CharSet(only)).minus(CharSet(exclude))
        return mk([Atom(name, cs, minlen)])

    @prim
    def fresh_bytes(name, minlen=0, exclude=b''):
        return BRope(mk([Atom(name, CharSet([chr(i) for i in range(256) if i not in exclude]), minlen)]))

    @prim
    def fresh_int(name, lo=None, hi=None):
        c = ctx()
        t = z3.Int(c.fresh(name))
        if lo is not None:
            c.assume_z3(t >= zint(lo))
        if hi is not None:
            c.assume_z3(t <= zint(hi))
        return SInt(t)

    @prim
    def fresh_number(name, lo=None, hi=None):
        c = ctx()
        t = z3.Real(c.fresh(name))
        if lo is not None:
            c.assume_z3(t >= zreal(lo))
        if hi is not None:
            c.assume_z3(t <= zreal(hi))
        return SReal(t)

    @prim
    def fresh_bool(name):
        return SBool(z3.Bool(ctx().fresh(name)))

    @prim
    def fresh(name):
        return Opaque(ctx().fresh(name))

    @prim
    def native_text(v):
        return repr(v)

    @prim
    def generic(lst):
        "an arbitrary element of a list (with its index)"
        items = it.raw_items(lst)
        if not items:
            raise PathEnd('empty')
        x = items[ctx().choose(len(items), 'which part')]
        if isinstance(x, (Seg, Img)):
            v, key = x.generic()
            I.instantiate_for(x, key)
            return v
        return x

    def record(label, cond, detail):
        c = ctx()
        st = c.stats
        if c.memo.get('quiet'):
            if not truth(cond):
                raise PathEnd('obligation of the general iteration')
            return
        if isinstance(cond, SBool):
            if c.valid(cond.t):
                st.oblig(label, 'z3', True)
                return
        pos = len(c.taken)
        ok = truth(cond)
        if ok:
            st.oblig(label, 'symbolic execution' if cond is True else 'z3', True)
            return
        if detail is not None and not isinstance(detail, str):
            detail = show(detail)
        raise ObligationFailed(label, detail or '')

    it.record = record
    d['SYMBOLIC'] = True
    d['THOROUGH'] = os.environ.get('VERIF_TIER') == 'thorough'
    return PModule('pv', d)


def show(v):
    try:
        if isinstance(v, tuple):
            return '(%s)' % ', '.join(show(x) for x in v)
        if isinstance(v, PList):
            return '[%s]' % ', '.join(show(x) for x in v.items)
        if isinstance(v, PObj):
            if v.cls.issub(I.BASEEXC):
                return '%s%s' % (v.cls.name, show(v.d.get('args')))
            return '<%s %s>' % (v.cls.name, {k: (x if isinstance(x, (str, Rope, int)) else type(x).__name__)
                                            for k, x in v.d.items()})
        return repr(v)
    except Exception as e:       # only for messages
        return '<%s>' % type(v).__name__


# -- concretisation -----------------------------------------------------------------------

def concretise(c, rng, tries=12):
    "candidate input assignments for the current path"
    out = []
    for k in range(tries):
        m = None
        if c.check() == z3.sat:
            m = c.solver.model()
        vals = {}
        cache = {}

        def num(t):
            if m is None:
                return 1
            v = m.eval(t, model_completion=True)
            return v.as_long()

        def text(pieces):
            r = ''
            for p in norm(pieces):
                if isinstance(p, str):
                    r += p
                elif isinstance(p, Atom):
                    if p.n not in cache:
                        cache[p.n] = sample(p)
                    r += cache[p.n]
                elif isinstance(p, Join):
                    lo, hi = num(p.lo), num(p.hi)
                    r += p.sep.join(elem(p.seq, i) for i in range(lo, min(hi, lo + 6)))
            return r

        def sample(a):
            chars = a.cs.sample() or ['a']
            if k == 0:
                chars = [x for x in 'abcdefgh' if a.cs.has(x)] or chars
            n = 1 if a.char else None
            if n is None and a._len is not None:
                n = num(a._len)
            if n is None:
                n = a.minlen + (k % 3 if k else (1 if not a.minlen else 0))
            n = max(n, a.minlen)
            s = ''
            for _ in range(20):
                s = ''.join(rng.choice(chars[:8] if rng.random() < .5 else chars) for _ in range(n))
                if any(x in s for x in a.nosub) or s in a.neq:
                    continue
                break
            return s

        def elem(seq, i):
            for j, v in seq.memo:
                if num(j) == i:
                    return text(pieces_of(v))
            key = (id(seq), i)
            if key not in cache:
                cs = seq.elem_cs
                cache[key] = rng.choice([x for x in 'abcdefgh' if cs.has(x)] or cs.sample())
                if seq.distinct:
                    cache[key] += str(i)
            return cache[key]
        try:
            for name, kind, v in c.inputs:
                if kind == 'str':
                    vals[name] = text(pieces_of(v))
                elif kind == 'bytes':
                    vals[name] = text(pieces_of(models.brope(v)))
                elif kind == 'strs':
                    s = v.items[0]
                    n = num(s.seq.length)
                    vals[name] = [elem(s.seq, i) for i in range(min(n, 6))]
                elif kind == 'choice':
                    vals.setdefault('choose ' + name, []).append(v)
                elif kind == 'int':
                    vals[name] = v if isinstance(v, int) else num(v.t)
                elif kind == 'real':
                    r = None if m is None else m.eval(v.t, model_completion=True)
                    vals[name] = float(r.as_fraction()) if r is not None and z3.is_rational_value(r) else 0.0
                elif kind == 'bool':
                    vals[name] = (v if isinstance(v, bool) else
                                  bool(m is not None and z3.is_true(m.eval(v.t, model_completion=True))))
        except Exception:
            continue
        if vals not in out:
            out.append(vals)
    return out


# -- exploration ----------------------------------------------------------------------------

def run_path(spec, unit, stats, prefix):
    c = Ctx(stats, prefix)
    Ctx.cur = c
    it = Interp(loader)
    it.ext = {}
    it.entry_points = entry_points()
    it.modules['pv'] = make_pv(it)
    status, info = 'ok', None
    try:
        m = it.import_module('specs.' + spec)
        f = m.d[unit]
        it.call(f, [])
    except PathEnd:
        status = 'end'
    except ObligationFailed as e:
        status, info = 'fail', e
    except PyExc as e:
        status = 'fail'
        info = ObligationFailed('no unexpected exception', show(e.obj))
    except RecursionError as e:
        status, info = 'unsupported', Unsupported('recursion')
    except Unsupported as e:
        status, info = 'unsupported', e
        if os.environ.get('PYVC_TB'):
            traceback.print_exc()
    for g in it.gens:
        g.dispose()
    return c, status, info


def explore(spec, unit, limit=200.0, stop=4, verbose=False):
    stats = Stats()
    stack = [()]
    t0 = time.time()
    res = {'unit': unit, 'failures': [], 'unsupported': [], 'complete': True}
    rng = random.Random(1)
    while stack:
        if time.time() - t0 > limit:
            res['complete'] = False
            res['unsupported'].append('time limit of %d s reached with %d paths open' % (limit, len(stack)))
            break
        prefix = stack.pop()
        c, status, info = run_path(spec, unit, stats, prefix)
        stats.paths += 1
        stack.extend(c.alts)
        if verbose:
            print(status, info or '', '|', ' '.join(c.log)[-300:], file=sys.stderr)
        if status == 'end':
            stats.pruned += 1
        elif status in ('fail', 'unsupported'):
            verdict = smtstr.feasible(c)
            if verdict == 'unsat':
                if status == 'fail':
                    stats.oblig(info.name, 'string solver (infeasible path)', True)
                else:
                    stats.pruned += 1
                continue
            if status == 'fail':
                stats.oblig(info.name, '', False)
                res['failures'].append({'obligation': info.name, 'detail': str(info.detail)[:600],
                                        'path': ' '.join(c.log)[-800:], 'feasible': verdict,
                                        'inputs': concretise(c, rng),
                                        'residual': [repr(x) for x in c.strc][:6]})
            else:
                res['unsupported'].append(str(info))
                res.setdefault('candidates', []).extend(concretise(c, rng, 3))
            if len(res['failures']) + len(res['unsupported']) >= stop:
                res['complete'] = False
                break
    if res['complete'] and not res['failures'] and not res['unsupported']:
        for name, (begun, compared) in stats.pointwise.items():
            if begun and not compared:
                res['unsupported'].append('no comparison of elements of %s comes to an end' % name)
    res.update({'paths': stats.paths, 'pruned': stats.pruned, 'obligations': stats.obligations,
                'backend': stats.backend, 'solver_s': round(stats.solver_s, 3), 'queries': stats.queries,
                'functions': stats.functions, 'contracts': sorted(stats.contracts),
                'loops': sorted(stats.loops), 'trusted': sorted(stats.trusted), 'covers': stats.covers,
                'seconds': round(time.time() - t0, 2)})
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('spec')
    ap.add_argument('unit')
    ap.add_argument('--limit', type=float, default=200.0)
    ap.add_argument('--stop', type=int, default=4)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    out = {}

    def work():
        try:
            out.update(explore(a.spec, a.unit, a.limit, a.stop, a.v))
        except BaseException:
            out.update({'unit': a.unit, 'crash': traceback.format_exc()})
    t = threading.Thread(target=work)
    t.start()
    t.join()
    json.dump(out, sys.stdout)
    sys.stdout.write('\n')
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
