"""Feasibility of a path for the string solvers: the residual string constraints,
the facts on atoms and the integer conditions are handed to z3 and cvc5.  Unknown
parts are left unconstrained, so that `unsat` is sound."""
import os
import subprocess
import tempfile
import time
import z3
from .core import ctx
from .strings import Atom, Join, norm


def member(x, cs):
    if cs.neg:
        return [z3.Not(z3.Contains(x, z3.StringVal(ch))) for ch in sorted(cs.chars)]
    if not cs.chars:
        return [x == z3.StringVal('')]
    alts = [z3.Re(z3.StringVal(ch)) for ch in sorted(cs.chars)]
    return [z3.InRe(x, z3.Star(z3.Union(*alts) if len(alts) > 1 else alts[0]))]


def feasible(c):
    "'unsat', 'sat' or 'unknown'"
    if c.check() == z3.unsat:
        return 'unsat'
    if not c.strc and not any(a.neq or a.notend or a.notstart or a.nosub or a.uneq for a in c.atoms if a.subst is None):
        return 'unknown'
    svars = {}
    cons = []

    def var(a):
        if a.n not in svars:
            x = z3.String('a%d' % a.n)
            svars[a.n] = x
            cons.extend(member(x, a.cs))
            if a.minlen:
                cons.append(z3.Length(x) >= a.minlen)
            if a.char:
                cons.append(z3.Length(x) == 1)
            if a._len is not None:
                cons.append(z3.Length(x) == a._len)
            for lit in a.nosub:
                cons.append(z3.Not(z3.Contains(x, z3.StringVal(lit))))
            for lit in a.neq:
                cons.append(x != z3.StringVal(lit))
            for lit in a.notend:
                cons.append(z3.Not(z3.SuffixOf(z3.StringVal(lit), x)))
            for lit in a.notstart:
                cons.append(z3.Not(z3.PrefixOf(z3.StringVal(lit), x)))
            for o in a.uneq:
                cons.append(x != term([o]))
        return svars[a.n]

    joins = []

    def term(p):
        out = []
        for q in norm(p):
            if isinstance(q, str):
                out.append(z3.StringVal(q))
            elif isinstance(q, Atom):
                out.append(var(q))
            elif isinstance(q, Join):
                for j, x in joins:
                    if j == q:
                        break
                else:
                    x = z3.String('j%d' % len(joins))
                    joins.append((q, x))
                    cons.extend(member(x, q.cs))
                out.append(x)
        if not out:
            return z3.StringVal('')
        return out[0] if len(out) == 1 else z3.Concat(*out)

    try:
        for con in c.strc:
            if con[0] == 'nosub':
                cons.append(z3.Not(z3.Contains(term(con[1]), z3.StringVal(con[2]))))
            elif con[0] == 'neq':
                cons.append(term(con[1]) != term(con[2]))
            elif con[0] == 'eq':
                cons.append(term(con[1]) == term(con[2]))
            elif con[0] == 'minlen':
                cons.append(z3.Length(term(con[1])) >= con[2])
            elif con[0] == 'notend':
                cons.append(z3.Not(z3.SuffixOf(z3.StringVal(con[2]), term(con[1]))))
            elif con[0] == 'notstart':
                cons.append(z3.Not(z3.PrefixOf(z3.StringVal(con[2]), term(con[1]))))
        for a in c.atoms:
            if a.subst is None:
                var(a)
    except Exception:
        return 'unknown'
    t = time.time()
    # lengths and numbers alone
    s = z3.Solver()
    s.set('timeout', 2000)
    s.add(*c.pc)
    s.add(*[a._len >= a.minlen for a in c.atoms if a._len is not None and a.subst is None])
    if s.check() == z3.unsat:
        c.stats.queries += 1
        c.stats.solver_s += time.time() - t
        return 'unsat'
    s = z3.Solver()
    s.set('timeout', 4000)
    s.add(*c.pc)
    s.add(*cons)
    r = s.check()
    c.stats.queries += 1
    c.stats.solver_s += time.time() - t
    if r == z3.unsat:
        return 'unsat'
    if r == z3.sat:
        return 'sat'
    t = time.time()
    try:
        text = '(set-logic ALL)\n' + s.sexpr() + '\n(check-sat)\n'
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(text)
        p = subprocess.run(['cvc5', '--strings-exp', '--tlimit=8000', f.name], capture_output=True, text=True)
        os.unlink(f.name)
        out = p.stdout.strip().splitlines()
        c.stats.queries += 1
        c.stats.solver_s += time.time() - t
        if out and out[-1] in ('sat', 'unsat'):
            return out[-1]
    except Exception:
        pass
    return 'unknown'
