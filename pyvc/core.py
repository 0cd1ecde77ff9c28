"""Path state of the verifier: decisions, path condition, obligations.

A proof unit is executed once per path.  Every decision that the program (or
the specification) takes on a symbolic value goes through `Ctx.choose`, whose
alternatives are exhaustive, so that the set of executed paths covers all
inputs.  Paths are enumerated by re-execution.
"""
import time
import z3

z3.set_param('smt.random_seed', 1)


class Unsupported(Exception):
    "the program leaves the subset the verifier understands: fail closed"


class PathEnd(Exception):
    "the current path is infeasible or finished by the proof rule"


class ObligationFailed(Exception):
    def __init__(self, name, detail, status='failed'):
        Exception.__init__(self, name)
        self.name = name
        self.detail = detail
        self.status = status


class Stats(object):
    def __init__(self):
        self.paths = 0
        self.pruned = 0
        self.obligations = {}        # name -> [generated, discharged]
        self.backend = {}            # backend -> obligations
        self.solver_s = 0.0
        self.queries = 0
        self.failed = []             # (name, detail, status, inputs)
        self.functions = {}          # functions of /repo executed symbolically
        self.covers = {}
        self.trusted = set()
        self.contracts = set()
        self.loops = set()
        self.pointwise = {}

    def oblig(self, name, backend, ok):
        g = self.obligations.setdefault(name, [0, 0])
        g[0] += 1
        if ok:
            g[1] += 1
            self.backend[backend] = self.backend.get(backend, 0) + 1


class Ctx(object):
    """state of one path"""

    cur = None

    def __init__(self, stats, prefix=(), max_choices=4000):
        self.stats = stats
        self.prefix = list(prefix)
        self.taken = []
        self.alts = []               # prefixes still to be explored
        self.solver = z3.Solver()
        self.solver.set('timeout', 10000)
        self.pc = []                 # z3 conditions (ints, bools, bit vectors)
        self.strc = []               # residual string constraints
        self.atoms = []              # all string atoms in creation order
        self.inputs = []             # (name, kind, value) declared by the unit
        self.counter = {}
        self.memo = {}
        self.log = []
        self.max_choices = max_choices
        self.replay_mode = False
        self.implied_cache = {}

    # -- naming -----------------------------------------------------------
    def fresh(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return '%s!%d' % (base, n) if n else base

    # -- decisions ----------------------------------------------------------
    def choose(self, n, label=''):
        if n == 1:
            return 0
        pos = len(self.taken)
        if pos >= self.max_choices:
            raise Unsupported('more than %d decisions on one path (%s)' % (self.max_choices, label))
        if pos < len(self.prefix):
            c = self.prefix[pos]
        else:
            c = 0
            for alt in range(n - 1, 0, -1):
                self.alts.append(self.taken + [alt])
        self.taken.append(c)
        if label:
            self.log.append('%s=%d/%d' % (label, c, n))
        return c

    # -- integer / boolean conditions ------------------------------------------
    def check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        return r

    def assume_z3(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathEnd('infeasible')
        self.pc.append(cond)
        self.solver.add(cond)
        self.implied_cache = {}

    def valid(self, cond):
        "True only if the path condition implies cond"
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return self.check() == z3.unsat
        key = cond.get_id()
        hit = self.implied_cache.get(key)
        if hit is not None:
            return hit[0]
        r = self.check(z3.Not(cond)) == z3.unsat
        self.implied_cache[key] = (r, cond)
        return r

    def branch_z3(self, cond, label='if'):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.valid(cond):
            return True
        if self.valid(z3.Not(cond)):
            return False
        if self.choose(2, label) == 0:
            self.assume_z3(cond)
            return True
        self.assume_z3(z3.Not(cond))
        return False

    # -- obligations -----------------------------------------------------------
    def cover(self, name):
        self.stats.covers[name] = self.stats.covers.get(name, 0) + 1


def ctx():
    return Ctx.cur
