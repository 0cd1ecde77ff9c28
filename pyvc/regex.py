"""Regular expression matching over ropes (the deterministic subset)."""
import functools
import re
try:
    import re._parser as sre_parse
    import re._constants as sc
except ImportError:                                       # pragma: no cover
    import sre_parse
    import sre_constants as sc
from .core import Unsupported
from .strings import (CharSet, ANY, norm, cut_at, find_sub, first_char, char_in, mk, pieces_of,
                      len_z3, min_len, may_start, at_least)

NL = CharSet('\n')


def charset(node):
    op, av = node
    if op is sc.LITERAL:
        return CharSet(chr(av))
    if op is sc.NOT_LITERAL:
        return CharSet(chr(av), True)
    if op is sc.ANY:
        return NL.compl()
    if op is sc.IN:
        neg = False
        out = CharSet('')
        for o, a in av:
            if o is sc.NEGATE:
                neg = True
            elif o is sc.LITERAL:
                out = out.union(CharSet(chr(a)))
            elif o is sc.RANGE:
                out = out.union(CharSet([chr(c) for c in range(a[0], a[1] + 1)]))
            elif o is sc.CATEGORY and a is sc.CATEGORY_DIGIT:
                out = out.union(CharSet('0123456789'))
            else:
                raise Unsupported('regular expression class %s %s' % (o, a))
        return out.compl() if neg else out
    return None


class State(object):
    def __init__(self, before, rest, groups, open_):
        self.before, self.rest, self.groups, self.open = before, rest, groups, open_

    def consume(self, taken, rest):
        g = {k: (s, norm(p + taken), d) if k in self.open else (s, p, d)
             for k, (s, p, d) in self.groups.items()}
        return State(norm(self.before + taken), rest, g, self.open)


def first_set(nodes):
    "characters that can start a match of nodes; None: may be empty or unknown"
    out = CharSet('')
    for node in nodes:
        op, av = node
        cs = charset(node)
        if cs is not None:
            return out.union(cs)
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            f = first_set(list(sub))
            if f is None:
                return None
            out = out.union(f)
            if lo:
                return out
            continue
        if op is sc.SUBPATTERN:
            f = first_set(list(av[3]))
            if f is None:
                return None
            return out.union(f)
        return None
    return None


def run(nodes, st, k, after):
    """match nodes then continue with k; `after` are the nodes matched by k
    (None: unknown), used to decide whether backtracking could help"""
    if not nodes:
        return k(st)
    node, rest_nodes = nodes[0], nodes[1:]
    op, av = node
    cs = charset(node)
    follow = None if after is None else list(rest_nodes) + list(after)
    if cs is not None:
        fc = first_char(st.rest, cs)
        if fc is None:
            return None
        ch, rest = fc
        if not (cs.has(ch) if isinstance(ch, str) else char_in(ch, cs)):
            return None
        return run(rest_nodes, st.consume(norm([ch]), norm(rest)), k, after)
    if op is sc.AT:
        if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            if st.before and min_len(st.before):
                return None
            return run(rest_nodes, st, k, after)
        if av is sc.AT_END_STRING or av is sc.AT_END:
            if not norm(st.rest):
                return run(rest_nodes, st, k, after)
            if av is sc.AT_END:
                raise Unsupported('$ in a regular expression')
            return None if at_least(st.rest, 1) else run(rest_nodes, st, k, after)
        raise Unsupported('regular expression anchor')
    if op is sc.SUBPATTERN:
        gid, _, _, sub = av
        if gid is None:
            return run(list(sub) + list(rest_nodes), st, k, after)
        g = dict(st.groups)
        g[gid] = (list(st.before), [], True)
        st2 = State(st.before, st.rest, g, st.open | {gid})

        def close(s):
            s2 = State(s.before, s.rest, s.groups, s.open - {gid})
            return run(rest_nodes, s2, k, after)
        return run(list(sub), st2, close, follow)
    if op is sc.BRANCH:
        for alt in av[1]:
            r = run(list(alt) + list(rest_nodes), st, k, after)
            if r is not None:
                return r
        return None
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
        lo, hi, sub = av
        sub = list(sub)
        body = charset(sub[0]) if len(sub) == 1 else None
        inf = hi is sc.MAXREPEAT
        if op is sc.MAX_REPEAT and lo == 0 and hi == 1:
            def nonempty(s):
                return run(rest_nodes, s, k, after)
            r = run(sub, st, nonempty, follow)
            if r is not None:
                return r
            return run(rest_nodes, st, k, after)
        if body is not None and inf and op is sc.MAX_REPEAT and lo <= 1:
            r = cut_at(st.rest, body.compl())
            if r is None:
                taken, rest = norm(st.rest), []
            else:
                taken, rest = r[0], norm([r[1]] + r[2])
            if lo and not at_least(taken, 1):
                return None
            taken, rest = norm(taken), norm(rest)
            res = run(rest_nodes, st.consume(taken, rest), k, after)
            if res is not None:
                return res
            # shorter matches: the next thing would have to start in `body`
            if follow is not None:
                f = first_set(follow)
                if f is not None and f.inter(body).empty():
                    return None
            taken = norm(taken)
            if all(isinstance(p, str) for p in taken):
                s = ''.join(taken)
                for n in range(len(s) - 1, lo - 1, -1):
                    res = run(rest_nodes, st.consume(norm([s[:n]]), norm([s[n:]] + rest)), k, after)
                    if res is not None:
                        return res
                return None
            raise Unsupported('regular expression needs backtracking')
        if body is not None and inf and op is sc.MIN_REPEAT and lo == 0:
            # leading literal of what follows
            lit = ''
            for n in rest_nodes:
                if n[0] is sc.LITERAL:
                    lit += chr(n[1])
                else:
                    break
            if not lit:
                raise Unsupported('lazy repetition')
            r = find_sub(st.rest, lit)
            if r is None:
                return None
            before, rest = r
            if cut_at(before, body.compl()) is not None:
                return None
            s2 = st.consume(norm(before), norm([lit] + norm(rest)))
            res = run(rest_nodes, s2, k, after)
            if res is None:
                raise Unsupported('lazy repetition needs backtracking')
            return res
        if body is not None and not inf and hi <= 8:
            if op is sc.MAX_REPEAT:
                for n in range(hi, lo - 1, -1):
                    r = run(sub * n + list(rest_nodes), st, k, after)
                    if r is not None:
                        return r
                return None
        raise Unsupported('regular expression repetition')
    raise Unsupported('regular expression %s' % (op,))


class SymMatch(object):
    def __init__(self, st, ngroups, names):
        self.st = st
        self.ngroups = ngroups
        self.names = names

    def group(self, i=0):
        if isinstance(i, str):
            i = self.names[i]
        if i == 0:
            return mk(self.st.before)
        g = self.st.groups.get(i)
        return None if g is None else mk(g[1])

    def groups(self, default=None):
        return tuple(default if self.group(i) is None else self.group(i) for i in range(1, self.ngroups + 1))

    def start(self, i=0):
        if i == 0:
            return 0
        g = self.st.groups.get(i)
        return -1 if g is None else ('len', norm(g[0]))

    def end(self, i=0):
        if i == 0:
            return ('len', norm(self.st.before))
        g = self.st.groups.get(i)
        return -1 if g is None else ('len', norm(g[0] + g[1]))


@functools.lru_cache(None)
def parse(pattern, flags):
    return sre_parse.parse(pattern, flags)


def match(pattern, flags, value, full=False):
    if flags & ~re.UNICODE:
        raise Unsupported('regular expression flags')
    tree = parse(pattern, flags)
    nodes = list(tree)
    if full:
        nodes.append((sc.AT, sc.AT_END_STRING))
    st = State([], norm(pieces_of(value)), {}, frozenset())
    r = run(nodes, st, lambda s: s, [])
    if r is None:
        return None
    return SymMatch(r, tree.state.groups - 1, dict(tree.state.groupdict))
