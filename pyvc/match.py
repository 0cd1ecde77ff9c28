"""match statements as the if statements they stand for

Only patterns whose meaning the interpreter's if has: literals, dotted names,
None/True/False, alternatives, captures, sequences of fixed length and class
patterns by keyword.  Every other pattern stays a match statement, which the
interpreter reports as out of reach.
"""
import ast


class Cannot(Exception):
    pass


def _name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


def _all(tests):
    tests = [t for t in tests if t is not None]
    if not tests:
        return None
    return tests[0] if len(tests) == 1 else ast.BoolOp(ast.And(), tests)


def pattern(p, value):
    "the test of pattern `p` on the expression `value`; None: always true"
    if isinstance(p, ast.MatchValue):
        return ast.Compare(value, [ast.Eq()], [p.value])
    if isinstance(p, ast.MatchSingleton):
        return ast.Compare(value, [ast.Is()], [ast.Constant(p.value)])
    if isinstance(p, ast.MatchOr):
        tests = [pattern(q, value) for q in p.patterns]
        return None if None in tests else ast.BoolOp(ast.Or(), tests)
    if isinstance(p, ast.MatchAs):
        inner = None if p.pattern is None else pattern(p.pattern, value)
        if p.name is None:
            return inner
        bind = ast.BoolOp(ast.Or(), [ast.Compare(ast.NamedExpr(_name(p.name, ast.Store()), value), [ast.Is()], [ast.Constant(None)]),
                                     ast.Constant(True)])
        return _all([inner, bind])
    if isinstance(p, ast.MatchSequence):
        if any(isinstance(q, ast.MatchStar) for q in p.patterns):
            raise Cannot
        tests = [ast.Call(_name('isinstance'), [value, ast.Tuple([_name('tuple'), _name('list')], ast.Load())], []),
                 ast.Compare(ast.Call(_name('len'), [value], []), [ast.Eq()], [ast.Constant(len(p.patterns))])]
        for i, q in enumerate(p.patterns):
            tests.append(pattern(q, ast.Subscript(value, ast.Constant(i), ast.Load())))
        return _all(tests)
    if isinstance(p, ast.MatchClass) and not p.patterns:
        tests = [ast.Call(_name('isinstance'), [value, p.cls], [])]
        for attr, q in zip(p.kwd_attrs, p.kwd_patterns):
            tests.append(ast.Call(_name('hasattr'), [value, ast.Constant(attr)], []))
            tests.append(pattern(q, ast.Attribute(value, attr, ast.Load())))
        return _all(tests)
    raise Cannot


class Desugar(ast.NodeTransformer):
    count = 0

    def visit_Match(self, node):
        self.generic_visit(node)
        self.count += 1
        subject = '_matched_%d' % self.count
        try:
            tests = [pattern(c.pattern, _name(subject)) for c in node.cases]
        except Cannot:
            return node
        rest = []
        for test, case in reversed(list(zip(tests, node.cases))):
            test = _all([test, case.guard])
            rest = case.body if test is None else [ast.If(test, case.body, rest)]
        out = [ast.Assign([_name(subject, ast.Store())], node.subject)] + rest
        return [ast.fix_missing_locations(ast.copy_location(n, node) if not hasattr(n, 'lineno') else n) for n in out]


def desugar(tree):
    return Desugar().visit(tree)
