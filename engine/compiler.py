"""Compiles the source of a real Python function into a guarded (if-converted)
twin: the same statements, but every value may be symbolic, both sides of a
symbolic branch are executed under complementary guards, and the results are
merged.  The twin is generated from the file the function came from, every time
a check runs; nothing about the functions is written down here.
"""
import ast

BINOPS = {
    ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv',
    ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.Pow: 'pow',
    ast.LShift: 'lshift', ast.RShift: 'rshift', ast.BitOr: 'or_',
    ast.BitXor: 'xor', ast.BitAnd: 'and_',
}
CMPOPS = {
    ast.Eq: 'eq', ast.NotEq: 'ne', ast.Lt: 'lt', ast.LtE: 'le',
    ast.Gt: 'gt', ast.GtE: 'ge', ast.Is: 'is', ast.IsNot: 'isnot',
    ast.In: 'in', ast.NotIn: 'notin',
}


class Unsupported(BaseException):
    """The code uses something the encoder does not model."""


def target_names(t, out):
    if isinstance(t, ast.Name):
        out.add(t.id)
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            target_names(e, out)
    elif isinstance(t, ast.Starred):
        target_names(t.value, out)


class ScopeInfo(ast.NodeVisitor):
    """Names bound in one function body (not in nested scopes)."""

    def __init__(self):
        self.bound = set()
        self.globals = set()
        self.nonlocals = set()
        self.has_yield = False

    def visit_FunctionDef(self, n):
        self.bound.add(n.name)
        for d in n.decorator_list:
            self.visit(d)
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)

    def visit_ClassDef(self, n):
        raise Unsupported("local class %s" % n.name)

    def visit_Lambda(self, n):
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)

    def _comp(self, n):
        self.visit(n.generators[0].iter)
        # walrus targets inside a comprehension bind in the function
        for s in ast.walk(n):
            if isinstance(s, ast.NamedExpr):
                raise Unsupported("walrus inside a comprehension")

    visit_ListComp = visit_SetComp = visit_DictComp = _comp
    visit_GeneratorExp = _comp

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.bound.add(n.id)

    def visit_Global(self, n):
        self.globals.update(n.names)

    def visit_Nonlocal(self, n):
        self.nonlocals.update(n.names)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.bound.add(n.name)
        self.generic_visit(n)

    def visit_Import(self, n):
        for a in n.names:
            self.bound.add((a.asname or a.name).split('.')[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.bound.add(a.asname or a.name)

    def visit_Yield(self, n):
        self.has_yield = True
        self.generic_visit(n)

    visit_YieldFrom = visit_Yield


class Scope(object):
    def __init__(self, kind, parent):
        self.kind = kind          # 'func', 'lambda', 'comp'
        self.parent = parent
        self.plain = set()        # names whose native local is never a Hist
        self.hist = set()         # names whose native local may be a Hist
        self.globals = set()
        self.nonlocals = set()
        self.gen = False

    def lookup(self, name):
        s = self
        while s is not None:
            if name in s.globals:
                return None
            if name in s.plain:
                return 'plain', s
            if name in s.hist:
                return 'hist', s
            s = s.parent
        return None


class FunctionCompiler(object):
    def __init__(self, freevars=(), mangle=None):
        self.n = 0
        self.freevars = set(freevars)
        self.mangle_cls = mangle
        self.consts = []
        self.hoisted = []         # stack of lists of source lines

    # ------------------------------------------------------------ helpers
    def tmp(self, p='_t'):
        self.n += 1
        return '%s%d' % (p, self.n)

    def mangle(self, name):
        c = self.mangle_cls
        if c and name.startswith('__') and not name.endswith('__') \
                and '.' not in name:
            c = c.lstrip('_')
            if c:
                return '_%s%s' % (c, name)
        return name

    def const(self, v):
        self.consts.append(v)
        return 'KST[%d]' % (len(self.consts) - 1)

    # -------------------------------------------------------- expressions
    def ex(self, n):
        return getattr(self, 'x_' + n.__class__.__name__, self.x_unknown)(n)

    def x_unknown(self, n):
        raise Unsupported("expression %s" % n.__class__.__name__)

    def x_Constant(self, n):
        v = n.value
        if v is None or v is True or v is False or type(v) in (int, str):
            return repr(v) if not (type(v) is int and v < 0) else '(%r)' % v
        return self.const(v)

    def vname(self, name):
        return 'v_' + name

    def x_Name(self, n):
        name = self.mangle(n.id)
        r = self.scope.lookup(name)
        if r is None:
            if name in self.freevars and name not in self._globals_decl():
                return 'cell(%r)' % name
            return 'gl(%r)' % name
        v = self.vname(name)
        if r[0] == 'plain':
            return v
        return '(%s if %s.__class__ is not H else rd(%s))' % (v, v, v)

    def _globals_decl(self):
        s = self.scope
        out = set()
        while s is not None:
            out |= s.globals
            s = s.parent
        return out

    def x_NamedExpr(self, n):
        name = self.mangle(n.target.id)
        v = self.vname(name)
        if self.scope.kind != 'func' or self.thunk:
            raise Unsupported("assignment expression in a nested scope")
        return '(%s := (%s if not F.d else wr(%s, %s)))' % (
            (v,) + self._once(self.ex(n.value), v))

    def _once(self, e, v):
        t = self.tmp()
        # evaluated exactly once: "(t := e)" comes first in both arms
        return ('(%s := %s)' % (t, e), v, '(%s := %s)' % (t, e))

    def x_Attribute(self, n):
        return 'attr(%s, %r)' % (self.ex(n.value), self.mangle(n.attr))

    def x_Subscript(self, n):
        return 'getitem(%s, %s)' % (self.ex(n.value), self.ex(n.slice))

    def x_Slice(self, n):
        f = lambda e: self.ex(e) if e else 'None'
        return 'slice(%s, %s, %s)' % (f(n.lower), f(n.upper), f(n.step))

    def x_Tuple(self, n):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return 'mktuple(%s)' % self._starlist(n.elts)
        return '(%s)' % ''.join(self.ex(e) + ', ' for e in n.elts)

    def _starlist(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.append('(1, %s)' % self.ex(e.value))
            else:
                out.append('(0, %s)' % self.ex(e))
        return '[%s]' % ', '.join(out)

    def x_List(self, n):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return 'mkliststar(%s)' % self._starlist(n.elts)
        return 'mklist([%s])' % ', '.join(self.ex(e) for e in n.elts)

    def x_Set(self, n):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return 'mksetstar(%s)' % self._starlist(n.elts)
        return 'mkset([%s])' % ', '.join(self.ex(e) for e in n.elts)

    def x_Dict(self, n):
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                items.append('(None, %s, 1)' % self.ex(v))
            else:
                items.append('(%s, %s, 0)' % (self.ex(k), self.ex(v)))
        return 'mkdict([%s])' % ', '.join(items)

    def x_BinOp(self, n):
        op = BINOPS.get(type(n.op))
        if op is None:
            raise Unsupported("operator %s" % type(n.op).__name__)
        return 'bo_%s(%s, %s)' % (op, self.ex(n.left), self.ex(n.right))

    def x_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            return 'not_(%s)' % self.ex(n.operand)
        if isinstance(n.op, ast.USub):
            if isinstance(n.operand, ast.Constant) and \
                    type(n.operand.value) is int:
                return '(-%d)' % n.operand.value
            return 'neg(%s)' % self.ex(n.operand)
        if isinstance(n.op, ast.UAdd):
            return 'pos(%s)' % self.ex(n.operand)
        return 'inv(%s)' % self.ex(n.operand)

    def thunk_of(self, n):
        old = self.thunk
        self.thunk = True
        try:
            return 'lambda: %s' % self.ex(n)
        finally:
            self.thunk = old

    def x_BoolOp(self, n):
        f = 'and_' if isinstance(n.op, ast.And) else 'or_'
        vals = n.values

        def build(i):
            if i == len(vals) - 1:
                return self.ex(vals[i])
            a = self.ex(vals[i])
            old = self.thunk
            self.thunk = True
            b = build(i + 1)
            self.thunk = old
            return '%s(%s, lambda: %s)' % (f, a, b)
        return build(0)

    def x_IfExp(self, n):
        return 'ifx(%s, %s, %s)' % (
            self.ex(n.test), self.thunk_of(n.body), self.thunk_of(n.orelse))

    def x_Compare(self, n):
        if len(n.ops) == 1:
            return 'c_%s(%s, %s)' % (
                CMPOPS[type(n.ops[0])], self.ex(n.left),
                self.ex(n.comparators[0]))
        # a < b < c: every operand is evaluated at most once
        def build(i, left):
            if i == len(n.ops) - 1:
                return 'c_%s(%s, %s)' % (
                    CMPOPS[type(n.ops[i])], left, self.ex(n.comparators[i]))
            t = self.tmp()
            old = self.thunk
            e = self.ex(n.comparators[i])
            self.thunk = True
            rest = build(i + 1, t)
            self.thunk = old
            return 'and_(c_%s(%s, %s), lambda: %s)' % (
                CMPOPS[type(n.ops[i])], left, '(%s := %s)' % (t, e), rest)
        return build(0, self.ex(n.left))

    def x_Call(self, n):
        # zero-argument super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' \
                and not n.args and not n.keywords:
            return 'mksuper(cell("__class__"), %s)' % self.firstarg
        if isinstance(n.func, ast.Name) and n.func.id in ('locals', 'eval', 'exec', 'vars'):
            raise Unsupported(n.func.id)
        if isinstance(n.func, ast.Name) and n.func.id == 'next' \
                and len(n.args) == 2 and not n.keywords and (
                    isinstance(n.args[0], ast.GeneratorExp) or
                    isinstance(n.args[0], ast.Call) and not (
                        isinstance(n.args[0].func, ast.Name) and
                        n.args[0].func.id == 'iter')):
            # an iterator nobody else has
            return 'firstof(%s, %s, %s)' % (
                self.ex(n.func), self.ex(n.args[0]), self.ex(n.args[1]))
        star = any(isinstance(a, ast.Starred) for a in n.args)
        if star:
            args = 'starargs(%s)' % self._starlist(n.args)
        else:
            args = '(%s)' % ''.join(self.ex(a) + ', ' for a in n.args)
        kws = ''
        if n.keywords:
            if any(k.arg is None for k in n.keywords):
                kws = ', starkw([%s])' % ', '.join(
                    '(%r, %s)' % (k.arg, self.ex(k.value)) for k in n.keywords)
            else:
                kws = ', {%s}' % ', '.join(
                    '%r: %s' % (k.arg, self.ex(k.value)) for k in n.keywords)
        if isinstance(n.func, ast.Attribute):
            return 'callm(%s, %r, %s%s)' % (
                self.ex(n.func.value), self.mangle(n.func.attr), args, kws)
        return 'call(%s, %s%s)' % (self.ex(n.func), args, kws)

    def x_JoinedStr(self, n):
        return 'fstring([%s])' % ', '.join(self.ex(v) for v in n.values)

    def x_FormattedValue(self, n):
        spec = self.ex(n.format_spec) if n.format_spec else "''"
        return 'fmtvalue(%s, %d, %s)' % (self.ex(n.value), n.conversion, spec)

    def x_Starred(self, n):
        raise Unsupported("starred expression")

    def x_Lambda(self, n):
        params, defaults, prelude = self.arguments(n.args)
        s = Scope('lambda', self.scope)
        for a in prelude:
            s.plain.add(a)
        old, ot = self.scope, self.thunk
        self.scope, self.thunk = s, True
        body = self.ex(n.body)
        if n.args.kwarg:
            v = self.vname(n.args.kwarg.arg)
            body = '(lambda %s: %s)(kwdict(%s))' % (v, body, v)
        self.scope, self.thunk = old, ot
        return "mkfunc(lambda %s: %s, '<lambda>')" % (params, body)

    # comprehensions are hoisted into nested functions; the variables of
    # enclosing lambdas/comprehensions are handed over by value
    def lamvars(self):
        out = []
        s = self.scope
        while s is not None and s.kind != 'func':
            out.extend(sorted(s.plain))
            s = s.parent
        seen = []
        for v in out:
            if v not in seen:
                seen.append(v)
        return seen

    def comp(self, n, kind):
        name = self.tmp('_%s' % kind)
        lam = self.lamvars()
        outer = self.ex(n.generators[0].iter)
        s = Scope('comp', self.scope)
        s.plain.update(lam)
        for g in n.generators:
            ns = set()
            target_names(g.target, ns)
            s.plain.update(ns)
        old, ot = self.scope, self.thunk
        self.scope, self.thunk = s, False
        lines = []
        params = ', '.join([self.vname(v) for v in lam] + ['_it0'])
        self.hoisted.append([])

        def body(i, ind):
            g = n.generators[i]
            if g.is_async:
                raise Unsupported("async comprehension")
            L = self.tmp('_L')
            it = '_it0' if i == 0 else self.ex(g.iter)
            out = [ind + '%s = loop(F, %s)' % (L, it),
                   ind + 'for _i%d in %s:' % (i, L),
                   ind + '    try:']
            i2 = ind + '        '
            out += self.assign_target(g.target, '_i%d' % i, i2, True)
            for c in g.ifs:
                if kind == 'ge':
                    out.append(i2 + '%s.skip_unless(%s)' % (L, self.ex(c)))
                else:
                    out.append(i2 + 'restrict(%s)' % self.ex(c))
            if i + 1 < len(n.generators):
                out += body(i + 1, i2)
            elif kind == 'dc':
                out.append(i2 + 'A.put(%s, %s)' % (
                    self.ex(n.key), self.ex(n.value)))
            elif kind == 'ge':
                t = self.tmp()
                out.append(i2 + '%s = %s' % (t, self.ex(n.elt)))
                out += self.yield_lines(t, i2)
            else:
                out.append(i2 + 'A.put(%s)' % self.ex(n.elt))
            out.append(ind + '    except K:')
            out.append(ind + '        R.g = 0')
            out.append(ind + '    %s.%s()' % (
                L, 'end' if kind == 'ge' else 'end_filtered'))
            out.append(ind + '%s.finish()' % L)
            return out
        code = body(0, '        ')
        hoisted = self.hoisted.pop()
        lines.append('    def %s(%s):' % (name, params))
        for h in hoisted:
            lines.append('    ' + h)
        lines.append('        F = Frame()')
        if kind != 'ge':
            lines.append('        A = acc_%s()' % kind)
        lines += code if kind != 'ge' else self._genwrap(code)
        if kind != 'ge':
            lines.append('        return A.value')
        self.scope, self.thunk = old, ot
        # hoisted[-1] is a list of lines at function-body indentation
        self.hoisted[-1].extend(lines)
        call = '%s(%s)' % (name, ', '.join(
            [self.vname(v) for v in lam] + [outer]))
        if kind == 'ge':
            call = '%s(%s)' % (name, ', '.join(
                [self.vname(v) for v in lam] + ['loopable(%s)' % outer]))
            return 'mkgen(%s, "<genexpr>")' % call
        return call

    def _genwrap(self, code):
        return (['        try:'] + ['    ' + c for c in code] +
                ['        except K:', '            pass'])

    def x_ListComp(self, n):
        return self.comp(n, 'lc')

    def x_SetComp(self, n):
        return self.comp(n, 'sc')

    def x_DictComp(self, n):
        return self.comp(n, 'dc')

    def x_GeneratorExp(self, n):
        return self.comp(n, 'ge')

    def yield_lines(self, valvar, ind):
        return [ind + '_yg = R.g',
                ind + '_cx = suspend(F)',
                ind + '_snd = yield (_yg, %s)' % valvar,
                ind + 'resume(F, _cx)',
                ind + 'R.g = _yg if _snd is None else resumed(F, _snd)',
                ind + 'if not R.g: raise K']

    # ----------------------------------------------------------- targets
    def assign_target(self, t, val, ind, plain=False):
        """Lines assigning the (already evaluated) variable val to t."""
        if isinstance(t, ast.Name):
            name = self.mangle(t.id)
            v = self.vname(name)
            sc = self.scope
            if name in sc.globals:
                return [ind + 'setglobal(%r, %s)' % (name, val)]
            if name in sc.nonlocals:
                r = sc.parent.lookup(name) if sc.parent else None
                if r is None:
                    raise Unsupported("nonlocal of a native closure")
                return [ind + '%s = wr(%s, %s)' % (v, v, val)]
            if plain:
                return [ind + '%s = %s' % (v, val)]
            return [ind + '%s = %s if not F.d else wr(%s, %s)' % (
                v, val, v, val)]
        if isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, e in enumerate(t.elts)
                     if isinstance(e, ast.Starred)]
            names = [self.tmp() for _ in t.elts]
            if not names:
                return [ind + 'unpack(%s, 0)' % val]
            if stars:
                out = [ind + '%s, = unpackstar(%s, %d, %d)' % (
                    ', '.join(names), val, stars[0],
                    len(t.elts) - stars[0] - 1)]
            else:
                out = [ind + '%s, = unpack(%s, %d)' % (
                    ', '.join(names), val, len(names))]
            for e, nm in zip(t.elts, names):
                if isinstance(e, ast.Starred):
                    e = e.value
                out += self.assign_target(e, nm, ind, plain)
            return out
        if isinstance(t, ast.Attribute):
            return [ind + 'setattr_(%s, %r, %s)' % (
                self.ex(t.value), self.mangle(t.attr), val)]
        if isinstance(t, ast.Subscript):
            return [ind + 'setitem(%s, %s, %s)' % (
                self.ex(t.value), self.ex(t.slice), val)]
        raise Unsupported("assignment target %s" % type(t).__name__)

    # -------------------------------------------------------- statements
    def block(self, stmts, ind):
        out = []
        if stmts:
            out.append(ind + 'R.n += %d' % len(stmts))
        for s in stmts:
            out += getattr(self, 's_' + s.__class__.__name__,
                           self.s_unknown)(s, ind)
        if not out:
            out.append(ind + 'pass')
        return out

    def s_unknown(self, s, ind):
        raise Unsupported("statement %s" % s.__class__.__name__)

    def s_Pass(self, s, ind):
        return [ind + 'pass']

    def s_Expr(self, s, ind):
        if isinstance(s.value, ast.Constant):
            return []
        if isinstance(s.value, ast.Yield):
            return self._yield(s.value, ind)[0]
        if isinstance(s.value, ast.YieldFrom):
            return self._yield_from(s.value, ind)
        return [ind + self.ex(s.value)]

    def _yield(self, y, ind):
        t = self.tmp()
        v = self.ex(y.value) if y.value else 'None'
        return [ind + '%s = %s' % (t, v)] + self.yield_lines(t, ind), 'None'

    def _yield_from(self, y, ind):
        L = self.tmp('_L')
        i = self.tmp()
        return ([ind + '%s = loop(F, %s)' % (L, self.ex(y.value)),
                 ind + 'for %s in %s:' % (i, L),
                 ind + '    try:'] +
                self.yield_lines(i, ind + '        ') +
                [ind + '    except K:',
                 ind + '        R.g = 0',
                 ind + '    %s.end()' % L,
                 ind + '%s.finish()' % L])

    def s_Assign(self, s, ind):
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            if isinstance(s.value, ast.Yield):
                out, v = self._yield(s.value, ind)
            else:
                out, v = self._yield_from(s.value, ind), 'None'
        else:
            out, v = [], self.ex(s.value)
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and \
                isinstance(s.value, ast.Tuple) and \
                len(s.value.elts) == len(s.targets[0].elts) and \
                not any(isinstance(e, ast.Starred)
                        for e in s.value.elts + s.targets[0].elts):
            names = [self.tmp() for _ in s.value.elts]
            out = []
            for nm, e in zip(names, s.value.elts):
                out.append(ind + '%s = %s' % (nm, self.ex(e)))
            for nm, t in zip(names, s.targets[0].elts):
                out += self.assign_target(t, nm, ind)
            return out
        t = self.tmp()
        out.append(ind + '%s = %s' % (t, v))
        for tg in s.targets:
            out += self.assign_target(tg, t, ind)
        return out

    def s_AnnAssign(self, s, ind):
        if s.value is None:
            return []
        t = self.tmp()
        return [ind + '%s = %s' % (t, self.ex(s.value))] + \
            self.assign_target(s.target, t, ind)

    def s_AugAssign(self, s, ind):
        op = BINOPS.get(type(s.op))
        if op is None:
            raise Unsupported("operator %s" % type(s.op).__name__)
        t = self.tmp()
        tg = s.target
        if isinstance(tg, ast.Name):
            load = ast.Name(tg.id, ast.Load())
            return [ind + '%s = iop(%r, %s, %s)' % (
                t, op, self.ex(load), self.ex(s.value))] + \
                self.assign_target(tg, t, ind)
        o = self.tmp()
        if isinstance(tg, ast.Attribute):
            nm = self.mangle(tg.attr)
            return [ind + '%s = %s' % (o, self.ex(tg.value)),
                    ind + '%s = iop(%r, attr(%s, %r), %s)' % (
                        t, op, o, nm, self.ex(s.value)),
                    ind + 'setattr_(%s, %r, %s)' % (o, nm, t)]
        i = self.tmp()
        return [ind + '%s = %s' % (o, self.ex(tg.value)),
                ind + '%s = %s' % (i, self.ex(tg.slice)),
                ind + '%s = iop(%r, getitem(%s, %s), %s)' % (
                    t, op, o, i, self.ex(s.value)),
                ind + 'setitem(%s, %s, %s)' % (o, i, t)]

    def s_Delete(self, s, ind):
        out = []
        for t in s.targets:
            if isinstance(t, ast.Name):
                v = self.vname(self.mangle(t.id))
                out.append(ind + '%s = UNDEF if not F.d else wr(%s, UNDEF)' % (
                    v, v))
            elif isinstance(t, ast.Subscript):
                out.append(ind + 'delitem(%s, %s)' % (
                    self.ex(t.value), self.ex(t.slice)))
            elif isinstance(t, ast.Attribute):
                out.append(ind + 'delattr_(%s, %r)' % (
                    self.ex(t.value), self.mangle(t.attr)))
            else:
                raise Unsupported("del")
        return out

    def s_Return(self, s, ind):
        v = self.ex(s.value) if s.value else 'None'
        t = self.tmp()
        if self.scope.gen:
            return [ind + '%s = %s' % (t, v), ind + 'genret(F)']
        if self.finally_depth:
            return [ind + '%s = %s' % (t, v), ind + 'ret(F, %s)' % t]
        return [ind + '%s = %s' % (t, v),
                ind + 'if not F.d and not F.rets: return %s' % t,
                ind + 'ret(F, %s)' % t]

    def s_If(self, s, ind):
        t = self.tmp('_s')
        i2 = ind + '        '
        out = [ind + '%s = test(F, %s)' % (t, self.ex(s.test)),
               ind + 'if %s:' % t,
               ind + '    try:']
        out += self.block(s.body, i2)
        out += [ind + '    except K:',
                ind + '        if %s is True: raise' % t,
                ind + '        R.g = 0',
                ind + '    if %s is not True: %s.mid()' % (t, t),
                ind + 'if %s is not True:' % t]
        if s.orelse:
            out.append(ind + '    try:')
            out += self.block(s.orelse, i2)
            out += [ind + '    except K:',
                    ind + '        if %s is False: raise' % t,
                    ind + '        R.g = 0']
        out.append(ind + '    if %s is not False: %s.join()' % (t, t))
        return out

    def s_For(self, s, ind):
        L = self.tmp('_L')
        i = self.tmp()
        out = [ind + '%s = loop(F, %s)' % (L, self.ex(s.iter)),
               ind + 'for %s in %s:' % (i, L),
               ind + '    try:']
        out += self.assign_target(s.target, i, ind + '        ')
        self.loops.append(L)
        out += self.block(s.body, ind + '        ')
        self.loops.pop()
        out += [ind + '    except K:',
                ind + '        R.g = 0',
                ind + '    %s.end()' % L]
        return out + self._loop_end(s, L, ind)

    def _loop_end(self, s, L, ind):
        out = []
        if s.orelse:
            out += [ind + 'if %s.enter_else():' % L,
                    ind + '    try:']
            out += self.block(s.orelse, ind + '        ')
            out += [ind + '    except K:',
                    ind + '        R.g = 0',
                    ind + '    %s.end_else()' % L]
        out.append(ind + '%s.finish()' % L)
        return out

    def s_While(self, s, ind):
        L = self.tmp('_W')
        out = [ind + '%s = whileloop(F)' % L,
               ind + 'while True:',
               ind + '    try:',
               ind + '        %s.begin()' % L,
               ind + '        %s.test(%s)' % (L, self.ex(s.test)),
               ind + '    except K:',
               ind + '        R.g = 0',
               ind + '    if not R.g: break',
               ind + '    try:']
        self.loops.append(L)
        out += self.block(s.body, ind + '        ')
        self.loops.pop()
        out += [ind + '    except K:',
                ind + '        R.g = 0',
                ind + '    %s.end()' % L]
        return out + self._loop_end(s, L, ind)

    def s_Break(self, s, ind):
        return [ind + '%s.brk()' % self.loops[-1]]

    def s_Continue(self, s, ind):
        return [ind + '%s.cont()' % self.loops[-1]]

    def s_Raise(self, s, ind):
        if s.exc is None:
            return [ind + 'reraise(%s)' % (self.handlers[-1]
                                           if self.handlers else 'None')]
        return [ind + 'raise_(%s)' % self.ex(s.exc)]

    def s_Assert(self, s, ind):
        msg = self.thunk_of(s.msg) if s.msg else 'None'
        return [ind + 'assert_(%s, %s)' % (self.ex(s.test), msg)]

    def s_Try(self, s, ind):
        T = self.tmp('_T')
        out = []
        if s.finalbody:
            FT = self.tmp('_Z')
            inner = ast.Try(s.body, s.handlers, s.orelse, [])
            self.finally_depth += 1
            out = [ind + '%s = tryfinally(F)' % FT,
                   ind + 'try:']
            if s.handlers:
                out += self.s_Try(inner, ind + '    ')
            else:
                out += self.block(s.body, ind + '    ')
            self.finally_depth -= 1
            out += [ind + 'except K:',
                    ind + '    R.g = 0',
                    ind + '%s.enter()' % FT,
                    ind + 'try:']
            out += self.block(s.finalbody, ind + '    ')
            out += [ind + 'except K:',
                    ind + '    R.g = 0',
                    ind + '%s.leave()' % FT]
            return out
        types = ''.join('%s, ' % (self.thunk_of(h.type) if h.type else 'None')
                        for h in s.handlers)
        out = [ind + '%s = try_(F, (%s))' % (T, types),
               ind + 'try:']
        self.finally_depth += 1     # a return must pass body_end
        out += self.block(s.body, ind + '    ')
        self.finally_depth -= 1
        out += [ind + 'except K:',
                ind + '    R.g = 0',
                ind + '%s.body_end()' % T]
        if s.orelse:
            out += [ind + 'if R.g:',
                    ind + '    try:']
            out += self.block(s.orelse, ind + '        ')
            out += [ind + '    except K:',
                    ind + '        R.g = 0']
        out.append(ind + '%s.else_end()' % T)
        for h in s.handlers:
            ty = self.thunk_of(h.type) if h.type else 'None'
            out += [ind + 'if %s.match(%s):' % (T, ty),
                    ind + '    try:']
            if h.name:
                out += self.assign_target(
                    ast.Name(h.name, ast.Store()), '%s.exc' % T,
                    ind + '        ')
            self.handlers.append(T)
            out += self.block(h.body, ind + '        ')
            self.handlers.pop()
            out += [ind + '    except K:',
                    ind + '        R.g = 0',
                    ind + '    %s.handler_end()' % T]
        out.append(ind + '%s.join()' % T)
        return out

    def s_With(self, s, ind):
        raise Unsupported("with statement")

    def s_Global(self, s, ind):
        return []

    s_Nonlocal = s_Global

    def s_Import(self, s, ind):
        out = []
        for a in s.names:
            nm = (a.asname or a.name).split('.')[0]
            t = self.tmp()
            out.append(ind + '%s = import_(%r, %r)' % (
                t, a.name, bool(a.asname)))
            out += self.assign_target(ast.Name(nm, ast.Store()), t, ind)
        return out

    def s_ImportFrom(self, s, ind):
        out = []
        for a in s.names:
            t = self.tmp()
            out.append(ind + '%s = importfrom(%r, %r, %d)' % (
                t, s.module or '', a.name, s.level))
            out += self.assign_target(
                ast.Name(a.asname or a.name, ast.Store()), t, ind)
        return out

    def s_FunctionDef(self, s, ind):
        t = self.tmp('_fn')
        lines = self.function(s, t, ind)
        deco = ''
        out = lines
        val = 'mkfunc(%s, %r)' % (t, s.name)
        for d in reversed(s.decorator_list):
            val = 'call(%s, (%s,))' % (self.ex(d), val)
        v = self.tmp()
        out.append(ind + '%s = %s' % (v, val))
        out += self.assign_target(ast.Name(s.name, ast.Store()), v, ind)
        return out

    # ---------------------------------------------------------- functions
    def arguments(self, a):
        """-> (parameter source, defaults, names).  Defaults are evaluated in
        the enclosing scope when the function object is made."""
        parts = []
        names = []
        pos = a.posonlyargs + a.args
        nd = len(a.defaults)
        for i, p in enumerate(pos):
            nm = self.mangle(p.arg)
            names.append(nm)
            src = self.vname(nm)
            j = i - (len(pos) - nd)
            if j >= 0:
                src += '=' + self.ex(a.defaults[j])
            parts.append(src)
        if a.vararg:
            names.append(a.vararg.arg)
            parts.append('*' + self.vname(a.vararg.arg))
        elif a.kwonlyargs:
            parts.append('*')
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            names.append(p.arg)
            parts.append(self.vname(p.arg) + ('=' + self.ex(d) if d else ''))
        if a.kwarg:
            names.append(a.kwarg.arg)
            parts.append('**' + self.vname(a.kwarg.arg))
        return ', '.join(parts), None, names

    def function(self, node, name, ind, toplevel=False):
        """Source lines of the guarded twin of a def."""
        if isinstance(node, ast.AsyncFunctionDef):
            raise Unsupported("async function")
        info = ScopeInfo()
        if isinstance(node, ast.Lambda):
            info.visit(node.body)
        else:
            for st in node.body:
                info.visit(st)
        if toplevel:
            # native defaults are bound by the caller of the twin
            params, names = self.toplevel_arguments(node.args)
        else:
            params, _, names = self.arguments(node.args)
        sc = Scope('func', self.scope)
        sc.globals = info.globals
        sc.nonlocals = info.nonlocals
        bound = info.bound - info.globals - info.nonlocals
        bound = {self.mangle(b) for b in bound}
        sc.plain = set(names) - bound
        sc.hist = bound | (set(names) & bound)
        sc.gen = info.has_yield
        saved = (self.scope, self.thunk, self.loops, self.handlers,
                 self.finally_depth, self.firstarg)
        self.scope, self.thunk = sc, False
        self.loops, self.handlers, self.finally_depth = [], [], 0
        self.firstarg = self.vname(names[0]) if names else 'None'
        self.hoisted.append([])
        i2 = ind + '    '
        if isinstance(node, ast.Lambda):
            code = self.s_Return(ast.Return(node.body), i2 + '    ')
        else:
            code = self.block(node.body, i2 + '    ')
        hoisted = self.hoisted.pop()
        lines = [ind + 'def %s(%s):' % (name, params)]
        if info.nonlocals:
            lines.append(i2 + 'nonlocal ' + ', '.join(
                self.vname(x) for x in sorted(info.nonlocals)))
        init = sorted(bound - set(names))
        for b in init:
            lines.append(i2 + '%s = UNDEF' % self.vname(b))
        if node.args.vararg:
            v = self.vname(node.args.vararg.arg)
            lines.append(i2 + '%s = vararg(%s)' % (v, v))
        if node.args.kwarg:
            v = self.vname(node.args.kwarg.arg)
            lines.append(i2 + '%s = kwdict(%s)' % (v, v))
        lines.append(i2 + 'F = Frame()')
        # hoisted lines were produced for an indentation of one level
        base = len(ind)
        for h in hoisted:
            lines.append(' ' * base + h)
        lines.append(i2 + 'try:')
        lines += code
        if not sc.gen:
            lines.append(i2 + '    if not F.d and not F.rets: return None')
            lines.append(i2 + '    ret(F, None)')
        lines.append(i2 + 'except K:')
        lines.append(i2 + '    R.g = 0')
        if not sc.gen:
            lines.append(i2 + 'return leave(F)')
        (self.scope, self.thunk, self.loops, self.handlers,
         self.finally_depth, self.firstarg) = saved
        if sc.gen:
            # calling a generator function makes a generator object
            g = self.tmp('_gn')
            lines[0] = ind + 'def %s(%s):' % (g, params.replace(' ', ' '))
            nm = getattr(node, 'name', '<lambda>')
            lines.append(ind + '%s = genmaker(%s, %r)' % (name, g, nm))
        return lines

    def toplevel_arguments(self, a):
        parts = []
        names = []
        pos = a.posonlyargs + a.args
        nd = len(a.defaults)
        for i, p in enumerate(pos):
            nm = self.mangle(p.arg)
            names.append(nm)
            src = self.vname(nm)
            j = i - (len(pos) - nd)
            if j >= 0:
                src += '=DEFAULTS(%d)' % j
            parts.append(src)
        if a.vararg:
            names.append(a.vararg.arg)
            parts.append('*' + self.vname(a.vararg.arg))
        elif a.kwonlyargs:
            parts.append('*')
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            names.append(p.arg)
            parts.append(self.vname(p.arg) + (
                '=KWDEFAULTS(%r)' % p.arg if d else ''))
        if a.kwarg:
            names.append(a.kwarg.arg)
            parts.append('**' + self.vname(a.kwarg.arg))
        return ', '.join(parts), names

    scope = None
    thunk = False
    loops = ()
    handlers = ()
    finally_depth = 0
    firstarg = 'None'

    def compile_toplevel(self, node):
        self.hoisted = [[]]
        lines = self.function(node, '_main', '', toplevel=True)
        return '\n'.join(lines) + '\n'
