'''AST instrumentation: Python operations become hook calls.'''
import ast

EXEMPT = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec'}


def nm(s):
    return ast.Name(id=s, ctx=ast.Load())


def hook(name, *args):
    return ast.Call(func=nm(name), args=list(args), keywords=[])


def lam(body):
    return ast.Lambda(args=ast.arguments(
        posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[],
        kwarg=None, defaults=[]), body=body)


SIMPLE_EXPR = (ast.Name, ast.Constant, ast.BinOp, ast.UnaryOp, ast.Compare,
               ast.BoolOp, ast.Attribute, ast.Subscript, ast.operator,
               ast.unaryop, ast.cmpop, ast.boolop, ast.Load, ast.Store,
               ast.expr_context, ast.IfExp, ast.Tuple)


def simple_assigns(body):
    '''names assigned by a body of plain assignments, or None'''
    names = []
    for st in body:
        if isinstance(st, ast.Pass):
            continue
        if isinstance(st, ast.Assign):
            if len(st.targets) != 1 or not isinstance(st.targets[0],
                                                      ast.Name):
                return None
            n = st.targets[0].id
        elif isinstance(st, ast.AugAssign):
            if not isinstance(st.target, ast.Name):
                return None
            n = st.target.id
        else:
            return None
        for e in ast.walk(st.value):
            if not isinstance(e, SIMPLE_EXPR):
                return None
        if n not in names:
            names.append(n)
    return names


class Tx(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.n = 0

    # ------------------------------------------------------- definitions
    def _func(self, node):
        # decorators, annotations and defaults: defaults are instrumented
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None
                                 for d in node.args.kw_defaults]
        self.stack.append(node.name)
        body = self.block(node.body)
        mark = ast.Expr(hook('__sx_fn__', ast.Constant(
            '.'.join([self.mod] + self.stack))))
        i = 0
        if body and isinstance(body[0], ast.Expr) \
                and isinstance(body[0].value, ast.Constant) \
                and isinstance(body[0].value.value, str):
            i = 1
        body.insert(i, mark)
        node.body = body
        self.stack.pop()
        return node

    def visit_FunctionDef(self, node):
        return self._func(node)

    def visit_AsyncFunctionDef(self, node):
        return self._func(node)

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.body = self.block(node.body)
        self.stack.pop()
        return node

    def visit_Lambda(self, node):
        node.body = self.visit(node.body)
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        if not isinstance(node.target, ast.Name):
            node.target = self.visit(node.target)
        return node

    # -------------------------------------------------------- statements
    def block(self, body):
        out = []
        for st in body:
            r = self.visit(st)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out or [ast.Pass()]

    def loop_body(self, body):
        for i, st in enumerate(body):
            if isinstance(st, ast.If) and not st.orelse \
                    and len(st.body) == 1 \
                    and isinstance(st.body[0], ast.Continue) \
                    and i + 1 < len(body):
                rest = self.loop_body(body[i + 1:])
                new = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=st.test),
                             body=rest, orelse=[])
                return body[:i] + [ast.copy_location(new, st)]
        return body

    def visit_For(self, node):
        node.iter = self.visit(node.iter)
        node.target = self.visit(node.target)
        node.body = self.block(self.loop_body(node.body))
        node.orelse = self.block(node.orelse) if node.orelse else []
        return node

    def visit_While(self, node):
        node.test = self.visit(node.test)
        node.body = self.block(self.loop_body(node.body))
        node.orelse = self.block(node.orelse) if node.orelse else []
        return node

    def visit_ExceptHandler(self, node):
        if node.type is None:
            node.type = nm('Exception')
        elif isinstance(node.type, ast.Name) \
                and node.type.id == 'BaseException':
            node.type = nm('Exception')
        node.body = self.block(node.body)
        return node

    def visit_Try(self, node):
        node.body = self.block(node.body)
        node.handlers = [self.visit(h) for h in node.handlers]
        node.orelse = self.block(node.orelse) if node.orelse else []
        node.finalbody = self.block(node.finalbody) if node.finalbody else []
        return node

    def visit_With(self, node):
        for it in node.items:
            it.context_expr = self.visit(it.context_expr)
        node.body = self.block(node.body)
        return node

    def visit_If(self, node):
        names = None
        a = simple_assigns(node.body)
        b = simple_assigns(node.orelse)
        if a is not None and b is not None and (a or b):
            names = a + [x for x in b if x not in a]
        if names is None:
            node.test = self.visit(node.test)
            node.body = self.block(node.body)
            node.orelse = self.block(node.orelse) if node.orelse else []
            return node
        self.n += 1
        c, o, m, ok = ('_sx_%s%d' % (p, self.n) for p in 'comk')
        body = self.block(node.body)
        orelse = self.block(node.orelse) if node.orelse else [ast.Pass()]

        def clone(stmts):
            import copy
            return copy.deepcopy(stmts)

        def tup(ctx):
            return ast.Tuple(elts=[ast.Name(id=x, ctx=ctx()) for x in names],
                             ctx=ctx())

        def assign(target, value):
            if isinstance(target, str):
                target = ast.Name(id=target, ctx=ast.Store())
            return ast.Assign(targets=[target], value=value)

        merge_tuple = ast.Tuple(elts=[
            hook('__sx_merge__', nm(c),
                 ast.Subscript(value=nm(m), slice=ast.Constant(i),
                               ctx=ast.Load()), nm(x))
            for i, x in enumerate(names)], ctx=ast.Load())
        attempt = ast.Try(
            body=[assign(o, hook('__sx_ints__', tup(ast.Load)))]
            + clone(body)
            + [assign(m, tup(ast.Load)),
               assign(tup(ast.Store), nm(o))]
            + clone(orelse)
            + [assign(tup(ast.Store), merge_tuple),
               assign(ok, ast.Constant(True))],
            handlers=[ast.ExceptHandler(
                type=nm('__sx_abort__'), name=None,
                body=[ast.If(test=ast.Compare(
                    left=nm(o), ops=[ast.IsNot()],
                    comparators=[ast.Constant(None)]),
                    body=[assign(tup(ast.Store), nm(o))], orelse=[])])],
            orelse=[], finalbody=[ast.Expr(hook('__sx_spec_end__'))])
        return [
            assign(c, hook('__sx_test__', self.visit(node.test))),
            ast.If(
                test=ast.Compare(left=nm(c), ops=[ast.Is()],
                                 comparators=[ast.Constant(True)]),
                body=clone(body),
                orelse=[ast.If(
                    test=ast.Compare(left=nm(c), ops=[ast.Is()],
                                     comparators=[ast.Constant(False)]),
                    body=clone(orelse),
                    orelse=[
                        assign(ok, ast.Constant(False)),
                        assign(o, ast.Constant(None)),
                        ast.Expr(hook('__sx_spec_begin__')),
                        attempt,
                        ast.If(test=ast.UnaryOp(op=ast.Not(),
                                                operand=nm(ok)),
                               body=[ast.If(
                                   test=hook('__sx_fork__', nm(c)),
                                   body=clone(body),
                                   orelse=clone(orelse))],
                               orelse=[])])])]

    # ------------------------------------------------------- expressions
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in EXEMPT:
            node.args = [self.visit(a) for a in node.args]
            for k in node.keywords:
                k.value = self.visit(k.value)
            return node
        f = self.visit(node.func)
        args = [self.visit(a) for a in node.args]
        for k in node.keywords:
            k.value = self.visit(k.value)
        return ast.Call(func=nm('__sx_call__'), args=[f] + args,
                        keywords=node.keywords)

    def visit_Subscript(self, node):
        node.value = self.visit(node.value)
        node.slice = self.visit(node.slice)
        if isinstance(node.ctx, ast.Load):
            sl = node.slice
            if isinstance(sl, ast.Slice):
                none = ast.Constant(None)
                sl = ast.Call(func=nm('__sx_slice__'), args=[
                    sl.lower or none, sl.upper or none, sl.step or none],
                    keywords=[])
            return hook('__sx_getitem__', node.value, sl)
        return node

    def visit_Compare(self, node):
        node.left = self.visit(node.left)
        node.comparators = [self.visit(c) for c in node.comparators]
        if len(node.ops) == 1:
            if isinstance(node.ops[0], ast.In):
                return hook('__sx_in__', node.left, node.comparators[0])
            if isinstance(node.ops[0], ast.NotIn):
                return hook('__sx_notin__', node.left, node.comparators[0])
        return node

    def visit_UnaryOp(self, node):
        node.operand = self.visit(node.operand)
        if isinstance(node.op, ast.Not):
            return hook('__sx_not__', node.operand)
        return node

    def visit_BinOp(self, node):
        node.left = self.visit(node.left)
        node.right = self.visit(node.right)
        if isinstance(node.op, ast.Mod):
            return hook('__sx_mod__', node.left, node.right)
        return node

    def visit_IfExp(self, node):
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await,
                              ast.NamedExpr)) for x in ast.walk(node)):
            return self.generic_visit(node)
        t = self.visit(node.test)
        a = self.visit(node.body)
        b = self.visit(node.orelse)
        if self.in_class_scope():
            return ast.IfExp(test=t, body=a, orelse=b)
        return hook('__sx_ifexp__', t, lam(a), lam(b))

    def in_class_scope(self):
        return False

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                conv = None if v.conversion == -1 else chr(v.conversion)
                spec = self.visit(v.format_spec) if v.format_spec is not None \
                    else ast.Constant('')
                parts.append(ast.Tuple(elts=[
                    self.visit(v.value), ast.Constant(conv), spec],
                    ctx=ast.Load()))
        return hook('__sx_fstr__', *parts)


def instrument(src, modname, filename):
    tree = ast.parse(src, filename)
    tx = Tx(modname)
    new = ast.Module(body=tx.block(tree.body), type_ignores=[])
    # keep __future__ imports first
    ast.fix_missing_locations(new)
    return compile(new, filename, 'exec', dont_inherit=True)
