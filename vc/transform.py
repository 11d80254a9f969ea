"""Mechanical instrumentation of the real Python source.

The verifier does not read a model of zope.security: it loads the modules of
the current tree through this AST pass and runs them.  The pass only inserts
hooks (calls to the object bound to the builtin name ``__vc__``) at the places
where CPython would decide something natively that must be decided
symbolically:

    a is b / a in b / a not in b ...   -> __vc__.is_(a, b) / __vc__.in_(a, b)
    f(args)                            -> __vc__.callee(f)(args)
    a[i], a[i] = v, del a[i]           -> __vc__.getitem / setitem / delitem
    for x in E / comprehension         -> for x in __vc__.iter(E, site, ...)
    if/not/and/or/ternary tests        -> __vc__.truth(x)
    f"..", "..." % x                   -> __vc__.fstr / __vc__.mod
    {k: v}, {a, b}                     -> __vc__.mkdict / mkset
    except X as e                      -> except BaseException + __vc__.match
    while C: B                         -> while True: x = __vc__.whead(x); ...

Every hook is the identity on ordinary values, so the instrumented module
behaves as the original on concrete inputs (this is checked on every run by
the CPython cross-check).  Dropped by the extraction: nothing but docstring
positions and exact traceback/line layout, and the frame depth of builtins.
"""
import ast
import sys
import importlib.abc
import importlib.machinery
import importlib.util

VC = '__vc__'
_LEAVE = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec'}


def _vc(attr, args, node, keywords=()):
    return ast.copy_location(
        ast.Call(func=ast.Attribute(value=ast.Name(id=VC, ctx=ast.Load()),
                                    attr=attr, ctx=ast.Load()),
                 args=list(args), keywords=list(keywords)), node)


class Transformer(ast.NodeTransformer):

    def __init__(self, modname):
        self.modname = modname
        self.n = 0
        self.scope = []
        self.scope_kind = []
        self.ordinal = [0]

    def site(self, kind):
        s = '%s:%s:%s%d' % (self.modname, '.'.join(self.scope), kind,
                            self.ordinal[-1])
        self.ordinal[-1] += 1
        return s

    # scopes -------------------------------------------------------------
    def _scoped(self, node):
        # decorators/defaults belong to the enclosing scope; harmless here
        kw = None
        if isinstance(node, ast.FunctionDef) and node.args.kwarg is not None:
            kw = node.args.kwarg.arg
            params = tuple(a.arg for a in node.args.args +
                           node.args.kwonlyargs)
        self.scope.append(node.name)
        self.scope_kind.append(
            'class' if isinstance(node, ast.ClassDef) else 'def')
        self.ordinal.append(0)
        save, self.in_comp = self.in_comp, 0
        try:
            self.generic_visit(node)
        finally:
            self.in_comp = save
            self.scope.pop()
            self.scope_kind.pop()
            self.ordinal.pop()
        if kw is not None:
            # a table of keywords of unknown content travels as one argument
            node.body.insert(0, ast.copy_location(ast.Assign(
                targets=[ast.Name(id=kw, ctx=ast.Store())],
                value=_vc('kwargs', [ast.Name(id=kw, ctx=ast.Load()),
                                     ast.Constant(params)], node)), node))
        return node

    visit_FunctionDef = _scoped
    visit_ClassDef = _scoped
    visit_AsyncFunctionDef = _scoped

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    # expressions --------------------------------------------------------
    def visit_Call(self, node):
        f = node.func
        leave = (isinstance(f, ast.Name) and f.id in _LEAVE
                 and not (f.id == 'super' and node.args)) or \
                (isinstance(f, ast.Attribute) and f.attr == '_getframe')
        if isinstance(f, ast.Name) and len(node.args) == 1 and \
                not node.keywords and \
                isinstance(node.args[0], ast.GeneratorExp):
            g = node.args[0]
            if f.id in ('tuple', 'list'):
                # (the same elements in the same order, all of them)
                node.args[0] = ast.copy_location(
                    ast.ListComp(g.elt, g.generators), g)
            elif f.id in ('any', 'all'):
                g.vc_kind = 'search'
        elif isinstance(f, ast.Name) and f.id == 'next' and node.args and \
                isinstance(node.args[0], ast.GeneratorExp):
            node.args[0].vc_kind = 'search'
        self.generic_visit(node)
        if leave:
            return node
        for k in node.keywords:
            if k.arg is None:
                k.value = _vc('kwpass', [k.value], k.value)
        node.func = _vc('callee', [node.func], node)
        if any(isinstance(a, ast.Starred) for a in node.args):
            node.func = _vc('starcall', [node.func], node)
            for a in node.args:
                if isinstance(a, ast.Starred):
                    a.value = _vc('star', [a.value], a.value)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        special = any(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn))
                      for o in node.ops)
        if len(node.ops) == 1:
            op = node.ops[0]
            a, b = node.left, node.comparators[0]
            if isinstance(op, ast.Is):
                return _vc('is_', [a, b], node)
            if isinstance(op, ast.IsNot):
                return _vc('isnot', [a, b], node)
            if isinstance(op, ast.In):
                return _vc('in_', [a, b], node)
            if isinstance(op, ast.NotIn):
                return _vc('notin', [a, b], node)
            if isinstance(op, ast.Eq):
                return _vc('eq', [a, b], node)
            if isinstance(op, ast.NotEq):
                return _vc('ne', [a, b], node)
            return node
        if not special:
            return node
        # a op1 b op2 c: evaluate operands through temporaries
        names = []
        parts = []
        for k, e in enumerate([node.left] + node.comparators):
            self.n += 1
            nm = '__vc_t%d' % self.n
            names.append((nm, e))
        vals = []

        def load(k, first):
            nm, e = names[k]
            if first:
                return ast.NamedExpr(target=ast.Name(id=nm, ctx=ast.Store()),
                                     value=e)
            return ast.Name(id=nm, ctx=ast.Load())
        fn = {ast.Is: 'is_', ast.IsNot: 'isnot', ast.In: 'in_',
              ast.NotIn: 'notin'}
        for k, op in enumerate(node.ops):
            l = load(k, k == 0)
            r = load(k + 1, True)
            if type(op) in fn:
                parts.append(_vc(fn[type(op)], [l, r], node))
            else:
                parts.append(ast.Compare(left=l, ops=[op], comparators=[r]))
        return ast.copy_location(
            ast.BoolOp(op=ast.And(), values=parts), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            if isinstance(node.slice, ast.Slice):
                sl = node.slice
                none = lambda x: x if x is not None else ast.Constant(None)
                idx = ast.Call(func=ast.Name(id='slice', ctx=ast.Load()),
                               args=[none(sl.lower), none(sl.upper),
                                     none(sl.step)], keywords=[])
                return _vc('getitem', [node.value, idx], node)
            return _vc('getitem', [node.value, node.slice], node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = None
                if v.format_spec is not None:
                    spec = self.visit(v.format_spec)
                parts.append(ast.Tuple(
                    elts=[self.visit(v.value), ast.Constant(v.conversion),
                          spec or ast.Constant('')], ctx=ast.Load()))
        return _vc('fstr', parts, node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return _vc('mod', [node.left, node.right], node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys):
            return node
        return _vc('mkdict', [
            ast.List(elts=node.keys, ctx=ast.Load()),
            ast.List(elts=node.values, ctx=ast.Load())], node)

    def visit_List(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        return _vc('mklist', [node], node)

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.elts):
            return node
        return _vc('mkset', [ast.List(elts=node.elts, ctx=ast.Load())], node)

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            node.operand = _vc('truth', [node.operand], node)
        return node

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        # operands that decide natively go through truth(); values are kept
        if self.in_comp or (self.scope and self.scope_kind[-1] == 'class') \
                or not self.scope:
            return node
        expr = node.values[-1]
        for v in reversed(node.values[:-1]):
            self.n += 1
            nm = '__vc_b%d' % self.n
            t = _vc('truth', [ast.NamedExpr(
                target=ast.Name(id=nm, ctx=ast.Store()), value=v)], node)
            ld = ast.Name(id=nm, ctx=ast.Load())
            if isinstance(node.op, ast.And):
                expr = ast.IfExp(test=t, body=expr, orelse=ld)
            else:
                expr = ast.IfExp(test=t, body=ld, orelse=expr)
        return ast.copy_location(expr, node)

    def visit_If(self, node):
        self.generic_visit(node)
        node.test = _vc('truth', [node.test], node)
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        node.test = _vc('truth', [node.test], node)
        return node

    in_comp = 0

    def visit_comprehension(self, node):
        self.generic_visit(node)
        node.ifs = [_vc('truth', [t], t) for t in node.ifs]
        return node

    def _comp(self, node, kind):
        site = self.site('comp')
        self.in_comp += 1
        self.generic_visit(node)
        self.in_comp -= 1
        for k, g in enumerate(node.generators):
            g.iter = _vc('citer', [g.iter, ast.Constant(site),
                                   ast.Constant(kind if k == 0 else 'inner')],
                         g.iter)
        if kind == 'list':
            node.elt = _vc('elt', [node.elt, ast.Constant(site)], node)
            return _vc('lc', [node, ast.Constant(site)], node)
        if kind in ('set', 'dict'):
            return _vc('sdc', [node, ast.Constant(site)], node)
        return node

    def visit_ListComp(self, node):
        return self._comp(node, 'list')

    def visit_SetComp(self, node):
        return self._comp(node, 'set')

    def visit_DictComp(self, node):
        return self._comp(node, 'dict')

    def visit_GeneratorExp(self, node):
        return self._comp(node, getattr(node, 'vc_kind', 'gen'))

    # statements ---------------------------------------------------------
    def visit_Attribute(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            node.value = _vc('attr', [node.value], node.value)
        return node

    def visit_Global(self, node):
        return [node, ast.copy_location(
            ast.Expr(_vc('outer', [], node)), node)]

    visit_Nonlocal = visit_Global

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0],
                                                 ast.Subscript):
            t = node.targets[0]
            if isinstance(t.slice, ast.Slice):
                sl = t.slice
                none = lambda x: x if x is not None else ast.Constant(None)
                idx = ast.Call(func=ast.Name(id='slice', ctx=ast.Load()),
                               args=[none(sl.lower), none(sl.upper),
                                     none(sl.step)], keywords=[])
            else:
                idx = t.slice
            return ast.copy_location(ast.Expr(
                _vc('setitem', [node.value, t.value, idx], node)), node)
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript) and not isinstance(
                    t.slice, ast.Slice):
                out.append(ast.copy_location(ast.Expr(
                    _vc('delitem', [t.value, t.slice], node)), node))
            else:
                out.append(ast.copy_location(
                    ast.Delete(targets=[t]), node))
        return out

    def _assigned(self, stmts, exclude=()):
        """Local names (re)bound somewhere in the statements."""
        out = []

        class V(ast.NodeVisitor):
            def visit_Name(v, n):
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    if n.id not in out and n.id not in exclude and \
                            not n.id.startswith('__vc_'):
                        out.append(n.id)

            def visit_FunctionDef(v, n):
                if n.name not in out:
                    out.append(n.name)

            visit_ClassDef = visit_FunctionDef

            def visit_Lambda(v, n):
                pass

            def _c(v, n):
                for g in n.generators:
                    v.visit(g.iter)
            visit_ListComp = visit_SetComp = visit_GeneratorExp = \
                visit_DictComp = _c
        for st in stmts:
            V().visit(st)
        return out

    def _lambdas(self, names):
        e = ast.Tuple(elts=[
            ast.Lambda(args=ast.arguments(
                posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[],
                defaults=[]), body=ast.Name(id=n, ctx=ast.Load()))
            for n in names], ctx=ast.Load())
        return e

    def _infunc(self):
        return bool(self.scope_kind) and self.scope_kind[-1] == 'def'

    def visit_For(self, node):
        site = self.site('for')
        self.generic_visit(node)
        names = []
        if self._infunc():
            names = [n for n in self._assigned(node.body)
                     if n not in self._assigned([ast.Assign(
                         targets=[node.target], value=ast.Constant(0))])]
        node.iter = _vc('iter', [node.iter, ast.Constant(site),
                                 self._lambdas(names),
                                 ast.Constant(tuple(names))], node.iter)
        if names:
            node.body = self._carry(site, names, node, 0) + node.body
            node.orelse = self._carry(site, names, node, 1) + node.orelse
        return node

    def _carry(self, site, names, node, end):
        """(a, b) = hook(current values); unbound names stay unbound"""
        out = [ast.Assign(
            targets=[ast.Tuple(elts=[ast.Name(id=n, ctx=ast.Store())
                                     for n in names], ctx=ast.Store())],
            value=_vc('carry', [ast.Constant(site), self._lambdas(names),
                                ast.Constant(end)], node))]
        for n in names:
            out.append(ast.If(
                test=_vc('unbound', [ast.Name(id=n, ctx=ast.Load())], node),
                body=[ast.Delete(targets=[ast.Name(id=n, ctx=ast.Del())])],
                orelse=[]))
        return [ast.copy_location(x, node) for x in out]

    def visit_While(self, node):
        site = self.site('while')
        self.generic_visit(node)
        if node.orelse or not self._infunc():
            node.test = _vc('truth', [node.test], node)
            return node
        names = self._assigned(node.body)
        pre = []
        hook = _vc('whead', [ast.Constant(site), self._lambdas(names),
                             ast.Constant(tuple(names))], node)
        if names:
            pre.append(ast.Assign(
                targets=[ast.Tuple(elts=[ast.Name(id=n, ctx=ast.Store())
                                         for n in names], ctx=ast.Store())],
                value=hook))
        else:
            pre.append(ast.Expr(hook))
        pre.append(ast.If(test=ast.UnaryOp(
            op=ast.Not(), operand=_vc('truth', [node.test], node)),
            body=[ast.Expr(_vc('wexit', [ast.Constant(site)], node)),
                  ast.Break()], orelse=[]))
        w = ast.While(test=ast.Constant(True), body=pre + node.body,
                      orelse=[])
        enter = ast.Expr(_vc('wenter', [ast.Constant(site)], node))
        return [ast.copy_location(enter, node), ast.copy_location(w, node)]

    def visit_Try(self, node):
        self.generic_visit(node)
        if not node.handlers:
            return node
        self.n += 1
        nm = '__vc_e%d' % self.n
        chain = [ast.Raise(exc=None, cause=None)]
        for h in reversed(node.handlers):
            body = list(h.body)
            if h.name:
                body.insert(0, ast.Assign(
                    targets=[ast.Name(id=h.name, ctx=ast.Store())],
                    value=ast.Name(id=nm, ctx=ast.Load())))
            typ = h.type if h.type is not None else \
                ast.Name(id='BaseException', ctx=ast.Load())
            test = _vc('match', [ast.Name(id=nm, ctx=ast.Load()), typ], node)
            chain = [ast.If(test=test, body=body, orelse=chain)]
        h = ast.ExceptHandler(type=ast.Name(id='BaseException',
                                            ctx=ast.Load()),
                              name=nm, body=chain)
        node.handlers = [h]
        return node


def instrument(source, modname, filename):
    tree = ast.parse(source, filename)
    tree = Transformer(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        return instrument(data, self.name, path)

    def get_code(self, fullname):          # never use cached bytecode
        path = self.get_filename(fullname)
        with open(path, 'rb') as f:
            return self.source_to_code(f.read(), path)


class Finder(importlib.abc.MetaPathFinder):
    """Instruments zope.security.* (not its tests) and the zope.proxy base."""

    def __init__(self, wanted):
        self.wanted = wanted

    def find_spec(self, name, path=None, target=None):
        if not self.wanted(name):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is None or not isinstance(
                spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def wanted(name):
    if name.startswith('zope.security'):
        return '.tests' not in name
    return name in ('zope.proxy',) or name.startswith('contracts.')


def install(vc):
    import builtins
    setattr(builtins, VC, vc)
    sys.meta_path.insert(0, Finder(wanted))
