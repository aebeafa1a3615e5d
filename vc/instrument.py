"""Mechanical instrumentation of the real source for symbolic execution.

The text that is verified is the text of /repo, read on every run; nothing is
dropped.  Rewrites (all semantics preserving for concrete values):
  * float literals             -> exact rational constants
  * `a is b`                   -> __vc.is_(a, b)
  * `/`                        -> __vc.div (exact for two ints)
  * names of builtins          -> contract versions in shadow.py
  * math / bisect              -> contract versions in shadow.py
  * comprehensions, for, while -> __vc.comp / __vc.forloop / __vc.tick
  * str % x                    -> __vc.fmt
  * each function reports its entry (coverage of the contracts)
"""
import ast
import importlib.abc
import importlib.machinery
import os
import sys

from . import shadow

REPO = os.environ.get('VERIF_REPO', '/repo')

BUILTINS = {'float', 'int', 'len', 'sum', 'sorted', 'zip', 'map', 'min',
            'max', 'range', 'round', 'isinstance', 'list', 'tuple',
            'enumerate', 'set', 'dict', 'any', 'all', 'abs', 'reversed',
            'filter', 'str', 'iter', 'next', 'bool', 'repr', 'pow', 'hasattr',
            'issubclass', 'type', 'hash'}
ACTIVE = {n for n in BUILTINS if hasattr(shadow, 'b_' + n)}


def _name(id_):
    return ast.Name(id=id_, ctx=ast.Load())


def _vc(attr, *args):
    return ast.Call(func=ast.Attribute(value=_name('__vc__'), attr=attr,
                                       ctx=ast.Load()),
                    args=list(args), keywords=[])


def _assigned(node):
    """names bound in a function / module scope (not nested)"""
    out = set()

    def visit(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef,
                          ast.AsyncFunctionDef)) and not top:
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp,
                          ast.DictComp)):
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,
                                                          ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)

    visit(node, True)
    if isinstance(node, (ast.FunctionDef, ast.Lambda)):
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            out.add(x.arg)
        for x in (a.vararg, a.kwarg):
            if x:
                out.add(x.arg)
    return out


class Tr(ast.NodeTransformer):
    def __init__(self, modname, tree):
        self.mod = modname
        self.qual = []
        self.scopes = [_assigned(tree)]
        self.n = 0
        self.loopn = 0
        self.forn = 0
        self.loopinfo = {}
        self.keepalive = []
        self.cls = []

    def shadowed(self, name):
        return any(name in s for s in self.scopes)

    # scopes
    def visit_FunctionDef(self, node):
        if not self.mod.startswith('contracts'):
            from .forloop import analyse
            self.loopinfo.update(analyse(node))
            self.keepalive.append(node)
        node.decorator_list = [self.visit(d) if not isinstance(d, ast.Name)
                               else d for d in node.decorator_list]
        node.args = self.visit(node.args)
        self.qual.append(node.name)
        self.scopes.append(_assigned(node))
        body = node.body
        doc = []
        if body and isinstance(body[0], ast.Expr) and isinstance(
                body[0].value, ast.Constant) and isinstance(
                body[0].value.value, str):
            doc, body = body[:1], body[1:]
        isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom))
                    for b in body for n in self._walk(b))
        newbody = []
        for b in body:
            r = self.visit(b)
            newbody.extend(r if isinstance(r, list) else [r])
        enter = ast.Expr(_vc('enter', ast.Constant(
            self.mod + '.' + '.'.join(self.qual))))
        node.body = doc + [enter] + newbody
        if not node.body:
            node.body = [ast.Pass()]
        node.returns = None
        self.scopes.pop()
        self.qual.pop()
        return node

    @staticmethod
    def _walk(n):
        todo = [n]
        while todo:
            x = todo.pop()
            yield x
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            todo.extend(ast.iter_child_nodes(x))

    def visit_arguments(self, node):
        node.defaults = [self.visit(d) for d in node.defaults]
        node.kw_defaults = [d and self.visit(d) for d in node.kw_defaults]
        for a in node.posonlyargs + node.args + node.kwonlyargs:
            a.annotation = None
        return node

    def visit_Lambda(self, node):
        node.args = self.visit(node.args)
        self.scopes.append(_assigned(node))
        node.body = self.visit(node.body)
        self.scopes.pop()
        return node

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.qual.append(node.name)
        self.cls.append(node.name)
        newbody = []
        for b in node.body:
            r = self.visit(b)
            newbody.extend(r if isinstance(r, list) else [r])
        node.body = newbody
        self.qual.pop()
        self.cls.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is None:
            return node
        node.value = self.visit(node.value)
        return ast.copy_location(
            ast.Assign(targets=[node.target], value=node.value), node)

    # expressions
    def visit_JoinedStr(self, node):
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        return node

    def visit_Constant(self, node):
        if isinstance(node.value, float):
            return ast.copy_location(_vc('F', ast.Constant(node.value)), node)
        return node

    def visit_Name(self, node):
        if isinstance(node.ctx, ast.Load) and node.id in ACTIVE and \
                not self.shadowed(node.id):
            return ast.copy_location(ast.Attribute(
                value=_name('__vc__'), attr='b_' + node.id, ctx=ast.Load()),
                node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is,
                                                           ast.IsNot)):
            r = node.comparators[0]
            if isinstance(r, ast.Constant) or isinstance(
                    node.left, ast.Constant):
                return node
            f = 'is_' if isinstance(node.ops[0], ast.Is) else 'isnot_'
            return ast.copy_location(_vc(f, node.left, r), node)
        if len(node.ops) == 1 and isinstance(node.ops[0], ast.In):
            return ast.copy_location(
                _vc('in_', node.left, node.comparators[0]), node)
        if len(node.ops) == 1 and isinstance(node.ops[0], ast.NotIn):
            return ast.copy_location(
                _vc('notin_', node.left, node.comparators[0]), node)
        return node

    def visit_BinOp(self, node):
        isstr = isinstance(node.left, (ast.JoinedStr, ast.Constant)) and (
            isinstance(node.left, ast.JoinedStr) or
            isinstance(node.left.value, str))
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return ast.copy_location(_vc('div', node.left, node.right), node)
        if isinstance(node.op, ast.Mod) and isstr:
            return ast.copy_location(_vc('fmt', node.left, node.right), node)
        return node

    def visit_AugAssign(self, node):
        if isinstance(node.op, ast.Div) and isinstance(node.target, ast.Name):
            new = ast.Assign(
                targets=[node.target],
                value=_vc('div', _name(node.target.id),
                          self.visit(node.value)))
            return ast.copy_location(new, node)
        if isinstance(node.target, ast.Attribute) and self.qual and \
                isinstance(node.target.value, ast.Name):
            # o.a += v
            t = node.target
            new = ast.Assign(targets=[ast.Attribute(
                value=_name(t.value.id), attr=t.attr, ctx=ast.Store())],
                value=ast.Call(func=ast.Attribute(
                    value=_name('__vc__'), attr='aug', ctx=ast.Load()),
                    args=[ast.Attribute(value=_name(t.value.id), attr=t.attr,
                                        ctx=ast.Load()), node.value,
                          ast.Constant(type(node.op).__name__)],
                    keywords=[]))
            ast.fix_missing_locations(ast.copy_location(new, node))
            args = new.value.args
            args[1] = self.visit(args[1])
            return ast.copy_location(ast.Expr(_vc(
                'setattr_', _name(t.value.id), ast.Constant(
                    self._mangle(t.attr)), new.value)), node)
        if isinstance(node.target, ast.Subscript) and self.qual and \
                not isinstance(node.target.slice, ast.Slice):
            t = node.target
            return ast.copy_location(ast.Expr(_vc(
                'augitem', self.visit(t.value), self.visit(t.slice),
                self.visit(node.value),
                ast.Constant(type(node.op).__name__))), node)
        node.value = self.visit(node.value)
        if not isinstance(node.target, ast.Name):
            node.target = self.generic_visit(node.target)
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load) or not self.qual:
            return node
        if any(isinstance(e, ast.Starred) for e in node.elts):
            return ast.copy_location(_vc('displ', self._starred(node.elts)),
                                     node)
        return ast.copy_location(_vc('newlist', node), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        return ast.copy_location(_vc('newdict', node), node) \
            if self.qual else node

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(_vc('newset', node), node) \
            if self.qual else node

    @staticmethod
    def _starred(elts):
        return ast.List(elts=[ast.Tuple(elts=[
            ast.Constant(isinstance(a, ast.Starred)),
            a.value if isinstance(a, ast.Starred) else a],
            ctx=ast.Load()) for a in elts], ctx=ast.Load())

    MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear',
                'update', 'setdefault', 'add', 'sort', 'reverse', 'popitem',
                'discard', 'difference_update', 'intersection_update'}

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and self.qual and \
                node.func.attr in self.MUTATORS and not any(
                isinstance(a, ast.Starred) for a in node.args) and all(
                k.arg for k in node.keywords):
            return ast.copy_location(_vc(
                'mcall', node.func.value, ast.Constant(node.func.attr),
                ast.Tuple(elts=node.args, ctx=ast.Load()),
                ast.Dict(keys=[ast.Constant(k.arg) for k in node.keywords],
                         values=[k.value for k in node.keywords])), node)
        if any(isinstance(a, ast.Starred) for a in node.args) and not (
                isinstance(node.func, ast.Name) and
                node.func.id == 'super'):
            args = self._starred(node.args)
            kw = ast.Dict(keys=[k.arg and ast.Constant(k.arg)
                                for k in node.keywords],
                          values=[k.value for k in node.keywords])
            return ast.copy_location(_vc('star', node.func, args, kw), node)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(
                node.targets[0], ast.Attribute) and self.qual:
            t = node.targets[0]
            return ast.copy_location(ast.Expr(_vc(
                'setattr_', t.value, ast.Constant(self._mangle(t.attr)),
                node.value)), node)
        if len(node.targets) == 1 and isinstance(
                node.targets[0], ast.Subscript) and self.qual and \
                not isinstance(node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(_vc(
                'setitem_', t.value, t.slice, node.value)), node)
        return node

    def _mangle(self, name):
        if name.startswith('__') and not name.endswith('__') and self.cls:
            return '_%s%s' % (self.cls[-1].lstrip('_'), name)
        return name

    def _target(self, t):
        """list of parameter names of a simple comprehension target"""
        if isinstance(t, ast.Name):
            return [t.id], False
        if isinstance(t, (ast.Tuple, ast.List)) and all(
                isinstance(x, ast.Name) for x in t.elts):
            return [x.id for x in t.elts], True
        return None, None

    def _lam(self, names, body):
        return ast.Lambda(args=ast.arguments(
            posonlyargs=[], args=[ast.arg(arg=n) for n in names],
            vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None,
            defaults=[]), body=body)

    def _comp(self, node, kind):
        if len(node.generators) != 1 or node.generators[0].is_async:
            return self._scoped_generic(node)
        g = node.generators[0]
        names, star = self._target(g.target)
        if names is None or any(isinstance(n, ast.NamedExpr)
                                for n in ast.walk(node)):
            return self._scoped_generic(node)
        it = self.visit(g.iter)
        self.scopes.append(set(names))
        if kind == 'dict':
            elt = ast.Tuple(elts=[self.visit(node.key),
                                  self.visit(node.value)], ctx=ast.Load())
        else:
            elt = self.visit(node.elt)
        if g.ifs:
            conds = [self.visit(c) for c in g.ifs]
            cond = conds[0] if len(conds) == 1 else ast.BoolOp(
                op=ast.And(), values=conds)
            cond = self._lam(names, cond)
        else:
            cond = ast.Constant(None)
        self.scopes.pop()
        return ast.copy_location(
            _vc('comp', ast.Constant(kind), it, self._lam(names, elt), cond,
                ast.Constant(bool(star))), node)

    def _scoped_generic(self, node):
        names = {n.id for g in node.generators for n in ast.walk(g.target)
                 if isinstance(n, ast.Name)}
        self.scopes.append(names)
        self.generic_visit(node)
        self.scopes.pop()
        return node

    def visit_ListComp(self, node):
        return self._comp(node, 'list')

    def visit_GeneratorExp(self, node):
        return self._comp(node, 'gen')

    def visit_SetComp(self, node):
        return self._comp(node, 'set')

    def visit_DictComp(self, node):
        return self._comp(node, 'dict')

    # statements
    def visit_ImportFrom(self, node):
        if node.level == 0 and node.module == 'math':
            node.module = 'vc.shadow_math'
        if node.level == 0 and node.module == 'bisect':
            node.module = 'vc.shadow_bisect'
        return node

    def visit_Import(self, node):
        out = []
        for a in node.names:
            if a.name in ('math', 'bisect'):
                out.append(ast.copy_location(ast.ImportFrom(
                    module='vc', names=[ast.alias(
                        name='shadow_' + a.name, asname=a.asname or a.name)],
                    level=0), node))
            else:
                out.append(ast.copy_location(ast.Import(names=[a]), node))
        return out

    def visit_While(self, node):
        from .forloop import transform_while
        return transform_while(self, node)

    def _tick(self, node):
        self.loopn += 1
        key = self.mod + '.' + '.'.join(self.qual) + '#%d' % self.loopn
        node.body.insert(0, ast.Expr(_vc('tick', ast.Constant(key))))
        return node

    def visit_For(self, node):
        return self._for(node)

    def _for(self, node):
        from .forloop import transform_for
        return transform_for(self, node)


class Loader(importlib.abc.Loader):
    def __init__(self, name, path, pkg):
        self.name, self.path, self.pkg = name, path, pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        src = open(self.path).read()
        tree = ast.parse(src, self.path)
        tree = Tr(self.name, tree).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, self.path, 'exec')
        module.__dict__['__vc__'] = shadow
        module.__dict__['__file__'] = self.path
        exec(code, module.__dict__)


HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name.startswith('contracts.'):
            # comprehensions of contracts may run over symbolic sequences
            p = os.path.join(HERE, *name.split('.')) + '.py'
            return importlib.machinery.ModuleSpec(
                name, Loader(name, p, False), origin=p) \
                if os.path.exists(p) else None
        if name != 'dcf' and not name.startswith('dcf.'):
            return None
        p = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(p):
            f = os.path.join(p, '__init__.py')
            spec = importlib.machinery.ModuleSpec(
                name, Loader(name, f, True), origin=f, is_package=True)
            spec.submodule_search_locations = [p]
            return spec
        f = p + '.py'
        if os.path.exists(f):
            return importlib.machinery.ModuleSpec(
                name, Loader(name, f, False), origin=f)
        return None


def install():
    sys.meta_path.insert(0, Finder())
