"""loops of the real code over sequences of symbolic length

    for TARGET in ITER: BODY

becomes

    it = ITER
    if __vc__.symseq(it):   BODY as a function of the element, run once for
                            an arbitrary index by seq.forloop
    else:                   the loop as written

    while TEST: BODY

becomes

    if __vc__.symwhile():   TEST and BODY as functions, run for an arbitrary
                            round by seq.whileloop
    else:                   the loop as written

Loops with break, return, yield, del, nested functions or zero argument super
are kept as written (a symbolic sequence is refused there).
"""
import ast
import copy


def own(node, kinds):
    """nodes of these kinds that belong to this loop body"""
    todo, out = list(node.body), []
    while todo:
        x = todo.pop()
        if isinstance(x, kinds):
            out.append(x)
        if isinstance(x, (ast.For, ast.While, ast.FunctionDef, ast.Lambda,
                          ast.ClassDef)):
            if isinstance(x, (ast.For, ast.While)):
                todo.extend(x.orelse)
            continue
        todo.extend(ast.iter_child_nodes(x))
    return out


def names_of(target):
    return {n.id for n in ast.walk(target) if isinstance(n, ast.Name)}


def assigned(stmts):
    out = set()
    todo = list(stmts)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp,
                          ast.DictComp, ast.GeneratorExp)):
            continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
        if isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split('.')[0] for a in x.names}
        todo.extend(ast.iter_child_nodes(x))
    return out


def loads(node):
    return {n.id for n in ast.walk(node)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}


class Flow(object):
    """names possibly read before they are assigned"""

    def __init__(self):
        self.early = set()

    def read(self, node, have):
        if node is not None:
            self.early |= loads(node) - have

    def block(self, stmts, have):
        """definitely assigned after; None if the end is not reached"""
        for s in stmts:
            have = self.stmt(s, have)
            if have is None:
                return None
        return have

    def meet(self, *hs):
        hs = [h for h in hs if h is not None]
        if not hs:
            return None
        out = hs[0]
        for h in hs[1:]:
            out = out & h
        return out

    def stmt(self, s, have):
        if isinstance(s, ast.If):
            self.read(s.test, have)
            return self.meet(self.block(s.body, have),
                             self.block(s.orelse, have))
        if isinstance(s, (ast.For, ast.While)):
            inner = have
            if isinstance(s, ast.For):
                self.read(s.iter, have)
                inner = have | names_of(s.target)
                self.read(s.target, inner)
            else:
                self.read(s.test, have)
            self.block(s.body, inner)
            self.block(s.orelse, have)
            return have
        if isinstance(s, ast.Try):
            self.block(s.body, have)
            for h in s.handlers:
                self.read(h.type, have)
                self.block(h.body, have | ({h.name} if h.name else set()))
            self.block(s.orelse, have)
            self.block(s.finalbody, have)
            return have
        if isinstance(s, ast.With):
            for i in s.items:
                self.read(i.context_expr, have)
            return self.meet(have, self.block(s.body, have))
        if isinstance(s, (ast.Continue, ast.Raise, ast.Return)):
            self.read(s, have)
            if isinstance(s, ast.Continue):
                self.ends.append(have)
            return None
        if isinstance(s, ast.AugAssign):
            self.early |= (loads(s) | names_of(s.target)) - have
            return have | (names_of(s.target) if isinstance(
                s.target, ast.Name) else set())
        self.read(s, have)
        return have | assigned([s])

    def run(self, node):
        self.ends = []
        have = set()
        if isinstance(node, ast.While):
            self.read(node.test, have)
        elif isinstance(node.target, (ast.Name, ast.Tuple, ast.List)):
            have = names_of(node.target)
        end = self.block(node.body, have)
        end = self.meet(end, *self.ends)
        return self.early, end if end is not None else set()


def analyse(fn):
    """{id(for node): info} for the loops of a function"""
    out = {}
    bad = {n for n in ast.walk(fn)
           if isinstance(n, (ast.Global, ast.Nonlocal))}
    if bad:
        return out

    def visit(n, intry):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            if isinstance(ch, (ast.For, ast.While)):
                one(ch, intry)
            visit(ch, intry or isinstance(ch, ast.Try))

    def one(node, intry):
        if node.orelse or own(node, (
                ast.Break, ast.Return, ast.Yield, ast.YieldFrom, ast.Delete,
                ast.FunctionDef, ast.ClassDef, ast.NamedExpr, ast.Await)):
            return
        for x in ast.walk(node):
            if isinstance(x, (ast.Return, ast.Yield, ast.YieldFrom,
                              ast.Delete, ast.FunctionDef, ast.NamedExpr)):
                return
            if isinstance(x, ast.Name) and x.id == 'super':
                return
        for x in ast.walk(node.target) if isinstance(node, ast.For) else ():
            if not isinstance(x, (ast.Name, ast.Tuple, ast.List, ast.Store)):
                return
        names = assigned([node])
        early, end = Flow().run(node)
        carried = {x for x in names if x in early or x not in end}
        inside = {id(x) for x in ast.walk(node)}
        live = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and
                isinstance(x.ctx, ast.Load) and id(x) not in inside}
        # loops around: the next round may read
        if isinstance(node, ast.For):
            live |= {x.id for x in ast.walk(node.iter)
                     if isinstance(x, ast.Name)}
        else:
            # the test is read after the last round
            live |= loads(node.test)
        out[id(node)] = (sorted(names), sorted(carried),
                         sorted(names & live), sorted(names & early), intry)
    visit(fn, False)
    return out


class Cont(ast.NodeTransformer):
    """continue of this loop -> return"""

    def visit_Continue(self, node):
        return ast.copy_location(ast.Return(value=None), node)

    def visit_For(self, node):
        return node

    def visit_While(self, node):
        return node

    def visit_FunctionDef(self, node):
        return node


def transform_for(tr, node):
    return _transform(tr, node)


def transform_while(tr, node):
    return _transform(tr, node)


def _transform(tr, node):
    info = tr.loopinfo.get(id(node)) if tr.qual else None
    tr.generic_visit(node)
    body = node
    if isinstance(node, ast.While):
        # counts the rounds of the loop as written
        body = copy.copy(node)
        body.body = list(node.body)
        node = tr._tick(node)
    if info is None:
        return node
    written = node
    node = body
    names, carried, live, early, intry = info
    tr.forn += 1
    k = tr.forn
    it, el = '_vcit%d__' % k, '_vcel%d__' % k
    fb, fg, fp = '_vcbody%d__' % k, '_vcget%d__' % k, '_vcput%d__' % k

    def nm(i, ctx=None):
        return ast.Name(id=i, ctx=ctx or ast.Load())

    def fdef(name, args, body):
        return ast.FunctionDef(
            name=name, args=ast.arguments(
                posonlyargs=[], args=[ast.arg(arg=a) for a in args],
                vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None,
                defaults=[]), body=body, decorator_list=[], returns=None)
    nonl = [ast.Nonlocal(names=list(names))] if names else []
    isfor = isinstance(node, ast.For)
    body = [Cont().visit(copy.deepcopy(b)) for b in node.body]
    if isfor:
        body.insert(0, ast.Assign(targets=[copy.deepcopy(node.target)],
                                  value=nm(el)))
    bdef = fdef(fb, [el], nonl + body)
    get = [ast.Assign(targets=[nm('d', ast.Store())],
                      value=ast.Dict(keys=[], values=[]))]
    put = list(nonl)
    for n in names:
        get.append(ast.Try(body=[ast.Assign(
            targets=[ast.Subscript(value=nm('_vcd'), slice=ast.Constant(n),
                                   ctx=ast.Store())], value=nm(n))],
            handlers=[ast.ExceptHandler(
                type=nm('NameError'), name=None, body=[ast.Pass()])],
            orelse=[], finalbody=[]))
        put.append(ast.If(test=ast.Compare(
            left=ast.Constant(n), ops=[ast.In()], comparators=[nm('_vcd')]),
            body=[ast.Assign(targets=[nm(n, ast.Store())],
                             value=ast.Subscript(value=nm('_vcd'),
                                                 slice=ast.Constant(n),
                                                 ctx=ast.Load()))],
            orelse=[]))
    get[0].targets[0].id = '_vcd'
    get.append(ast.Return(value=nm('_vcd')))
    gdef, pdef = fdef(fg, [], get), fdef(fp, ['_vcd'], put or [ast.Pass()])
    call = ast.Expr(ast.Call(
        func=ast.Attribute(value=nm('__vc__'),
                           attr='forloop' if isfor else 'whileloop',
                           ctx=ast.Load()),
        args=[nm(it), nm(fb), nm(fg), nm(fp)] + [ast.Constant(tuple(x))
                                                 for x in (names, carried,
                                                           live, early)] +
        [ast.Constant(intry)], keywords=[]))
    loop = written
    if not isfor:
        # only used inside of the symbolic branch
        tdef = fdef(it, [], [ast.Return(value=copy.deepcopy(node.test))])
        test = ast.Call(func=ast.Attribute(
            value=nm('__vc__'), attr='symwhile', ctx=ast.Load()), args=[],
            keywords=[])
        new = [ast.If(test=test, body=[bdef, gdef, pdef, tdef, call],
                      orelse=[loop])]
        for x in new:
            ast.copy_location(x, node)
            ast.fix_missing_locations(x)
        return new
    first = ast.Assign(targets=[nm(it, ast.Store())], value=node.iter)
    loop.iter = nm(it)
    test = ast.Call(func=ast.Attribute(value=nm('__vc__'), attr='symseq',
                                       ctx=ast.Load()),
                    args=[nm(it)], keywords=[])
    # one statement: the loop function is made on use only
    new = [first, ast.If(test=test, body=[bdef, gdef, pdef, call],
                         orelse=[loop])]
    for x in new:
        ast.copy_location(x, node)
        ast.fix_missing_locations(x)
    return new
