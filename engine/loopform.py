"""Counting loops in one form.

`i = a ... while i < e: body; i += 1` is read as `for i in range(i, e): body`, and
`i = a ... for x in X: body; i += 1` as `for i, x in enumerate(X, i): body`, when that means the same:
the counter changes only in that last statement of the body, the body has no `continue`, the bound cannot
change in the body, and the counter is not read after the loop."""
import ast

LOOPS = (ast.For, ast.While)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def own(body, kind):
    """statements of that kind that belong to the loop itself"""
    for st in body:
        if isinstance(st, kind):
            yield st
        if isinstance(st, LOOPS + (ast.FunctionDef, ast.ClassDef)):
            if isinstance(st, LOOPS):
                yield from own(st.orelse, kind)
            continue
        for f in ('body', 'orelse', 'finalbody'):
            yield from own(getattr(st, f, []) or [], kind)
        for h in getattr(st, 'handlers', []):
            yield from own(h.body, kind)


def names(nodes, ctx):
    return [x for n in nodes for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)]


def one_more(st):
    """the variable the statement adds one to"""
    one = lambda v: isinstance(v, ast.Constant) and v.value == 1 and isinstance(v.value, int)
    if isinstance(st, ast.AugAssign) and isinstance(st.op, ast.Add) and isinstance(st.target, ast.Name) and one(st.value):
        return st.target.id
    if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and isinstance(st.value, ast.BinOp) \
            and isinstance(st.value.op, ast.Add) and isinstance(st.value.left, ast.Name) and st.value.left.id == st.targets[0].id and one(st.value.right):
        return st.targets[0].id


def fixed(e, body):
    """the value of e cannot change in the body"""
    if isinstance(e, ast.Constant):
        return isinstance(e.value, int)
    if isinstance(e, ast.Name):
        return e.id not in [x.id for x in names(body, (ast.Store, ast.Del))]
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub, ast.Mult)):
        return fixed(e.left, body) and fixed(e.right, body)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'len' and len(e.args) == 1 and isinstance(e.args[0], ast.Name) and fixed(e.args[0], body):
        n = e.args[0].id
        for c in (x for st in body for x in ast.walk(st) if isinstance(x, ast.Call)):
            if isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == n:
                return False
            if any(isinstance(a, ast.Name) and a.id == n for a in c.args) and not (isinstance(c.func, ast.Name) and c.func.id == 'len'):
                return False
        return True
    return False


def bound(test, v):
    if not (isinstance(test, ast.Compare) and len(test.ops) == 1):
        return None
    a, op, b = test.left, test.ops[0], test.comparators[0]
    if isinstance(b, ast.Name) and b.id == v and isinstance(op, (ast.Gt, ast.GtE)):
        a, b, op = b, a, ast.Lt() if isinstance(op, ast.Gt) else ast.LtE()
    if not (isinstance(a, ast.Name) and a.id == v) or any(x.id == v for x in names([b], ast.Load)):
        return None
    if isinstance(op, ast.Lt):
        return b
    if isinstance(op, ast.LtE):
        return ast.BinOp(b, ast.Add(), ast.Constant(1))


def binds(n, v):
    if isinstance(n, ast.For):
        return v in [x.id for x in names([n.target], ast.Store)]
    if isinstance(n, COMPS):
        return v in [x.id for g in n.generators for x in names([g.target], ast.Store)]


def read_elsewhere(fn, loop, v):
    """whether v is read outside the loop, other than where another loop gives it its values"""
    def gives(st):
        return isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v for t in st.targets)

    def block(body):
        for k, st in enumerate(body):
            if gives(st) and not any(x is loop for later in body[k:] for x in ast.walk(later)):
                return visit(st.value)      # later reads in this block are of the new value
            if visit(st):
                return True
        return False

    def visit(n):
        if n is loop or binds(n, v):
            return False
        if isinstance(n, ast.Name) and n.id == v and isinstance(n.ctx, ast.Load):
            return True
        if isinstance(n, (ast.Global, ast.Nonlocal)) and v in n.names:
            return True
        for f, x in ast.iter_fields(n):
            if isinstance(x, list):
                if block(x) if x and isinstance(x[0], ast.stmt) else any(visit(c) for c in x if isinstance(c, ast.AST)):
                    return True
            elif isinstance(x, ast.AST) and visit(x):
                return True
        return False
    return block(fn.body)


def counter(fn, block, k):
    """loop block[k] in the other form, or None"""
    loop = block[k]
    if loop.orelse or len(loop.body) < 2:
        return None
    v = one_more(loop.body[-1])
    body = loop.body[:-1]
    if v is None or v in [x.id for x in names(body, (ast.Store, ast.Del))] or any(True for _ in own(body, ast.Continue)):
        return None
    if any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for st in body for x in ast.walk(st)):
        return None
    init = None
    for st in block[:k]:
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.targets[0].id == v:
            init = st.value
        elif any(x.id == v for x in names([st], ast.Store)):
            init = None
    if init is None or isinstance(init, ast.Constant) and not isinstance(init.value, int):
        return None
    if read_elsewhere(fn, loop, v):
        return None
    load, store = ast.Name(v, ast.Load()), ast.Name(v, ast.Store())
    if isinstance(loop, ast.While):
        e = bound(loop.test, v)
        if e is None or not fixed(e, body):
            return None
        new = ast.For(store, ast.Call(ast.Name('range', ast.Load()), [load, e], []), body, [])
    else:
        if v in [x.id for x in names([loop.target, loop.iter], (ast.Store, ast.Load))]:
            return None
        if isinstance(init, ast.Constant):
            args = [loop.iter] + ([load] if init.value else [])
        else:
            args = [loop.iter, load]
        new = ast.For(ast.Tuple([store, loop.target], ast.Store()), ast.Call(ast.Name('enumerate', ast.Load()), args, []), body, [])
    return ast.fix_missing_locations(ast.copy_location(new, loop))


def rewrite(fn, block):
    for k, st in enumerate(block):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(st, f, None)
            if isinstance(b, list) and not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                rewrite(fn, b)
        for h in getattr(st, 'handlers', []):
            rewrite(fn, h.body)
        if isinstance(st, LOOPS):
            new = counter(fn, block, k)
            if new is not None:
                block[k] = new


def normalise(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            rewrite(n, n.body)
    return tree
