"""Loops and comprehensions over symbolic sequences whose iterations are independent.

The body is executed once for an arbitrary iteration i.  The rule applies when each iteration
writes array elements at positions fixed by i only, reads those arrays only at these positions,
appends exactly one element to a list, or adds to an accumulator; otherwise a loop contract is
required and the loop is reported as unsupported."""
import ast
import z3
from .sym import *
from . import sym as S
from .interp import Frame, LogRef
from . import models as M


class Lift:
    """replaces i by another term, turning symbols created in the body into functions of i"""

    def __init__(self, ctx, i, fresh):
        self.i = i
        self.consts = []
        self.funs = []
        for f in fresh:
            if isinstance(f, z3.FuncDeclRef):
                sorts = [f.domain(k) for k in range(f.arity())]
                g = ctx.func(f.name() + '@', *([IS] + sorts + [f.range()]))
                self.funs.append((f, g))
            else:
                g = ctx.func(f.decl().name() + '@', IS, f.sort())
                self.consts.append((f, g))

    def expr(self, e, k, extra=()):
        if not isz(e):
            return e
        k = z(k)
        pairs = [(self.i, k)] + [(c, g(k)) for c, g in self.consts] + list(extra)
        if self.funs:
            fs = []
            for f, g in self.funs:
                vs = [z3.Var(n, f.domain(n)) for n in range(f.arity())]
                fs.append((f, g(self.i, *vs)))
            e = z3.substitute_funs(e, *fs)
        return norm(z3.substitute(e, *pairs))

    def val(self, v, k, extra=()):
        if isz(v):
            return self.expr(v, k, extra)
        if isinstance(v, Cx):
            return Cx(self.val(v.re, k, extra), self.val(v.im, k, extra))
        if isinstance(v, tuple):
            return tuple(self.val(x, k, extra) for x in v)
        if isinstance(v, PList) and v.items is not None:
            return PList([self.val(x, k, extra) for x in v.items])
        if isinstance(v, SArr):
            g = v.snapshot()
            nd = len(v.shape)
            vs = [z3.FreshConst(IS, 'ix') for _ in range(nd)]
            body = g(tuple(vs))
            kind = v.kind

            def fn(idx):
                return self.val(body, k, list(extra) + [(a, z(b)) for a, b in zip(vs, idx)])
            return SArr(tuple(self.val(d, k, extra) for d in v.shape), fn, kind)
        if isinstance(v, SymStr):
            return SymStr([(p[0], p[1], self.val(p[2], k, extra)) if isinstance(p, tuple) else p for p in v.parts])
        if conc(v) or isinstance(v, (str, Special, LogRef)) or v is None:
            return v
        if isinstance(v, SObj):
            return SObj(v.cls, {a: self.val(x, k, extra) for a, x in v.attrs.items()}, v.hooks)
        if isinstance(v, PDict):
            return PDict({a: self.val(x, k, extra) for a, x in v.d.items()})
        if isinstance(v, (Opaque,)):
            return v
        if isinstance(v, Native):
            return v
        raise Unsupported('loop value of type %s' % type(v).__name__)


def contains_const(e, c):
    found = []
    from .solver import walk

    def visit(x):
        if x.eq(c):
            found.append(1)
    if isz(e):
        walk([e], visit)
    return bool(found)


def same_index(e, i):
    """constant c with e == i + c, or None"""
    d = norm(z3.simplify(z(e) - i)) if isz(e) else None
    if isinstance(d, int):
        return d
    return None


def merge(paths):
    """ite over [(pc, value)]"""
    r = paths[-1][1]
    for pc, v in reversed(paths[:-1]):
        r = ite(pc, v, r)
    return r


def struct(v):
    if isinstance(v, PList):
        return None
    return v


def run_body(ip, fr, n, bodyfn):
    """execute one arbitrary iteration on a copy of the world; returns (i, results)"""
    ctx = ip.ctx
    i = z3.FreshConst(IS, 'it')

    def body():
        memo = {}
        cframes = clone(ip.frames, memo)
        cghost = clone(ctx.ghosts, memo)
        cfr = memo[id(fr)][1] if id(fr) in memo else clone(fr, memo)
        sframes, sghost = ip.frames, ctx.ghosts
        ip.frames, ctx.ghosts = cframes, cghost
        log = []
        S.READLOG.append(log)
        try:
            ctx.assume(i >= 0, lt(i, n))
            for o, c in list(memo.values()):
                if isinstance(c, SArr):
                    c.wlog = []
            before = ip.snap(memo)
            r = bodyfn(cfr, i)
            found = {}
            ip.diff(memo, before, found)
            return (r, found, memo, before, list(log))
        finally:
            S.READLOG.pop()
            ip.frames, ctx.ghosts = sframes, sghost
    res = ctx.sub_explore(body)
    return i, res


def add_facts(ip, lift, i, n, res):
    """facts created in the body hold for every iteration taking that path"""
    ctx = ip.ctx
    q = z3.FreshConst(IS, 'it')
    ex = ()
    if len(res) == 1:
        # the only path left is the one every iteration takes
        pc, facts, fresh, r = res[0]
        res = [(True, list(facts) + [pc], fresh, r)]
    else:
        p = Or(*[lift.expr(x[0], q, *ex) for x in res])
        s = norm(z3.simplify(z(Implies(And(0 <= q, lt(q, n)), p))))
        if s is not True:
            ctx.assume(z3.ForAll([q], z(s)))
    for pc, facts, fresh, r in res:
        for f in facts:
            if isinstance(f, bool) or isz(f) and (f.eq(i >= 0) or f.eq(z(lt(i, n)))):
                continue
            e = lift.expr(f, q)
            p = pc if isinstance(pc, bool) else lift.expr(pc, q)
            g = Implies(And(0 <= q, lt(q, n), p), e)
            if g is True:
                continue
            ctx.assume(z3.ForAll([q], z(g)))


def map_loop(ip, st, fr, seq, n):
    ctx = ip.ctx
    assigned = set()
    for s in st.body:
        assigned |= set(ip.assigned_names(s))
    targets = set(ip.assigned_names(st.target))
    body_vars = assigned | targets
    aug = set()
    for s in st.body:
        for x in ast.walk(s):
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                aug.add(x.target.id)
    entry = {v: fr.vars.get(v, UNDEF) for v in body_vars}
    acc = {}
    for v in sorted(assigned):
        if v in aug and is_num(entry[v]):
            k = ctx.int('acc.' + v) if is_int(entry[v]) else ctx.real('acc.' + v)
            acc[v] = k

    def bodyfn(cfr, i):
        for v in body_vars:
            if v in acc:
                cfr.vars[v] = acc[v]
            elif isinstance(cfr.vars.get(v), (SArr, PList)) and v in aug:
                pass
            else:
                cfr.vars[v] = UNDEF
        ip.assign(st.target, M.seq_at(ip, seq, i), cfr)
        before_vars = None
        try:
            sig = ip.exec_body(st.body, cfr)
        except PyRaise as e:
            return ('raise', e, cfr)
        if sig and sig[0] != 'continue':
            return ('exit', sig, cfr)
        return ('ok', None, cfr)
    i, res = run_body(ip, fr, n, bodyfn)
    for pc, facts, fresh, (r, found, memo, before, log) in res:
        if r[0] == 'raise':
            ctx.prove('%s/no %s raised in loop' % (fr.func.qual if fr.func else '?', r[1].name),
                      forall_it(i, n, And(pc, *facts), fresh, ctx))
        elif r[0] == 'exit':
            raise Unsupported('loop with early exit needs a contract')
    res = [x for x in res if x[3][0][0] == 'ok']
    if not res:
        ctx.assume(eq(n, 0) if isz(n) else n == 0)
        return None
    if len(res) > 60:
        raise Unsupported('too many paths in a loop body')
    allfresh = []
    for pc, facts, fresh, r in res:
        for f in fresh:
            if not any(f is g or (f.eq(g) if type(f) is type(g) and not isinstance(f, z3.FuncDeclRef) else False) for g in allfresh):
                allfresh.append(f)
    lift = Lift(ctx, i, allfresh)
    # what changed?
    changed = {}
    for pc, facts, fresh, (r, found, memo, before, log) in res:
        for k, v in found.items():
            changed.setdefault(k, []).append(v)
    # variables local to the body
    extra_subst = []
    accs_final = {}
    for v, sym in acc.items():
        incs = []
        for pc, facts, fresh, (r, found, memo, before, log) in res:
            val = r[2].vars.get(v)
            if not is_num(val):
                raise Unsupported('accumulator %s' % v)
            d = z3.simplify(z(sub(val, sym)))
            if contains_const(d, sym):
                raise Unsupported('loop-carried variable %s needs a contract' % v)
            incs.append((pc, norm(d)))
        e = merge(incs)
        for w, s2 in acc.items():
            if contains_const(e, s2):
                raise Unsupported('loop-carried variable %s needs a contract' % w)
        kind = 'i' if is_int(e) and is_int(entry[v]) else 'r'
        if kind == 'r' and is_int(sym):
            raise Unsupported('accumulator changes type')
        at = lambda k, e=e: lift.expr(z(e), k)
        p = M.prefix_sum(ip, at, n, kind)
        accs_final[v] = (p, kind)
        extra_subst.append((sym, lambda k, p=p, v=v: z(add(entry[v], p(z(k))))))

    def ex(k):
        return [(s, f(k)) for s, f in extra_subst]
    add_facts_sub(ip, lift, i, n, res, ex)
    arrays = {}
    lists = {}
    for k, v in changed.items():
        if k[0] == 'var':
            f, name = v[0][0], v[0][1]
            if f is fr and name in body_vars:
                continue
            if f is fr:
                continue
            raise Unsupported('loop changes variable %s of an outer scope' % name)
        elif k[0] == 'arr':
            arrays[k] = v[0][0]
        elif k[0] == 'list':
            lists[k] = v[0][0]
        else:
            raise Unsupported('loop changes %s: needs a contract' % (k,))
    new_arr = []
    for k, a in arrays.items():
        new_arr.append((a,) + array_effect(ip, a, i, n, res, lift, ex))
    for k, l in lists.items():
        outs = []
        for pc, facts, fresh, (r, found, memo, before, log) in res:
            c = memo[id(l)][1]
            b = before[id(l)]
            n0 = len(b[0]) if b[0] is not None else b[1]
            if b[0] is not None and c.items is not None:
                if len(c.items) != n0 + 1 or any(x is not y for x, y in zip(c.items, b[0])):
                    raise Unsupported('list changes irregularly in a loop')
                outs.append((pc, c.items[-1]))
            else:
                if not ctx.must(eq(c.n, add(n0, 1))):
                    raise Unsupported('list changes irregularly in a loop')
                outs.append((pc, c.fn(n0)))
        v = merge(outs) if len(outs) > 1 else outs[0][1]
        n0, g0 = l.length(), (l.getter() if (l.items is None or l.items) else None)
        if l.inv is not None:
            raise Unsupported('list under invariant in a map loop')

        def fn(k, v=v, n0=n0, g0=g0):
            if conc(n0) and n0 == 0:
                return lift.val(v, k, ex(k))
            return ite(lt(k, n0), g0(k), lift.val(v, sub(k, n0), ex(sub(k, n0))))
        new_arr.append((l, 'list', fn, add(n0, n)))
    for t in new_arr:
        if t[1] == 'list':
            l = t[0]
            l.items, l.n, l.fn = None, t[3], t[2]
        else:
            a, cond, val, spec = t
            a.write(cond, val, spec)
    for v in body_vars:
        if v in accs_final:
            p, kind = accs_final[v]
            fr.vars[v] = add(entry[v], p(z(n)))
        elif v in aug and isinstance(entry[v], (SArr, PList)):
            pass
        else:
            # value of the last iteration, when there is one
            outs = [(pc, r[2].vars.get(v, UNDEF)) for pc, facts, fresh, (r, found, memo, before, log) in res]
            try:
                if any(o[1] is UNDEF for o in outs):
                    raise Unsupported('x')
                last = sub(n, 1)
                val = lift.val(merge(outs) if len(outs) > 1 else outs[0][1], last, ex(last))
                if ctx.must(cmp('>', n, 0)):
                    fr.vars[v] = val
                elif entry[v] is not UNDEF:
                    fr.vars[v] = ite(cmp('>', n, 0), val, entry[v])
                else:
                    fr.vars[v] = UNDEF
            except Unsupported:
                fr.vars[v] = UNDEF
    return None


def forall_it(i, n, bad, fresh, ctx):
    vs = [i] + [f for f in fresh if not isinstance(f, z3.FuncDeclRef)]
    if any(isinstance(f, z3.FuncDeclRef) for f in fresh):
        # keep the symbols free: they are universally quantified in the obligation
        return Implies(And(0 <= i, lt(i, n)), Not(bad))
    return z3.ForAll(vs, z(Implies(And(0 <= i, lt(i, n)), Not(bad))))


def add_facts_sub(ip, lift, i, n, res, ex):
    ctx = ip.ctx
    q = z3.FreshConst(IS, 'it')
    if len(res) == 1:
        # the only path left is the one every iteration takes
        pc, facts, fresh, r = res[0]
        res = [(True, list(facts) + [pc], fresh, r)]
    else:
        p = Or(*[lift.expr(x[0], q, ex(q)) for x in res])
        s = norm(z3.simplify(z(Implies(And(0 <= q, lt(q, n)), p))))
        if s is not True:
            ctx.assume(z3.ForAll([q], z(s)))
    for pc, facts, fresh, r in res:
        for f in facts:
            if isinstance(f, bool) or isz(f) and (f.eq(i >= 0) or f.eq(z(lt(i, n)))):
                continue
            e = lift.expr(f, q, ex(q))
            p = pc if isinstance(pc, bool) else lift.expr(pc, q, ex(q))
            g = norm(Implies(And(0 <= q, lt(q, n), p), e))
            s = norm(z3.simplify(z(g)))
            if s is True:
                continue
            ctx.assume(z3.ForAll([q], z(g)))


def array_effect(ip, a, i, n, res, lift, ex):
    ctx = ip.ctx
    nd = len(a.shape)
    specs = []
    for pc, facts, fresh, (r, found, memo, before, log) in res:
        c = memo[id(a)][1]
        specs += c.wlog
    dim, off = None, None
    for d in range(nd):
        cs = [same_index(s[d][1], i) if s[d][0] == 'i' else None for s in specs]
        if cs and all(x is not None and x == cs[0] for x in cs):
            dim, off = d, cs[0]
            break
    if dim is None:
        raise Unsupported('loop writes overlapping positions: needs a contract')
    # reads of this array inside the body only at this iteration's position
    for pc, facts, fresh, (r, found, memo, before, log) in res:
        c = memo[id(a)][1]
        for obj, idx in log:
            if obj is c or obj is a:
                o = same_index(idx[dim], i) if isz(idx[dim]) else None
                if o != off:
                    raise Unsupported('loop reads other iterations\' results: needs a contract')
    vs = [z3.FreshConst(IS, 'ix') for _ in range(nd)]
    at = list(vs)
    at[dim] = add(i, off)
    outs = []
    for pc, facts, fresh, (r, found, memo, before, log) in res:
        c = memo[id(a)][1]
        outs.append((pc, c.at(*at)))
    e = merge(outs)

    def cond(idx):
        k = sub(idx[dim], off)
        return And(le(0, k), lt(k, n))

    def val(idx):
        k = sub(idx[dim], off)
        return lift.val(e, k, ex(k) + [(v, z(x)) for j, (v, x) in enumerate(zip(vs, idx)) if j != dim])
    spec = []
    for d in range(nd):
        if d == dim:
            spec.append(('*',))
            continue
        es = [s[d][1] if s[d][0] == 'i' else None for s in specs]
        if es and all(x is not None and same_dim(x, es[0]) for x in es) and not (isz(es[0]) and contains_const(es[0], i)):
            spec.append(('i', es[0]))
        else:
            spec.append(('*',))
    return cond, val, spec


def map_comp(ip, e, fr, seq):
    g = e.generators[0]
    ctx = ip.ctx
    n = seq.length()

    def bodyfn(cfr, i):
        f2 = Frame(cfr.mod, cfr.func, closure=cfr, cls=cfr.cls)
        ip.assign(g.target, M.seq_at(ip, seq, i), f2)
        keep = True
        for c in g.ifs:
            cv = ip.eval(c, f2)
            cv = cv if is_bool(cv) else ip.truth(cv)
            keep = And(keep, cv)
            if isz(cv):
                if not ctx.branch(cv):
                    return (False, None)
            elif not cv:
                return (False, None)
        try:
            return (True, ip.eval(e.elt, f2))
        except PyRaise as ex_:
            return ('raise', ex_)
    return seq_map(ip, fr, n, bodyfn, lambda k: (e, g, fr, seq, k))


def map_apply(ip, fn, seq):
    fr = ip.frames[-1]
    return seq_map(ip, fr, seq.length(), lambda cfr, i: (True, fn(M.seq_at(ip, seq, i))), None)


def filter_seq(ip, fn, seq):
    fr = ip.frames[-1]

    def bodyfn(cfr, i):
        x = M.seq_at(ip, seq, i)
        if ip.truth(fn(x)):
            return (True, x)
        return (False, None)
    return seq_map(ip, fr, seq.length(), bodyfn, None)


def seq_map(ip, fr, n, bodyfn, again):
    ctx = ip.ctx
    i, res = run_body(ip, fr, n, bodyfn)
    for pc, facts, fresh, (r, found, memo, before, log) in res:
        if r[0] == 'raise':
            ctx.prove('%s/no %s raised in comprehension' % (fr.func.qual if fr.func else '?', r[1].name),
                      forall_it(i, n, And(pc, *facts), fresh, ctx))
        bad = [k for k in found if k[0] in ('arr', 'list', 'attr', 'dict', 'ghost')]
        if bad:
            raise Unsupported('comprehension with side effects')
    res = [x for x in res if x[3][0][0] != 'raise']
    allfresh = []
    for pc, facts, fresh, r in res:
        for f in fresh:
            if not any(f is h or (type(f) is type(h) and not isinstance(f, z3.FuncDeclRef) and f.eq(h)) for h in allfresh):
                allfresh.append(f)
    lift = Lift(ctx, i, allfresh)
    add_facts_sub(ip, lift, i, n, res, lambda k: [])
    keeps = [(pc, r[0][0]) for pc, facts, fresh, r in res]
    outs = [(pc, r[0][1]) for pc, facts, fresh, r in res if r[0][0] is True]
    if not outs:
        return PList([])
    v = merge(outs) if len(outs) > 1 else outs[0][1]
    if all(k is True for _, k in keeps):
        return PList(n=n, fn=lambda k: lift.val(v, k))
    cond = Or(*[pc for pc, k in keeps if k is True])
    mask = SArr((n,), lambda j: lift.expr(z(cond), j[0]), 'b')
    cnt, sf, pf = M.mask_filter(ip, mask)
    return PList(n=cnt, fn=lambda k: lift.val(v, sf(z(k))))
