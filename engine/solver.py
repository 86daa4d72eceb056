"""Discharging obligations: z3 (several strategies), then cvc5."""
import os
import subprocess
import tempfile
import time
import z3
from . import congruence, ring
from fractions import Fraction
from .sym import F, POW, ATAN2, PI, RS, z, isz

Q12 = z3.RealVal(Fraction(314159265358979, 10**14))
Q13 = z3.RealVal(Fraction(314159265358980, 10**14))
MATH = {f.name() for f in F.values()} | {'pow!', 'atan2!', 'pi!'}

STATS = {'z3': [0, 0.0], 'z3-nlsat': [0, 0.0], 'cvc5': [0, 0.0], 'z3-nomath': [0, 0.0], 'z3-noquant': [0, 0.0],
         'simplifier': [0, 0.0], 'z3-slice': [0, 0.0]}


def walk(exprs, visit):
    seen = set()
    stack = list(exprs)
    while stack:
        e = stack.pop()
        k = e.get_id()
        if k in seen:
            continue
        seen.add(k)
        visit(e)
        if z3.is_quantifier(e):
            stack.append(e.body())
        else:
            stack.extend(e.children())


def _has_var(e, memo):
    k = e.get_id()
    if k in memo:
        return memo[k]
    if z3.is_var(e):
        r = True
    elif z3.is_quantifier(e):
        r = True
    else:
        r = any(_has_var(c, memo) for c in e.children())
    memo[k] = r
    return r


def math_apps(exprs):
    apps = {}
    memo = {}

    def visit(e):
        if z3.is_app(e) and e.num_args() > 0:
            n = e.decl().name()
            if n in MATH and not _has_var(e, memo):
                apps.setdefault(n, {})[e.get_id()] = e
    walk(exprs, visit)
    return {n: list(d.values()) for n, d in apps.items()}


def uses_pi(exprs):
    found = []

    def visit(e):
        if z3.is_const(e) and e.decl().name() == 'pi!':
            found.append(1)
    walk(exprs, visit)
    return bool(found)


def math_axioms(exprs, pairs=True, limit=14):
    """instances of the axioms of the mathematical functions for the ground terms present"""
    ax = []
    apps = math_apps(exprs)
    # atan2 brings sin/cos of itself and sqrt of sum of squares
    extra = []
    for e in apps.get('atan2!', []):
        y, x = e.children()
        s, c = F['sin'](e), F['cos'](e)
        r = F['sqrt'](x * x + y * y)
        ax += [e <= PI, e > -PI, r * c == x, r * s == y, r >= 0, r * r == x * x + y * y]
        ax += [z3.Implies(z3.And(y == 0, x > 0), e == 0), z3.Implies(y > 0, e > 0), z3.Implies(y < 0, e < 0)]
        extra += [s, c, r]
    if extra:
        more = math_apps(extra)
        for n, l in more.items():
            ids = {t.get_id() for t in apps.get(n, [])}
            apps.setdefault(n, []).extend(t for t in l if t.get_id() not in ids)
    if 'sin!' in apps or 'cos!' in apps or 'atan2!' in apps or 'asin!' in apps or 'acos!' in apps or uses_pi(exprs):
        ax += [PI > Q12, PI < Q13]
    args = {}
    for n in ('sin!', 'cos!'):
        for e in apps.get(n, []):
            args[e.arg(0).get_id()] = e.arg(0)
    trig = list(args.values())
    for a in trig:
        s, c = F['sin'](a), F['cos'](a)
        ax += [s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1]
        ax += [z3.Implies(a == 0, z3.And(s == 0, c == 1))]
        ax += [z3.Implies(z3.And(a > 0, a < PI), s > 0), z3.Implies(z3.And(a < 0, a > -PI), s < 0)]
        ax += [z3.Implies(z3.And(a > -PI / 2, a < PI / 2), c > 0)]
    if pairs and len(trig) <= limit:
        for i in range(len(trig)):
            for j in range(i):
                a, b = trig[i], trig[j]
                ax.append(z3.Implies(a == -b, z3.And(F['sin'](a) == -F['sin'](b), F['cos'](a) == F['cos'](b))))
                ax.append(z3.Implies(a == b, z3.And(F['sin'](a) == F['sin'](b), F['cos'](a) == F['cos'](b))))
    for e in apps.get('exp!', []):
        a = e.arg(0)
        ax += [e > 0, z3.Implies(a == 0, e == 1), z3.Implies(a < 0, e < 1), z3.Implies(a > 0, e > 1), e >= 1 + a]
    for e in apps.get('log!', []):
        a = e.arg(0)
        ax += [z3.Implies(a == 1, e == 0), z3.Implies(z3.And(a > 0, a < 1), e < 0), z3.Implies(a > 1, e > 0)]
    for e in apps.get('sqrt!', []):
        a = e.arg(0)
        ax += [z3.Implies(a >= 0, z3.And(e >= 0, e * e == a)), z3.Implies(a > 0, e > 0)]
    for e in apps.get('gamma!', []):
        ax += [z3.Implies(e.arg(0) > 0, e > 0)]
    for e in apps.get('asin!', []):
        a = e.arg(0)
        ax += [e >= -PI / 2, e <= PI / 2]
    for e in apps.get('acos!', []):
        ax += [e >= 0, e <= PI]
    for e in apps.get('pow!', []):
        a, b = e.children()
        ax += [z3.Implies(a > 0, e > 0), z3.Implies(a == 1, e == 1), z3.Implies(b == 0, e == 1),
               z3.Implies(z3.And(a == 0, b > 0), e == 0), z3.Implies(b == 1, e == a)]
        ax += [z3.Implies(z3.And(a > 1, b > 0), e > 1), z3.Implies(z3.And(a > 0, a < 1, b > 0), e < 1),
               z3.Implies(z3.And(a > 1, b < 0), e < 1), z3.Implies(z3.And(a > 0, a < 1, b < 0), e > 1)]
    if pairs:
        for n in ('exp!', 'log!', 'sqrt!'):
            l = apps.get(n, [])
            if len(l) > limit:
                continue
            for i in range(len(l)):
                for j in range(i):
                    a, b = l[i].arg(0), l[j].arg(0)
                    g = z3.BoolVal(True)
                    if n == 'log!':
                        g = z3.And(a > 0, b > 0)
                    elif n == 'sqrt!':
                        g = z3.And(a >= 0, b >= 0)
                    ax.append(z3.Implies(g, z3.And((a < b) == (l[i] < l[j]), (a == b) == (l[i] == l[j]))))
        l = apps.get('pow!', [])
        if len(l) <= limit:
            for i in range(len(l)):
                for j in range(i):
                    (a, p), (b, q) = l[i].children(), l[j].children()
                    e1, e2 = l[i], l[j]
                    if p.eq(q):
                        g = z3.And(a > 0, b > 0)
                        ax.append(z3.Implies(z3.And(g, p > 0), z3.And((a < b) == (e1 < e2), (a == b) == (e1 == e2))))
                        ax.append(z3.Implies(z3.And(g, p < 0), z3.And((a < b) == (e1 > e2), (a == b) == (e1 == e2))))
                    # (a^p)^q with p*q = 1
                    for (x, xp, xe), (y, yp, ye) in (((a, p, e1), (b, q, e2)), ((b, q, e2), (a, p, e1))):
                        ax.append(z3.Implies(z3.And(y == xe, x > 0, xp != 0, xp * yp == 1), ye == x))
        # exp(log x) = x
        for e in apps.get('exp!', []):
            for l_ in apps.get('log!', []):
                ax.append(z3.Implies(z3.And(l_.arg(0) > 0, e.arg(0) == l_), e == l_.arg(0)))
                ax.append(z3.Implies(l_.arg(0) == e, l_ == e.arg(0)))
    return ax


def is_qf(exprs):
    bad = []

    def visit(e):
        if z3.is_quantifier(e):
            bad.append(1)
    walk(exprs, visit)
    return not bad


def symbols(e, memo={}):
    k = e.get_id()
    r = memo.get(k)
    if r is not None and r[1].eq(e):
        return r[0]
    out = set()

    def visit(x):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            if n not in MATH:
                out.add(n)
    walk([e], visit)
    memo[k] = (out, e)
    return out


def relevant(facts, goal, depth):
    syms = set(symbols(goal))
    chosen = [False] * len(facts)
    fs = [symbols(f) for f in facts]
    for _ in range(depth):
        new = set()
        for i, s in enumerate(fs):
            if not chosen[i] and (s & syms or not s):
                chosen[i] = True
                new |= s
        if new <= syms:
            break
        syms |= new
    return [f for f, c in zip(facts, chosen) if c]


def _purify(exprs):
    """replace uninterpreted function applications by fresh constants, with congruence axioms"""
    table = {}
    sub = []
    out_ax = []
    memo = {}

    def rew(e):
        k = e.get_id()
        if k in memo:
            return memo[k][0]
        if z3.is_quantifier(e):
            raise ValueError
        if e.num_args() == 0:
            r = e
        else:
            cs = [rew(c) for c in e.children()]
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                key = (e.decl().name(), tuple(c.get_id() for c in cs))
                if key not in table:
                    v = z3.FreshConst(e.sort(), 'p')
                    table[key] = (v, cs, e.decl())
                r = table[key][0]
            else:
                r = e.decl()(*cs) if e.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR) else \
                    (z3.And(*cs) if e.decl().kind() == z3.Z3_OP_AND else z3.Or(*cs))
        memo[k] = (r, e)
        return r
    out = [rew(e) for e in exprs]
    items = list(table.values())
    by = {}
    for v, cs, d in items:
        by.setdefault(d.name(), []).append((v, cs))
    for n, l in by.items():
        for i in range(len(l)):
            for j in range(i):
                out_ax.append(z3.Implies(z3.And(*[a == b for a, b in zip(l[i][1], l[j][1])]), l[i][0] == l[j][0]))
    return out + out_ax


def _has_int(exprs):
    bad = []

    def visit(e):
        if z3.is_expr(e) and e.sort().kind() in (z3.Z3_INT_SORT, z3.Z3_ARRAY_SORT):
            bad.append(1)
    walk(exprs, visit)
    return bool(bad)


def _z3check(exprs, timeout, seed=0, mbqi=True, tactic=None):
    if tactic:
        s = z3.Tactic(tactic).solver()
        s.set('timeout', int(timeout * 1000))
    else:
        s = z3.Solver()
        s.set('timeout', int(timeout * 1000))
        s.set('random_seed', seed)
        if not mbqi:
            s.set('smt.mbqi', False)
    s.add(*exprs)
    t = time.time()
    r = s.check()
    return r, s, time.time() - t


def _cvc5(exprs, timeout):
    s = z3.Solver()
    s.add(*exprs)
    txt = s.to_smt2()
    if 'lambda' in txt or '(_ as-array' in txt:
        return 'unknown', 0.0
    txt = '(set-logic ALL)\n' + txt
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    t = time.time()
    try:
        out = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), f.name], capture_output=True,
                             text=True, timeout=timeout + 5).stdout.strip().split('\n')[0]
    except Exception:
        out = 'unknown'
    finally:
        os.unlink(f.name)
    return out, time.time() - t


def _count(b, dt):
    STATS.setdefault(b, [0, 0.0])
    STATS[b][0] += 1
    STATS[b][1] += dt


def split_goal(goal):
    """conjuncts (also under a common implication / or)"""
    if z3.is_and(goal):
        out = []
        for c in goal.children():
            out += split_goal(c)
        return out
    return [goal]


def canonical(e):
    """sum-of-monomials form, also inside the arguments of uninterpreted functions"""
    memo = {}

    def rew(e):
        k = e.get_id()
        if k in memo:
            return memo[k][0]
        if z3.is_quantifier(e) or e.num_args() == 0:
            r = e
        else:
            cs = [rew(c) for c in e.children()]
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                cs = [z3.simplify(c, som=True) for c in cs]
            r = e if all(a.eq(b) for a, b in zip(cs, e.children())) else e.decl()(*cs)
        memo[k] = (r, e)
        return r
    return z3.simplify(rew(e), som=True)


MULF, DIVF = z3.Function('product', RS, RS, RS), z3.Function('ratio', RS, RS, RS)
MULI = z3.Function('product.i', z3.IntSort(), z3.IntSort(), z3.IntSort())


def linearise(exprs):
    """the same formulas with products and ratios of unknowns as uninterpreted functions, or None

    What is proved about arbitrary functions holds for multiplication and division."""
    memo = {}
    hit = []
    numeral = lambda e: z3.is_rational_value(e) or z3.is_int_value(e)
    name = lambda e: (e.decl().name() if z3.is_app(e) else '', e.num_args(), e.get_id())

    def rew(e):
        k = e.get_id()
        if k in memo:
            return memo[k][0]
        if z3.is_quantifier(e):
            if e.is_lambda():
                raise ValueError('lambda')
            vs = [z3.FreshConst(e.var_sort(i), 'b') for i in range(e.num_vars())]
            sub = lambda x: rew(z3.substitute_vars(x, *reversed(vs)))
            pats = [z3.MultiPattern(*[sub(c) for c in e.pattern(i).children()]) for i in range(e.num_patterns())]
            body = sub(e.body())
            r = (z3.ForAll if e.is_forall() else z3.Exists)(vs, body, patterns=pats)
        elif e.num_args() == 0:
            r = e
        else:
            cs = [rew(c) for c in e.children()]
            kind = e.decl().kind()
            if kind == z3.Z3_OP_MUL and sum(1 for c in cs if not numeral(c)) > 1:
                hit.append(1)
                un = sorted([c for c in cs if not numeral(c)], key=name)
                f = MULF if z3.is_real(e) else MULI
                r = un[0]
                for c in un[1:]:
                    r = f(r, c)
                for c in cs:
                    if numeral(c):
                        r = c * r
            elif kind == z3.Z3_OP_DIV and not numeral(cs[1]):
                hit.append(1)
                r = DIVF(cs[0], cs[1])
            elif all(a.eq(b) for a, b in zip(cs, e.children())):
                r = e
            elif kind in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DISTINCT):
                f = {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_ADD: z3.Sum, z3.Z3_OP_MUL: z3.Product,
                     z3.Z3_OP_DISTINCT: z3.Distinct}[kind]
                r = f(*cs)
            else:
                r = e.decl()(*cs)
        memo[k] = (r, e)
        return r
    try:
        out = [rew(z3.simplify(e)) for e in exprs]
    except (ValueError, z3.Z3Exception):
        return None
    return out if hit else None


def _nonlinear(e):
    found = []

    def visit(x):
        if z3.is_div(x) and not z3.is_rational_value(x.arg(1)) or z3.is_mul(x) and sum(not (z3.is_rational_value(y) or z3.is_int_value(y)) for y in x.children()) > 1:
            found.append(x)
    walk([e], visit)
    return bool(found)


def _nonzero(facts, terms):
    qf = [f for f in facts if is_qf([f])]
    seen = set()
    for t in terms:
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        r, s, dt = _z3check(qf + [t == 0], 2.0)
        if r != z3.unsat:
            return False
    return True


def discharge(facts, goal, budget=20.0, extra=()):
    """('proved', backend, t, None) | ('failed', backend, t, model) | ('unknown', why, t, None)"""
    t0 = time.time()
    g = z3.simplify(goal)
    if z3.is_true(g):
        _count('simplifier', time.time() - t0)
        return 'proved', 'simplifier', time.time() - t0, None
    if z3.is_implies(goal) and z3.is_eq(goal.arg(1)) and goal.arg(1).arg(0).sort() == RS:
        facts, goal = list(facts) + [goal.arg(0)], goal.arg(1)
    if congruence.ENABLED and z3.is_eq(goal) and goal.arg(0).sort() == RS:
        try:
            if congruence.prove([f for f in list(facts) + list(extra) if is_qf([f])], goal):
                _count('congruence', time.time() - t0)
                return 'proved', 'congruence', time.time() - t0, None
        except (z3.Z3Exception, RecursionError):
            pass
    if z3.is_eq(goal) and is_qf([goal]) and goal.arg(0).sort() == RS:
        try:
            if z3.is_true(canonical(goal)) or z3.is_true(canonical(goal.arg(0) - goal.arg(1) == 0)):
                _count('simplifier', time.time() - t0)
                return 'proved', 'simplifier', time.time() - t0, None
        except z3.Z3Exception:
            pass
    if z3.is_eq(goal) and is_qf([goal]) and goal.arg(0).sort() == RS and _nonlinear(goal):
        try:
            if ring.prove([f for f in list(facts) + list(extra) if is_qf([f])], goal, lambda ds: _nonzero(list(facts) + list(extra), ds)):
                _count('normal form', time.time() - t0)
                return 'proved', 'normal form', time.time() - t0, None
        except (z3.Z3Exception, RecursionError):
            pass
    parts = split_goal(goal)
    if len(parts) > 1:
        back = None
        for p in parts:
            r = discharge(facts, p, budget, extra)
            if r[0] != 'proved':
                return r
            back = r[1]
        return 'proved', back, time.time() - t0, None
    ng = z3.Not(goal)
    facts = list(facts) + list(extra)
    model = None
    verdict = None
    allf = facts + [ng]
    ax = math_axioms(allf)
    qf = is_qf(allf)
    plan = []
    small = relevant(facts, goal, 1)
    if len(small) < len(facts):
        plan.append(('z3-slice', small + [ng] + math_axioms(small + [ng]), min(3, budget), {}))
        mid = relevant(facts, goal, 2)
        if len(small) < len(mid) < len(facts):
            plan.append(('z3-slice', mid + [ng] + math_axioms(mid + [ng]), min(4, budget), {}))
    if not qf:
        lin = linearise(allf)
        if lin is not None:
            plan.append(('z3-linear', lin, min(4, budget), {'mbqi': False}))
    plan.append(('z3', allf + ax, budget * 0.4, {}))
    if not qf:
        plan.append(('z3', allf + ax, budget * 0.2, {'mbqi': False}))
        q = [f for f in facts if is_qf([f])] + [ng]
        if is_qf([ng]):
            plan.append(('z3-noquant', q + math_axioms(q), budget * 0.2, {}))
    else:
        if not _has_int(allf):
            try:
                pur = _purify(allf + ax)
                plan.append(('z3-nlsat', pur, budget, {'tactic': 'qfnra-nlsat'}))
            except ValueError:
                pass
    for name, exprs, to, kw in plan:
        try:
            r, s, dt = _z3check(exprs, max(to, 1.0), **kw)
        except z3.Z3Exception as e:
            continue
        if r == z3.unsat:
            _count(name, dt)
            return 'proved', name, time.time() - t0, None
        full = name in ('z3', 'z3-nlsat')
        if r == z3.sat and full:
            try:
                m = s.model()
            except z3.Z3Exception:
                m = None
            _count(name, dt)
            return 'failed', name, time.time() - t0, (m if name == 'z3' else None)
    out, dt = _cvc5(allf + ax, budget * 0.5)
    _count('cvc5', dt)
    if out == 'unsat':
        return 'proved', 'cvc5', time.time() - t0, None
    if out == 'sat':
        return 'failed', 'cvc5', time.time() - t0, None
    return 'unknown', 'z3,cvc5', time.time() - t0, None


def satisfiable(exprs, timeout=2.0):
    ax = math_axioms(exprs)
    r, s, dt = _z3check(list(exprs) + ax, timeout)
    return str(r)
