"""Path exploration by re-execution, assumptions and named obligations."""
import time
import z3
from .sym import *
from . import solver as sv


class Obligation:
    __slots__ = ('name', 'path', 'status', 'backend', 'time', 'model', 'facts', 'goal', 'cover', 'inputs', 'unreachable')

    def __init__(self, name, path):
        self.name, self.path = name, path
        self.status = None
        self.backend = None
        self.time = 0.0
        self.model = None
        self.facts = None
        self.goal = None
        self.cover = None
        self.inputs = None
        self.unreachable = False


def prenex(f):
    """nested universal quantifiers merged into one (better triggers)"""
    if not (z3.is_quantifier(f) and f.is_forall()):
        return f
    vs, parts, pats, nested = [], [], [], [0]

    def go(q):
        new = [z3.FreshConst(q.var_sort(i), 'p') for i in range(q.num_vars())]
        vs.extend(new)
        sub = lambda e: z3.substitute_vars(e, *reversed(new))
        pats[:] = [sub(q.pattern(i)) for i in range(q.num_patterns())]
        todo = [sub(q.body())]
        while todo:
            b = todo.pop(0)
            if z3.is_or(b):
                todo[:0] = b.children()
            elif z3.is_implies(b):
                todo[:0] = [z3.Not(b.arg(0)), b.arg(1)]
            elif z3.is_quantifier(b) and b.is_forall():
                nested[0] += 1
                go(b)
            else:
                parts.append(b)
    go(f)
    if not nested[0]:
        return f

    def covers(p):
        seen = set()

        def visit(e):
            seen.add(e.get_id())
        sv.walk(p.children(), visit)
        return all(v.get_id() in seen for v in vs)
    ok = [p for p in pats if covers(p)]
    pp = [p.children()[0] if len(p.children()) == 1 else z3.MultiPattern(*p.children()) for p in ok]
    return z3.ForAll(vs, z3.Or(*parts), patterns=pp) if pp else z3.ForAll(vs, z3.Or(*parts))


class Ctx:
    def __init__(self, budget=20.0, max_paths=4000, deadline=None, known_fast=None):
        self.budget = budget
        self.max_paths = max_paths
        self.deadline = deadline
        self.obls = []            # results over all paths
        self.paths = 0
        self.assumed = {}         # assumption text -> count
        self.covered = set()      # functions whose source was executed
        self.contracts_used = set()
        self.stop_on_fail = True
        self.fail_count = 0
        self.unsupported = None
        self.proved_cache = {}
        self.path_names = []
        self.dead_paths = 0
        self.covernames = {}
        self.covercount = {}
        self.externals = set()
        self.mods_cache = {}      # loop and decisions before it -> what its body changes

    # ------------------------------------------------------------ exploration
    def explore(self, fn):
        work = [[]]
        while work:
            trace = work.pop()
            self.paths += 1
            if self.paths > self.max_paths:
                raise Unsupported('too many paths')
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time budget of the task exhausted')
            self._start(trace, work)
            try:
                fn(self)
            except PathEnd:
                pass
            except Unsupported:
                # an infeasible path may run into anything
                if self.infeasible():
                    continue
                raise
            if self.fail_count >= 6:
                return

    def _start(self, trace, work):
        self.trace = list(trace)
        self.pos = 0
        self.work = work
        self.facts = []
        self.kinds = []
        self.counter = {}
        self.inputs = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', 400)
        self.solver.add(PI > sv.Q12, PI < sv.Q13)
        self.quots = []
        self.depth = 0            # > 0 inside a sub-exploration
        self.mute = 0             # > 0: obligations are not checked (dry run)
        self.frames = []
        self.ghosts = {}
        self.sub_stack = []
        self.fresh_log = None
        self.caught = []

    @property
    def replaying(self):
        """still inside the part of the path explored by an earlier run"""
        if self.pos < len(self.trace):
            return True
        return any(pos < len(tr) for tr, pos in self.sub_stack)

    def decide(self, options):
        """options: list of (label, cond or None).  Returns the index taken on this path."""
        if self.pos < len(self.trace):
            k = self.trace[self.pos]
            self.pos += 1
            if options[k] is not None:
                self._add(options[k], 'path')
            return k
        feas = []
        for k, c in enumerate(options):
            if c is None or self.feasible(c):
                feas.append(k)
        if not feas:
            raise PathEnd()
        for k in reversed(feas[1:]):
            self.work.append(self.trace[:self.pos] + [k])
        k = feas[0]
        self.trace = self.trace[:self.pos] + [k]
        self.pos += 1
        if options[k] is not None:
            self._add(options[k], 'path')
        return k

    def choose(self, n):
        return self.decide([None] * n)

    def branch(self, cond):
        cond = norm(cond)
        if isinstance(cond, bool):
            return cond
        if not isz(cond) or not z3.is_bool(cond):
            raise Unsupported('branch on %r' % (cond,))
        s = norm(z3.simplify(cond))
        if isinstance(s, bool):
            return s
        return self.decide([cond, z3.Not(cond)]) == 0

    def feasible(self, c):
        if not sv.is_qf([c]):
            return True
        self.solver.push()
        self.solver.add(c)
        r = self.solver.check()
        self.solver.pop()
        return r != z3.unsat

    def infeasible(self):
        ax = sv.math_axioms(self.facts)
        r, s, dt = sv._z3check(self.facts + ax, 3)
        return r == z3.unsat

    def must(self, c):
        """quick check: is c implied? (False when not known)"""
        c = norm(c)
        if isinstance(c, bool):
            return c
        s = norm(z3.simplify(c))
        if isinstance(s, bool):
            return s
        if not sv.is_qf([c]):
            return False
        self.solver.push()
        self.solver.add(z3.Not(c))
        r = self.solver.check()
        self.solver.pop()
        return r == z3.unsat

    def _add(self, c, kind):
        c = norm(c)
        if c is True:
            return
        if c is False:
            c = z3.BoolVal(False)
        c = prenex(c)
        self.facts.append(c)
        self.kinds.append(kind)
        if sv.is_qf([c]):
            self.solver.add(c)

    def assume(self, *cs, why=None):
        for c in cs:
            if isinstance(c, (list, tuple)):
                self.assume(*c)
                continue
            if why:
                self.assumed[why] = self.assumed.get(why, 0) + 1
            c = norm(c)
            if c is False:
                self._add(z3.BoolVal(False), 'fact')
                raise PathEnd()
            self._add(c, 'fact')

    # ------------------------------------------------------------ fresh symbols
    def name(self, base):
        k = self.counter.get(base, 0)
        self.counter[base] = k + 1
        return base if k == 0 else '%s!%d' % (base, k)

    def fresh(self, base, sort):
        c = z3.Const(self.name(base), sort)
        if self.fresh_log is not None:
            self.fresh_log.append(c)
        return c

    def int(self, base='i'):
        return self.fresh(base, IS)

    def real(self, base='r'):
        return self.fresh(base, RS)

    def bool(self, base='b'):
        return self.fresh(base, BS)

    def func(self, base, *sorts):
        f = z3.Function(self.name(base), *sorts)
        if self.fresh_log is not None:
            self.fresh_log.append(f)
        return f

    def input(self, base, v):
        self.inputs[base] = v
        return v

    # ------------------------------------------------------------ obligations
    def prove(self, name, goal, budget=None, assume_after=True, extra=()):
        goal = norm(goal)
        if self.mute:
            if goal is not True and assume_after:
                self._add(goal, 'fact')
            return True
        if self.replaying:
            if assume_after:
                self._add(goal, 'fact')
            return True
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the task exhausted')
        o = Obligation(name, '%d' % self.paths)
        self.obls.append(o)
        o.unreachable = goal is False
        if goal is True:
            o.status, o.backend = 'proved', 'simplifier'
            sv._count('simplifier', 0.0)
        else:
            g = z(goal)
            key = None
            st, be, dt, m = sv.discharge(self.facts, g, budget or self.budget, extra)
            o.status, o.backend, o.time = st, be, dt
            if st != 'proved':
                if self.infeasible():
                    o.status, o.backend = 'proved', 'z3'
                else:
                    self.fail_count += 1
                    o.model = self.model_values(m)
                    o.goal = str(z3.simplify(g))[:1500]
                    o.facts = [str(f)[:300] for f in self.facts[-40:]]
        if o.status == 'proved':
            seen = self.covernames.get(name)
            if seen is None or (seen == 'unsat' and self.covercount.get(name, 0) < 4):
                ax = sv.math_axioms(self.facts)
                r, s_, dt_ = sv._z3check(self.facts + ax, 1.5, mbqi=False)
                if str(r) == 'unsat' or seen is None:
                    self.covernames[name] = str(r)
                if str(r) != 'unsat':
                    self.covernames[name] = str(r)
                self.covercount[name] = self.covercount.get(name, 0) + 1
                o.cover = str(r)
            else:
                o.cover = 'not checked' if seen != 'unsat' else 'unsat'
        if assume_after:
            self._add(goal, 'fact')
        return o.status == 'proved'

    def induct(self, name, pred, n, lo=0):
        """pred(lo) and pred(k) => pred(k+1) for lo <= k < n, hence pred(k) for lo <= k <= n"""
        k = self.int('ind')
        self.prove(name + ' (base)', Implies(le(lo, n), pred(lo)), assume_after=False)
        self.prove(name + ' (step)', Implies(And(le(lo, k), lt(k, n), pred(k)), pred(add(k, 1))), assume_after=False)
        q = z3.Int('q!ind%d' % self.counter.get('ind', 0))
        self._add(z3.ForAll([q], z(Implies(And(le(lo, q), le(q, n)), pred(q)))), 'fact')

    def model_values(self, m):
        out = {}
        if m is None:
            return out
        for k, v in self.inputs.items():
            try:
                out[k] = self._mval(m, v)
            except Exception:
                pass
        return out

    def _mval(self, m, v):
        if isinstance(v, SArr):
            shp = [self._mval(m, d) for d in v.shape]
            if len(shp) == 1:
                return [self._mval(m, v.at(i)) for i in range(min(int(shp[0]), 60))]
            if len(shp) == 2:
                return [[self._mval(m, v.at(i, j)) for j in range(min(int(shp[1]), 20))]
                        for i in range(min(int(shp[0]), 20))]
            if len(shp) == 3:
                return [[[self._mval(m, v.at(i, j, k)) for k in range(min(int(shp[2]), 8))]
                         for j in range(min(int(shp[1]), 8))] for i in range(min(int(shp[0]), 8))]
            return None
        if conc(v):
            return float(v) if isinstance(v, Fraction) else v
        if isz(v):
            e = m.eval(v, model_completion=True)
            e = norm(e)
            if isinstance(e, Fraction):
                return float(e)
            if isinstance(e, (int, bool)):
                return e
            if z3.is_algebraic_value(e):
                return float(norm(e.approx(20)))
            return str(e)
        if isinstance(v, (list, tuple)):
            return [self._mval(m, x) for x in v]
        return None

    # ------------------------------------------------------------ nested exploration
    def sub_explore(self, fn, limit=400):
        """run fn (which must not change outer state) over all its paths.

        Returns a list of (path condition, facts, fresh symbols, result)."""
        out = []
        work = [[]]
        outer = (self.trace, self.pos)
        self.sub_stack.append(outer)
        saved = (self.trace, self.pos, self.work, self.fresh_log, dict(self.counter))
        n0 = len(self.facts)
        count = 0
        try:
            while work:
                count += 1
                if count > limit:
                    raise Unsupported('too many paths in loop body')
                tr = work.pop()
                self.trace, self.pos, self.work = list(tr), 0, work
                self.fresh_log = []
                self.solver.push()
                dead = False
                res = None
                try:
                    res = fn()
                except PathEnd:
                    dead = True
                except Unsupported:
                    if not self.infeasible():
                        raise
                    dead = True
                finally:
                    self.solver.pop()
                    new = list(zip(self.facts[n0:], self.kinds[n0:]))
                    del self.facts[n0:]
                    del self.kinds[n0:]
                if not dead:
                    pc = And(*[f for f, k in new if k == 'path'])
                    fs = [f for f, k in new if k != 'path']
                    out.append((pc, fs, list(self.fresh_log), res))
        finally:
            logs = saved[3]
            self.trace, self.pos, self.work, self.fresh_log = saved[0], saved[1], saved[2], saved[3]
            if self.fresh_log is not None:
                for o in out:
                    self.fresh_log.extend(o[2])
            self.sub_stack.pop()
        return out
