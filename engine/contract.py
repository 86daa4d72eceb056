"""Tasks: Hoare triples over functions of /repo, run function by function."""
import importlib
import os
import time
import traceback
import z3
from .sym import *
from .ctx import Ctx
from .interp import Interp, Loop, ModuleSrc, State, Unbound
from . import solver as sv
from .models import REG

TASKS = {}


class Task:
    def __init__(self, pid, name, fn, functions, loops=None, contracts=None, opts=None, budget=20.0, assumes=(),
                 deadline=300.0, externals=None, max_paths=4000):
        self.pid, self.name, self.fn = pid, name, fn
        self.functions = functions
        self.loops = loops or {}
        self.contracts = contracts or {}
        self.opts = dict(opts or {})
        if externals:
            self.opts['externals'] = externals
        self.budget = budget
        self.assumes = list(assumes)
        self.deadline = deadline
        self.max_paths = max_paths


def task(pid, name, functions, **kw):
    def deco(fn):
        TASKS.setdefault(pid, []).append(Task(pid, name, fn, functions, **kw))
        return fn
    return deco


def load(pid):
    importlib.import_module('contracts.' + pid.lower())
    return TASKS.get(pid, [])


def run_task(t, verbose=False):
    ctx = Ctx(budget=t.budget, max_paths=t.max_paths, deadline=time.time() + t.deadline)
    ctx.externals = set()
    t0 = time.time()
    res = {'task': t.name, 'functions': list(t.functions), 'assumes': list(t.assumes)}

    def one(ctx):
        ip = Interp(ctx, REG, loops=t.loops, contracts=t.contracts, opts=t.opts)
        try:
            t.fn(ip)
        except PyRaise as e:
            ln = getattr(e.node, 'lineno', None)
            ctx.prove('no %s is raised' % e.name, False, budget=3)
    status = 'ok'
    reason = None
    try:
        ctx.explore(one)
    except Unsupported as e:
        status, reason = 'unsupported', str(e)
        if verbose:
            traceback.print_exc()
    except RecursionError:
        status, reason = 'unsupported', 'recursion'
    except (FileNotFoundError, SyntaxError) as e:
        status, reason = 'unsupported', repr(e)
    except z3.Z3Exception as e:
        status, reason = 'unsupported', 'z3: %s' % e
        if verbose:
            traceback.print_exc()
    except Exception as e:       # a defect of the engine is "no answer", never a verdict
        status, reason = 'unsupported', 'engine: %s: %s' % (type(e).__name__, e)
        if verbose:
            traceback.print_exc()
    obls = []
    for o in ctx.obls:
        obls.append({'name': o.name, 'path': o.path, 'status': o.status, 'backend': o.backend,
                     'time': round(o.time, 4), 'model': o.model, 'goal': o.goal, 'facts': o.facts, 'cover': o.cover,
                     'unreachable': o.unreachable})
    if status == 'ok' and not obls:
        status, reason = 'unsupported', 'no obligation was generated'
    res.update(status=status, reason=reason, obligations=obls, paths=ctx.paths,
               covered=sorted(ctx.covered), contracts_used=sorted(ctx.contracts_used),
               externals=sorted(ctx.externals), assumed=sorted(ctx.assumed), wall=round(time.time() - t0, 3))
    # obligations reachable at all?
    names = {}
    for o in obls:
        if o['unreachable']:
            continue
        names.setdefault(o['name'], []).append(o['cover'])
    res['vacuous'] = sorted(n for n, c in names.items() if c and all(x == 'unsat' for x in c))
    if status == 'ok' and res['vacuous'] and not any(o['status'] != 'proved' for o in obls):
        res['status'], res['reason'] = 'unsupported', 'vacuous obligations: %s' % ', '.join(res['vacuous'][:3])
    return res
