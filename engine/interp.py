"""Symbolic execution of Python functions read from /repo."""
import ast
import builtins
import os
import z3
from .sym import *
from . import sym as S
from .ctx import Ctx
from .loopform import normalise

REPO = os.environ.get('VERIF_REPO', '/repo')

BUILTIN_EXC = {
    'BaseException': None, 'Exception': 'BaseException', 'ValueError': 'Exception', 'TypeError': 'Exception',
    'KeyError': 'LookupError', 'IndexError': 'LookupError', 'LookupError': 'Exception',
    'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception', 'FloatingPointError': 'ArithmeticError',
    'AttributeError': 'Exception', 'NameError': 'Exception', 'ImportError': 'Exception', 'RuntimeError': 'Exception',
    'NotImplementedError': 'RuntimeError', 'StopIteration': 'Exception', 'AssertionError': 'Exception',
    'OSError': 'Exception', 'IOError': 'OSError', 'UnboundLocalError': 'NameError', 'KeyboardInterrupt': 'BaseException',
    'Warning': 'Exception', 'SystemExit': 'BaseException', 'MemoryError': 'Exception', 'queue.Empty': 'Exception',
    'UserWarning': 'Warning',
}


MISSING = ('lmoments',)      # optional packages that are not installed


class ModuleSrc:
    cache = {}

    def __init__(self, rel):
        self.rel = rel
        with open(os.path.join(REPO, rel), encoding='utf-8') as f:
            self.text = f.read()
        self.tree = normalise(ast.parse(self.text))
        self.bind = {}
        self.vals = {}
        self._scan(self.tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                self.bind[st.name] = st
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            self.bind[n.id] = st
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.bind[st.target.id] = st
            elif isinstance(st, ast.Import):
                for a in st.names:
                    self.bind[a.asname or a.name.split('.')[0]] = ('import', a.name, bool(a.asname))
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    self.bind[a.asname or a.name] = ('from', st.module or '', st.level, a.name)
                if st.level == 1 and st.module and os.path.basename(self.rel) == '__init__.py':
                    # importing a submodule binds its name in the package
                    self.bind.setdefault(st.module.split('.')[0], ('from', '', 1, st.module.split('.')[0]))
            elif isinstance(st, ast.Try):
                self._scan(st.body)
                if not st.body or True:
                    saved = dict(self.bind)
                    for h in st.handlers:
                        self._scan(h.body)
                    # the try branch wins, unless it imports a package that is not installed
                    if not any(isinstance(x, ast.Import) and x.names[0].name in MISSING for x in st.body):
                        self.bind.update(saved)
            elif isinstance(st, ast.If):
                self._scan(st.body)
                self._scan(st.orelse)

    @classmethod
    def get(cls, rel):
        if rel not in cls.cache:
            cls.cache[rel] = cls(rel)
        return cls.cache[rel]

    def node(self, qual):
        cur = self.tree.body
        n = None
        for part in qual.split('.'):
            n = None
            for st in _flat(cur):
                if isinstance(st, (ast.FunctionDef, ast.ClassDef)) and st.name == part:
                    n = st
            if n is None:
                return None
            cur = n.body
        return n


def _flat(body):
    for st in body:
        yield st
        if isinstance(st, ast.Try):
            for x in _flat(st.body):
                yield x
            for h in st.handlers:
                for x in _flat(h.body):
                    yield x
        elif isinstance(st, ast.If):
            for x in _flat(st.body):
                yield x
            for x in _flat(st.orelse):
                yield x


class ModRef:
    def __init__(self, mod):
        self.mod = mod

    def __repr__(self):
        return '<module %s>' % self.mod.rel


class ExtRef:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<external %s>' % self.name

    def __eq__(self, o):
        return isinstance(o, ExtRef) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class FuncRef:
    def __init__(self, mod, node, qual, closure=None, cls=None):
        self.mod, self.node, self.qual, self.closure, self.cls = mod, node, qual, closure, cls

    @property
    def key(self):
        return '%s::%s' % (self.mod.rel, self.qual)

    def __repr__(self):
        return '<function %s>' % self.key


class ClassRef:
    def __init__(self, mod, node, qual):
        self.mod, self.node, self.qual = mod, node, qual

    @property
    def key(self):
        return '%s::%s' % (self.mod.rel, self.qual)

    def __repr__(self):
        return self.qual

    def __eq__(self, o):
        return isinstance(o, ClassRef) and o.key == self.key

    def __hash__(self):
        return hash(self.key)


class Bound:
    def __init__(self, obj, func):
        self.obj, self.func = obj, func


class Frame:
    def __init__(self, mod, func, closure=None, cls=None):
        self.vars = {}
        self.mod, self.func, self.closure, self.cls = mod, func, closure, cls
        self.globals = set()
        self.nonlocals = set()

    def clone_state(self, memo, cl):
        r = Frame.__new__(Frame)
        memo[id(self)] = (self, r)
        r.__dict__.update(self.__dict__)
        r.vars = {k: cl(v, memo) for k, v in self.vars.items()}
        if self.closure is not None:
            r.closure = cl(self.closure, memo)
        return r


class LogRef:
    """logger object: every call on it is dropped"""


LOG = LogRef()


class Return(Exception):
    pass


LOGGERS = ('log', 'logger', 'LOG', 'LOGGER', 'LOG_', 'logging', 'warnings')
LEVELS = ('debug', 'info', 'warn', 'warning', 'error', 'critical', 'exception', 'log')


def is_log(f):
    if not isinstance(f, ast.Attribute):
        return False
    if isinstance(f.value, ast.Name):
        return f.value.id in LOGGERS and f.attr in LEVELS
    return f.attr in LEVELS[:-1] and isinstance(f.value, ast.Attribute) and f.value.attr in ('logger', 'log')


class Stale:
    """content of an attribute left over from earlier work: it must not be read"""


class State:
    """view of the program state given to loop invariants"""

    def __init__(self, ip, frame, it, n, old, ghost, entry):
        self.ip, self.frame, self.it, self.n, self.old, self.g, self.entry = ip, frame, it, n, old, ghost, entry
        self.ctx, self.seq = ip.ctx, None

    def __getitem__(self, name):
        name = self.ip.alias(self.frame, name)
        f = self.frame
        while f is not None:
            if name in f.vars:
                return f.vars[name]
            f = f.closure
        raise Unbound(name)

    def has(self, name):
        try:
            self[name]
            return True
        except Unbound:
            return False


class Unbound(Unsupported):
    def __init__(self, name):
        Unsupported.__init__(self, 'the invariant refers to %r, which no longer exists' % name)
        self.var = name


class Loop:
    """loop contract: inv(S) -> [(name, condition)]

    ghost: name -> (initial value, update(S, pre, post) -> value)
    havoc: name -> function(S) giving an arbitrary value of that variable
    match: (source text, node) -> whether this contract is for that loop; without it contracts go by position
    """

    def __init__(self, inv, ghost=None, havoc=None, decreases=None, name='loop', facts=None, frame=None, match=None):
        self.inv, self.ghost, self.havoc, self.decreases, self.name = inv, ghost or {}, havoc or {}, decreases, name
        self.facts = facts
        self.frame = frame
        self.match = match


class Interp:
    def __init__(self, ctx, registry, loops=None, contracts=None, opts=None):
        self.ctx = ctx
        self.reg = registry
        self.loops = loops or {}         # function qual -> [Loop,...] in source order
        self.contracts = contracts or {}  # function key -> callable(ip, args, kwargs)
        self.opts = opts or {}
        self.frames = []
        self.stmt_count = 0
        self.aliases = {}
        self.loop_assign = {}
        self.outer = {}          # loop name -> current iteration of the enclosing loop
        self.node_stack = []

    # ------------------------------------------------------------ names
    def alias(self, frame, name):
        return self.aliases.get(name, name)

    def module(self, rel):
        return ModuleSrc.get(rel)

    def func(self, spec):
        rel, qual = spec.split('::')
        m = ModuleSrc.get(rel)
        n = m.node(qual)
        if n is None:
            raise Unsupported('no such function: %s' % spec)
        if isinstance(n, ast.ClassDef):
            return ClassRef(m, n, qual)
        cls = None
        if '.' in qual:
            cq = qual.rsplit('.', 1)[0]
            cls = ClassRef(m, m.node(cq), cq)
        return FuncRef(m, n, qual, cls=cls)

    def modlookup(self, mod, name):
        w = self.ctx.ghosts.get('global %s' % name)
        if w is not None and w[0] == mod.rel:
            return w[1]
        if name in mod.vals:
            return mod.vals[name]
        if ('mod', mod.rel, name) in self.opts.get('globals', {}):
            return self.opts['globals'][('mod', mod.rel, name)]
        ov = self.opts.get('names', {})
        if (mod.rel, name) in ov:
            return ov[(mod.rel, name)]
        if name not in mod.bind:
            return None
        b = mod.bind[name]
        if isinstance(b, ast.FunctionDef):
            v = FuncRef(mod, b, name)
        elif isinstance(b, ast.ClassDef):
            v = ClassRef(mod, b, name)
        elif isinstance(b, tuple):
            v = self.do_import(mod, b)
        elif isinstance(b, (ast.Assign, ast.AnnAssign)):
            fr = Frame(mod, None)
            val = self.eval(b.value, fr)
            targets = b.targets if isinstance(b, ast.Assign) else [b.target]
            for t in targets:
                self.assign(t, val, fr)
            v = fr.vars.get(name)
            # module level constants are rebuilt on every use of a mutable value
            return v
        else:
            raise Unsupported('module binding %s' % name)
        return v

    def repo_module(self, dotted):
        rel = dotted.replace('.', '/')
        for cand in (rel + '.py', rel + '/__init__.py'):
            if os.path.exists(os.path.join(REPO, cand)):
                return cand
        return None

    def do_import(self, mod, b):
        if b[0] == 'import':
            _, name, has_as = b
            full = name if has_as else name.split('.')[0]
            rel = self.repo_module(full)
            if rel and not self.is_ext(full):
                return ModRef(ModuleSrc.get(rel))
            return ExtRef(full)
        _, modname, level, name = b
        if level:
            pkg = os.path.dirname(mod.rel)
            for _ in range(level - 1):
                pkg = os.path.dirname(pkg)
            base = pkg.replace('/', '.')
            modname = base + ('.' + modname if modname else '') if base else modname
        rel = self.repo_module(modname + '.' + name) if modname else self.repo_module(name)
        if rel:
            return ModRef(ModuleSrc.get(rel))
        rel = self.repo_module(modname)
        if rel:
            m = ModuleSrc.get(rel)
            v = self.modlookup(m, name)
            if v is None:
                if name.startswith('_'):
                    return self.ext_compiled(modname, name)
                raise PyRaise('ImportError', (name,))
            return v
        if modname and modname.split('.')[-1].startswith('_') or name.startswith('_'):
            return self.ext_compiled(modname, name)
        return ExtRef(modname + '.' + name)

    def ext_compiled(self, modname, name):
        k = (modname + '.' + name)
        c = self.opts.get('compiled', {})
        if k in c:
            return c[k]
        raise PyRaise('ImportError', (k,))

    def is_ext(self, name):
        return name in ('config',)

    def lookup(self, name, frame):
        f = frame
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if v is UNDEF:
                    raise Unsupported('possibly unbound variable %s' % name)
                return v
            f = f.closure
        v = self.modlookup(frame.mod, name)
        if v is not None or (name in frame.mod.bind):
            return v
        if name in BUILTIN_EXC:
            return ExtRef('builtins.' + name)
        if 'builtins.' + name in self.reg or hasattr(builtins, name):
            return ExtRef('builtins.' + name)
        raise PyRaise('NameError', (name,))

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs=None, node=None):
        kwargs = kwargs or {}
        if isinstance(f, Native):
            return f.fn(self, args, kwargs)
        if isinstance(f, Bound):
            if isinstance(f.func, FuncRef):
                return self.call(f.func, [f.obj] + list(args), kwargs, node)
            if isinstance(f.func, Native):
                return f.func.fn(self, [f.obj] + list(args), kwargs)
            return self.call_method(f.obj, f.func, args, kwargs, node)
        if isinstance(f, FuncRef):
            c = self.contracts.get(f.key)
            if c is not None and not (self.opts.get('inline_top') == f.key and len(self.frames) == 0):
                self.ctx.contracts_used.add(f.key)
                return c(self, args, kwargs)
            return self.run_function(f, args, kwargs)
        if isinstance(f, ClassRef):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, ExtRef):
            h = self.opts.get('externals', {}).get(f.name)
            if h is None:
                h = self.reg.get(f.name)
            if h is None and f.name.startswith('builtins.') and f.name[9:] in BUILTIN_EXC:
                return SObj('exc:' + f.name[9:], {'args': tuple(args)})
            if h is None and (f.name.startswith('logging') or f.name.startswith('warnings')):
                return LOG if f.name.endswith('getLogger') else None
            if h is None:
                raise Unsupported('external function %s' % f.name)
            self.ctx.externals.add(f.name)
            return h(self, args, kwargs)
        if isinstance(f, LogRef):
            return None
        if isinstance(f, SObj):
            m = self.find_method(f, '__call__')
            if m:
                return self.call(m, args, kwargs, node)
        raise Unsupported('call of %r' % (f,))

    def run_function(self, f, args, kwargs):
        if len(self.frames) > 40:
            raise Unsupported('recursion depth')
        self.ctx.covered.add(f.key)
        fr = Frame(f.mod, f, closure=f.closure, cls=f.cls)
        self.bind_args(f, fr, args, kwargs)
        self.frames.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, fr)
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _own_nodes(f.node)):
                return self.run_generator(f, fr)
            sig = self.exec_body(f.node.body, fr)
            if sig and sig[0] == 'return':
                return sig[1]
            return None
        finally:
            self.frames.pop()

    def run_generator(self, f, fr):
        fr.vars['__yield__'] = PList([])
        self.exec_body(f.node.body, fr)
        return fr.vars['__yield__']

    def bind_args(self, f, fr, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.args]
        args = list(args)
        kwargs = dict(kwargs)
        dfr = f.closure or Frame(f.mod, None)
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for i, n in enumerate(names):
            if i < len(args):
                fr.vars[n] = args[i]
                if n in kwargs:
                    raise PyRaise('TypeError', ('multiple values for argument',))
            elif n in kwargs:
                fr.vars[n] = kwargs.pop(n)
            elif n in defaults:
                fr.vars[n] = self.eval(defaults[n], dfr)
            else:
                raise PyRaise('TypeError', ('missing argument ' + n,))
        if a.vararg:
            fr.vars[a.vararg.arg] = tuple(args[len(names):])
        elif len(args) > len(names):
            raise PyRaise('TypeError', ('too many arguments',))
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if k.arg in kwargs:
                fr.vars[k.arg] = kwargs.pop(k.arg)
            elif d is not None:
                fr.vars[k.arg] = self.eval(d, dfr)
            else:
                raise PyRaise('TypeError', ('missing argument',))
        if a.kwarg:
            fr.vars[a.kwarg.arg] = PDict(kwargs)
        elif kwargs:
            raise PyRaise('TypeError', ('unexpected keyword',))

    def mro(self, c):
        out = [c]
        for b in c.node.bases:
            try:
                v = self.eval(b, Frame(c.mod, None))
            except (PyRaise, Unsupported):
                continue
            if isinstance(v, ClassRef):
                for x in self.mro(v):
                    if x not in out:
                        out.append(x)
            elif isinstance(v, ExtRef):
                out.append(v)
        return out

    def class_attr(self, c, name):
        for k in self.mro(c):
            if isinstance(k, ExtRef):
                continue
            for st in _flat(k.node.body):
                if isinstance(st, ast.FunctionDef) and st.name == name:
                    if any(isinstance(d, ast.Attribute) and d.attr == 'setter' for d in st.decorator_list):
                        continue
                    return ('func', FuncRef(k.mod, st, k.qual + '.' + name, cls=k), st)
                if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in st.targets):
                    return ('val', self.eval(st.value, Frame(k.mod, None)), st)
        return None

    def class_setter(self, c, name):
        for k in self.mro(c):
            if isinstance(k, ExtRef):
                continue
            for st in _flat(k.node.body):
                if isinstance(st, ast.FunctionDef) and st.name == name and \
                        any(isinstance(d, ast.Attribute) and d.attr == 'setter' for d in st.decorator_list):
                    return FuncRef(k.mod, st, k.qual + '.' + name, cls=k)
        return None

    def instantiate(self, c, args, kwargs):
        h = self.contracts.get(c.key)
        if h is not None:
            self.ctx.contracts_used.add(c.key)
            return h(self, args, kwargs)
        names = [x.name for x in self.mro(c) if isinstance(x, ExtRef)]
        o = SObj(c)
        if any(n.startswith('builtins.') and n[9:] in BUILTIN_EXC for n in names):
            o.attrs['args'] = tuple(args)
        a = self.class_attr(c, '__init__')
        if a:
            self.call(a[1], [o] + list(args), kwargs)
        return o

    def find_method(self, o, name):
        if isinstance(o.attrs.get(name), Native):
            return o.attrs[name]
        if isinstance(o.cls, ClassRef):
            a = self.class_attr(o.cls, name)
            if a and a[0] == 'func':
                return Bound(o, a[1])
        return None

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, node=None):
        if isinstance(o, SObj):
            if name in o.attrs:
                v = o.attrs[name]
                if v is UNDEF:
                    raise Unsupported('attribute %s not modelled' % name)
                if isinstance(v, Stale):
                    self.ctx.prove('%s is set before it is read' % name, False)
                    return self.ctx.real(name)
                return v
            if name in o.hooks:
                return o.hooks[name](self, o)
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return PDict(o.attrs)
            if isinstance(o.cls, ClassRef):
                a = self.class_attr(o.cls, name)
                if a:
                    if a[0] == 'val':
                        return a[1]
                    decs = [d.id for d in a[2].decorator_list if isinstance(d, ast.Name)]
                    if 'property' in decs:
                        return self.call(a[1], [o])
                    if 'staticmethod' in decs:
                        return a[1]
                    if 'classmethod' in decs:
                        return Bound(o.cls, a[1])
                    return Bound(o, a[1])
                g = self.class_attr(o.cls, '__getattr__')
                if g:
                    return self.call(g[1], [o, name])
            if isinstance(o.cls, str) and (o.cls + '.' + name) in self.reg:
                return Bound(o, name)
            if o.attrs.get('__open__'):
                raise Unsupported('attribute %s of %s' % (name, o.cls))
            raise PyRaise('AttributeError', (name,))
        if isinstance(o, ModRef):
            v = self.modlookup(o.mod, name)
            if v is None and name not in o.mod.bind:
                # sub-module?
                rel = self.repo_module(os.path.dirname(o.mod.rel).replace('/', '.') + '.' + name) \
                    if o.mod.rel.endswith('__init__.py') else None
                if rel:
                    return ModRef(ModuleSrc.get(rel))
                raise PyRaise('AttributeError', (name,))
            return v
        if isinstance(o, ExtRef):
            if o.name.startswith('logging'):
                return ExtRef(o.name + '.' + name)
            full = o.name + '.' + name
            if full in self.opts.get('extvals', {}):
                return self.opts['extvals'][full]
            v = self.reg.get('value:' + full)
            if v is not None:
                return v(self) if callable(v) else v
            return ExtRef(full)
        if isinstance(o, ClassRef):
            a = self.class_attr(o, name)
            if a:
                return a[1]
            if name == '__name__':
                return o.node.name
            raise PyRaise('AttributeError', (name,))
        if isinstance(o, LogRef):
            return LOG
        if isinstance(o, FuncRef) and name == '__name__':
            return o.node.name
        return self.builtin_attr(o, name)

    def builtin_attr(self, o, name):
        if isinstance(o, SArr):
            if name == 'shape':
                return tuple(o.shape)
            if name == 'size':
                return o.size
            if name == 'ndim':
                return len(o.shape)
            if name == 'T':
                return self.reg['numpy.transpose'](self, [o], {})
            if name == 'dtype':
                return Opaque('dtype', kind=o.kind)
            if name in ('real', 'imag'):
                g = o.snapshot()
                if name == 'real':
                    return SArr(o.shape, lambda i: Cx.of(g(i)).re, 'r')
                return SArr(o.shape, lambda i: Cx.of(g(i)).im, 'r')
            if o.fields and name in o.fields:
                return o.fields[name]
        if isinstance(o, Cx):
            if name == 'real':
                return o.re
            if name == 'imag':
                return o.im
        if is_num(o) and name in ('real',):
            return o
        k = self.method_key(o, name)
        if k:
            return Bound(o, name)
        if o is None or is_num(o) or isinstance(o, (str, PList, PDict, tuple)):
            if o is None:
                raise PyRaise('AttributeError', (name,))
        raise Unsupported('attribute %s of %r' % (name, type(o).__name__))

    def method_key(self, o, name):
        if isinstance(o, SArr):
            k = 'ndarray.' + name
        elif isinstance(o, PList):
            k = 'list.' + name
        elif isinstance(o, PDict):
            k = 'dict.' + name
        elif isinstance(o, (str, SymStr)):
            k = 'str.' + name
        elif isinstance(o, PSet):
            k = 'set.' + name
        elif isinstance(o, tuple):
            k = 'tuple.' + name
        elif is_num(o):
            k = 'scalar.' + name
        elif isinstance(o, Opaque):
            k = o.name + '.' + name
        elif isinstance(o, SObj) and isinstance(o.cls, str):
            k = o.cls + '.' + name
        else:
            return None
        return k if k in self.reg else None

    def call_method(self, o, name, args, kwargs, node):
        k = self.method_key(o, name)
        if k is None:
            raise Unsupported('method %s' % name)
        h = self.opts.get('externals', {}).get(k) or self.reg[k]
        return h(self, [o] + list(args), kwargs)

    def setattr(self, o, name, v):
        if isinstance(o, SObj):
            if isinstance(o.cls, ClassRef):
                s = self.class_setter(o.cls, name)
                if s:
                    self.call(s, [o, v])
                    return
                st = self.class_attr(o.cls, '__setattr__')
                if st:
                    self.call(st[1], [o, name, v])
                    return
            o.attrs[name] = v
            return
        if isinstance(o, SArr) and name == 'shape':
            raise Unsupported('shape assignment')
        if isinstance(o, (ExtRef, ModRef, LogRef, ClassRef)):
            raise Unsupported('assignment to module attribute %s' % name)
        raise Unsupported('attribute assignment on %r' % type(o).__name__)

    # ------------------------------------------------------------ statements
    def exec_body(self, body, fr):
        for st in body:
            sig = self.exec(st, fr)
            if sig:
                return sig
        return None

    def exec(self, st, fr):
        self.stmt_count += 1
        m = getattr(self, 'x_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(st).__name__)
        return m(st, fr)

    def x_Pass(self, st, fr):
        return None

    def x_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return None
        self.eval(st.value, fr)

    def x_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def x_AugAssign(self, st, fr):
        if isinstance(st.target, ast.Name):
            cur = self.lookup(st.target.id, fr)
        elif isinstance(st.target, ast.Attribute):
            o = self.eval(st.target.value, fr)
            cur = self.getattr(o, st.target.attr)
        elif isinstance(st.target, ast.Subscript):
            o = self.eval(st.target.value, fr)
            ix = self.eval_index(st.target.slice, fr)
            w = ix[0] if isinstance(ix, tuple) and len(ix) == 1 else ix
            if isinstance(w, tuple) and len(w) == 1:
                w = w[0]
            if isinstance(o, SArr) and len(o.shape) == 1 and isinstance(w, SArr) and 'member' in w.props and o.kind != 'i':
                v = self.eval(st.value, fr)
                if is_num(v):
                    # places found by a condition: all different
                    k = self.ctx.int('k')
                    mem, g = w.props['member'], o.snapshot()
                    self.defined('index in range', Implies(mem(k), And(le(0, k), lt(k, o.shape[0]))), st, 'IndexError')
                    o.write(lambda i: mem(i[0]), lambda i: self.binop(type(st.op).__name__, g(i), v, st))
                    return
            cur = self.getitem(o, ix, st.target)
        else:
            raise Unsupported('augmented assignment')
        v = self.eval(st.value, fr)
        if isinstance(cur, SArr) and not isinstance(st.target, ast.Subscript):
            # in place
            r = self.binop(type(st.op).__name__, cur, v, st)
            if isinstance(r, SArr) and len(r.shape) == len(cur.shape):
                self.check_shape_eq(cur, r, st)
                g = r.snapshot()
                cur.write(lambda i: True, lambda i: g(i))
                return
            raise Unsupported('in-place operation changing shape')
        if isinstance(cur, PList) and isinstance(st.op, ast.Add):
            self.reg['list.extend'](self, [cur, v], {})
            return
        r = self.binop(type(st.op).__name__, cur, v, st)
        if isinstance(st.target, ast.Name):
            self.assign(st.target, r, fr)
        elif isinstance(st.target, ast.Attribute):
            self.setattr(o, st.target.attr, r)
        else:
            self.setitem(o, ix, r, st.target)

    def x_Return(self, st, fr):
        return ('return', self.eval(st.value, fr) if st.value is not None else None)

    def x_Break(self, st, fr):
        return ('break',)

    def x_Continue(self, st, fr):
        return ('continue',)

    def x_Import(self, st, fr):
        for a in st.names:
            fr.vars[a.asname or a.name.split('.')[0]] = self.do_import(fr.mod, ('import', a.name, bool(a.asname)))

    def x_ImportFrom(self, st, fr):
        for a in st.names:
            fr.vars[a.asname or a.name] = self.do_import(fr.mod, ('from', st.module or '', st.level, a.name))

    def x_Global(self, st, fr):
        fr.globals |= set(st.names)

    def x_Nonlocal(self, st, fr):
        fr.nonlocals |= set(st.names)

    def x_Assert(self, st, fr):
        if not self.truth(self.eval(st.test, fr)):
            raise PyRaise('AssertionError', (), st)

    def x_Raise(self, st, fr):
        if st.exc is None:
            cur = fr.vars.get('__exc__')
            if isinstance(cur, PyRaise):
                raise cur
            raise Unsupported('bare raise')
        v = self.eval(st.exc, fr)
        raise PyRaise(self.exc_name(v), v.attrs.get('args', ()) if isinstance(v, SObj) else (), st)

    def exc_name(self, v):
        if isinstance(v, ExtRef):
            return v.name[9:] if v.name.startswith('builtins.') else v.name
        if isinstance(v, ClassRef):
            return v.key
        if isinstance(v, SObj):
            if isinstance(v.cls, str) and v.cls.startswith('exc:'):
                return v.cls[4:]
            if isinstance(v.cls, ClassRef):
                return v.cls.key
        raise Unsupported('raise of %r' % (v,))

    def exc_match(self, name, v):
        if isinstance(v, tuple):
            return any(self.exc_match(name, x) for x in v)
        want = self.exc_name(v)
        if want == 'IOError':
            want = 'OSError'
        cur = name
        if cur == want:
            return True
        if '::' in cur:
            rel, q = cur.split('::')
            m = ModuleSrc.get(rel)
            for k in self.mro(ClassRef(m, m.node(q), q)):
                n = k.name[9:] if isinstance(k, ExtRef) and k.name.startswith('builtins.') else getattr(k, 'key', '')
                if n == want or (n in BUILTIN_EXC and self.exc_match(n, v)):
                    return True
            return want in ('Exception', 'BaseException')
        while cur is not None:
            if cur == want:
                return True
            if cur not in BUILTIN_EXC:
                return want in ('Exception', 'BaseException')
            cur = BUILTIN_EXC.get(cur)
        return False

    def x_Try(self, st, fr):
        names = []
        for h in st.handlers:
            if h.type is None:
                names.append('*')
            else:
                for n in ast.walk(h.type):
                    if isinstance(n, ast.Name):
                        names.append(n.id)
        self.ctx.caught.append(names)
        sig = None
        pending = None
        try:
            try:
                try:
                    sig = self.exec_body(st.body, fr)
                finally:
                    self.ctx.caught.pop()
            except PyRaise as e:
                done = False
                for h in st.handlers:
                    if h.type is None or self.exc_match(e.name, self.eval(h.type, fr)):
                        if h.name:
                            fr.vars[h.name] = SObj('exc:' + e.name, {'args': tuple(e.pyargs)})
                        saved = fr.vars.get('__exc__')
                        fr.vars['__exc__'] = e
                        sig = self.exec_body(h.body, fr)
                        fr.vars['__exc__'] = saved
                        done = True
                        break
                if not done:
                    raise
            else:
                if not sig and st.orelse:
                    sig = self.exec_body(st.orelse, fr)
        except PyRaise as e:
            if st.finalbody:
                s2 = self.exec_body(st.finalbody, fr)
                if s2:
                    return s2
            raise
        if st.finalbody:
            s2 = self.exec_body(st.finalbody, fr)
            if s2:
                return s2
        return sig

    def x_With(self, st, fr):
        exits = []
        for it in st.items:
            cm = self.eval(it.context_expr, fr)
            if isinstance(cm, SObj) and isinstance(cm.cls, ClassRef):
                ent = self.find_method(cm, '__enter__')
                v = self.call(ent, []) if ent else cm
                exits.append(self.find_method(cm, '__exit__'))
            else:
                h = self.opts.get('enter')
                v = h(self, cm) if h else cm
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        try:
            sig = self.exec_body(st.body, fr)
        except PyRaise:
            for e in exits:
                if e:
                    self.call(e, [None, None, None])
            raise
        for e in exits:
            if e:
                self.call(e, [None, None, None])
        return sig

    def x_FunctionDef(self, st, fr):
        q = (fr.func.qual + '.' + st.name) if fr.func else st.name
        fr.vars[st.name] = FuncRef(fr.mod, st, q, closure=fr)

    def x_ClassDef(self, st, fr):
        raise Unsupported('local class')

    def x_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                k = self.eval_index(t.slice, fr)
                if isinstance(o, PDict):
                    o.d.pop(k, None)
                else:
                    raise Unsupported('del item')
            else:
                raise Unsupported('del')

    def x_If(self, st, fr):
        c = self.eval(st.test, fr)
        if all(self.only_logs(b) for b in st.body + st.orelse):
            return None
        if self.truth(c):
            return self.exec_body(st.body, fr)
        return self.exec_body(st.orelse, fr)

    def only_logs(self, st):
        return isinstance(st, ast.Pass) or isinstance(st, ast.Expr) and (
            isinstance(st.value, ast.Constant) or isinstance(st.value, ast.Call) and is_log(st.value.func))

    # ------------------------------------------------------------ loops
    def x_For(self, st, fr):
        it = self.eval(st.iter, fr)
        seq = self.as_seq(it)
        if isinstance(seq, list) and isinstance(it, Range) and self.loop_spec(st, fr, peek=True) is not None:
            seq = it
        n = norm(seq.length()) if not isinstance(seq, list) else len(seq)
        if isinstance(seq, list) or (conc(n) and n <= self.opts.get('unroll', 40) and self.loop_spec(st, fr, peek=True) is None):
            items = seq if isinstance(seq, list) else [seq.at(i) for i in range(n)]
            for x in items:
                self.assign(st.target, x, fr)
                sig = self.exec_body(st.body, fr)
                if sig:
                    if sig[0] == 'break':
                        return None
                    if sig[0] == 'continue':
                        continue
                    return sig
            if st.orelse:
                return self.exec_body(st.orelse, fr)
            return None
        if st.orelse:
            raise Unsupported('for-else')
        return self.sym_loop(st, fr, seq, n)

    def x_While(self, st, fr):
        if st.orelse:
            raise Unsupported('while-else')
        if self.loop_spec(st, fr, peek=True) is None:
            # bounded unrolling only when the condition stays concrete
            for _ in range(self.opts.get('unroll', 40)):
                c = self.eval(st.test, fr)
                if isz(c):
                    s = norm(z3.simplify(c))
                    if not isinstance(s, bool):
                        if self.ctx.must(s):
                            s = True
                        elif self.ctx.must(z3.Not(s)):
                            s = False
                        else:
                            raise Unsupported('while loop without invariant')
                    c = s
                if not self.truth(c):
                    return None
                sig = self.exec_body(st.body, fr)
                if sig:
                    if sig[0] == 'break':
                        return None
                    if sig[0] == 'continue':
                        continue
                    return sig
            raise Unsupported('while loop without invariant')
        return self.sym_loop(st, fr, None, None)

    def loop_spec(self, st, fr, peek=False):
        k = id(st)
        if k in self.loop_assign:
            return self.loop_assign[k]
        q = fr.func.qual if fr.func else ''
        specs = self.loops.get(q)
        if specs is None and fr.func is not None:
            specs = self.loops.get('*')
        if specs is not None and any(getattr(x, 'match', None) for x in specs):
            # contract chosen by what the loop does
            txt = ast.unparse(st)
            for x in specs:
                if x.match(txt, st):
                    self.loop_assign[k] = x
                    return x
            return None
        if specs is not None:
            nodes = [n for n in ast.walk(fr.func.node) if isinstance(n, (ast.For, ast.While))]
            nodes.sort(key=lambda n: (n.lineno, n.col_offset))
            if st in nodes:
                i = nodes.index(st)
                if len(nodes) == len(specs):
                    self.loop_assign[k] = specs[i]
                    return specs[i]
                live = [s for s in specs if s is not None]
                used = [s for s in self.loop_assign.values() if s is not None]
                left = [s for s in live if s not in used]
                if left:
                    self.loop_assign[k] = left[0]
                    return left[0]
        # a loop moved to a helper function: next unused contract in order
        used = [s for s in self.loop_assign.values() if s is not None]
        if q not in self.loops and self.opts.get('float_loops', True):
            if len(self.frames) > 1:
                for fr2 in reversed(self.frames[:-1]):
                    sp = self.loops.get(fr2.func.qual if fr2.func else '')
                    if sp:
                        nodes = [n for n in ast.walk(fr2.func.node) if isinstance(n, (ast.For, ast.While))]
                        if len(nodes) < len(sp):
                            left = [s for s in sp if s is not None and s not in used]
                            if left:
                                self.loop_assign[k] = left[0]
                                return left[0]
        return None

    def loop_state(self, fr, it, n, old, ghost, entry):
        return State(self, fr, it, n, old, ghost, entry)

    def run_inv(self, spec, S):
        r = spec.inv(S)
        out = []
        for k, c in enumerate(r):
            if isinstance(c, tuple):
                out.append(c)
            else:
                out.append(('inv%d' % k, c))
        return out

    def sym_loop(self, st, fr, seq, n):
        spec = self.loop_spec(st, fr)
        ctx = self.ctx
        if spec is None:
            from .maploop import map_loop
            if seq is None:
                raise Unsupported('while loop without invariant')
            return map_loop(self, st, fr, seq, n)
        lname = '%s:%s' % (fr.func.qual if fr.func else '?', spec.name)
        entry = {}
        ghost = {}
        S0 = self.loop_state(fr, 0, n, {}, ghost, entry)
        S0.entry = entry
        S0.seq = seq
        for g, (init, upd) in spec.ghost.items():
            ghost[g] = init(S0) if callable(init) else init
        for name, c in self.run_inv(spec, S0):
            ctx.prove('%s/%s/init' % (lname, name), c)
        # what does the body change?
        mods = self.loop_mods(st, fr, seq, n, spec)
        self.havoc(mods, fr, spec, lname)
        it = ctx.int(lname + '.it')
        ctx.assume(it >= 0)
        ghost2 = {}
        S = self.loop_state(fr, it, n, {}, ghost2, entry)
        S.seq = seq
        for g, (init, upd) in spec.ghost.items():
            ghost2[g] = self.fresh_like(ghost[g], lname + '.' + g)
        if seq is not None:
            ctx.assume(le(it, n))
        for name, c in self.run_inv(spec, S):
            ctx.assume(c)
        if spec.facts:
            ctx.assume(spec.facts(S))
        if seq is not None:
            more = lt(it, n)
            k = ctx.decide([more, Not(more)] if isz(more) else ([None] if more else [None]))
            if isz(more) and k == 1 or (more is False):
                return None
            self.assign(st.target, seq.at(it), fr)
        else:
            if not self.truth(self.eval(st.test, fr)):
                return None
        self.outer[spec.name] = it
        pre = State(self, clone(fr, {}), it, n, {}, ghost2, entry)
        pre.seq = seq
        m0 = spec.decreases(pre) if spec.decreases else None
        sig = self.exec_body(st.body, fr)
        if sig and sig[0] == 'break':
            return None
        if sig and sig[0] == 'return':
            return sig
        post = State(self, fr, add(it, 1), n, {}, {}, entry)
        post.seq = seq
        g3 = {}
        post.g = g3
        for g, (init, upd) in spec.ghost.items():
            g3[g] = upd(pre, post) if upd else ghost2[g]
        for name, c in self.run_inv(spec, post):
            ctx.prove('%s/%s/step' % (lname, name), c)
        if spec.decreases:
            m1 = spec.decreases(post)
            ctx.prove('%s/decreases' % lname, And(lt(m1, m0), le(0, m0)))
        raise PathEnd()

    def havoc_other(self, before, after, name):
        """a name that held None, a string or an opaque value and is assigned in the loop"""
        if isinstance(before, str) and isinstance(after, str) and before != after:
            raise Unsupported('string %s changes in a loop' % name)
        if after is UNDEF or after is before or type(after) is type(before):
            return before
        if self.ctx.branch(self.ctx.bool(name + '.set')):
            return self.fresh_like(after, name)
        return before

    def renamed(self, spec, fr):
        """the one model given for a name the function does not have (any more)"""
        lost = [k for k in spec.havoc if k != 'list' and k not in fr.vars]
        return spec.havoc[lost[0]] if len(lost) == 1 else None

    def fresh_like(self, v, name):
        ctx = self.ctx
        if isinstance(v, SArr):
            return self.fresh_array(v.shape, v.kind, name)
        if is_bool(v):
            return ctx.bool(name)
        if is_int(v):
            return ctx.int(name)
        if is_real(v):
            return ctx.real(name)
        if isinstance(v, tuple):
            return tuple(self.fresh_like(x, name) for x in v)
        if isinstance(v, Cx):
            return Cx(ctx.real(name), ctx.real(name))
        if callable(v) and not isinstance(v, (Native,)):
            # ghost function of integers: v.sig gives the sorts
            sig = v.sig
            return ghostfun(ctx.func(name, *sig), sig)
        if v is None or isinstance(v, (str, Opaque)):
            return v
        if isinstance(v, PList) and v.items is not None and len(v.items) == 0:
            raise Unsupported('list %s changes in a loop: no model given' % name)
        if isinstance(v, PList):
            raise Unsupported('list %s changes in a loop: no model given' % name)
        raise Unsupported('cannot havoc %s (%s)' % (name, type(v).__name__))

    def fresh_array(self, shape, kind, name):
        sort = {'r': RS, 'i': IS, 'b': BS}.get(kind)
        if sort is None:
            raise Unsupported('array of kind %s' % kind)
        f = self.ctx.func(name, *([IS] * len(shape) + [sort]))
        return SArr(shape, lambda i: f(*[z(x) for x in i]), kind)

    def assigned_names(self, st):
        out = []
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                if n.id not in out:
                    out.append(n.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                pass
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.append(n.name)
        return out

    def loop_mods(self, st, fr, seq, n, spec):
        """locations the loop body may change: found by a dry run of the body on a copy

        The same decisions lead to the same state, so a path that shares its beginning with an
        earlier one takes over the answer found there."""
        ctx = self.ctx
        if ctx.sub_stack:
            return self.find_mods(st, fr, seq, n, spec)
        memo = {}
        clone(self.frames, memo)
        clone(ctx.ghosts, memo)
        clone(fr, memo)
        objs = [o for o, _ in memo.values()]
        shape = [type(o).__name__ for o in objs]
        key = (id(st), tuple(ctx.trace[:ctx.pos]), len(self.frames))
        hit = ctx.mods_cache.get(key)
        if hit is not None and hit[0] == shape:
            for k, v in hit[2].items():
                ctx.counter[k] = max(ctx.counter.get(k, 0), v)
            return {(k[0], id(objs[k[1]])) + k[2:]: (objs[k[1]],) + v for k, v in hit[1].items()}
        mods = self.find_mods(st, fr, seq, n, spec)
        at = {id(o): i for i, o in enumerate(objs)}
        if all(k[1] in at for k in mods):
            ctx.mods_cache[key] = (shape, {(k[0], at[k[1]]) + k[2:]: tuple(v[1:]) for k, v in mods.items()}, dict(ctx.counter))
        return mods

    def find_mods(self, st, fr, seq, n, spec):
        names = set(x for b in ([st.body] if True else []) for s in b for x in self.assigned_names(s))
        if isinstance(st, ast.For):
            names |= set(self.assigned_names(st.target))
        mods = {}
        for v in sorted(names):
            mods[('var', id(fr), v)] = (fr, v, fr.vars.get(v, UNDEF))
        ctx = self.ctx
        for round_ in range(6):
            found = {}

            def body():
                memo = {}
                real_frames = list(self.frames)
                cframes = clone(self.frames, memo)
                cghost = clone(ctx.ghosts, memo)
                cfr = memo[id(fr)][1] if id(fr) in memo else clone(fr, memo)
                sframes, sghost = self.frames, ctx.ghosts
                self.frames, ctx.ghosts = cframes, cghost
                ctx.mute += 1
                try:
                    cm = self.map_mods(mods, memo)
                    self.havoc(cm, cfr, spec, 'dry', dry=True)
                    if seq is not None:
                        i = ctx.int('dry.it')
                        ctx.assume(i >= 0, lt(i, n))
                        for c in spec.inv(State(self, cfr, i, n, {}, {g: self.fresh_like(v(None) if False else self._g0(spec, g, cfr, n), 'dry.' + g) for g in spec.ghost}, {})) if spec.facts == 'inv' else []:
                            ctx.assume(c[1] if isinstance(c, tuple) else c)
                        self.outer[spec.name] = i
                        self.assign(st.target, seq.at(i), cfr)
                    else:
                        if not self.truth(self.eval(st.test, cfr)):
                            raise PathEnd()
                    before = self.snap(memo)
                    try:
                        self.exec_body(st.body, cfr)
                    except PyRaise:
                        pass
                    self.diff(memo, before, found)
                finally:
                    ctx.mute -= 1
                    self.frames, ctx.ghosts = sframes, sghost
            ctx.sub_explore(body)
            new = {k: v for k, v in found.items() if k not in mods}
            # kind widening of scalars
            widened = False
            for k, v in found.items():
                if k in mods and k[0] in ('var', 'attr'):
                    old = mods[k][2]
                    nv = v[2]
                    if is_int(old) and is_real(nv):
                        mods[k] = (mods[k][0], mods[k][1], Fraction(0))
                        widened = True
                    elif old is None and nv is not None and nv is not UNDEF:
                        mods[k] = (mods[k][0], mods[k][1], nv)
                        widened = True
            if not new and not widened:
                return mods
            mods.update(new)
        raise Unsupported('loop modifies too much')

    def _g0(self, spec, g, fr, n):
        init = spec.ghost[g][0]
        return init(State(self, fr, 0, n, {}, {}, {})) if callable(init) else init

    def map_mods(self, mods, memo):
        out = {}
        for k, v in mods.items():
            o = v[0]
            c = memo[id(o)][1] if id(o) in memo else o
            out[k] = (c,) + tuple(v[1:])
        return out

    def snap(self, memo):
        """contents of the copied objects before the body"""
        out = {}
        for k, (orig, c) in memo.items():
            if isinstance(c, Frame):
                out[k] = dict(c.vars)
            elif isinstance(c, SObj):
                out[k] = dict(c.attrs)
            elif isinstance(c, SArr):
                out[k] = c._fn
            elif isinstance(c, PList):
                out[k] = (list(c.items) if c.items is not None else None, c.n, c.fn)
            elif isinstance(c, PDict):
                out[k] = dict(c.d)
            elif isinstance(c, PSet):
                out[k] = list(c.items)
            elif isinstance(c, dict):
                out[k] = dict(c)
        return out

    def diff(self, memo, before, found):
        for k, (orig, c) in memo.items():
            if k not in before:
                continue
            b = before[k]
            if isinstance(c, Frame):
                for n, v in c.vars.items():
                    if n.startswith('__'):
                        continue
                    if n not in b or b[n] is not v:
                        if n in b and b[n] is not v and self.same_val(b[n], v):
                            continue
                        found[('var', k, n)] = (orig, n, v)
            elif isinstance(c, SObj):
                for n, v in c.attrs.items():
                    if n not in b or (b[n] is not v and not self.same_val(b[n], v)):
                        found[('attr', k, n)] = (orig, n, v)
            elif isinstance(c, SArr):
                if c._fn is not b:
                    found[('arr', k)] = (orig,)
            elif isinstance(c, PList):
                if (c.n is not b[1] and not self.same_val(c.n, b[1])) or c.fn is not b[2] or \
                        (c.items is not None and (b[0] is None or len(c.items) != len(b[0]) or any(x is not y for x, y in zip(c.items, b[0])))):
                    found[('list', k)] = (orig,)
            elif isinstance(c, PDict):
                if set(c.d) != set(b) or any(c.d[x] is not b[x] for x in c.d):
                    found[('dict', k)] = (orig,)
            elif isinstance(c, PSet):
                if len(c.items) != len(b):
                    found[('set', k)] = (orig,)
            elif isinstance(c, dict):
                for n, v in c.items():
                    if n not in b or (b[n] is not v and not self.same_val(b[n], v)):
                        found[('ghost', k, n)] = (orig, n, v)

    def same_val(self, a, b):
        if isz(a) and isz(b):
            return a.eq(b)
        if conc(a) and conc(b):
            return a == b and type(a) is type(b)
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        return a is b

    def havoc(self, mods, fr, spec, lname, dry=False):
        ctx = self.ctx
        for k in sorted(mods, key=lambda k: (k[0], str(k[2:]), k[1] if False else 0)):
            v = mods[k]
            if k[0] == 'var':
                f, n, cur = v
                nm = next((a for a, b in self.aliases.items() if b == n), n)
                if nm in spec.havoc:
                    f.vars[n] = spec.havoc[nm](State(self, f, None, None, {}, {}, {}))
                    continue
                if cur is UNDEF:
                    f.vars[n] = UNDEF
                    continue
                try:
                    cur2 = f.vars.get(n, cur)
                    if is_real(cur) and is_int(cur2):
                        cur2 = Fraction(0)
                    if isinstance(cur2, SArr):
                        # rebinding a name to another array: arbitrary contents
                        f.vars[n] = self.fresh_array(cur2.shape, cur2.kind, lname + '.' + n)
                    elif cur2 is None or isinstance(cur2, (str, Opaque)):
                        f.vars[n] = self.havoc_other(cur2, cur, lname + '.' + n)
                    else:
                        f.vars[n] = self.fresh_like(cur2, lname + '.' + n)
                except Unsupported:
                    f.vars[n] = UNDEF
            elif k[0] == 'attr':
                o, n, cur = v
                if ('.' + n) in spec.havoc:
                    o.attrs[n] = spec.havoc['.' + n](State(self, fr, None, None, {}, {}, {}))
                    continue
                cur2 = o.attrs.get(n, UNDEF)
                if cur2 is UNDEF or isinstance(cur2, Stale):
                    o.attrs[n] = cur2
                    continue
                if is_real(cur) and is_int(cur2):
                    cur2 = Fraction(0)
                if cur2 is None or isinstance(cur2, (str, Opaque)):
                    o.attrs[n] = self.havoc_other(cur2, cur, lname + '.' + n)
                else:
                    o.attrs[n] = self.fresh_like(cur2, lname + '.' + n)
            elif k[0] == 'arr':
                a = v[0]
                g = self.fresh_array(a.shape, a.kind, lname + '.arr')
                a.setfn(g._fn)
                a.props = {}
            elif k[0] == 'list':
                l = v[0]
                h = spec.havoc.get('list')
                nm = self.name_of(l, fr)
                h = h or self.renamed(spec, fr)
                if nm in spec.havoc or h is not None:
                    new = spec.havoc.get(nm, h)(State(self, fr, None, None, {}, {}, {}))
                    l.items, l.n, l.fn, l.inv, l.gen = new.items, new.n, new.fn, new.inv, new.gen
                elif l.inv is not None or l.gen is not None:
                    l.n = ctx.int(lname + '.len')
                    ctx.assume(l.n >= 0)
                    l.items = None
                else:
                    raise Unsupported('list %s changes in a loop: no model given' % nm)
            elif k[0] == 'ghost':
                d, n, cur = v
                if n in spec.havoc:
                    d[n] = spec.havoc[n](State(self, fr, None, None, {}, {}, {}))
                else:
                    d[n] = self.fresh_like(d.get(n, cur), lname + '.' + n)
            elif k[0] == 'dict':
                nm = self.name_of(v[0], fr)
                if nm not in spec.havoc and self.renamed(spec, fr):
                    nm = next(k for k, h in spec.havoc.items() if h is self.renamed(spec, fr))
                if nm in spec.havoc:
                    v[0].d = spec.havoc[nm](State(self, fr, None, None, {}, {}, {})).d
                else:
                    raise Unsupported('dict changes in a loop: no model given')
            else:
                raise Unsupported('%s changes in a loop' % k[0])

    def name_of(self, o, fr):
        f = fr
        while f is not None:
            for n, v in f.vars.items():
                if v is o:
                    return next((a for a, b in self.aliases.items() if b == n), n)
            f = f.closure
        for f in self.frames:
            for n, v in f.vars.items():
                if isinstance(v, SObj):
                    for a, w in v.attrs.items():
                        if w is o:
                            return '.' + a
                if v is o:
                    return n
        for n, v in self.ctx.ghosts.items():
            if v is o:
                return n
        return None

    # ------------------------------------------------------------ iteration
    def as_seq(self, it):
        """list (concrete) or an object with length() and at(i)"""
        if isinstance(it, (list, tuple)):
            return list(it)
        if isinstance(it, str):
            return list(it)
        if isinstance(it, PList):
            if it.items is not None:
                return list(it.items)
            return it
        if isinstance(it, PDict):
            return list(it.d.keys())
        if isinstance(it, PSet):
            return list(it.items)
        if isinstance(it, (Range, Iter)):
            n = norm(it.length())
            if conc(n) and n <= self.opts.get('unroll', 40):
                return [it.at(i) for i in range(n)]
            return it
        if isinstance(it, SArr):
            n = norm(it.shape[0])
            if len(it.shape) == 1:
                g = it.snapshot()
                f = lambda i: g((i,))
            else:
                from .models import row_view
                f = lambda i: row_view(it, i)
            if conc(n) and n <= self.opts.get('unroll', 40):
                return [f(i) for i in range(n)]
            return Iter(n, f)
        if isinstance(it, SObj):
            m = self.find_method(it, '__iter__')
            if m:
                return self.as_seq(self.call(m, []))
        raise Unsupported('iteration over %r' % type(it).__name__)

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.globals:
                # module variables written at run time are part of the state
                self.ctx.ghosts['global %s' % t.id] = (fr.mod.rel, v)
                return
            if t.id in fr.nonlocals:
                f = fr.closure
                while f is not None:
                    if t.id in f.vars:
                        f.vars[t.id] = v
                        return
                    f = f.closure
            fr.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr), self.eval_index(t.slice, fr), v, t)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n):
        if isinstance(v, tuple):
            items = list(v)
        elif isinstance(v, PList) and v.items is not None:
            items = list(v.items)
        elif isinstance(v, SArr):
            d = norm(v.shape[0])
            if not conc(d):
                raise Unsupported('unpacking an array of unknown length')
            if len(v.shape) == 1:
                items = [v.at(i) for i in range(d)]
            else:
                from .models import row_view
                items = [row_view(v, i) for i in range(d)]
        elif isinstance(v, str):
            items = list(v)
        elif isinstance(v, (Range, Iter)):
            d = norm(v.length())
            if not conc(d):
                raise Unsupported('unpack')
            items = [v.at(i) for i in range(d)]
        else:
            raise Unsupported('unpacking %r' % type(v).__name__)
        if len(items) != n:
            raise PyRaise('ValueError', ('unpack',))
        return items

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')):
                return INF
            return Fraction(repr(v))
        if isinstance(v, complex):
            return Cx(Fraction(repr(v.real)), Fraction(repr(v.imag)))
        if v is Ellipsis:
            return Ellipsis
        return v

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr, e)

    def e_Tuple(self, e, fr):
        return tuple(self.seq_elts(e.elts, fr))

    def e_List(self, e, fr):
        return PList(self.seq_elts(e.elts, fr))

    def seq_elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                s = self.as_seq(self.eval(x.value, fr))
                if not isinstance(s, list):
                    raise Unsupported('starred symbolic sequence')
                out.extend(s)
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Set(self, e, fr):
        return PSet([self.eval(x, fr) for x in e.elts])

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v, fr).d)
            else:
                kk = self.eval(k, fr)
                if isinstance(kk, (SymStr, SObj)) or (isz(kk)):
                    if self.opts.get('symbolic_keys') and len(e.keys) == 1:
                        r = PDict({})
                        r.pair = (kk, self.eval(v, fr))
                        return r
                    raise Unsupported('symbolic dict key')
                d[kk] = self.eval(v, fr)
        return PDict(d)

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, fr)
                spec = self.eval(v.format_spec, fr) if v.format_spec else ''
                if isinstance(x, (str, int)) and not isinstance(x, bool) and isinstance(spec, str):
                    parts.append(format(x, spec))
                else:
                    parts.append(('fmt', spec, x))
        return mkstr(parts)

    def e_FormattedValue(self, e, fr):
        raise Unsupported('formatted value')

    def e_Lambda(self, e, fr):
        return FuncRef(fr.mod, e, (fr.func.qual if fr.func else '') + '.<lambda>', closure=fr)

    def e_IfExp(self, e, fr):
        c = self.eval(e.test, fr)
        return self.eval(e.body, fr) if self.truth(c) else self.eval(e.orelse, fr)

    def pure(self, e):
        """cheap expression without side effects or partiality"""
        for n in ast.walk(e):
            if isinstance(n, (ast.Call, ast.Subscript, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.IfExp)):
                return False
            if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Div, ast.FloorDiv, ast.Mod, ast.Pow)):
                return False
        return True

    def e_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        acc = None
        for k, x in enumerate(e.values):
            if acc is not None:
                # acc is a symbolic bool so far
                if isz(acc) and self.pure(x):
                    v = self.eval(x, fr)
                    if is_bool(v):
                        acc = And(acc, v) if is_and else Or(acc, v)
                        if isinstance(acc, bool):
                            if acc != is_and:
                                return acc
                            acc = None if k < len(e.values) - 1 else acc
                            if acc is None:
                                continue
                        continue
                    t = self.truth(acc)
                    if t != is_and:
                        return t
                    acc = None
                else:
                    t = self.truth(acc)
                    if t != is_and:
                        return acc if not isz(acc) else t
                    v = self.eval(x, fr)
            else:
                v = self.eval(x, fr)
            last = k == len(e.values) - 1
            if last and acc is None:
                return v
            if isz(v) and z3.is_bool(v):
                acc = v
                continue
            t = self.truth(v)
            if t != is_and:
                return v if not isz(v) else t
            acc = None
            if last:
                return v
        return acc if acc is not None else is_and

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if is_bool(v):
                return Not(v)
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return self.unary(lambda x: x.neg() if isinstance(x, Cx) else neg(x), v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, SObj) and self.find_method(v, '__invert__'):
                return self.call(self.find_method(v, '__invert__'), [])
            return self.unary(lambda x: Not(x) if is_bool(x) else sub(neg(x), 1), v)
        raise Unsupported('unary operator')

    def unary(self, f, v, kind=None):
        if v is INF:
            return NINF
        if isinstance(v, SArr):
            g = v.snapshot()
            return SArr(v.shape, lambda i: f(g(i)), kind or v.kind)
        return f(v)

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(type(e.op).__name__, a, b, e)

    SC = {'Add': add, 'Sub': sub, 'Mult': mul, 'FloorDiv': floordiv, 'Mod': mod, 'Pow': pow_}

    def scalar_op(self, op, a, b, node=None):
        if isinstance(a, Special) or isinstance(b, Special):
            raise Unsupported('arithmetic with nan/inf')
        if isinstance(a, Cx) or isinstance(b, Cx):
            if op == 'Add':
                return Cx.of(a).add(b)
            if op == 'Sub':
                return Cx.of(a).sub(b)
            if op == 'Mult':
                return b.mul(a) if not isinstance(a, Cx) else a.mul(b)
            if op == 'Div':
                return Cx.of(a).div(b)
            raise Unsupported('complex %s' % op)
        if op == 'Div':
            return truediv(a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if is_bool(a) and is_bool(b):
                return And(a, b) if op == 'BitAnd' else (Or(a, b) if op == 'BitOr' else Not(Iff(a, b)))
            if conc(a) and conc(b):
                return a & b if op == 'BitAnd' else (a | b if op == 'BitOr' else a ^ b)
            if is_bool(b) and not is_bool(a):
                a, b = b, a
            if is_bool(a) and is_int(b):
                # a truth value and a number: exact for 0 and 1
                f = z3.Function('bits.' + op, IS, IS)
                one = {'BitOr': 1, 'BitAnd': b, 'BitXor': sub(1, b)}[op]
                return ite(a, ite(Or(eq(b, 0), eq(b, 1)), one, f(z(b))), 0 if op == 'BitAnd' else b)
            raise Unsupported('bit operation')
        f = self.SC.get(op)
        if f is None:
            raise Unsupported('operator %s' % op)
        if op == 'FloorDiv' and is_int(a) and is_int(b) and not conc(b) and self.ctx.must(cmp('>', b, 0)):
            return z(a) / z(b)
        if op == 'Mod' and is_int(a) and is_int(b) and not conc(b) and self.ctx.must(cmp('>', b, 0)):
            return z(a) % z(b)
        return f(a, b)

    def binop(self, op, a, b, node=None):
        if isinstance(a, SObj) and op in ('Add', 'Sub') and isinstance(a.attrs.get('__%s__' % op.lower()), Native):
            return self.call(a.attrs['__%s__' % op.lower()], [b])
        if isinstance(a, str) and op == 'Mod':
            return self.str_format(a, b)
        if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)) and op == 'Add':
            return mkstr(list(a.parts if isinstance(a, SymStr) else [a]) + list(b.parts if isinstance(b, SymStr) else [b]))
        if isinstance(a, PList) and isinstance(b, PList) and op == 'Add':
            if a.items is not None and b.items is not None:
                return PList(a.items + b.items)
            na, fa, fb = a.length(), a.getter(), b.getter()
            return PList(n=add(na, b.length()), fn=lambda i: ite(lt(i, na), fa(i), fb(sub(i, na))))
        if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
            return a + b
        if isinstance(a, PList) and op == 'Mult' and conc(b):
            if a.items is not None:
                return PList(a.items * b)
        if isinstance(a, PList) and op == 'Mult' and a.items is not None and len(a.items) == 1:
            v = a.items[0]
            return PList(n=b, fn=lambda i: v)
        if isinstance(a, str) and op == 'Mult' and conc(b):
            return a * b
        if isinstance(a, SArr) or isinstance(b, SArr):
            from .models import broadcast
            if isinstance(a, PList):
                a = self.reg['numpy.array'](self, [a], {})
            if isinstance(b, PList):
                b = self.reg['numpy.array'](self, [b], {})
            r = broadcast(self, lambda x, y: self.scalar_op(op, x, y, node), a, b, node, opname=op)
            if op in ('Add', 'Sub') and isinstance(a, SArr) and 'inverse' in a.props and isinstance(b, int) and not isinstance(b, bool) and isinstance(r, SArr):
                inv, d = a.props['inverse'], b if op == 'Add' else -b
                r.props['shifted'] = lambda i: inv(sub(i, d))
            return r
        if is_num(a) and is_num(b) or isinstance(a, (Cx, Special)) or isinstance(b, (Cx, Special)):
            if op in ('Div', 'FloorDiv', 'Mod') and isz(b) and self.opts.get('check_div', True):
                self.defined('nonzero divisor', cmp('!=', b, 0), node, 'ZeroDivisionError')
            if op in ('FloorDiv', 'Mod') and is_num(a) and is_num(b) and isz(b):
                r = self.named_div(op, num(a), num(b))
                if r is not None:
                    return r
            return self.scalar_op(op, a, b, node)
        for x, n in ((a, '__%s__'), (b, '__r%s__')):
            if isinstance(x, SObj):
                m = self.find_method(x, n % {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv'}.get(op, op.lower()))
                if m:
                    return self.call(m, [b if x is a else a])
        h = self.opts.get('binop')
        if h:
            r = h(self, op, a, b)
            if r is not NotImplemented:
                return r
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            raise PyRaise('TypeError', ('operand',))
        raise Unsupported('%s on %s and %s' % (op, type(a).__name__, type(b).__name__))

    def named_div(self, op, a, b):
        """quotient introduced by its defining inequalities (symbolic divisor)"""
        ints = is_int(a) and is_int(b)
        if self.ctx.must(cmp('>', b, 0)):
            pos = True
        elif self.ctx.must(cmp('<', b, 0)):
            pos = False
        else:
            return None
        ua, ub = unreal(a), unreal(b)
        if ua is not None and ub is not None:
            q = z(ua) / z(ub) if pos else z(neg(ua)) / z(neg(ub))
            a, b = ua, ub
        else:
            q = self.ctx.int('quot')
        qb = mul(q, b)
        if ua is None or ub is None:
            # multiples of the same divisor are ordered like their factors
            for b2, q2 in self.ctx.quots:
                if z(b2).eq(z(b)):
                    m = mul(q2, b)
                    self.ctx.assume(Implies(q == q2, eq(qb, m)), Implies(q > q2, le(add(m, b), qb) if pos else le(qb, add(m, b))),
                                    Implies(q < q2, le(add(qb, b), m) if pos else le(m, add(qb, b))))
            self.ctx.quots.append((b, q))
        if pos:
            self.ctx.assume(le(qb, a), lt(a, add(qb, b)))
            if self.ctx.must(cmp('>=', a, 0)):
                self.ctx.assume(q >= 0)
        else:
            self.ctx.assume(le(a, qb), lt(add(qb, b), a))
        if op == 'FloorDiv':
            return q if ints else z3.ToReal(q)
        if ua is not None and ub is not None and pos:
            r = z(ua) % z(ub)
            self.ctx.assume(r == sub(a, qb))
            return r if ints else z3.ToReal(r)
        return sub(a, qb)

    def check_shape_eq(self, a, b, node):
        if len(a.shape) != len(b.shape):
            raise Unsupported('in-place broadcasting')
        for m, n in zip(a.shape, b.shape):
            if not same_dim(m, n):
                self.defined('shapes agree', eq(m, n), node, 'ValueError')

    def defined(self, what, cond, node, exc):
        """definedness: proved, unless the code handles the exception"""
        cond = norm(cond)
        if cond is True:
            return
        if isz(cond) and self.ctx.must(cond):
            return
        for names in reversed(self.ctx.caught):
            if '*' in names or any(n == exc or (n in BUILTIN_EXC and self._sub(exc, n)) for n in names):
                if self.ctx.branch(cond):
                    return
                raise PyRaise(exc, (), node)
        if self.opts.get('raise_ok') and exc in self.opts['raise_ok']:
            if self.ctx.branch(cond):
                return
            raise PyRaise(exc, (), node)
        src = ''
        try:
            src = ast.unparse(node)[:60] if node is not None else ''
        except Exception:
            pass
        q = self.frames[-1].func.qual if self.frames and self.frames[-1].func else '?'
        if cond is False:
            raise PyRaise(exc, (), node)
        if self.opts.get('definedness', True):
            self.ctx.prove('%s/defined: %s in `%s`' % (q, what, src), cond)
        else:
            self.ctx.assume(cond, why='definedness not checked: ' + what)

    def _sub(self, a, b):
        while a is not None:
            if a == b:
                return True
            a = BUILTIN_EXC.get(a)
        return False

    def str_format(self, a, b):
        args = list(b) if isinstance(b, tuple) else [b]
        if all(isinstance(x, (str, int)) or (isinstance(x, Fraction)) for x in args):
            try:
                return a % tuple(float(x) if isinstance(x, Fraction) else x for x in args)
            except (TypeError, ValueError):
                raise PyRaise('TypeError', ())
        import re
        parts = []
        pos = 0
        k = 0
        for m in re.finditer(r'%(\([^)]*\))?([-+ #0]*\d*(?:\.\d+)?[a-zA-Z%])', a):
            parts.append(a[pos:m.start()])
            pos = m.end()
            if m.group(2) == '%':
                parts.append('%')
                continue
            if m.group(1):
                raise Unsupported('named formatting')
            if k >= len(args):
                raise PyRaise('TypeError', ())
            x = args[k]
            k += 1
            if isinstance(x, str) and m.group(2) == 's':
                parts.append(x)
            elif isinstance(x, SymStr) and m.group(2) == 's':
                parts.extend(x.parts)
            elif isinstance(x, int) and not isinstance(x, bool):
                parts.append(('%' + m.group(2)) % x)
            else:
                parts.append(('fmt', '%' + m.group(2), x))
        parts.append(a[pos:])
        return mkstr(parts)

    CMP = {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>=', 'Eq': '==', 'NotEq': '!='}

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            c = self.compare(type(op).__name__, left, right, e)
            if res is None:
                res = c
            else:
                if is_bool(res) and is_bool(c):
                    res = And(res, c)
                else:
                    if not self.truth(res):
                        return False
                    res = c
            left = right
        return res

    def compare(self, op, a, b, node=None):
        if op in ('Is', 'IsNot'):
            if a is None or b is None or isinstance(a, (bool,)) or isinstance(b, bool):
                r = a is b
                if isinstance(b, bool) and isz(a) and z3.is_bool(a):
                    r = a if b else Not(a)
                    return r if op == 'Is' else Not(r)
            elif isinstance(a, (ExtRef, ClassRef)):
                r = a == b
            else:
                r = a is b
            return r if op == 'Is' else not r
        if op in ('In', 'NotIn'):
            r = self.contains(b, a)
            return r if op == 'In' else (Not(r))
        sym = self.CMP.get(op)
        if sym is None:
            raise Unsupported('comparison %s' % op)
        if isinstance(a, SArr) or isinstance(b, SArr):
            from .models import broadcast
            if isinstance(a, (SArr, PList)) or is_num(a):
                if isinstance(a, PList):
                    a = self.reg['numpy.array'](self, [a], {})
                if isinstance(b, PList):
                    b = self.reg['numpy.array'](self, [b], {})
                if a is None or b is None:
                    return sym == '!='
                return broadcast(self, lambda x, y: self.scalar_cmp(sym, x, y), a, b, node, kind='b')
        return self.scalar_cmp(sym, a, b)

    def scalar_cmp(self, sym, a, b):
        if isinstance(a, Special) or isinstance(b, Special):
            if a is NAN or b is NAN:
                return sym == '!='
            def rk(v):
                return 1 if v is INF else (-1 if v is NINF else 0)
            x, y = rk(a), rk(b)
            if x == y and x != 0:
                return sym in ('==', '<=', '>=')
            return {'<': x < y, '<=': x < y, '>': x > y, '>=': x > y, '==': False, '!=': True}[sym]
        if is_num(a) and is_num(b):
            return norm(cmp(sym, a, b))
        if isinstance(a, str) and isinstance(b, str):
            return {'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[sym]
        h = self.opts.get('compare')
        if h and isinstance(a, SObj):
            r = h(self, sym, a, b)
            if r is not NotImplemented:
                return r
        if sym in ('==', '!='):
            r = self.equal(a, b)
            return r if sym == '==' else Not(r)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            # lexicographic
            r = sym in ('<=', '>=')
            for x, y in reversed(list(zip(a, b))):
                strict = self.scalar_cmp('<' if sym in ('<', '<=') else '>', x, y)
                r = Or(strict, And(self.scalar_cmp('==', x, y), r))
            return r
        h = self.opts.get('compare')
        if h:
            r = h(self, sym, a, b)
            if r is not NotImplemented:
                return r
        if a is None or b is None:
            raise PyRaise('TypeError', ('comparison',))
        raise Unsupported('comparison of %s and %s' % (type(a).__name__, type(b).__name__))

    def equal(self, a, b):
        if isinstance(a, SObj) and isinstance(a.attrs.get('__eq__'), Native):
            return self.call(a.attrs['__eq__'], [b])
        if a is b:
            return True
        if a is None or b is None:
            return False
        if is_num(a) and is_num(b):
            return cmp('==', a, b)
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, (tuple,)) and isinstance(b, tuple) or (isinstance(a, PList) and isinstance(b, PList) and a.concrete and b.concrete):
            x = list(a) if isinstance(a, tuple) else a.items
            y = list(b) if isinstance(b, tuple) else b.items
            if len(x) != len(y):
                return False
            return And(*[self.equal(p, q) for p, q in zip(x, y)])
        if isinstance(a, (SymStr, str)) and isinstance(b, (SymStr, str)):
            h = self.opts.get('streq')
            if h:
                return h(self, a, b)
            return str_equal(a, b, self)
        if isinstance(a, (ExtRef, ClassRef)) or isinstance(b, (ExtRef, ClassRef)):
            return a == b
        h = self.opts.get('compare')
        if h:
            r = h(self, '==', a, b)
            if r is not NotImplemented:
                return r
        if type(a) is not type(b) and (isinstance(a, (str, PList, tuple, PDict)) or is_num(a)) and (isinstance(b, (str, PList, tuple, PDict)) or is_num(b)):
            return False
        if isinstance(a, SObj) and isinstance(b, SObj):
            return a is b
        raise Unsupported('equality of %s and %s' % (type(a).__name__, type(b).__name__))

    def contains(self, c, x):
        if isinstance(c, (tuple, PList, PSet)):
            if isinstance(c, PList) and not c.concrete:
                raise Unsupported('membership in symbolic list')
            items = c if isinstance(c, tuple) else c.items
            return Or(*[self.equal(x, y) for y in items])
        if isinstance(c, PDict):
            if isz(x):
                return Or(*[self.equal(x, y) for y in c.d if is_num(y)])
            if isinstance(x, (SymStr,)):
                return Or(*[self.equal(x, y) for y in c.d])
            return x in c.d
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, Range) and c.step == 1:
            return And(le(c.lo, x), lt(x, c.hi))
        if isinstance(c, SArr) and len(c.shape) == 1:
            i = z3.FreshConst(IS, 'q')
            return z3.Exists([i], z(And(le(0, i), lt(i, c.shape[0]), eq(c.at(i), x))))
        if isinstance(c, SObj):
            m = self.find_method(c, '__contains__')
            if m:
                return self.truth(self.call(m, [x]))
            k = '%s.__contains__' % c.cls
            if k in self.reg:
                return self.reg[k](self, [c, x], {})
        h = self.opts.get('contains')
        if h:
            r = h(self, c, x)
            if r is not NotImplemented:
                return r
        raise Unsupported('membership in %r' % type(c).__name__)

    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if conc(v):
            return v != 0
        if isz(v):
            if z3.is_bool(v):
                return self.ctx.branch(v)
            return self.ctx.branch(v != 0)
        if isinstance(v, str):
            return len(v) > 0
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, PList):
            return self.ctx.branch(cmp('>', v.length(), 0))
        if isinstance(v, PDict):
            return len(v.d) > 0
        if isinstance(v, PSet):
            return len(v.items) > 0
        if isinstance(v, SArr):
            n = norm(v.size)
            if conc(n) and n == 1 or not conc(n) and self.ctx.must(eq(n, 1)):
                return self.truth(v.at(*([0] * len(v.shape))))
            if conc(n):
                raise PyRaise('ValueError', ('truth value of an array',))
            if self.ctx.branch(eq(n, 1)):
                return self.truth(v.at(*([0] * len(v.shape))))
            raise PyRaise('ValueError', ('truth value of an array',))
        if isinstance(v, SObj):
            m = self.find_method(v, '__bool__')
            if m:
                return self.truth(self.call(m, []))
            m = self.find_method(v, '__len__')
            if m:
                return self.truth(self.call(m, []))
            if isinstance(v.cls, str) and v.cls + '.__bool__' in self.reg:
                return self.reg[v.cls + '.__bool__'](self, [v], {})
            return True
        if isinstance(v, SymStr):
            if any(isinstance(p, str) and p for p in v.parts):
                return True
        if isinstance(v, (FuncRef, Bound, ClassRef, ExtRef, ModRef, Native)):
            return True
        if isinstance(v, Range):
            return self.ctx.branch(cmp('>', v.length(), 0))
        if isinstance(v, Cx):
            return self.ctx.branch(Or(cmp('!=', v.re, 0), cmp('!=', v.im, 0)))
        raise Unsupported('truth value of %r' % type(v).__name__)

    def e_Call(self, e, fr):
        # calls on loggers are dropped without evaluating their arguments
        f = e.func
        if is_log(f):
            return None
        if isinstance(f, ast.Name) and f.id == 'super':
            if not e.args:
                return Super(fr.cls, fr.vars[fr.func.node.args.args[0].arg])
            return Super(self.eval(e.args[0], fr), self.eval(e.args[1], fr))
        if isinstance(f, ast.Name) and f.id in ('locals', 'vars', 'eval', 'exec') and 'builtins.' + f.id not in self.opts.get('externals', {}):
            raise Unsupported(f.id)
        if isinstance(f, ast.Attribute):
            o = self.eval(f.value, fr)
            if isinstance(o, Super):
                return self.super_call(o, f.attr, self.seq_elts(e.args, fr), self.kw(e, fr))
            fv = self.getattr(o, f.attr, f)
        else:
            fv = self.eval(f, fr)
        args = self.seq_elts(e.args, fr)
        kwargs = self.kw(e, fr)
        self.node_stack.append(e)
        try:
            return self.call(fv, args, kwargs, e)
        finally:
            self.node_stack.pop()

    def kw(self, e, fr):
        out = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                if not isinstance(d, PDict):
                    raise Unsupported('** of non-dict')
                out.update(d.d)
            else:
                out[k.arg] = self.eval(k.value, fr)
        return out

    def super_call(self, s, name, args, kw):
        objcls = s.obj.cls
        mro = self.mro(objcls)
        i = mro.index(s.cls)
        for k in mro[i + 1:]:
            if isinstance(k, ExtRef):
                h = self.reg.get(k.name + '.' + name)
                if h:
                    return h(self, [s.obj] + args, kw)
                if name == '__init__':
                    return None
                raise Unsupported('super of %s' % k)
            n = next((st for st in k.node.body if isinstance(st, ast.FunctionDef) and st.name == name), None)
            if n is not None:
                return self.call(FuncRef(k.mod, n, k.qual + '.' + name, cls=k), [s.obj] + args, kw)
        if name == '__init__':
            return None
        raise PyRaise('AttributeError', (name,))

    # ------------------------------------------------------------ comprehension
    def e_ListComp(self, e, fr):
        return self.comp(e, fr)

    def e_GeneratorExp(self, e, fr):
        return self.comp(e, fr)

    def e_SetComp(self, e, fr):
        r = self.comp(e, fr)
        if r.items is None:
            raise Unsupported('symbolic set')
        return PSet(r.items)

    def e_DictComp(self, e, fr):
        g = e.generators
        if len(g) != 1:
            raise Unsupported('nested dict comprehension')
        seq = self.as_seq(self.eval(g[0].iter, fr))
        if not isinstance(seq, list):
            raise Unsupported('symbolic dict comprehension')
        f2 = Frame(fr.mod, fr.func, closure=fr)
        d = {}
        for x in seq:
            self.assign(g[0].target, x, f2)
            if all(self.truth(self.eval(c, f2)) for c in g[0].ifs):
                d[self.eval(e.key, f2)] = self.eval(e.value, f2)
        return PDict(d)

    def comp(self, e, fr):
        gens = e.generators
        f2 = Frame(fr.mod, fr.func, closure=fr, cls=fr.cls)
        if len(gens) == 1:
            seq = self.as_seq(self.eval(gens[0].iter, fr))
            if not isinstance(seq, list):
                from .maploop import map_comp
                return map_comp(self, e, fr, seq)
        out = []

        def rec(k):
            if k == len(gens):
                out.append(self.eval(e.elt, f2))
                return
            seq = self.as_seq(self.eval(gens[k].iter, f2))
            if not isinstance(seq, list):
                raise Unsupported('nested symbolic comprehension')
            for x in seq:
                self.assign(gens[k].target, x, f2)
                if all(self.truth(self.eval(c, f2)) for c in gens[k].ifs):
                    rec(k + 1)
        rec(0)
        return PList(out)

    def e_Starred(self, e, fr):
        raise Unsupported('starred')

    def e_Yield(self, e, fr):
        f = fr
        while '__yield__' not in f.vars:
            f = f.closure
        self.reg['list.append'](self, [f.vars['__yield__'], self.eval(e.value, fr) if e.value else None], {})
        return None

    def e_YieldFrom(self, e, fr):
        f = fr
        while '__yield__' not in f.vars:
            f = f.closure
        self.reg['list.extend'](self, [f.vars['__yield__'], self.eval(e.value, fr)], {})
        return None

    # ------------------------------------------------------------ subscripts
    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return Slice(*[self.eval(x, fr) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, fr) for x in s.elts)
        return self.eval(s, fr)

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        ix = self.eval_index(e.slice, fr)
        return self.getitem(o, ix, e)

    def norm_index(self, i, n, node, exc='IndexError', what='index in range'):
        i = norm(num(i))
        if isinstance(i, Fraction) or (isz(i) and z3.is_real(i)):
            raise PyRaise('IndexError', ('float index',)) if True else None
        if conc(i) and conc(n):
            if not (-n <= i < n):
                raise PyRaise(exc, ('index',), node)
            return i if i >= 0 else n + i
        if conc(i):
            if i >= 0:
                self.defined(what, lt(i, n), node, exc)
                return i
            self.defined(what, le(neg(i), n), node, exc)
            return add(n, i)
        if self.ctx.must(i >= 0):
            self.defined(what, lt(i, n), node, exc)
            return i
        if self.ctx.must(i < 0):
            self.defined(what, le(neg(i), n), node, exc)
            return add(n, i)
        self.defined(what, And(le(neg(n), i), lt(i, n)), node, exc)
        return z3.If(i < 0, z(add(n, i)), i)

    def slice_bounds(self, s, n):
        """(start, length, step) of a slice over a dimension of length n"""
        step = s.step if s.step is not None else 1
        step = norm(step)
        if not conc(step) or step == 0:
            raise Unsupported('slice step')

        def clampv(v, lo, hi):
            v = norm(num(v))
            if not is_int(v):
                raise PyRaise('TypeError', ('slice indices must be integers',))
            if conc(v) and v < 0:
                w = add(n, v)
            elif conc(v):
                w = v
            elif self.ctx.must(v >= 0):
                w = v
            elif self.ctx.must(v < 0):
                w = add(n, v)
            else:
                w = z3.If(v < 0, z(add(n, v)), v)
            if isz(w) or isz(hi):
                if self.ctx.must(And(le(lo, w), le(w, hi))):
                    return w
            return maxv(lo, minv(w, hi)) if True else w
        if step > 0:
            a = 0 if s.lo is None else clampv(s.lo, 0, n)
            b = n if s.hi is None else clampv(s.hi, 0, n)
            d = sub(b, a)
            if step > 1:
                d = floordiv(add(d, step - 1), step)
            if conc(d):
                d = max(d, 0)
            elif not self.ctx.must(le(0, d)):
                d = maxv(d, 0)
            return norm(a), norm(d), step
        a = sub(n, 1) if s.lo is None else clampv(s.lo, -1, sub(n, 1))
        b = -1 if s.hi is None else clampv(s.hi, -1, sub(n, 1))
        d = sub(a, b)
        if step < -1:
            d = floordiv(add(d, -step - 1), -step)
        if conc(d):
            d = max(d, 0)
        elif not self.ctx.must(le(0, d)):
            d = maxv(d, 0)
        return norm(a), norm(d), step

    def getitem(self, o, ix, node=None):
        if isinstance(o, SArr):
            from .models import arr_getitem
            return arr_getitem(self, o, ix, node)
        if isinstance(o, PList):
            if o.gen is not None and o.items is None and not isinstance(ix, Slice):
                i = self.norm_index(ix, o.length(), node)
                return o.gen(self, i)
            if isinstance(ix, Slice):
                a, d, step = self.slice_bounds(ix, o.length())
                if conc(a) and conc(d) and o.items is not None:
                    return PList([o.items[a + step * k] for k in range(d)])
                g = o.getter()
                return PList(n=d, fn=lambda i: g(add(a, mul(step, i))))
            i = self.norm_index(ix, o.length(), node)
            return o.at(i)
        if isinstance(o, tuple):
            if isinstance(ix, Slice):
                a, d, step = self.slice_bounds(ix, len(o))
                return tuple(o[a + step * k] for k in range(d))
            i = self.norm_index(ix, len(o), node)
            if conc(i):
                return o[i]
            return PList(list(o)).at(i)
        if isinstance(o, PDict):
            if isz(ix):
                keys = [k for k in o.d if isinstance(k, int)]
                self.defined('key present', Or(*[eq(ix, k) for k in keys]), node, 'KeyError')
                r = o.d[keys[-1]]
                for k in keys[:-1]:
                    r = ite(eq(ix, k), o.d[k], r)
                return r
            if isinstance(ix, SymStr):
                raise Unsupported('symbolic dict key')
            if ix not in o.d:
                raise PyRaise('KeyError', (ix,), node)
            return o.d[ix]
        if isinstance(o, str):
            if isinstance(ix, Slice) and all(x is None or conc(x) for x in (ix.lo, ix.hi, ix.step)):
                return o[ix.lo:ix.hi:ix.step]
            if conc(ix):
                if not -len(o) <= ix < len(o):
                    raise PyRaise('IndexError', (), node)
                return o[ix]
        if isinstance(o, (Range, Iter)):
            i = self.norm_index(ix, o.length(), node)
            return o.at(i)
        if isinstance(o, SObj):
            m = self.find_method(o, '__getitem__')
            if m:
                return self.call(m, [ix])
            k = '%s.__getitem__' % o.cls
            if k in self.reg:
                return self.reg[k](self, [o, ix], {})
        h = self.opts.get('getitem')
        if h:
            r = h(self, o, ix)
            if r is not NotImplemented:
                return r
        if o is None:
            raise PyRaise('TypeError', ('subscript',))
        raise Unsupported('subscript of %r' % type(o).__name__)

    def setitem(self, o, ix, v, node=None):
        if isinstance(o, SArr):
            from .models import arr_setitem
            return arr_setitem(self, o, ix, v, node)
        if isinstance(o, PList):
            if isinstance(ix, Slice):
                raise Unsupported('slice assignment to a list')
            i = self.norm_index(ix, o.length(), node)
            if o.items is not None and conc(i):
                o.items[i] = v
                return
            n, g = o.length(), o.getter()
            o.items, o.n = None, n
            o.fn = lambda k: ite(eq(k, i), v, g(k))
            return
        if isinstance(o, PDict):
            if isz(ix) or isinstance(ix, SymStr):
                raise Unsupported('symbolic dict key')
            o.d[ix] = v
            return
        if isinstance(o, SObj):
            m = self.find_method(o, '__setitem__')
            if m:
                return self.call(m, [ix, v])
            k = '%s.__setitem__' % o.cls
            if k in self.reg:
                return self.reg[k](self, [o, ix, v], {})
        raise Unsupported('item assignment on %r' % type(o).__name__)


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


def ghostfun(f, sig):
    def g(*a):
        return f(*[z(x) for x in a])
    g.sig = sig
    return g


def const_ghost(v, sig):
    """ghost function with a constant value; sig = sorts including the result"""
    def g(*a):
        return v
    g.sig = sig
    return g


def mk_ghost(fn, sig):
    def g(*a):
        return fn(*a)
    g.sig = sig
    return g


def _own_nodes(fn):
    stack = list(fn.body) if not isinstance(fn, ast.Lambda) else []
    while stack:
        n = stack.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                stack.append(c)


def mkstr(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        else:
            out.append(p)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SymStr(out)


def str_equal(a, b, ip):
    pa = list(a.parts) if isinstance(a, SymStr) else [a]
    pb = list(b.parts) if isinstance(b, SymStr) else [b]
    if len(pa) != len(pb):
        raise Unsupported('equality of symbolic strings')
    cs = []
    for x, y in zip(pa, pb):
        if isinstance(x, str) and isinstance(y, str):
            if x != y:
                raise Unsupported('equality of symbolic strings')
        elif isinstance(x, tuple) and isinstance(y, tuple) and x[1] == y[1]:
            cs.append(ip.equal(x[2], y[2]))
        else:
            raise Unsupported('equality of symbolic strings')
    return And(*cs)
