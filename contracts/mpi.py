"""Ghost model of the message passing used by the master/worker loops.

The master's view: a worker is busy (has been sent an item and has not been heard from since), waiting, or
stopped. A receive from any source returns the result of an arbitrary busy worker. The number of busy workers is
kept with the set; that it is zero exactly if the set is empty is the one fact about finite sets assumed."""
import ast
import z3
from engine.interp import Loop, Native
from engine.sym import *
from engine.models import qvar

ANY = -1
ASSUME = ['messages between two processes arrive once and in order; a receive from any source returns one of the pending results',
          'the number of elements of a finite set is zero exactly if the set is empty']


def arg(args, kw, i, name, default=None):
    return args[i] if len(args) > i else kw.get(name, default)


class Master:
    """comm on rank 0 of a run with `size` processes"""

    def __init__(self, ip, size, n, index_of, result, reply_tag):
        c = ip.ctx
        self.ip, self.size, self.n, self.index_of, self.result, self.reply_tag = ip, size, n, index_of, result, reply_tag
        g = SObj(None, {'busy': SArr((size,), lambda i: False, 'b'), 'stopped': SArr((size,), lambda i: False, 'b'),
                        'item': SArr((size,), lambda i: 0, 'i'), 'given': SArr((n,), lambda i: 0, 'i'), 'nbusy': 0})
        c.ghosts['mpi'] = g
        self.comm = SObj(None, {'rank': 0, 'size': size, 'send': Native(self.send), 'recv': Native(self.recv),
                                'Send': Native(self.send), 'Recv': Native(self.recv)})
        self.status = Native(lambda ip, a, k: SObj(None, {'source': c.int('nosource'), 'tag': c.int('notag')}))
        self.MPI = SObj(None, {'Status': self.status, 'ANY_SOURCE': ANY, 'ANY_TAG': ANY, 'COMM_WORLD': self.comm})

    def send(self, ip, args, kw):
        c = ip.ctx
        obj, d, tag = args[0], arg(args, kw, 1, 'dest'), arg(args, kw, 2, 'tag', 0)
        G = self.ip.ctx.ghosts['mpi'].attrs
        ip_set = lambda name, i, v: upd(G, name, i, v)
        c.prove('send: to a worker', And(le(1, d), lt(d, self.size)))
        c.prove('send: with the tag the workers listen to', eq(tag, 0))
        c.prove('send: the worker is waiting', And(Not(G['busy'].at(d)), Not(G['stopped'].at(d))))
        if obj is None:
            ip_set('stopped', d, True)
            return None
        k = self.index_of(obj)
        c.prove('send: an item of the list', And(le(0, k), lt(k, self.n)))
        c.prove('send: item handed out only once', eq(G['given'].at(k), 0))
        ip_set('given', k, add(G['given'].at(k), 1))
        ip_set('busy', d, True)
        ip_set('item', d, k)
        G['nbusy'] = add(G['nbusy'], 1)
        return None

    def recv(self, ip, args, kw):
        c = ip.ctx
        G = self.ip.ctx.ghosts['mpi'].attrs
        src, tag, st = arg(args, kw, 0, 'source', ANY), arg(args, kw, 1, 'tag', ANY), kw.get('status')
        c.prove('receive: some worker is busy', lt(0, G['nbusy']))
        c.prove('receive: from any worker', eq(src, ANY))
        c.prove('receive: the tag the results carry', Or(eq(tag, ANY), eq(tag, self.reply_tag)))
        d = c.int('source')
        c.assume(1 <= d, lt(d, self.size), G['busy'].at(d))
        upd(G, 'busy', d, False)
        G['nbusy'] = sub(G['nbusy'], 1)
        if isinstance(st, SObj):
            st.attrs['source'], st.attrs['tag'] = d, self.reply_tag
            for n, v in (('Get_source', d), ('Get_tag', self.reply_tag)):
                st.attrs[n] = Native(lambda ip, a, k, v=v: v)
        return self.result(G['item'].at(d))


def upd(G, name, i, v):
    a = G[name]
    old = a.snapshot()
    kind = a.kind
    G[name] = SArr(a.shape, lambda j, old=old, i=i, v=v: ite(eq(j[0], i), v, old(j)), kind)


def roles(node, items):
    """names of the running item number, of the stop counter and of its limit, from the shape of the master loop"""
    r = {}
    for x in ast.walk(node):
        if isinstance(x, ast.While) and isinstance(x.test, ast.Compare) and isinstance(x.test.left, ast.Name) and isinstance(x.test.comparators[0], ast.Name):
            r.setdefault('stopped', x.test.left.id)
            r.setdefault('limit', x.test.comparators[0].id)
        if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id in items and isinstance(x.slice, ast.Name):
            r.setdefault('next', x.slice.id)
    if len(r) < 3:
        raise Unsupported('master loop not recognised')
    return r


def count_zero(s):
    """the set of busy workers is empty exactly if its size is zero"""
    G = s.ctx.ghosts['mpi'].attrs
    d = qvar()
    n = G['busy'].shape[0]
    return And(le(0, G['nbusy']), Implies(eq(G['nbusy'], 0), z3.ForAll([d], z(Implies(And(1 <= d, lt(d, n)), Not(G['busy'].at(d)))))))


def loops(m, r, extra, havoc=None):
    """contracts of the two loops of the master; extra(s, handed, outstanding) -> further invariants"""
    N, size = m.n, m.size

    def common(s):
        G = s.ctx.ghosts['mpi'].attrs
        w = s[r['next']]
        d, k = qvar(2)
        return [('items handed out in order', And(le(0, w), le(w, N), z3.ForAll([k], z(Implies(And(0 <= k, lt(k, N)), eq(G['given'].at(k), ite(lt(k, w), 1, 0))))))),
                ('busy workers hold an item', z3.ForAll([d], z(Implies(And(1 <= d, lt(d, size), G['busy'].at(d)), And(le(0, G['item'].at(d)), lt(G['item'].at(d), w))))))]

    def first(s):
        G = s.ctx.ghosts['mpi'].attrs
        w, p = s[r['next']], s[r['limit']]
        d = qvar()
        return common(s) + [
            ('next item', eq(w, minv(s.it, N))), ('limit', eq(p, ite(le(s.it, N), size - 1, N))), ('busy count', eq(G['nbusy'], w)),
            ('first workers', z3.ForAll([d], z(Implies(And(1 <= d, lt(d, size)), And(
                eq(G['busy'].at(d), le(d, w)), eq(G['stopped'].at(d), And(lt(w, d), le(d, s.it))), Implies(le(d, w), eq(G['item'].at(d), d - 1)))))))] + \
            extra(s, w)

    def second(s):
        G = s.ctx.ghosts['mpi'].attrs
        w, p, t = s[r['next']], s[r['limit']], s[r['stopped']]
        d = qvar()
        return common(s) + [
            ('limit', And(eq(p, minv(size - 1, N)), le(0, t), le(t, p))), ('busy count', eq(G['nbusy'], sub(p, t))),
            ('a worker is busy or stopped', z3.ForAll([d], z(Implies(And(1 <= d, lt(d, size)), And(Or(G['busy'].at(d), G['stopped'].at(d)), Not(And(G['busy'].at(d), G['stopped'].at(d)))))))),
            ('all handed out when workers stop', And(Implies(lt(0, t), eq(w, N)), le(p, w)))] + extra(s, w)
    return [Loop(first, name='first round', havoc=havoc, facts=count_zero, match=lambda txt, st: isinstance(st, ast.For) and 'send(' in txt.lower() and 'recv' not in txt.lower()),
            Loop(second, name='until all workers stop', havoc=havoc, facts=count_zero, decreases=lambda s: add(sub(N, s[r['next']]), sub(s[r['limit']], s[r['stopped']])),
                 match=lambda txt, st: isinstance(st, ast.While) and 'recv' in txt.lower() and not txt.startswith('while True'))]


def finished(ip, m):
    """every worker was stopped and every item handed out exactly once"""
    c = ip.ctx
    G = c.ghosts['mpi'].attrs
    d, k = c.input('worker', c.int('worker')), c.input('item', c.int('item'))
    c.prove('post: every worker is stopped', Implies(And(1 <= d, lt(d, m.size)), And(G['stopped'].at(d), Not(G['busy'].at(d)))))
    c.prove('post: every item handed out exactly once', Implies(And(0 <= k, lt(k, m.n)), eq(G['given'].at(k), 1)))


class Worker:
    """comm on a worker: an arbitrary sequence of items, ended by None"""

    def __init__(self, ip, size, rank, item, check, reply_tags):
        c = ip.ctx
        self.ip, self.item, self.check, self.reply_tags = ip, item, check, reply_tags
        c.ghosts['mpi'] = SObj(None, {'pending': -1, 'stopped': False})
        self.comm = SObj(None, {'rank': rank, 'size': size, 'send': Native(self.send), 'recv': Native(self.recv),
                                'Send': Native(self.send), 'Recv': Native(self.recv)})
        self.status = Native(lambda ip, a, k: SObj(None, {'source': c.int('nosource'), 'tag': c.int('notag')}))
        self.MPI = SObj(None, {'Status': self.status, 'ANY_SOURCE': ANY, 'ANY_TAG': ANY, 'COMM_WORLD': self.comm})

    def recv(self, ip, args, kw):
        c = ip.ctx
        G = c.ghosts['mpi'].attrs
        src, tag, st = arg(args, kw, 0, 'source', ANY), arg(args, kw, 1, 'tag', ANY), kw.get('status')
        c.prove('worker receive: from the master', Or(eq(src, 0), eq(src, ANY)))
        c.prove('worker receive: the tag work carries', Or(eq(tag, 0), eq(tag, ANY)))
        c.prove('worker receive: previous item answered', eq(G['pending'], -1))
        c.prove('worker receive: not after the stop message', Not(G['stopped']))
        if isinstance(st, SObj):
            st.attrs['source'], st.attrs['tag'] = 0, 0
            for n in ('Get_source', 'Get_tag'):
                st.attrs[n] = Native(lambda ip, a, k: 0)
        stop = c.bool('stop')
        if ip.truth(stop):
            G['stopped'] = True
            return None
        k = c.int('item')
        c.assume(k >= 0)
        G['pending'] = k
        return self.item(k)

    def send(self, ip, args, kw):
        c = ip.ctx
        G = c.ghosts['mpi'].attrs
        obj, d, tag = args[0], arg(args, kw, 1, 'dest'), arg(args, kw, 2, 'tag', 0)
        c.prove('worker send: to the master', eq(d, 0))
        c.prove('worker send: tag the master listens to', Or(*[eq(tag, t) for t in self.reply_tags]))
        c.prove('worker send: an item is pending', le(0, G['pending']))
        c.prove('worker send: the result of that item', self.check(obj, G['pending']))
        G['pending'] = -1


def worker_loop():
    return [Loop(lambda s: [('every item answered', And(eq(s.ctx.ghosts['mpi'].attrs['pending'], -1), Not(s.ctx.ghosts['mpi'].attrs['stopped'])))], name='worker',
                 match=lambda txt, st: isinstance(st, ast.While) and 'recv' in txt.lower())]


def worker_done(ip):
    G = ip.ctx.ghosts['mpi'].attrs
    ip.ctx.prove('post: the worker ends on the stop message with every item answered', And(G['stopped'], eq(G['pending'], -1)))
