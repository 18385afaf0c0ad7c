"""C11: SynchronizedQueue"""
from irv.lib import *
from irv import lists, conc
from irv.conc import Monitor
VT = '@_ZTVN5Balau9Container17SynchronizedQueueIiEE'
Q = r'Balau::Container::SynchronizedQueue<int>::'
CNT0, LO0, TAKEN = 40, 48, 56
class Op(Monitor):
    inv_names = ['size within the address space']
    def __init__(self, sig, kind, title): self.fn = '^(?:int |bool |void )?' + Q + sig + '$'; self.kind, self.title = kind, title
    def setup(self, E, st, f):
        self.oE, self.oM, size = [x.v for x in E.m.global_init('@vh_off')[1].v]
        q = E.new_obj(st, 'queue', size, 'input'); self.q = q.id
        v = lists.new_list(E, st, 'int', fbv('size')); lists.bound(st, v); self.el = v.obj
        w = E.wobj(st, self.q); w.cells[self.oE] = (24, v)
        if VT in E.m.globals: w.cells[0] = (8, Ptr(E.global_obj(st, VT).obj, 16))
        self.mon_init(E, st)
        self.ga = E.new_buf(st, 'elements0', 4, bv(-1)).id
        for k in (CNT0, LO0, TAKEN): self.gset(E, st, k, bv(0))
        a = [Ptr(self.q)]
        if self.kind == 'push': self.x = fbv('element', 32); a.append(self.x)
        return a
    def mutexes(self): return {(self.q, self.oM)}
    def protected(self, st, obj, off): return obj == self.el or obj == self.q and off == self.oE
    def lst(self, st): return st.mem[self.q].cells[self.oE][1]
    def arr(self, st): return st.mem[self.el].regions[0].arr
    def fresh_state(self, E, st):
        w = E.wobj(st, self.q); v = lists.ListV('int', self.el, fbv('lo'), fbv('size')); w.cells[self.oE] = (24, v); E.log(('cell', self.q, self.oE)); lists.bound(st, v)
        o = E.wobj(st, self.el); r = o.regions[0]; o.regions[0] = Region(r.base, r.es, r.count, fresh('elements', r.arr.sort())); E.log(('arr', self.el, 0))
    def inv(self, st): return [(self.inv_names[0], z3.ULE(self.lst(st).n, lists.MAXN + 1))]
    def snapshot(self, E, st):
        v = self.lst(st); self.gset(E, st, CNT0, v.n); self.gset(E, st, LO0, v.lo)
        o = E.wobj(st, self.ga); r = o.regions[0]; o.regions[0] = Region(r.base, r.es, r.count, self.arr(st)); E.log(('arr', self.ga, 0))
    def same(self, st, shift0, n):
        v = self.lst(st); lo0, a0 = self.gget(st, LO0), st.mem[self.ga].regions[0].arr; a1 = self.arr(st)
        return QAll(lambda k: z3.Implies(z3.ULT(k, n), z3.Select(a1, v.lo + k) == z3.Select(a0, lo0 + k + shift0)), [(a1, lambda y: [y - v.lo]), (a0, lambda y: [y - lo0 - shift0]), None], 'fifo')
    def effect(self, E, st):
        v = self.lst(st); n0, lo0 = self.gget(st, CNT0), self.gget(st, LO0); a0 = st.mem[self.ga].regions[0].arr; n1 = v.n
        ob = lambda n, f: E.oblige(st, 'effect', n, f)
        if not isinstance(v, lists.ListV) or v.obj != self.el: ob('the elements stay in the list', z3.BoolVal(False)); return
        if self.kind == 'push':
            ob('the number of elements stays or grows by one', z3.Or(n1 == n0, z3.And(n1 == n0 + 1, self.effects(st) == 0)))
            ob('all elements keep their place', self.same(st, bv(0), n0))
            ob('the new element is last', z3.Implies(n1 != n0, z3.Select(self.arr(st), v.lo + n0) == self.x))
        elif self.kind == 'pop':
            ob('the number of elements stays or shrinks by one', z3.Or(n1 == n0, z3.And(n1 + 1 == n0, n0 != 0, self.effects(st) == 0)))
            ob('nothing taken: all elements keep their place', Implies(n1 == n0, self.same(st, bv(0), n0)))
            ob('one taken: the others move up in order', Implies(n1 != n0, self.same(st, bv(1), n1)))
            self.gset(E, st, TAKEN, z3.If(n1 != n0, z3.ZeroExt(32, z3.Select(a0, lo0)), self.gget(st, TAKEN)))
        else: ob('the queue is not changed', And(n1 == n0, self.same(st, bv(0), n0)))
        self.gset(E, st, conc.EFF, z3.simplify(self.effects(st) + z3.If(n1 != n0, bv(1), bv(0))))
        self.gset(E, st, conc.WAITS, self.gget(st, conc.WAITS) + 1)
    def invariants(self, E, L, entry, head): return self.mon_candidates(L)
    def post(self, E, st, ret, exc):
        out = [('the mutex is free', z3.Not(self.held(st)))]; e = self.effects(st); n0 = self.gget(st, CNT0)
        if self.kind == 'push': return out + [('no exception', z3.BoolVal(exc is None)), ('enqueued exactly once', e == 1)]
        if self.kind == 'pop':
            if exc is not None: return out + [('EmptyException', z3.BoolVal('EmptyException' in str(exc.ti))), ('only when the queue is empty, and nothing is taken', z3.And(n0 == 0, e == 0))]
            return out + [('exactly one element is taken', e == 1), ('it is the oldest one', ret == z3.Extract(31, 0, self.gget(st, TAKEN)))]
        if exc is not None: return [('no exception', z3.BoolVal(False))]
        return out + [('true exactly when the queue holds no element', Iff(ret if z3.is_bool(ret) else ret != 0, n0 == 0)), ('the state was read under the mutex', self.gget(st, conc.WAITS) != 0)]
class Ctor(Op):
    def __init__(self): self.fn, self.kind, self.title = 'vh_new$', None, 'a new queue is empty'
    def setup(self, E, st, f):
        super().setup(E, st, f)
        self.q = E.new_obj(st, 'newqueue', E.m.global_init('@vh_off')[1].v[-1].v, 'input').id
        self.protected = lambda st, obj, off: False
        return [Ptr(self.q)]
    def post(self, E, st, ret, exc): return [('empty', self.lst(st).n == 0)]
HARNESS = ['C11.cpp']
MODELS = conc.MODELS + lists.MODELS
SPECS = [Op(r'enqueue\(int\)', 'push', 'enqueue'), Op(r'dequeue\(\)', 'pop', 'dequeue'), Op(r'empty\(\) const', 'empty', 'empty'), Ctor()]
CONTRACTS = []
DRIVERS = [dict(src='C11.cpp', san='undefined', libs=(), extra=('-fsanitize-coverage=trace-loads,trace-stores',))]
BOUND = 'every schedule of up to 3 threads with few operations and at most 3 preemptions'
ASSUMPTIONS = ['instantiated for T = int', 'memory is sequentially consistent under the mutex', 'memory allocation succeeds', 'at most 2^40 elements']
NOTE = '''the state that the mutex protects is arbitrary at every acquisition, so each operation is verified against every interleaving: it changes the sequence only by appending its element or by removing the first one, exactly once, under the mutex.'''
