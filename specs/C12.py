"""C12: Semaphore, CyclicBarrier"""
from irv.lib import *
from irv import conc
from irv.conc import Monitor
def offs(E): return [x.v for x in E.m.global_init('@vh_off')[1].v]
CNT0 = 40
class Sem(Monitor):
    inv_names = ['count within range']
    def __init__(self, fn, kind, title): self.fn, self.kind, self.title = '^' + fn + '$', kind, title
    def setup(self, E, st, f):
        self.oM, self.oC, self.oN, size = offs(E)[:4]
        self.q = E.new_obj(st, 'semaphore', size, 'input').id
        E.wobj(st, self.q).cells[self.oN] = (4, fbv('count', 32))
        self.mon_init(E, st); self.gset(E, st, CNT0, bv(0, 32), 4)
        return [Ptr(self.q)]
    def mutexes(self): return {(self.q, self.oM)}
    def cvs(self): return [(self.q, self.oC)]
    def protected(self, st, obj, off): return obj == self.q and off == self.oN
    def count(self, st): return st.mem[self.q].cells[self.oN][1]
    def fresh_state(self, E, st): E.wobj(st, self.q).cells[self.oN] = (4, fbv('count', 32)); E.log(('cell', self.q, self.oN))
    def inv(self, st): return [(self.inv_names[0], z3.ULE(self.count(st), bv(0xFFFFFFFF, 32)))]
    def snapshot(self, E, st): self.gset(E, st, CNT0, self.count(st), 4)
    def effect(self, E, st):
        c0, c1 = self.gget(st, CNT0), self.count(st)
        if self.kind == 'inc':
            E.oblige(st, 'effect', 'the number of permits stays or grows by one', z3.Or(c1 == c0, z3.And(c1 == c0 + 1, self.effects(st) == 0)))
            self.owe(E, st, 0, c1 != c0)
        else: E.oblige(st, 'effect', 'the number of permits stays or shrinks by one, and only when there is one', z3.Or(c1 == c0, z3.And(c0 != 0, c1 == c0 - 1, self.effects(st) == 0)))
        self.gset(E, st, conc.EFF, z3.simplify(self.effects(st) + z3.If(c1 != c0, bv(1), bv(0))))
    def wait_ok(self, st, cv):
        return [('waits only while there is no permit', z3.BoolVal(False) if self.kind == 'inc' else self.count(st) == 0), ('waits for the signal of a release', z3.BoolVal(self.cv_index(cv) == 0))]
    def invariants(self, E, L, entry, head): return self.mon_candidates(L) + [('nothing changed since the mutex was acquired', lambda g, st: self.count(st) == self.gget(st, CNT0))]
    def post(self, E, st, ret, exc):
        if exc is not None: return [('no exception', z3.BoolVal(False))]
        return [('the mutex is free', z3.Not(self.held(st))), ('exactly one permit is ' + ('provided' if self.kind == 'inc' else 'taken'), self.effects(st) == 1), ('a waiting thread is woken', self.no_due(st))]
class SemCtor(Spec):
    fn, title = '^vh_sem$', 'a new semaphore has the permits given'
    def setup(self, E, st, f):
        o = offs(E); self.q = E.new_obj(st, 'semaphore', o[3], 'input').id; self.n = fbv('count', 32); return [Ptr(self.q), self.n]
    def post(self, E, st, ret, exc):
        c = cellv(E, st, Ptr(self.q, offs(E)[2])); return [('count', z3.BoolVal(False) if c is None else c == self.n)]
# ---------------------------------------------------------------- barrier
# Locations of a thread:  A outside, B waits at the first turnstile, C holds its token, D passed it, E waits at the second, F holds its token.
# holder of the mutex: 0 nobody; 1, 2, 3: a thread arriving (before / between / after its two turnstile operations); 4, 5, 6: a thread leaving.
G = {k: 200 + 8 * i for i, k in enumerate(['t1', 't2', 'A', 'B', 'C', 'D', 'E', 'F', 'hold', 'cnt0', 'own', 'mine'])}
W = 32
class Barrier(Monitor):
    fn, title = '^vh_countdown$', 'cyclic barrier: all arrive before any is released, for any number of threads and rounds'
    def setup(self, E, st, f):
        o = offs(E); self.oM, self.oT1, self.oT2, self.oN, self.oC, size = o[4:]
        self.q = E.new_obj(st, 'barrier', size, 'input').id
        self.mon_init(E, st)
        self.n = fbv('number', W); st.assume(self.n >= 1, self.n <= 1 << 30)
        w = E.wobj(st, self.q); w.cells[self.oN] = (4, self.n); w.cells[self.oC] = (4, fbv('count', W))
        for k in G: self.put(E, st, k, bv(0, W))
        self.put(E, st, 'own', 'A')
        self.interfere(E, st)
        return [Ptr(self.q)]
    def put(self, E, st, k, v):
        o = E.wobj(st, self.g); o.cells[G[k]] = (8, v); E.log(('cell', self.g, G[k]))
    def get(self, st, k): return st.mem[self.g].cells[G[k]][1]
    def mutexes(self): return {(self.q, self.oM)}
    def protected(self, st, obj, off): return obj == self.q and off == self.oC
    def inv(self, st):
        g = lambda k: self.get(st, k); n = self.n; Z = bv(0, W)
        A, B, C, D, Ee, F, t1, t2, h, c0 = [g(k) for k in ('A', 'B', 'C', 'D', 'E', 'F', 't1', 't2', 'hold', 'cnt0')]
        cnt = st.mem[self.q].cells[self.oC][1]
        z = lambda *xs: z3.And(*[x == 0 for x in xs])
        ph1 = z3.And(z(t1, C, D), t2 + F == 1); ph2 = z3.And(z(t2, F, A), t1 + C == 1)
        cases = [(0, z3.Or(z3.And(ph1, A + B + Ee + F == n, B < n, c0 == n - B), z3.And(ph2, B + C + D + Ee == n, B + C + D >= 1, c0 == Ee))),
                 (1, z3.And(ph1, A + B + Ee + F == n - 1, c0 == n - B)), (2, z3.And(z(t1, t2, A, C, D, Ee, F), B == n - 1)), (3, z3.And(z(t2, A, Ee, F), t1 + C == 1, B + C + D == n - 1)),
                 (4, z3.And(ph2, B + C + D + Ee == n - 1, c0 == Ee)), (5, z3.And(z(t1, t2, A, B, C, D, F), Ee == n - 1)), (6, z3.And(z(t1, B, C, D), t2 + F == 1, A + Ee + F == n - 1))]
        return z3.And(z3.ULE(h, 6), *[z3.And(x >= 0, x <= n) for x in (A, B, C, D, Ee, F)], t1 >= 0, t1 <= 1, t2 >= 0, t2 <= 1, *[z3.Implies(h == k, f) for k, f in cases])
    def interfere(self, E, st):
        """other threads run: anything that satisfies the invariant and leaves this thread where it is"""
        own, held = self.get(st, 'own'), self.held(st)
        mine = z3.is_true(z3.simplify(held))
        for k in ('t1', 't2', 'A', 'B', 'C', 'D', 'E', 'F') + (() if mine else ('hold', 'cnt0')): self.put(E, st, k, fbv(k, W))
        if not mine:
            w = E.wobj(st, self.q); w.cells[self.oC] = (4, fbv('count', W)); E.log(('cell', self.q, self.oC))
        st.assume(self.inv(st))
        if own in G: st.assume(self.get(st, own) >= 1)
    def check(self, E, st, what): E.oblige(st, 'invariant', f'the barrier invariant after {what}', self.inv(st))
    def move(self, E, st, frm, to):
        if frm in G: self.put(E, st, frm, z3.simplify(self.get(st, frm) - 1))
        if to in G: self.put(E, st, to, z3.simplify(self.get(st, to) + 1))
        self.put(E, st, 'own', to)
    def acquire(self, E, st):
        E.oblige(st, 'deadlock', 'the mutex is not locked twice', z3.Not(self.held(st)))
        own = self.get(st, 'own')
        if own not in ('A', 'D'): raise Unsupported(f'another protocol: mutex taken at {own}')
        self.interfere(E, st)
        st.assume(self.get(st, 'hold') == 0, st.mem[self.q].cells[self.oC][1] == self.get(st, 'cnt0'))
        self.move(E, st, own, 'h1' if own == 'A' else 'h2')
        self.put(E, st, 'hold', bv(1 if own == 'A' else 4, W))
        self.gset(E, st, conc.HELD, z3.BoolVal(True), 1)
        self.check(E, st, 'taking the mutex')
    def release(self, E, st):
        E.oblige(st, 'lock', 'only a locked mutex is unlocked', self.held(st))
        own, h = self.get(st, 'own'), z3.simplify(self.get(st, 'hold')).as_long()
        if own not in ('h1', 'h2'): raise Unsupported('another protocol')
        self.interfere(E, st)
        self.move(E, st, own, 'B' if own == 'h1' else 'E')
        self.put(E, st, 'hold', bv(0, W)); self.put(E, st, 'cnt0', st.mem[self.q].cells[self.oC][1])
        self.gset(E, st, conc.HELD, z3.BoolVal(False), 1)
        self.check(E, st, 'releasing the mutex')
    def sem(self, E, st, p, inc):
        k = {self.oT1: 't1', self.oT2: 't2'}.get(p.c)
        if p.obj != self.q or k is None: raise Unsupported('unknown semaphore')
        own = self.get(st, 'own')
        self.interfere(E, st)
        v = self.get(st, k); held = self.held(st); what = f'{"increment" if inc else "decrement"} of turnstile {k[1]}'
        if own in ('h1', 'h2'):
            step = {('h1', 1, 't2', False): 2, ('h1', 2, 't1', True): 3, ('h2', 4, 't1', False): 5, ('h2', 5, 't2', True): 6}.get((own, z3.simplify(self.get(st, 'hold')).as_long(), k, inc))
            if step is None: raise Unsupported('another protocol: ' + what)
            if not inc: E.oblige(st, 'deadlock', f'no thread waits at a turnstile while it holds the mutex ({what})', v > 0)
            self.put(E, st, 'hold', bv(step, W))
        else:
            to = {('B', 't1', False): 'C', ('C', 't1', True): 'D', ('E', 't2', False): 'F', ('F', 't2', True): 'A'}.get((own, k, inc))
            if to is None: raise Unsupported('another protocol: ' + what)
            if not inc:
                E.oblige(st, 'deadlock', 'a thread that waits is released eventually: some thread can take a step unless others have yet to arrive', z3.Or(self.live(st), self.get(st, 'A') > 0))
                st.assume(v > 0)
            self.move(E, st, own, to)
            if to == 'C': E.oblige(st, 'barrier', 'a thread is released only when all threads of the round have arrived', z3.And(self.get(st, 'A') == 0, self.get(st, 'F') == 0, self.get(st, 'B') + self.get(st, 'C') + self.get(st, 'D') + self.get(st, 'E') + z3.If(self.get(st, 'hold') == 0, bv(0, W), bv(1, W)) == self.n))
        self.put(E, st, k, z3.simplify(v + (1 if inc else -1)))
        self.check(E, st, what)
    def live(self, st):
        g = lambda k: self.get(st, k)
        return z3.Or(g('hold') != 0, g('C') > 0, g('F') > 0, z3.And(g('t1') > 0, g('B') > 0), g('D') > 0, z3.And(g('t2') > 0, g('E') > 0))
    def wait(self, E, st, cv, timed, dur=None): raise Unsupported('another protocol')
    def invariants(self, E, L, entry, head): return []
    def post(self, E, st, ret, exc):
        if exc is not None: return [('no exception', z3.BoolVal(False))]
        return [('the mutex is free', z3.Not(self.held(st))), ('the thread has left the barrier', z3.BoolVal(self.get(st, 'own') == 'A'))]
class SemContract(Spec):
    """contract of Semaphore, verified above: increment provides one permit, decrement waits for one and takes it"""
    fn = '$^'
    def __init__(self, op): self.op = op
    def matches(self, E, name, dem): return isinstance(E.spec, Barrier) and dem == f'Balau::Concurrent::Semaphore::{self.op}()'
    def apply(self, E, st, args, ins): E.spec.sem(E, st, args[0], self.op == 'increment'); return None
class BarCtor(Spec):
    def __init__(self, fn, title): self.fn, self.title = fn, title
    def setup(self, E, st, f):
        o = offs(E); self.q = E.new_obj(st, 'barrier', o[9], 'input').id; self.n = fbv('count', 32); return [Ptr(self.q), self.n]
    def post(self, E, st, ret, exc):
        o = offs(E); c = lambda k: cellv(E, st, Ptr(self.q, k))
        return [('the barrier is at the start of a round of the given number', And(*[z3.BoolVal(False) if c(k) is None else c(k) == v for k, v in ((o[7], self.n), (o[8], self.n), (o[5] + o[2], bv(0, 32)), (o[6] + o[2], bv(1, 32)))]))]
class Reconf(Monitor):
    fn, title = '^vh_reconf$', 'reconfigure starts a new round with the given number'
    inv_names = []
    def setup(self, E, st, f):
        o = offs(E); self.o = o; self.q = E.new_obj(st, 'barrier', o[9], 'input').id; self.n = fbv('count', 32); self.mon_init(E, st)
        w = E.wobj(st, self.q); self.was = {}
        for k in (o[5] + o[2], o[6] + o[2], o[7], o[8]): self.was[k] = fbv('s', 32); w.cells[k] = (4, self.was[k])
        return [Ptr(self.q), self.n]
    def mutexes(self): return {(self.q, self.o[4])}
    def protected(self, st, obj, off): return obj == self.q and off == self.o[8]
    def fresh_state(self, E, st): pass
    def inv(self, st): return []
    def invariants(self, E, L, entry, head): return self.mon_candidates(L)
    def post(self, E, st, ret, exc):
        o = self.o; c = lambda k: cellv(E, st, Ptr(self.q, k))
        return [('number and count are set', And(c(o[7]) == self.n, c(o[8]) == self.n)), ('the turnstiles are not touched', And(c(o[5] + o[2]) == self.was[o[5] + o[2]], c(o[6] + o[2]) == self.was[o[6] + o[2]])), ('the mutex is free', z3.Not(self.held(st)))]
HARNESS = ['C12.cpp']
MODELS = conc.MODELS
SPECS = [SemCtor(), Sem('vh_inc', 'inc', 'semaphore increment'), Sem('vh_dec', 'dec', 'semaphore decrement'), BarCtor('^vh_bar$', 'a new barrier'), Reconf(), Barrier()]
CONTRACTS = [SemContract('increment'), SemContract('decrement')]
DRIVERS = [dict(src='C12.cpp', san='undefined', extra=('-fsanitize-coverage=trace-loads,trace-stores',))]
BOUND = 'every schedule of up to 3 threads and 2 rounds with at most 3 preemptions'
ASSUMPTIONS = ['at most as many threads use a barrier at a time as it was configured for, and it is reconfigured only while it is not in use', 'less than 2^32 - 1 permits', 'memory is sequentially consistent under the mutex', 'a thread that can take a step takes it eventually, and a notified thread runs eventually']
NOTE = '''Semaphore: monitor contract (each increment adds one permit and notifies, a decrement takes one exactly when there is one and waits only while there is none).  Barrier: rely/guarantee invariant over the numbers of threads at each point of the protocol, for any number of threads
and rounds; every step of countdown preserves it from any state that other threads may have produced, a thread passes the first turnstile only when all have arrived, nobody waits at a turnstile with the mutex held, and in no reachable state is every thread stuck.'''
