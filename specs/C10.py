"""C10: ArrayBlockingQueue"""
from irv.lib import *
from irv import vecs, funcs, conc
from irv.conc import Monitor
VT = '@_ZTVN5Balau9Container18ArrayBlockingQueueIiEE'
Q = r'Balau::Container::ArrayBlockingQueue<int>::'
FN = r'std::function<void \(int const&\)>'
MS = r'std::chrono::duration<long, std::ratio<1l, 1000l>>'
CNT0, TAIL0, HEAD0, TAKEN, LCNT = 40, 48, 56, 64, 72     # ghost: state at the last acquisition, element taken, count at the last release

class Op(Monitor):
    inv_names = ['count <= capacity', 'indices within the ring', 'head = tail + count around the ring']
    kind = None            # 'push' | 'pop' | None
    ret = 'void'
    def __init__(self, sig, kind, title, timed=None, succ=False):
        self.fn = '^' + (r'(?:int |bool |void )?' + Q + sig) + '$'; self.kind, self.title, self.timed, self.succ = kind, title, timed, succ
    # ---- state
    def offs(self, E):
        gi = E.m.global_init('@vh_off')
        return [x.v for x in gi[1].v]
    def setup(self, E, st, f):
        o = self.offs(E)
        self.oE, self.oC, self.oH, self.oT, self.oM, self.oEC, self.oDC, self.oF1, self.oF2, size = o
        q = E.new_obj(st, 'queue', size, 'input'); self.q = q.id
        self.cap = fbv('capacity'); st.assume(z3.ULE(self.cap, bv(1 << 32)))
        v = vecs.new_vec(E, st, 'int', self.cap); self.el = v.obj
        w = E.wobj(st, self.q)
        w.cells[self.oE] = (24, v)
        vt = E.global_obj(st, VT) if VT in E.m.globals else None
        if vt is not None: w.cells[0] = (8, Ptr(vt.obj, 16))
        w.cells[self.oF1] = (32, funcs.any_func('queueIsFull')); w.cells[self.oF2] = (32, funcs.any_func('spaceNowAvailable'))
        st.assume(w.cells[self.oF1][1].id != 0, w.cells[self.oF2][1].id != 0)
        self.mon_init(E, st)
        ga = E.new_buf(st, 'elements0', 4, bv(-1)); self.ga = ga.id
        for k in (CNT0, TAIL0, HEAD0, TAKEN, LCNT): self.gset(E, st, k, bv(0))
        return self.args(E, st, f)
    def args(self, E, st, f):
        out = [Ptr(self.q)]
        if self.kind == 'push': self.x = fbv('object', 32); out.append(self.x)
        if self.timed:
            self.t = fbv('waitTime'); st.assume(self.t >= -bv(1 << 40), self.t <= bv(1 << 40)); out.append(self.t)
        self.ok = None
        if self.succ:
            h = E.new_obj(st, 'success', 1, 'input'); self.ok = Ptr(h.id); out.append(self.ok)
        while len(out) < len(f.params):
            h = E.new_obj(st, 'callback', 32, 'input'); c = funcs.any_func('callback'); st.assume(c.id != 0)
            E.wobj(st, h.id).cells[0] = (32, c); out.append(Ptr(h.id))
        return out
    def mutexes(self): return {(self.q, self.oM)}
    def cvs(self): return [(self.q, self.oEC), (self.q, self.oDC)]
    def protected(self, st, obj, off): return obj == self.el or obj == self.q and off in (self.oC, self.oH, self.oT)
    def cell(self, st, off): return st.mem[self.q].cells[off][1]
    def arr(self, st): return st.mem[self.el].regions[0].arr
    def st3(self, st): return self.cell(st, self.oC), self.cell(st, self.oT), self.cell(st, self.oH)
    def at(self, arr, tail, k):
        i = tail + k
        return z3.Select(arr, z3.If(z3.UGE(i, self.cap), i - self.cap, i))
    def back(self, tail):
        """triggers: ring index -> position in the queue"""
        return lambda y: [y - tail, y - tail + self.cap]
    def fresh_state(self, E, st):
        w = E.wobj(st, self.q)
        for off, nm in ((self.oC, 'count'), (self.oH, 'head'), (self.oT, 'tail')):
            w.cells[off] = (8, fbv(nm)); E.log(('cell', self.q, off))
        o = E.wobj(st, self.el); r = o.regions[0]
        o.regions[0] = Region(r.base, r.es, r.count, fresh('elements', r.arr.sort())); E.log(('arr', self.el, 0))
    def inv(self, st):
        c, t, h = self.st3(st); n = self.cap; i = t + c
        return [(self.inv_names[0], z3.ULE(c, n)), (self.inv_names[1], z3.If(n == 0, z3.And(t == 0, h == 0), z3.And(z3.ULT(t, n), z3.ULT(h, n)))),
                (self.inv_names[2], h == z3.If(z3.UGE(i, n), i - n, i))]
    def snapshot(self, E, st):
        c, t, h = self.st3(st)
        self.gset(E, st, CNT0, c); self.gset(E, st, TAIL0, t)
        o = E.wobj(st, self.ga); r = o.regions[0]; o.regions[0] = Region(r.base, r.es, r.count, self.arr(st)); E.log(('arr', self.ga, 0))
        st.hints += [t]
    def old(self, st): return self.gget(st, CNT0), self.gget(st, TAIL0), st.mem[self.ga].regions[0].arr
    def same(self, st, shift0=0, upto=None):
        """the k-th element now is the (k+shift)-th element at the acquisition, for k < upto"""
        c1, t1, _ = self.st3(st); c0, t0, a0 = self.old(st); a1 = self.arr(st)
        n = c0 if upto is None else upto
        return QAll(lambda k: z3.Implies(z3.ULT(k, n), self.at(a1, t1, k) == self.at(a0, t0, k + shift0)), [(a1, self.back(t1)), (a0, lambda y: [x - shift0 for x in self.back(t0)(y)]), None], 'fifo')
    def effect(self, E, st):
        c1, t1, _ = self.st3(st); c0, t0, a0 = self.old(st)
        ob = lambda n, f: E.oblige(st, 'effect', n, f)
        if self.kind == 'push':
            ob('the number of elements stays or grows by one', z3.Or(c1 == c0, z3.And(c1 == c0 + 1, z3.ULT(c0, self.cap), self.effects(st) == 0)))
            ob('all elements keep their place', self.same(st))
            ob('the new element is last and is the object given', z3.Implies(c1 != c0, self.at(self.arr(st), t1, c0) == self.x))
            self.owe(E, st, 1, c1 != c0)
        elif self.kind == 'pop':
            ob('the number of elements stays or shrinks by one', z3.Or(c1 == c0, z3.And(c1 + 1 == c0, c0 != 0, self.effects(st) == 0)))
            ob('nothing taken: all elements keep their place', Implies(c1 == c0, self.same(st)))
            ob('one taken: the others move up in order', Implies(c1 != c0, self.same(st, 1, c1)))
            self.owe(E, st, 0, c1 != c0)
            self.gset(E, st, TAKEN, z3.If(c1 != c0, z3.ZeroExt(32, self.at(a0, t0, bv(0))), self.gget(st, TAKEN)))
        else: ob('the queue is not changed', And(c1 == c0, self.same(st)))
        self.gset(E, st, EFFV, z3.simplify(self.effects(st) + z3.If(c1 != c0, bv(1), bv(0))))
        self.gset(E, st, LCNT, c1)
    def wait_ok(self, st, cv):
        c, _, _ = self.st3(st); k = self.cv_index(cv)
        if self.kind == 'push': return [('an enqueue waits only while the queue is full', c == self.cap), ('an enqueue waits for the signal of a dequeue', z3.BoolVal(k == 0))]
        if self.kind == 'pop': return [('a dequeue waits only while the queue is empty', c == 0), ('a dequeue waits for the signal of an enqueue', z3.BoolVal(k == 1))]
        return [('never waits', z3.BoolVal(False))]
    def invariants(self, E, L, entry, head):
        out = self.mon_candidates(L)
        out += [('nothing changed since the mutex was acquired', lambda g, st: self.st3(st)[0] == self.gget(st, CNT0)),
                ('tail unchanged', lambda g, st: self.st3(st)[1] == self.gget(st, TAIL0)),
                ('elements unchanged', lambda g, st: self.arr(st) == st.mem[self.ga].regions[0].arr)]
        return out
    def post(self, E, st, ret, exc):
        if exc is not None: return [('no exception', z3.BoolVal(False))]
        out = [('the mutex is free', z3.Not(self.held(st))), ('a thread that waits for the change is woken', self.no_due(st))]
        e = self.effects(st); taken = z3.Extract(31, 0, self.gget(st, TAKEN)); lc = self.gget(st, LCNT)
        if self.timed is False: out.append(('no wait without waiting time', self.gget(st, conc.WAITS) == 0))
        if self.kind == 'push':
            if self.timed is None: out.append(('the object is enqueued exactly once', e == 1))
            else:
                r = ret if z3.is_bool(ret) else ret != 0
                out += [('enqueued exactly when true is returned', e == z3.If(r, bv(1), bv(0))), ('refused only when the queue is full', z3.Or(r, lc == self.cap))]
        if self.kind == 'pop':
            if self.timed is None: out += [('exactly one element is dequeued', e == 1), ('the oldest element is returned', ret == taken)]
            else:
                out += [('a dequeued element is the oldest one and is returned', z3.Or(e == 0, z3.And(e == 1, ret == taken))), ('nothing is dequeued only when the queue is empty', z3.Or(e == 1, z3.And(lc == 0, ret == 0)))]
                if self.ok is not None:
                    s = cellv(E, st, self.ok)
                    if s is None: out.append(('success is set', z3.BoolVal(False)))
                    else:
                        s = s if z3.is_bool(s) else z3.Extract(0, 0, s) == 1
                        out.append(('success tells whether an element was dequeued', e == z3.If(s, bv(1), bv(0))))
        return out
EFFV = conc.EFF
class Query(Op):
    """full() / empty(): used with the mutex held"""
    def __init__(self, nm, what):
        super().__init__(nm + r'\(\) const', None, what); self.nm = nm
    def setup(self, E, st, f):
        a = super().setup(E, st, f)
        self.acquire(E, st)
        return a
    def post(self, E, st, ret, exc):
        c, _, _ = self.st3(st); r = ret if z3.is_bool(ret) else ret != 0
        return [('no exception', z3.BoolVal(exc is None)), ('true exactly when the queue is ' + self.nm, Iff(r, c == (self.cap if self.nm == 'full' else 0))), ('the mutex is still held', self.held(st))]
class Ctor(Op):
    def __init__(self): super().__init__(r'ArrayBlockingQueue\(unsigned int(?:, std::function.*)?\)', None, 'a new queue is empty and has the capacity given')
    def setup(self, E, st, f):
        super().setup(E, st, f)
        o = self.offs(E); q = E.new_obj(st, 'newqueue', o[-1], 'input'); self.q = q.id
        self.n = fbv('capacity', 32)
        self.protected = lambda st, obj, off: False
        a = [Ptr(self.q), self.n]
        while len(a) < len(f.params):
            h = E.new_obj(st, 'callback', 32, 'input'); E.wobj(st, h.id).cells[0] = (32, funcs.any_func('callback')); a.append(Ptr(h.id))
        return a
    def post(self, E, st, ret, exc):
        if exc is not None: return [('no exception', z3.BoolVal(False))]
        v = cellv(E, st, Ptr(self.q, self.oE))
        self.cap = zx(self.n)
        return [('capacity', z3.BoolVal(False) if not isinstance(v, vecs.VecV) else v.n == zx(self.n)), ('empty', self.st3(st)[0] == 0)] + self.inv(st)
HARNESS = ['C10.cpp']
MODELS = conc.MODELS + funcs.MODELS + vecs.MODELS
SPECS = [Op(r'enqueue\(int\)', 'push', 'enqueue with the default callbacks'), Op(rf'enqueue\(int, {FN} const&, {FN} const&\)', 'push', 'enqueue with callbacks'),
         Op(r'tryEnqueue\(int\)', 'push', 'tryEnqueue without waiting', timed=False), Op(rf'tryEnqueue\(int, {MS}\)', 'push', 'tryEnqueue with a waiting time', timed=True),
         Op(rf'tryEnqueue\(int, {MS}, {FN} const&, {FN} const&\)', 'push', 'tryEnqueue with a waiting time and callbacks', timed=True),
         Op(r'dequeue\(\)', 'pop', 'dequeue'), Op(r'tryDequeue\(\)', 'pop', 'tryDequeue without waiting', timed=False), Op(r'tryDequeue\(bool&\)', 'pop', 'tryDequeue without waiting', timed=False, succ=True),
         Op(rf'tryDequeue\({MS}\)', 'pop', 'tryDequeue with a waiting time', timed=True), Op(rf'tryDequeue\({MS}, bool&\)', 'pop', 'tryDequeue with a waiting time', timed=True, succ=True),
         Query('full', 'full'), Query('empty', 'empty'), Ctor()]
CONTRACTS = []
DRIVERS = [dict(src='C10.cpp', san='undefined', extra=('-fsanitize-coverage=trace-loads,trace-stores',))]
BOUND = 'every schedule of up to 3 threads with few operations and at most 3 preemptions; random schedules of more'
ASSUMPTIONS = ['instantiated for T = int', 'the callbacks do not use the queue and do not throw', 'memory is sequentially consistent under the mutex', 'waiting times within +-2^40 ms']
NOTE = '''monitor contracts: the invariant of the ring (count <= capacity, indices inside, head = tail + count) holds whenever the mutex is free; the state after an acquisition or a wait is arbitrary under it,
so each operation is verified against every interleaving.  Every operation changes the abstract sequence only by its own effect (append the object given / remove the first element), exactly once, with the mutex held and a notification of
the other side; it waits only while the queue is full (empty) and on the right condition; every access to the shared state happens with the mutex held.'''
