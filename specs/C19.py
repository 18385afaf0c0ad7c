"""C19: scope guards, SingleTimeExecutor, LazyValue"""
from irv.lib import *
from irv import conc, funcs
from irv.conc import Monitor
def offs(E): return [x.v for x in E.m.global_init('@vh_off')[1].v]
MODELS = []
@(lambda fn: MODELS.append((re.compile(r'^vh_(body|mark)$'), fn)))
def m_body(E, st, a, ins, d):
    E.spec.event(E, st, d[3:])
    if d == 'vh_mark': return None
    s2 = st.clone()
    return Outs([(st, None, None), (s2, None, Exc('@_ZTISt9exception'))])
# ---------------------------------------------------------------- scope guards
CALLS, CALLS2, BODY, MARKC = 40, 48, 56, 64
class Guard(Spec):
    """kind: what the calls must be (at the mark, at the end) and of which function"""
    def __init__(self, fn, title, end=1, mark=None, which=0, state=True):
        self.fn, self.title, self.end, self.mark, self.which, self.state = f'^{fn}$', title, end, mark, which, state
    def setup(self, E, st, f):
        g = E.new_obj(st, 'ghost', 256, 'ghost'); self.g = g.id
        for k in (CALLS, CALLS2, BODY, MARKC): g.cells[k] = (8, bv(0))
        self.fs = [funcs.any_func('action'), funcs.any_func('other')]
        for x in self.fs: st.assume(x.id != 0)
        st.assume(self.fs[0].id != self.fs[1].id)
        out = []
        if self.state:
            o = offs(E); q = E.new_obj(st, 'guard', o[1], 'input'); q.cells[o[0]] = (32, self.fs[0]); out.append(Ptr(q.id))
        if 'out' in self.fn: out.append(Ptr(E.new_obj(st, 'place', 8, 'input').id))
        for i in range(len(f.params) - len(out)):
            h = E.new_obj(st, 'function', 32, 'input'); h.cells[0] = (32, self.fs[1 if self.state else 0]); out.append(Ptr(h.id))
        return out
    def gget(self, st, k): return st.mem[self.g].cells[k][1]
    def gset(self, E, st, k, v): E.wobj(st, self.g).cells[k] = (8, z3.simplify(v)); E.log(('cell', self.g, k))
    def on_call(self, E, st, v, a, ins, sig):
        i0, i1 = v.id == self.fs[0].id, v.id == self.fs[1].id
        E.oblige(st, 'call', 'only the action given is run', z3.Or(i0, i1))
        self.gset(E, st, CALLS, self.gget(st, CALLS) + z3.If(i0, bv(1), bv(0))); self.gset(E, st, CALLS2, self.gget(st, CALLS2) + z3.If(i1, bv(1), bv(0)))
    def event(self, E, st, what):
        if what == 'body': E.oblige(st, 'call', 'the action is not run before the scope is left', self.gget(st, CALLS) == 0)
        elif self.mark is not None: E.oblige(st, 'call', f'the action has run {self.mark} times at this point', And(self.gget(st, CALLS + 8 * self.which) == self.mark))
    def post(self, E, st, ret, exc):
        return [(f'the action has run {("never", "exactly once")[self.end]}', self.gget(st, CALLS + 8 * self.which) == self.end), ('the other action has not run', self.gget(st, CALLS + 8 * (1 - self.which)) == 0)]
# ---------------------------------------------------------------- once-only execution
EXEC, RUNS, VAL, FREL, ACQ, NCALL = 40, 48, 56, 64, 72, 80
class Once(Monitor):
    """mutex free: the flag is set exactly when the code has run to its end, once (and the value is its result)"""
    inv_names = ['the flag is set exactly when the code has run', 'the value is the result of the run']
    lazy = False
    def __init__(self, fn, title, lazy=False): self.fn, self.title, self.lazy = f'^{fn}$', title, lazy
    def setup(self, E, st, f):
        o = offs(E)
        self.oF, self.oD, self.oX, self.oM, self.oV, size = (None, o[7], o[8], o[9], o[10], o[11]) if self.lazy else (o[2], o[3], o[4], o[5], None, o[6])
        q = E.new_obj(st, 'object', size, 'input'); self.q = q.id
        self.code, self.dcode = funcs.any_func('code'), funcs.any_func('destructorCode')
        if self.oF is not None: q.cells[self.oF] = (32, self.code)
        q.cells[self.oD] = (32, self.dcode)
        q.cells[self.oX] = (1, fbv('flag', 8))      # never read directly
        if self.lazy: q.cells[self.oV] = (4, fbv('value', 32)); st.assume(self.code.id != 0)
        self.mon_init(E, st)
        for k in (RUNS, NCALL): self.gset(E, st, k, bv(0))
        self.gset(E, st, VAL, fbv('val', 32), 4)
        for k in (EXEC, FREL, ACQ): self.gset(E, st, k, z3.BoolVal(False), 1)
        self.fresh_state(E, st)
        a = [Ptr(self.q)]
        if len(f.params) > 1:
            h = E.new_obj(st, 'construct', 32, 'input'); h.cells[0] = (32, self.code); a.append(Ptr(h.id))
        return a
    def mutexes(self): return {(self.q, self.oM)}
    def protected(self, st, obj, off): return False
    def touch(self, E, st, p, write):
        if isinstance(p, Ptr) and p.obj == self.q and p.c == self.oV and write:
            E.oblige(st, 'data-race', 'the value is set under the mutex and only before it is published', z3.And(self.held(st), z3.Not(self.gget(st, EXEC))))
        if isinstance(p, Ptr) and p.obj == self.q and p.c == self.oX: E.oblige(st, 'data-race', 'the flag is accessed atomically', z3.BoolVal(False))
    alone = False
    def fresh_state(self, E, st, v=None):
        """what other threads may have done in the meantime: the flag only goes from false to true"""
        if self.alone: return
        e0 = self.gget(st, EXEC); e1 = fresh('executed', z3.BoolSort()) if v is None else v
        st.assume(z3.Implies(e0, e1))
        self.gset(E, st, EXEC, e1, 1)
        self.gset(E, st, RUNS, z3.If(e1, bv(1), bv(0)))
        self.gset(E, st, VAL, z3.If(e0, self.gget(st, VAL), fbv('result', 32)), 4)
        if self.lazy:
            E.wobj(st, self.q).cells[self.oV] = (4, z3.If(e1, self.gget(st, VAL), fbv('value', 32))); E.log(('cell', self.q, self.oV))
        if not self.lazy: st.assume(z3.Implies(self.code.id == 0, z3.Not(e1)))
    def inv(self, st):
        e = self.gget(st, EXEC)
        out = [(self.inv_names[0], self.gget(st, RUNS) == z3.If(e, bv(1), bv(0)))]
        if self.lazy: out.append((self.inv_names[1], z3.Implies(e, st.mem[self.q].cells[self.oV][1] == self.gget(st, VAL))))
        return out
    def snapshot(self, E, st): self.gset(E, st, ACQ, z3.BoolVal(False), 1)
    def order(self, a):
        v = a[-1] if len(a) > 1 else None
        v = z3.simplify(v) if z3.is_bv(v) and v.size() == 32 else None
        return v.as_long() if v is not None and z3.is_bv_value(v) else 5
    def flag(self, p):
        if not (isinstance(p, Ptr) and (p.obj, p.c) == (self.q, self.oX)): raise Unsupported('unknown atomic')
    def atomic_load(self, E, st, p, ins, a):
        self.flag(p)
        if not z3.is_true(z3.simplify(self.held(st))):
            if not z3.is_false(z3.simplify(self.held(st))): raise Unsupported('lock state')
            self.fresh_state(E, st)
        if self.order(a) not in (1, 2, 4, 5): self.gset(E, st, ACQ, z3.simplify(z3.Or(self.gget(st, ACQ), z3.And(self.gget(st, EXEC), z3.Not(self.held(st))))), 1)
        return self.gget(st, EXEC)
    def atomic_store(self, E, st, p, v, ins, a):
        self.flag(p)
        b = v if z3.is_bool(v) else z3.Extract(0, 0, v) == 1
        E.oblige(st, 'publication', 'the flag is only ever set, under the mutex', z3.And(self.held(st), b))
        E.oblige(st, 'publication', 'the flag is set with release order, after the code has run', z3.Or(z3.BoolVal(self.order(a) in (3, 4, 5)), self.gget(st, FREL)))
        self.gset(E, st, EXEC, b, 1)
    def fence(self, E, st, a):
        o = self.order([0] + list(a))
        if o in (3, 4, 5): self.gset(E, st, FREL, z3.BoolVal(True), 1)
        if o in (1, 2, 4, 5): self.gset(E, st, ACQ, z3.BoolVal(False), 1)
    def on_call(self, E, st, v, a, ins, sig):
        E.oblige(st, 'call', 'it is the code given that runs', v.id == self.code.id)
        E.oblige(st, 'call', 'the code runs under the mutex and only when it has not run before', z3.And(self.held(st), z3.Not(self.gget(st, EXEC)), self.gget(st, RUNS) == 0))
        s2 = st.clone()
        self.gset(E, st, RUNS, self.gget(st, RUNS) + 1); self.gset(E, st, NCALL, self.gget(st, NCALL) + 1); self.gset(E, st, FREL, z3.BoolVal(False), 1)
        r = None
        if self.lazy: r = fbv('made', 32); self.gset(E, st, VAL, r, 4)
        return Outs([(st, r, None), (s2, None, Exc('@_ZTISt9exception'))])
    def invariants(self, E, L, entry, head): return self.mon_candidates(L)
    def post(self, E, st, ret, exc):
        out = [('the mutex is free', z3.Not(self.held(st)))]
        if exc is not None: return out
        ok = self.gget(st, EXEC) if self.lazy else z3.Or(self.code.id == 0, self.gget(st, EXEC))
        out += [('the code has run when the call returns', ok), ('what the code did is visible to the caller', z3.Not(self.gget(st, ACQ)))]
        if self.lazy: out.append(('the result of the run is returned', And(z3.BoolVal(isinstance(ret, Ptr) and (ret.obj, ret.c, ret.idx) == (self.q, self.oV, None)), st.mem[self.q].cells[self.oV][1] == self.gget(st, VAL))))
        return out
class Has(Once):
    def post(self, E, st, ret, exc): return [('no exception', z3.BoolVal(exc is None)), ('tells whether the code has run', Iff(ret if z3.is_bool(ret) else ret != 0, self.gget(st, EXEC)))]
class Dtor(Once):
    def setup(self, E, st, f):
        a = super().setup(E, st, f); self.alone = True
        if self.lazy: st.assume(z3.Implies(self.gget(st, EXEC), st.mem[self.q].cells[self.oV][1] == self.gget(st, VAL)))
        return a
    def on_call(self, E, st, v, a, ins, sig):
        E.oblige(st, 'call', 'it is the destructor code given that runs', v.id == self.dcode.id)
        if self.lazy: E.oblige(st, 'call', 'it is given the value', z3.BoolVal(isinstance(a[1], Ptr) and (a[1].obj, a[1].c) == (self.q, self.oV)))
        self.gset(E, st, NCALL, self.gget(st, NCALL) + 1)
    def post(self, E, st, ret, exc): return [('no exception', z3.BoolVal(exc is None)), ('the destructor code runs exactly once if the code has run, otherwise never', self.gget(st, NCALL) == z3.If(z3.And(self.gget(st, EXEC), self.dcode.id != 0), bv(1), bv(0)))]
class Ctor(Once):
    def __init__(self, fn, title, lazy=False, two=False): super().__init__(fn, title, lazy); self.two = two
    def setup(self, E, st, f):
        super().setup(E, st, f)
        q = E.new_obj(st, 'new', st.mem[self.q].size, 'input'); self.q = q.id; self.touch = lambda *a: None; E.opts['on_touch'] = None
        out = [Ptr(self.q)]
        for v in ([self.dcode] if self.lazy else [self.code, self.dcode][:len(f.params) - 1]):
            h = E.new_obj(st, 'function', 32, 'input'); h.cells[0] = (32, v); out.append(Ptr(h.id))
        return out
    def atomic_store(self, E, st, p, v, ins, a): E.store(st, p, v, ir.I(8))
    def post(self, E, st, ret, exc):
        if exc is not None: return [('no exception', z3.BoolVal(False))]
        c = lambda o: cellv(E, st, Ptr(self.q, o)); x = c(self.oX)
        out = [('a new object has not run its code', z3.BoolVal(False) if x is None or x is UNDEF else (z3.Not(x) if z3.is_bool(x) else x == 0))]
        for o, v, on in ((self.oF, self.code, not self.lazy), (self.oD, self.dcode, self.lazy or self.two)):
            if on: w = c(o); out.append(('the function given is kept', z3.BoolVal(False) if not isinstance(w, funcs.FuncV) or w.id is None else w.id == v.id))
        if not self.lazy and not self.two: w = c(self.oD); out.append(('no destructor code', z3.BoolVal(False) if not isinstance(w, funcs.FuncV) or w.id is None else w.id == 0))
        return out
HARNESS = ['C19.cpp']
MODELS += conc.MODELS + funcs.MODELS
SPECS = [Guard('vh_guard', 'scope left by return or exception', state=False), Guard('vh_guard_dtor', 'scope left, any state'), Guard('vh_guard_clear', 'cleared guard', end=0, mark=0), Guard('vh_guard_rest', 'guard set to another action', which=1, mark=0), Guard('vh_guard_now', 'executeNow', mark=1),
         Guard('vh_mguard', 'movable guard', state=False), Guard('vh_mguard_move', 'moved to an inner scope', mark=1, state=False), Guard('vh_mguard_out', 'moved to an outer scope', mark=0, state=False), Guard('vh_mguard_clear', 'moved and cleared', end=0, state=False), Guard('vh_mguard_now', 'movable executeNow', mark=1, state=False),
         Ctor('vh_ste', 'SingleTimeExecutor(code)'), Ctor('vh_ste2', 'SingleTimeExecutor(code, destructorCode)', two=True), Once('vh_ste_run', 'SingleTimeExecutor::operator()'), Has('vh_ste_has', 'hasExecuted'), Dtor('vh_ste_dtor', '~SingleTimeExecutor'),
         Ctor('vh_lazy', 'LazyValue', True), Once('vh_lazy_get', 'LazyValue::operator()', True), Has('vh_lazy_is', 'isConstructed', True), Dtor('vh_lazy_dtor', '~LazyValue', True)]
CONTRACTS = []
DRIVERS = [dict(src='C19.cpp', san='undefined', extra=('-fsanitize-coverage=trace-loads,trace-stores',))]
BOUND = 'every schedule of up to 3 threads with at most 3 preemptions; all sequences of guard operations up to length 4'
ASSUMPTIONS = ['the code given does not call the same object again', 'actions of scope guards and destructor codes do not throw', 'release/acquire publication is checked as an obligation on the orders used; everything else under sequential consistency', 'LazyValue instantiated for int']
NOTE = '''scope guards: the number of runs of the action is a ghost counter, checked at the end of the scope on both exits and for any state of the guard.  SingleTimeExecutor and LazyValue: monitor with the invariant flag set <=> the code has run once; the flag read without the mutex may only go from false to true
(rely), the code runs only under the mutex with the flag unset, and the flag is published with release order and consumed with acquire order.'''
