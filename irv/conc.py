"""Monitors: contracts of std::mutex, locks, condition variables and atomics by lock invariants.

The state a mutex protects is unknown whenever the thread does not hold it: acquiring the mutex (also: returning
from a wait) replaces it by an arbitrary state that satisfies the invariant; releasing it (also: starting to wait)
is an obligation: the invariant holds again, and the change made since the acquisition is one of the effects that
the operation may have.  Reading or writing protected state without the mutex is an obligation of its own.  So the
contract of an operation holds for every interleaving with every number of threads that obey the same contracts."""
import z3, re
from .lib import *
from . import vecs, funcs

HELD, EFF, NOTE, WAITS = 0, 8, 16, 24     # cells of the ghost object; NOTE: notifications in this critical section; DUE: notifications owed for a change already published
DUE = 160
MODELS = []
def model(rx):
    def d(fn): MODELS.append((re.compile(rx), fn)); return fn
    return d
class Monitor(Spec):
    """mixin; the specification gives: mutexes() -> {(obj, offset)}, protected(obj, off) -> bool, fresh_state, inv, effect, wait_ok, ..."""
    def mon_init(self, E, st):
        g = E.new_obj(st, 'ghost', 256, 'ghost'); self.g = g.id
        self.gset(E, st, HELD, z3.BoolVal(False), 1); self.gset(E, st, EFF, bv(0)); self.gset(E, st, WAITS, bv(0))
        for k in range(4): self.gset(E, st, NOTE + 100 + 8 * k, bv(0)); self.gset(E, st, DUE + 8 * k, z3.BoolVal(False), 1)
        E.opts['on_touch'] = self.touch
    def gset(self, E, st, off, v, sz=8):
        o = E.wobj(st, self.g); o.cells[off] = (sz, v); E.log(('cell', self.g, off))
    def gget(self, st, off):
        c = st.mem[self.g].cells.get(off); return c[1] if c else None
    def held(self, st): return self.gget(st, HELD)
    def is_mutex(self, st, p): return isinstance(p, Ptr) and p.idx is None and (p.obj, p.c) in self.mutexes()
    def touch(self, E, st, p, write):
        if not isinstance(p, Ptr): return
        if self.protected(st, p.obj, p.c): E.oblige(st, 'data-race', f'{"write" if write else "read"} of shared state under the mutex', self.held(st))
    def acquire(self, E, st):
        E.oblige(st, 'deadlock', 'the mutex is not locked twice', z3.Not(self.held(st)))
        self.gset(E, st, HELD, z3.BoolVal(True), 1)
        self.arrive(E, st)
    def arrive(self, E, st):
        self.fresh_state(E, st)
        for n, f in self.inv(st): st.assume(f)
        for k in range(4): self.gset(E, st, NOTE + 100 + 8 * k, bv(0))
        self.snapshot(E, st)
    def release(self, E, st):
        E.oblige(st, 'lock', 'only a locked mutex is unlocked', self.held(st))
        self.leave(E, st)
        self.gset(E, st, HELD, z3.BoolVal(False), 1)
    def leave(self, E, st):
        for n, f in self.inv(st): E.oblige(st, 'invariant', f'{n} (when the mutex is released)', f)
        self.effect(E, st)
    def wait(self, E, st, cv, timed, dur=None):
        E.oblige(st, 'lock', 'waiting with the mutex held', self.held(st))
        for n, f in self.wait_ok(st, cv): E.oblige(st, 'wait', n, f)
        if dur is not None: E.oblige(st, 'wait', 'waits only while time remains', dur > 0)
        self.leave(E, st)
        E.oblige(st, 'wait', 'every change is notified before the operation waits', self.no_due(st))
        self.gset(E, st, WAITS, self.gget(st, WAITS) + 1)
        self.arrive(E, st)
    def cv_index(self, p):
        for k, q in enumerate(self.cvs()):
            if isinstance(p, Ptr) and (p.obj, p.c) == q: return k
        return None
    def notify(self, E, st, p, all_):
        k = self.cv_index(p)
        if k is None: raise Unsupported('notification of an unknown condition variable')
        self.gset(E, st, NOTE + 100 + 8 * k, self.gget(st, NOTE + 100 + 8 * k) + (2 if all_ else 1))
        self.gset(E, st, DUE + 8 * k, z3.BoolVal(False), 1)
    def notes(self, st, k): return self.gget(st, NOTE + 100 + 8 * k)
    def effects(self, st): return self.gget(st, EFF)
    def due(self, st, k): return self.gget(st, DUE + 8 * k)
    def owe(self, E, st, k, cond):
        """a change that another thread may wait for: it is notified in the critical section or afterwards, before the operation waits or ends"""
        self.gset(E, st, DUE + 8 * k, z3.simplify(z3.Or(self.due(st, k), z3.And(cond, self.notes(st, k) == 0))), 1)
    def no_due(self, st): return And(*[z3.Not(self.due(st, k)) for k in range(len(self.cvs()))])
    def snapshot(self, E, st): pass
    def effect(self, E, st): pass
    def wait_ok(self, st, cv): return []
    def cvs(self): return []
    def mon_candidates(self, L):
        """candidate invariants about the ghost state and the monitor"""
        out = [('mutex held', lambda g, st: self.held(st)), ('mutex free', lambda g, st: z3.Not(self.held(st))), ('no notification owed', lambda g, st: self.no_due(st)), ('no effect yet', lambda g, st: self.effects(st) == 0), ('one effect', lambda g, st: self.effects(st) == 1)]
        for n in range(len(self.inv_names)):
            out.append((f'held: {self.inv_names[n]}', lambda g, st, n=n: Implies(self.held(st), self.inv(st)[n][1])))
        return out
def mon(E, st, p):
    s = E.spec
    if not isinstance(s, Monitor) or not s.is_mutex(st, p): raise Unsupported(f'mutex without a monitor: {p}')
    return s
@model(r'^std::(recursive_|timed_)?mutex::lock\(\)$')
def m_lock(E, st, a, ins, d): mon(E, st, a[0]).acquire(E, st); return None
@model(r'^std::(recursive_|timed_)?mutex::unlock\(\)$')
def m_unlock(E, st, a, ins, d): mon(E, st, a[0]).release(E, st); return None
@model(r'^std::mutex::try_lock\(\)$')
def m_try(E, st, a, ins, d):
    s = mon(E, st, a[0])
    s2 = st.clone(); s.acquire(E, s2)
    return Outs([(st, z3.BoolVal(False), None), (s2, z3.BoolVal(True), None)])
@model(r'^(?:std::cv_status |bool |void )?std::condition_variable::wait(_for|_until)?(<(?!.*lambda).*>)?\(std::unique_lock<std::mutex>&(, std::chrono::[^{]*)?\)$')
def m_wait(E, st, a, ins, d):
    p = E.load(st, a[1], ir.PTR)
    dur = E.load(st, a[2], ir.I(64)) if 'wait_for' in d else None
    mon(E, st, p).wait(E, st, a[0], len(a) > 2, dur)
    if len(a) > 2: return fbv('cv_status', 32)
    return None
@model(r'^std::condition_variable::notify_(one|all)\(\)$')
def m_notify(E, st, a, ins, d):
    if not isinstance(E.spec, Monitor): raise Unsupported(d)
    E.spec.notify(E, st, a[0], 'all' in d); return None
@model(r'^std::condition_variable::~?condition_variable\(\)$')
def m_cv(E, st, a, ins, d): return None
@model(r'^std::mutex::mutex\(\)$')
def m_mx(E, st, a, ins, d): return None
@model(r'^std::chrono::_V2::(system|steady)_clock::now\(\)$')
def m_now(E, st, a, ins, d):
    r = fbv('now'); st.assume(r >= 0, r < bv(1 << 61)); return r
@model(r'^std::atomic_thread_fence\(|^std::this_thread::yield\(\)')
def m_fence(E, st, a, ins, d):
    if 'fence' in d and hasattr(E.spec, 'fence'): E.spec.fence(E, st, a)
    return None
AT = re.compile(r'^std::(?:atomic<(?P<t>[\w: ]+)>|__atomic_base<(?P<u>[\w: ]+)>|atomic_bool)::(?P<m>~?[\w ]+|operator [\w: ]+|operator=|operator\+\+|operator--|operator\+=|operator-=)\((?P<p>.*)\)(?P<c> const)?(?: volatile)?$')
@model(AT.pattern)
def m_atomic(E, st, a, ins, d):
    m = AT.match(d); f = m.group('m'); s = E.spec
    if not hasattr(s, 'atomic_load'): return NotImplemented
    t = ir.I(8) if (m.group('t') or m.group('u') or 'bool') == 'bool' else ins.t
    if f in ('load',) or f.startswith('operator ') and m.group('c'): return s.atomic_load(E, st, a[0], ins, a)
    if f in ('store', 'operator='): s.atomic_store(E, st, a[0], a[1], ins, a); return a[1] if f == 'operator=' else None
    if f == 'exchange':
        v = s.atomic_load(E, st, a[0], ins, a); s.atomic_store(E, st, a[0], a[1], ins, a); return v
    if f in ('atomic', '__atomic_base'): return NotImplemented
    raise Unsupported(d)
