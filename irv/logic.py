"""Formula layer: ground z3 Booleans plus explicitly instantiated quantifiers.

Quantified facts never reach the solver as quantifiers: they are instantiated at the ground index
terms of the arrays / spec functions named in their triggers (a fixed number of rounds), and
goals are skolemised.  Instances are logical consequences of the facts, so `unsat` is a proof;
`sat` after the rounds are exhausted is a candidate counterexample.
"""
import z3, time, itertools

BV64 = z3.BitVecSort(64)
_ctr = itertools.count()

def fresh(name, sort):
    return z3.Const(f'{name}!{next(_ctr)}', sort)
def fbv(name, w=64): return fresh(name, z3.BitVecSort(w))
def fbool(name): return fresh(name, z3.BoolSort())
def bv(n, w=64): return z3.BitVecVal(n, w)

class F: pass
class FAnd(F):
    def __init__(self, xs): self.xs = xs
class FOr(F):
    def __init__(self, xs): self.xs = xs
class FNot(F):
    def __init__(self, x): self.x = x
class QAll(F):
    """forall k. body(k);  trig: list of (key, fn) where key is a z3 array const / FuncDecl / its name, or None for
    'every skolem/hint term'; fn maps the matched index term to the instance (default identity)."""
    def __init__(self, body, trig=(), name='', sort=BV64, neg=False):
        self.body, self.name, self.sort = body, name, sort
        self.trig = [(t if isinstance(t, tuple) else (t, None)) for t in trig]
        self.cache = {}
class QEx(F):
    def __init__(self, body, trig=(), name='', sort=BV64):
        self.body, self.name, self.sort = body, name, sort
        self.trig = [(t if isinstance(t, tuple) else (t, None)) for t in trig]

def isg(x): return not isinstance(x, F)
def tob(x):
    if x is True: return z3.BoolVal(True)
    if x is False: return z3.BoolVal(False)
    return x
def And(*xs):
    xs = [tob(x) for x in (xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs)]
    if all(isg(x) for x in xs): return z3.And(*xs) if len(xs) != 1 else xs[0]
    return FAnd(xs)
def Or(*xs):
    xs = [tob(x) for x in (xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs)]
    if all(isg(x) for x in xs): return z3.Or(*xs) if len(xs) != 1 else xs[0]
    return FOr(xs)
def Not(x):
    x = tob(x)
    return z3.Not(x) if isg(x) else FNot(x)
def Implies(a, b): return Or(Not(a), b)
def Iff(a, b): return And(Implies(a, b), Implies(b, a))

def nnf(f, neg=False):
    if isg(f): return z3.Not(f) if neg else f
    if isinstance(f, FNot): return nnf(f.x, not neg)
    if isinstance(f, FAnd): return (Or if neg else And)(*[nnf(x, neg) for x in f.xs])
    if isinstance(f, FOr): return (And if neg else Or)(*[nnf(x, neg) for x in f.xs])
    if isinstance(f, QAll):
        if not neg: return f
        return QEx(lambda k, f=f: Not(f.body(k)), f.trig, f.name, f.sort)
    if isinstance(f, QEx):
        if not neg: return f
        return QAll(lambda k, f=f: Not(f.body(k)), f.trig, f.name, f.sort)
    raise TypeError(f)

def keyname(k):
    if k is None: return None
    if isinstance(k, str): return k
    if isinstance(k, z3.FuncDeclRef): return k.name()
    return k.decl().name()

class Collector:
    def __init__(self):
        self.seen = {}
        self.terms = {}      # array/func name -> {id: term}
    def leaves(self, a, out):
        st = [a]
        seen = set()
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen: continue
            seen.add(i)
            k = x.decl().kind()
            if k == z3.Z3_OP_STORE:
                st.append(x.arg(0))
            elif k == z3.Z3_OP_ITE:
                st.append(x.arg(1)); st.append(x.arg(2))
            elif k == z3.Z3_OP_SELECT:
                st.append(x.arg(0))
            else:
                out.append(x.decl().name())
    def add(self, e):
        st = [e]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in self.seen: continue
            self.seen[i] = x
            n = x.num_args()
            if n:
                d = x.decl()
                k = d.kind()
                if k == z3.Z3_OP_SELECT or k == z3.Z3_OP_STORE:
                    ls = []
                    self.leaves(x.arg(0), ls)
                    t = z3.simplify(x.arg(1))
                    for nm in ls: self.terms.setdefault(nm, {})[t.get_id()] = t
                elif k == z3.Z3_OP_UNINTERPRETED:
                    t = z3.simplify(x.arg(n - 1))
                    self.terms.setdefault(d.name(), {})[t.get_id()] = t
                st.extend(x.children())

class Problem:
    def __init__(self, premises, goal, hints=(), rounds=3, maxinst=4000):
        self.ground = []
        self.quants = []       # (guard or None, QAll, done set)
        self.hints = {}
        self.col = Collector()
        self.rounds = rounds
        self.maxinst = maxinst
        self.ninst = 0
        self.trunc = False
        for p in premises: self.assert_(nnf(p), None)
        if goal is not None: self.assert_(nnf(goal, True), None)
        for h in hints:
            h = z3.simplify(h)
            self.hints[(h.sort().get_id() if False else str(h.sort()), h.get_id())] = h
    def ga(self, f, guard):
        g = f if guard is None else z3.Implies(guard, f)
        self.ground.append(g)
        self.col.add(g)
    def assert_(self, f, guard):
        if isg(f):
            self.ga(f, guard)
        elif isinstance(f, FAnd):
            for x in f.xs: self.assert_(x, guard)
        elif isinstance(f, FOr):
            lits = []
            for x in f.xs:
                if isg(x): lits.append(x)
                else:
                    p = fbool('p'); lits.append(p)
                    self.assert_(x, p)
            self.ga(z3.Or(*lits), guard)
        elif isinstance(f, QAll):
            self.quants.append((guard, f, set()))
        elif isinstance(f, QEx):
            sk = fresh('sk' + f.name, f.sort)
            self.hints[(str(f.sort), sk.get_id())] = sk
            self.assert_(nnf(f.body(sk)), guard)
        elif isinstance(f, FNot):
            self.assert_(nnf(f), guard)
        else: raise TypeError(f)
    def round(self):
        new = 0
        for guard, q, done in list(self.quants):
            cands = {}
            ss = str(q.sort)
            for key, fn in q.trig:
                if key is None:
                    ts = [t for (s, _), t in self.hints.items() if s == ss]
                else:
                    ts = list(self.col.terms.get(keyname(key), {}).values())
                for t in ts:
                    if fn is not None:
                        r = fn(t)
                        for u in (r if isinstance(r, list) else [r]):
                            u = z3.simplify(u)
                            if str(u.sort()) == ss: cands[u.get_id()] = u
                    elif str(t.sort()) == ss: cands[t.get_id()] = t
            for i, t in cands.items():
                if i in done: continue
                if self.ninst > self.maxinst:
                    self.trunc = True
                    return new
                done.add(i)
                self.keep = getattr(self, 'keep', [])
                self.keep.append(t)
                r = q.cache.get(i)
                if r is None:
                    b = q.body(t)
                    r = (t, nnf(tob(b)))
                    q.cache[i] = r
                self.assert_(r[1], guard)
                self.ninst += 1
                new += 1
        return new

def mksolver(timeout_ms, kind=0):
    if kind == 0:
        s = z3.Solver()
    elif kind == 1:
        s = z3.SolverFor('QF_AUFBV')
    else:
        s = z3.SimpleSolver()
        s.set('arith.solver', 2)
    s.set('timeout', int(timeout_ms))
    return s

def prove(premises, goal, timeout_ms=10000, hints=(), rounds=3, retry=True):
    """-> ('unsat'|'sat'|'unknown', model or None, seconds, backend)"""
    t0 = time.time()
    pr = Problem(premises, goal, hints, rounds)
    s = mksolver(timeout_ms)
    n = 0
    res = None
    for r in range(rounds + 1):
        for g in pr.ground[n:]: s.add(g)
        n = len(pr.ground)
        last = (r == rounds)
        if not pr.quants or last or r >= 1:
            res = s.check()
            if res == z3.unsat: return ('unsat', None, time.time() - t0, 'z3')
            if not pr.quants: break
        if last: break
        if pr.round() == 0:
            if res is None: res = s.check()
            if res == z3.unsat: return ('unsat', None, time.time() - t0, 'z3')
            break
    if res == z3.sat:
        return ('sat', s.model(), time.time() - t0, 'z3')
    if not retry: return ('unknown', None, time.time() - t0, 'z3')
    # unknown: retry with the other configuration
    s2 = mksolver(timeout_ms * 2, 1)
    for g in pr.ground: s2.add(g)
    res = s2.check()
    if res == z3.unsat: return ('unsat', None, time.time() - t0, 'z3/qfaufbv')
    if res == z3.sat: return ('sat', s2.model(), time.time() - t0, 'z3/qfaufbv')
    return ('unknown', None, time.time() - t0, 'z3')
