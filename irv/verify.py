"""Verification driver: generate the VCs of one function, run Houdini, discharge, guard against vacuity."""
import z3, re, time, os, sys, json, traceback, multiprocessing as mp
from . import ir, core
from .core import *
from .logic import *

JOBS = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 2)

class Spec:
    """contract of one function of /repo"""
    fn = None                 # regexp on the demangled name
    title = ''
    timeout = 15000
    opts = {}
    must_terminate = False
    def __init__(self, **kw): self.__dict__.update(kw)
    def select(self, mod):
        return [n for n in mod.funcs if re.search(self.fn, mod.dem[n])]
    def matches(self, E, name, dem): return False
    def apply(self, E, st, args, ins): return NotImplemented
    def setup(self, E, st, f): raise NotImplementedError
    def post(self, E, st, ret, exc): return []
    def invariants(self, E, L, entry, head): return []
    def measures(self, E, L, entry, head): return None
    rounds = 3

class FnEngine(core.Engine):
    def on_final(self, st):
        exc = st.ghost.get('$exc')
        ret = st.ghost.get('$ret')
        self.finals.append((list(st.pc), list(st.hints), exc))
        for n, g in self.spec.post(self, st, ret, exc):
            self.oblige(st, 'post', n, g, assume=False)

def expand(prem):
    out = []
    for p in prem:
        if isinstance(p, Marker):
            L = p.inst
            if not hasattr(L, 'hf'):
                L.hf = {}
            for n, c in enumerate(L.cands):
                if not c[2]: continue
                if n not in L.hf:
                    try: L.hf[n] = c[1](lambda k: L.get(L.head_state, k), L.head_state)
                    except Unsupported: L.hf[n] = None
                if L.hf[n] is not None: out.append(L.hf[n])
        else: out.append(p)
    return out

_VC = None
_SPEC = None
def _task(i):
    vc = _VC[i]
    try:
        r = prove(expand(vc.prem), vc.goal, _SPEC.timeout if vc.kind != 'cand' else getattr(_SPEC, 'cand_timeout', 3000 if vc.name.startswith('inv-entry') else 9000), vc.hints, _SPEC.rounds, retry=vc.kind != 'cand')
        m = None
        if os.environ.get('IRV_SLOW') and r[2] > float(os.environ['IRV_SLOW']): print('   slow', round(r[2], 1), vc.kind, vc.name, vc.loc, r[0], r[3], flush=True)
        if r[0] == 'sat' and vc.kind != 'cand':
            m = model_str(r[1])
            try: m = {'inputs': _SPEC.model_inputs(r[1]), 'model': m} if hasattr(_SPEC, 'model_inputs') else {'model': m}
            except Exception as e: m = {'model': m}
        return (i, r[0], m, r[2], r[3])
    except z3.Z3Exception as e:
        return (i, 'unknown', {'error': str(e)[:200]}, 0, 'z3')
    except Exception as e:
        return (i, 'unknown', {'error': repr(e)[:300] + traceback.format_exc()[-300:]}, 0, 'z3')

def model_str(m, n=60):
    out = []
    for d in m.decls():
        s = f'{d.name()} = {str(m[d])[:200]}'
        if not d.name().startswith(('p!', 'feas')): out.append(s)
    return out[:n]

def pmap(idx, jobs):
    if not idx: return []
    if jobs <= 1 or len(idx) < 3:
        return [_task(i) for i in idx]
    with mp.get_context('fork').Pool(min(jobs, len(idx))) as pool:
        return list(pool.imap_unordered(_task, idx, chunksize=max(1, min(8, len(idx) // (jobs * 4) or 1))))

class Result:
    def __init__(self, spec, fname, dem):
        self.spec, self.fname, self.dem = spec, fname, dem
        self.status = 'undecided'
        self.reason = ''
        self.obl = 0; self.dis = 0
        self.solver_s = 0.0
        self.failed = []      # dicts
        self.unknown = []
        self.inv = []
        self.stats = None
        self.wall = 0
        self.backends = {}
    def dic(self):
        return dict(function=self.dem, status=self.status, reason=self.reason, obligations=self.obl, discharged=self.dis,
                    solver_s=round(self.solver_s, 2), wall_s=round(self.wall, 2), invariants=self.inv[:60], failed=self.failed[:10], unknown=self.unknown[:10],
                    loops=self.stats.loops if self.stats else 0, paths=self.stats.paths if self.stats else 0,
                    inlined=sorted(self.stats.inlined) if self.stats else [], models=sorted(self.stats.models) if self.stats else [],
                    contracts_used=sorted(self.stats.contracts) if self.stats else [], backends=self.backends)

def verify(mod, spec, fname, models, contracts, jobs=JOBS, verbose=False):
    global _VC, _SPEC
    t0 = time.time()
    R = Result(spec, fname, mod.dem.get(fname, fname))
    E = FnEngine(mod, models, contracts, spec.opts)
    E.spec = spec
    R.stats = E.stats
    E.cur = R.dem
    E.deadline = t0 + spec.opts.get('explore_s', 200)
    try:
        f = mod.funcs[fname].parse()
        st = State()
        args = spec.setup(E, st, f)
        entry_pc = list(st.pc)
        fr = Frame(f)
        for (nm, t, at), v in zip(f.params, args): fr.env[nm] = v
        st.frames.append(fr)
        if hasattr(spec, 'started'): spec.started(E, st)
        E.run(st)
    except (Unsupported, RecursionError, KeyError, AttributeError, TypeError, IndexError, NotImplementedError, z3.Z3Exception, ValueError) as e:
        R.reason = f'{type(e).__name__}: {e}'
        if verbose or os.environ.get('IRV_TB'): traceback.print_exc()
        R.wall = time.time() - t0
        return R
    if verbose: print(f'  explored {E.stats.paths} paths {E.stats.instrs} instrs, {len(E.vcs)} VCs, {E.stats.loops} loops, {E.stats.queries} feas queries, {time.time()-t0:.1f}s')
    _SPEC = spec
    vcs = E.vcs
    _VC = vcs
    # ---- vacuity guards
    if not E.finals and not getattr(spec, 'may_diverge', False):
        R.reason = 'no path reaches the end of the function'
        R.wall = time.time() - t0
        R.status = 'failed'
        R.failed = [dict(name='vacuity: no reachable exit', kind='vacuity', loc='?', model=None)]
        return R
    # ---- Houdini
    cand = [i for i, v in enumerate(vcs) if v.cand]
    deps = {i: {id(p.inst) for p in vcs[i].prem if isinstance(p, Marker)} for i in cand}
    todo = set(cand)
    rnd = 0
    while todo:
        rnd += 1
        ids = sorted(i for i in todo if vcs[i].cand[0].cands[vcs[i].cand[1]][2])
        if rnd == 1:
            ent = [i for i in ids if vcs[i].name.startswith('inv-entry')]
            if ent and len(ent) < len(ids): ids = ent
        res = pmap(ids, jobs)
        dropped = set()
        for i, s, m, t, be in res:
            R.solver_s += t
            if s != 'unsat':
                L, n = vcs[i].cand
                if L.cands[n][2] and verbose and os.environ.get('IRV_HOU'): print('   drop', L.loc, L.cands[n][0], vcs[i].name, s)
                L.cands[n][2] = False
                dropped.add(id(L))
        todo -= set(ids)
        if dropped:
            for i in cand:
                if deps[i] & dropped: todo.add(i)
        todo = {i for i in todo if vcs[i].cand[0].cands[vcs[i].cand[1]][2]}
        if verbose: print(f'  houdini round {rnd}: {len(ids)} checks, {len(dropped)} loops lost candidates, {time.time()-t0:.1f}s')
        if time.time() - t0 > spec.opts.get('total_s', 500):
            R.reason = 'invariant inference budget exceeded'; R.wall = time.time() - t0
            return R
    for L in E.insts:
        R.inv.append(f'{L.loc}: ' + '; '.join(c[0] for c in L.cands if c[2]))
    # ---- termination
    if spec.must_terminate:
        byloop = {}
        for L, pc, ms, hints, tr in getattr(E, 'term', []): byloop.setdefault(id(L), []).append((L, pc, ms, hints, tr))
        for lid, bs in byloop.items():
            ok = None
            names = [n for n, g in bs[0][2]]
            best = None
            for k, nm in enumerate(names):
                good = True
                for L, pc, ms, hints, tr in bs:
                    g = ms[k][1]
                    if g is None: good = False; break
                    r = prove(expand(pc), g, 4000, hints, spec.rounds)
                    R.solver_s += r[2]
                    if r[0] != 'unsat': good = False; break
                if good: ok = nm; break
            R.obl += 1
            if ok is not None:
                R.dis += 1
                R.inv.append(f'{bs[0][0].loc}: decreases {ok}')
            else:
                R.failed.append(dict(name='termination: no candidate measure decreases on every iteration', kind='termination', loc=bs[0][0].loc, model=None))
    # ---- hard obligations
    hard = [i for i, v in enumerate(vcs) if not v.cand]
    res = pmap(hard, jobs)
    for i, s, m, t, be in res:
        v = vcs[i]
        R.obl += 1
        R.solver_s += t
        if s == 'unsat':
            R.dis += 1
            R.backends[be] = R.backends.get(be, 0) + 1
        else:
            d = dict(name=v.name, kind=v.kind, loc=v.loc, solver=s, model=m, trace=[f'{l}:{x}' for l, x in v.trace[-25:]])
            (R.failed if s == 'sat' else R.unknown).append(d)
    # candidate VCs that survived are discharged obligations as well
    for i in cand:
        L, n = vcs[i].cand
        if L.cands[n][2]: R.obl += 1; R.dis += 1
    triv = getattr(E, 'triv', 0)
    R.obl += triv; R.dis += triv
    R.backends['syntactic'] = triv
    # ---- vacuity: the precondition and at least one exit are satisfiable
    r = prove(entry_pc, z3.BoolVal(False), 3000, [], 1, retry=False)
    if r[0] == 'unsat':
        R.failed.append(dict(name='vacuity: precondition unsatisfiable', kind='vacuity', loc='?', model=None))
    ok = False
    for pc, hints, exc in E.finals[:40]:
        r = prove(expand(pc), z3.BoolVal(False), 3000, [], 1, retry=False)
        if r[0] != 'unsat': ok = True; break
    if E.finals and not ok:
        R.failed.append(dict(name='vacuity: no exit is reachable under the invariants', kind='vacuity', loc='?', model=None))
    if R.obl == 0 and not R.failed:
        R.reason = 'no obligations'; R.status = 'undecided'
    elif R.failed: R.status = 'failed'; R.reason = 'obligation failed'
    elif R.unknown: R.status = 'undecided'; R.reason = 'solver gave no answer'
    else: R.status = 'proved'
    R.wall = time.time() - t0
    return R
