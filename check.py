#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> : decide one property on the current tree of /repo.

1. every function under contract is translated from /repo's current sources (clang IR), its verification
   conditions are generated and discharged by z3 ;
2. the driver of the property runs the real code (ASan/UBSan) against an independent oracle: it replays,
   i.e. looks for a concrete failing input, and is the bounded stand-in for what the verifier cannot reach.
"""
import sys, os, json, time, importlib, subprocess, traceback, threading, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import multiprocessing as mp
from irv import build, verify, strs, rt, ir

T0 = time.time()
TIER = os.environ.get('VERIF_TIER', 'quick')
if '--thorough' in sys.argv: TIER = 'thorough'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
BUDGET = 780 if TIER == 'quick' else 3400

def note(*a): print(*a, flush=True)

# ------------------------------------------------------------------ verifier
def ll_job(h, extra):
    try: return h, build.emit_ll(os.path.join(HERE, 'harness', h), extra), None
    except build.BuildError as e: return h, None, str(e)

def run_vcs(P):
    """-> (results, problems)"""
    from concurrent.futures import ThreadPoolExecutor
    probs = []
    mods = {}
    build.scratch(); build.gen()
    with ThreadPoolExecutor(8) as ex:
        for h, f, err in ex.map(lambda h: ll_job(h, getattr(P, 'EXTRA', {}).get(h, ())), P.HARNESS):
            if err:
                probs.append(dict(what=f'harness {h} does not compile against the current tree', detail=err[-1500:], harness=h)); continue
            try:
                mods[h] = ir.Module(open(f).read()); os.unlink(f)
            except Exception as e:
                probs.append(dict(what=f'harness {h}: IR not understood: {e!r}', detail=traceback.format_exc()[-800:], harness=h))
    tasks = []
    for sp in P.SPECS:
        found = False
        if sp.fn is None: continue
        for h, m in mods.items():
            if getattr(sp, 'harness', h) != h: continue
            fs = sp.select(m)
            for f in fs:
                tasks.append((sp, h, f)); found = True
            if found: break
        if not found: probs.append(dict(what=f'no function matches the contract {sp.fn}', detail='', harness=getattr(sp, 'harness', '')))
    models = getattr(P, 'MODELS', []) + rt.MODELS + strs.MODELS
    jobs = 2 if len(tasks) > 3 else (3 if len(tasks) > 1 else 8)
    width = min(8 if len(tasks) > 3 else 4, len(tasks) or 1)
    results = [None] * len(tasks)
    def child(k, conn):
        sys.setrecursionlimit(20000)
        sp, h, f = tasks[k]
        try:
            d = verify.verify(mods[h], sp, f, models, getattr(P, 'CONTRACTS', []), jobs=jobs).dic()
        except Exception as e:
            d = dict(function=mods[h].dem.get(f, f), status='undecided', reason=f'verifier error: {e!r}'[:300], obligations=0, discharged=0, solver_s=0, wall_s=0, failed=[], unknown=[], invariants=[], inlined=[], models=[], contracts_used=[], backends={}, loops=0, paths=0)
        d['harness'] = h; d['title'] = getattr(sp, 'title', '') or ''; d['assumed'] = list(getattr(sp, 'assumptions', []))
        d['section'] = getattr(sp, 'section', '')
        conn.send(d); conn.close()
    order = sorted(range(len(tasks)), key=lambda k: -getattr(tasks[k][0], 'cost', 1))
    running = {}
    limit = getattr(P, 'FN_LIMIT', 420 if TIER == 'quick' else 2000)
    while order or running:
        while order and len(running) < width:
            k = order.pop(0)
            a, b = mp.Pipe(False)
            p = mp.get_context('fork').Process(target=child, args=(k, b)); p.start(); b.close()
            running[k] = (p, a, time.time())
        for k, (p, a, t) in list(running.items()):
            dead = not p.is_alive()
            if a.poll():
                try: results[k] = a.recv()
                except EOFError: dead = True
            if results[k] is not None: p.join(); del running[k]; continue
            late = time.time() - t > limit or time.time() - T0 > BUDGET - 60
            if dead or late:
                if not dead:
                    subprocess.run(['pkill', '-KILL', '-P', str(p.pid)]); p.kill(); p.join()
                sp, h, f = tasks[k]
                results[k] = dict(function=mods[h].dem.get(f, f), status='undecided', reason='time limit' if late else 'verifier process died', obligations=0, discharged=0, solver_s=0, wall_s=time.time() - t, failed=[], unknown=[], invariants=[], inlined=[], models=[], contracts_used=[], backends={}, loops=0, paths=0, harness=h, title='', assumed=[], section=getattr(sp, 'section', ''))
                del running[k]
        time.sleep(0.02)
    return results, probs

# ------------------------------------------------------------------ driver
def run_driver(P, out):
    """out: dict filled with sections, error"""
    out['sections'] = []; out['error'] = None
    drs = getattr(P, 'DRIVERS', None)
    if drs is None: drs = [dict(src=P.DRIVER, sources=getattr(P, 'SOURCES', ()), libs=getattr(P, 'LIBS', ()))] if getattr(P, 'DRIVER', None) else []
    from concurrent.futures import ThreadPoolExecutor
    for d in drs:
        try:
            exe = build.build_driver(os.path.join(HERE, 'drivers', d['src']), d.get('sources', ()), d.get('libs', ()), d.get('san', 'address,undefined'), d.get('extra', ()))
        except build.BuildError as e:
            out['error'] = str(e)[-3000:]; continue
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=%d:abort_on_error=0:allocator_may_return_null=1:%s' % (d.get('leaks', 0), d.get('asan', '')), UBSAN_OPTIONS='print_stacktrace=1', DRV_STALL=str(d.get('stall', 15)), TSAN_OPTIONS=d.get('tsan', ''))
        names = subprocess.run([exe, '--list'], capture_output=True, text=True, env=env).stdout.split('\n')[:-1]
        def one(n):
            try:
                work = os.path.join(build.scratch(), 'run_' + re.sub(r'\W', '_', n)); os.makedirs(work, exist_ok=True)
                r = subprocess.run([exe, str(SEED), TIER, n], capture_output=True, text=True, env=env, cwd=work, timeout=(420 if TIER == 'quick' else 2400), errors='replace')
                return [dict(json.loads(l), driver=d['src']) for l in r.stdout.split('\n') if l.startswith('{')] or [dict(section=n, result='error', cases=0, what=f'driver exit {r.returncode} {r.stderr[-300:]}', fn='', input='', driver=d['src'])]
            except subprocess.TimeoutExpired:
                return [dict(section=n, result='timeout', cases=0, what='section did not finish in time', fn='', input='', driver=d['src'])]
            except Exception as e:
                return [dict(section=n, result='error', cases=0, what=repr(e), fn='', input='', driver=d['src'])]
        with ThreadPoolExecutor(d.get('par', 8)) as ex:
            for x in ex.map(one, names): out['sections'] += x
        try: os.unlink(exe)
        except OSError: pass

def known(pid):
    """known-findings.txt: 'finding: property=<id> key=<regexp on "section|fn|input|what">|...' lines; 'fixed:' lines suppress nothing"""
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(.+?) :: (.*)$', l)
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

def main():
    pid = sys.argv[1]
    P = importlib.import_module('specs.' + pid)
    drv = {}
    th = threading.Thread(target=run_driver, args=(P, drv))
    build.scratch(); build.gen()
    # verifier first (it forks), then the driver: both use all cores
    results, probs = run_vcs(P)
    th.start(); th.join()
    rdir = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + '-'): os.unlink(os.path.join(rdir, f))
    viol = []; kn = known(pid); used = []
    def replay(body):
        p = os.path.join(rdir, f'{pid}-{len(viol) + 1}.txt'); open(p, 'w').write(body); return p
    fails = [s for s in drv['sections'] if s['result'] == 'fail']
    # a concrete failing input of the real code
    for s in fails:
        key = f"{s['section']}|{s['fn']}|{s['input']}|{s['what']}"
        k = [t for r, t in kn if re.search(r, key)]
        if k: used.append(k[0]); continue
        rel = [f"{r['function']}: {d['kind']} {d['name']} at {d['loc']}" for r in results for d in r['failed'] + r['unknown']]
        viol.append((replay(f"property {pid}\nfunction {s['fn']}\ninput {s['input']}\nobserved {s['what']}\nsection {s['section']} (driver {s['driver']}, seed {SEED}, tier {TIER})\n"
                            f"rerun: VERIF_SEED={SEED} VERIF_TIER={TIER} python3 check.py {pid}\n\n{s.get('stderr', '')}\n\nobligations of the verifier that fail on this tree:\n" + '\n'.join(rel) + '\n'), ''))
        note(f"failing input: {s['fn']}({s['input']}): {s['what']}"[:600])
    # failed obligations without a failing input
    allfail = []
    for r in results:
        for d in r['failed'] + (r['unknown'] if r['status'] != 'undecided' or r['unknown'] else []):
            key = f"obligation|{r['function']}|{d['kind']} {d['name']}"
            k = [t for rx, t in kn if re.search(rx, key)]
            if k: used.append(k[0]); continue
            allfail.append((r, d))
    if allfail and not viol:
        seen = set()
        for r, d in allfail:
            if r['function'] in seen: continue
            seen.add(r['function'])
            mine = [x for rr, x in allfail if rr is r]
            body = f"property {pid}\nfunction {r['function']}\n" + ''.join(f"failed obligation: {x['kind']} '{x['name']}' at {x['loc']}\n  solver: {x.get('solver')}\n  counterexample (not reproduced on the real code): {json.dumps(x.get('model'))[:3000]}\n  path: {' '.join(x.get('trace', []))[:800]}\n" for x in mine)
            viol.append((replay(body + '\ninvariants retained:\n' + '\n'.join(r['invariants'])), ' no-failing-input-found'))
            note(f"failed obligation: {r['function'][:150]}: {d['kind']} {d['name']} at {d['loc']}")
    elif allfail:
        for r, d in allfail[:12]: note(f"failed obligation: {r['function'][:150]}: {d['kind']} {d['name']} at {d['loc']}")
    und = [r for r in results if r['status'] == 'undecided' and not r['unknown']]
    for r in und: note(f"UNDECIDED (bounded stand-in only): {r['function'][:150]}: {r['reason'][:200]}")
    for p in probs: note(f"UNDECIDED (bounded stand-in only): {p['what']}"); 
    for s in drv['sections']:
        if s['result'] in ('timeout', 'error'): note(f"driver section '{s['section']}': {s['result']}: {s['what'][:300]}")
    if drv['error']: note('driver does not build:', drv['error'][-1500:])
    for t in dict.fromkeys(used): note(f'KNOWN-FINDING: property={pid} {t}')
    ob = sum(r['obligations'] for r in results); di = sum(r['discharged'] for r in results)
    proved = [r for r in results if r['status'] == 'proved']
    models = sorted({m for r in results for m in r['models']}); contr = sorted({m for r in results for m in r['contracts_used']})
    be = {}
    for r in results:
        for k, v in r['backends'].items(): be[k] = be.get(k, 0) + v
    cov = dict(obligations=ob, discharged=di, checker_cmd=f'python3 check.py {pid} (irv: VCs from clang-18 IR of /repo, z3 {__import__("z3").get_version_string()})',
               trusted_base=['clang-18 front end and opt -passes=sroa', 'irv VC generator (irv/core.py, irv/verify.py)', 'z3'] + [f'assumed contract: {m}' for m in models],
               functions_under_contract=len(results), functions_proved=len(proved),
               functions=[dict(function=r['function'], status=r['status'], reason=r['reason'], obligations=r['obligations'], discharged=r['discharged'], loops=r['loops'], paths=r['paths'], solver_s=r['solver_s'], wall_s=r['wall_s'], contracts_used=r['contracts_used'], inlined=r['inlined'][:40], invariants=r['invariants'][:12]) for r in results],
               contracts_checked_at_calls=contr, solver_s=round(sum(r['solver_s'] for r in results), 1), backends=be,
               undecided=[r['function'] + ': ' + r['reason'] for r in und] + [p['what'] for p in probs],
               bounded_stand_in=dict(label='bounded: never counted as proved', bound=getattr(P, 'BOUND', 'inputs of the driver sections'), sections=[dict(section=s['section'], cases=s['cases'], result=s['result'], last_input=s['input'][:200]) for s in drv['sections']]))
    asm = list(getattr(P, 'ASSUMPTIONS', [])) + sorted({a for r in results for a in r['assumed']}) + [f'assumed contract on a dependency: {m}' for m in models]
    ev = dict(property=pid, tier=TIER, seed=SEED, level=getattr(P, 'LEVEL', 'proof'), coverage=cov, assumptions=asm, wall_s=round(time.time() - T0, 1), violations=len(viol))
    if not ob and ev['level'] == 'proof': cov['obligations'] = 0
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    note(f"{pid}: {len(proved)}/{len(results)} functions proved, {di}/{ob} obligations discharged, driver {sum(s['cases'] for s in drv['sections'])} cases, {time.time() - T0:.0f}s")
    for p, w in viol: note(f'VIOLATION property={pid} replay={p}{w}')
    if drv['error'] and not viol:
        sys.exit(2 if not proved and not results else 0)
    sys.exit(1 if viol else 0)
main()
