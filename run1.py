import sys, time, importlib, os
sys.path.insert(0, '/verif')
from irv import build, verify, strs, rt
mod = importlib.import_module('specs.' + sys.argv[1])
only = sys.argv[2] if len(sys.argv) > 2 else None
m = None
t0 = time.time()
ms = {}
for h in mod.HARNESS: ms[h] = build.emit_ir('/verif/harness/' + h)
print('IR', time.time() - t0)
for sp in mod.SPECS:
    if only and only not in (getattr(sp, 'nm', '') or sp.fn) and only not in type(sp).__name__: continue
    for h, m in ms.items():
        if getattr(sp, 'harness', h) != h: continue
        fs = sp.select(m)
        if not fs: print('NOT FOUND', sp.fn)
        for f in fs:
            R = verify.verify(m, sp, f, getattr(mod, 'MODELS', []) + rt.MODELS + strs.MODELS, mod.CONTRACTS, verbose=len(sys.argv) > 3 or only is not None)
            print(f'{R.status:10} {R.dis}/{R.obl} {R.wall:.1f}s {R.dem[:100]} {R.reason}')
            for d in R.failed[:4] + R.unknown[:3]:
                print('    ', d['kind'], d['name'], d['loc'], d.get('solver'), (d['model'] or {}).get('inputs') if d.get('model') else '')
            if only: print('   ', '\n    '.join(R.inv))
