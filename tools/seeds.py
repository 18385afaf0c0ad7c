"""dev tool: writes /verif/seeded/<id>/ from tools/seed_defs/*.py ; usage: seeds.py make [ids] | try ids  (try: apply to /repo, run the check, undo)"""
import os, sys, json, subprocess, importlib.util, glob, tempfile, shutil, time
H = '/verif'
def load():
    out = {}
    for f in sorted(glob.glob(H + '/tools/seed_defs/*.py')):
        s = importlib.util.spec_from_file_location('x', f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
        for d in m.SEEDS: out[d['id']] = d
    return out
DEMO = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the change
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -g -O1 -w %(san)s -DBALAU_DEBUG -include complex -include fstream -include boost/filesystem/fstream.hpp -include boost/core/demangle.hpp -I"$PWD/src/main/cpp" -I"$PWD/_build/src/main/cpp" "$D/demo.cpp" %(srcs)s -o "$T/demo" %(libs)s || exit 98
cd "$T" && timeout %(timeout)d ./demo
'''
def make(d):
    o = f"{H}/seeded/{d['id']}"; os.makedirs(o, exist_ok=True)
    w = tempfile.mkdtemp(dir='/tmp')
    try:
        subprocess.run(['git', 'init', '-q', w], check=True)
        eds = d['edits'] if isinstance(d['edits'], dict) else {d['file']: d['edits']}
        for f in eds:
            os.makedirs(os.path.dirname(f'{w}/{f}'), exist_ok=True); shutil.copy(f'/repo/{f}', f'{w}/{f}')
        subprocess.run(['git', '-C', w, 'add', '-A'], check=True)
        subprocess.run(['git', '-C', w, '-c', 'user.name=x', '-c', 'user.email=x', 'commit', '-qm', 'x'], check=True)
        for f, es in eds.items():
            t = open(f'{w}/{f}').read()
            for e in es:
                n = t.count(e[0]); k = e[2] if len(e) > 2 else None
                assert n == 1 or (k is not None and n > k), (d['id'], f, n, e[0])
                if k is None: t = t.replace(e[0], e[1])
                else:
                    p = -1
                    for _ in range(k + 1): p = t.index(e[0], p + 1)
                    t = t[:p] + e[1] + t[p + len(e[0]):]
            open(f'{w}/{f}', 'w').write(t)
        p = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True, check=True).stdout
        open(o + '/patch.diff', 'w').write(p)
    finally: shutil.rmtree(w)
    open(o + '/demo.cpp', 'w').write(d['demo'].lstrip())
    for x in d.get('files', ()): shutil.copy(f'{H}/drivers/{x}', o)
    srcs = ' '.join('"$PWD/%s"' % s for s in d.get('srcs', ()))
    open(o + '/demo.sh', 'w').write(DEMO % dict(san=d.get('san', '-fsanitize=address,undefined -fno-sanitize-recover=all'), srcs=srcs, libs=d.get('libs', '-licuuc -lboost_stacktrace_backtrace -ldl -lpthread'), timeout=d.get('timeout', 60)))
    os.chmod(o + '/demo.sh', 0o755)
    json.dump(dict(property=d['property'], needs=d['needs'], what_it_breaks=d['breaks']), open(o + '/meta.json', 'w'), indent=1)
if __name__ == '__main__':
    D = load(); ids = [i for i in D if any(i.startswith(a) for a in sys.argv[2:])] if sys.argv[2:] else list(D)
    if sys.argv[1] == 'make':
        for i in ids: make(D[i]); print('made', i)
    if sys.argv[1] in ('try', 'demo'):
        assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain', '-uno'], capture_output=True, text=True).stdout
        for i in ids:
            make(D[i])
            a = subprocess.run([f'{H}/seeded/{i}/demo.sh'], cwd='/repo', capture_output=True, text=True)
            subprocess.run(['git', '-C', '/repo', 'apply', f'{H}/seeded/{i}/patch.diff'], check=True)
            try:
                b = subprocess.run([f'{H}/seeded/{i}/demo.sh'], cwd='/repo', capture_output=True, text=True)
                print(f'{i}: demo clean {a.returncode} patched {b.returncode}', (a.stderr[-300:] if a.returncode else ''), (b.stderr[-1500:] if b.returncode == 98 else ''), flush=True)
                if sys.argv[1] == 'try':
                    t = time.time()
                    r = subprocess.run(['./check.py', D[i]['property']], cwd=H, capture_output=True, text=True)
                    print('  check exit', r.returncode, f'{time.time()-t:.0f}s'); print('   ', '\n    '.join([l[:300] for l in r.stdout.split('\n') if 'VIOLATION' in l or 'FAIL' in l or 'failed' in l][:12]), r.stderr[-300:], flush=True)
                else:
                    if subprocess.run(['bash', '/opt/vp/build.sh'], capture_output=True).returncode: print('   BUILD FAILS')
                    else:
                        subprocess.run(['bash', '/opt/vp/test.sh', '/tmp/seed_out.json'], capture_output=True)
                        o = json.load(open('/tmp/seed_out.json')); base = json.load(open('/opt/vp/BASELINE.json'))
                        print('   tests', {k: (len(v) if isinstance(v, (list, dict)) else v) for k, v in o.items()}, 'base', {k: (len(v) if isinstance(v, (list, dict)) else v) for k, v in base.items()})
            finally: subprocess.run(['git', '-C', '/repo', 'apply', '-R', f'{H}/seeded/{i}/patch.diff'], check=True)
        if sys.argv[1] == 'demo': subprocess.run(['bash', '/opt/vp/build.sh'], capture_output=True)
