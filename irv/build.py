import subprocess, os, re, tempfile, hashlib, shutil, sys, time
from . import ir
REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXX = '/usr/bin/clang++-18'
OPT = '/usr/bin/opt-18'
CFLAGS = ['-std=c++17', '-DBALAU_DEBUG', '-DBALAU_STACK_TRACES', '-DBOOST_STACKTRACE_LINK', '-DBOOST_STACKTRACE_USE_BACKTRACE',
         '-include', 'complex', '-include', 'fstream', '-include', 'boost/filesystem/fstream.hpp', '-include', 'boost/core/demangle.hpp', '-w']
DEFS = {'BALAU_ENABLE_ZLIB', 'BALAU_ENABLE_ZIP', 'BALAU_ENABLE_CURL', 'BALAU_ENABLE_HTTP', 'BALAU_ENABLE_STACKTRACES', 'BOOST_BEAST_NEW_API'}
def flags(trace=False):
    return CFLAGS + [f'-I{REPO}/src/main/cpp', f'-I{gen(trace)}', f'-I{HERE}/drivers']
class BuildError(Exception): pass

def gen(trace=True):
    """the two headers that CMake generates, made again from their templates with the options of /opt/vp/build.sh"""
    d = os.path.join(scratch(), 'gen' if trace else 'gen_ir')     # for the verifier: without the stack trace text that exceptions carry
    if os.path.isdir(d): return d
    os.makedirs(d + '/Balau/Type')
    for f in ('BalauConfig.hpp', 'Type/BalauVersion.hpp'):
        t = open(f'{REPO}/src/main/cpp/Balau/{f}.in').read()
        t = re.sub(r'^#cmakedefine (\w+).*$', lambda m: f'#define {m.group(1)}' if m.group(1) in DEFS and (trace or m.group(1) != 'BALAU_ENABLE_STACKTRACES') else f'/* #undef {m.group(1)} */', t, flags=re.M)
        t = re.sub(r'@(\w+)@', '0', t)
        open(f'{d}/Balau/{f}', 'w').write(t)
    return d

def scratch():
    d = os.environ.get('VERIF_SCRATCH')
    if not d:
        d = tempfile.mkdtemp(prefix='irv_', dir='/var/tmp' if os.access('/var/tmp', os.W_OK) else None)
        os.environ['VERIF_SCRATCH'] = d
        import atexit
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    return d

def emit_ll(src, extra=()):
    """clang -> IR text (no optimisation beyond scalar replacement)"""
    d = scratch(); gen(False)
    b = os.path.join(d, os.path.basename(src))
    cmd = [CXX] + flags(False) + ['-fno-access-control', '-g1', '-O1', '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm', src, '-o', b + '.ll', *extra]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise BuildError(' '.join(cmd) + '\n' + r.stderr[-4000:])
    r = subprocess.run([OPT, '-S', '-passes=sroa', b + '.ll', '-o', b + '.sroa.ll'], capture_output=True, text=True)
    os.unlink(b + '.ll')
    if r.returncode: raise BuildError(r.stderr[-3000:])
    return b + '.sroa.ll'
def emit_ir(src, extra=()):
    f = emit_ll(src, extra)
    m = ir.Module(open(f).read())
    os.unlink(f)
    return m

def build_driver(src, sources=(), libs=(), san='address,undefined', extra=()):
    """compile a driver and the sources of /repo that it needs, with sanitizers; objects in parallel"""
    d = scratch(); gen(False)
    from concurrent.futures import ThreadPoolExecutor
    def cc(s):
        o = os.path.join(d, 'drv_' + hashlib.sha1(s.encode()).hexdigest()[:10] + '.o')
        cmd = [CXX] + flags() + ['-O1', '-g', '-fno-access-control', f'-fsanitize={san}', '-fno-sanitize-recover=all', *extra, '-c', s, '-o', o]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: raise BuildError(' '.join(cmd) + '\n' + r.stderr[-4000:])
        return o
    with ThreadPoolExecutor(8) as ex: objs = list(ex.map(cc, [src] + [f'{REPO}/src/main/cpp/Balau/{s}' for s in sources]))
    out = os.path.join(d, 'driver_' + os.path.basename(src)[:-4])
    cmd = [CXX, f'-fsanitize={san}', *objs, '-o', out, '-licuuc', '-lpthread', *libs]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise BuildError(' '.join(cmd) + '\n' + r.stderr[-4000:])
    return out
