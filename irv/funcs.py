"""Assumed contract of std::function: it holds a callable or nothing; calling it calls the callable.

A callable made from a lambda (or functor) of /repo is kept by its type, and its operator() is executed in line;
a callable that comes from outside is an uninterpreted identity, and a call of it is an event the specification
sees (spec.on_call)."""
import z3, re
from .core import *
from .logic import *
from . import ir
from .strs import split_params

class FuncV(Abs):
    def __init__(self, id=None, lam=None, obj=None): self.id, self.lam, self.obj = id, lam, obj
    def join_kind(self): return f'func {self.lam}' if self.lam else 'func'
    def same(self, o): return isinstance(o, FuncV) and self.lam == o.lam and self.obj == o.obj and (self.id is None and o.id is None or self.id is not None and o.id is not None and self.id.eq(o.id))
    def havoc(self, E, st, nm):
        if self.lam: return self
        return FuncV(fbv(nm + '_fn'))
    def nonempty(self): return z3.BoolVal(True) if self.lam else z3.simplify(self.id != 0)
    def __repr__(self): return f'FuncV({self.id},{self.lam})'
EMPTY = FuncV(bv(0))
def any_func(name='fn', nonempty=False):
    return FuncV(fbv(name))
def getf(E, st, p):
    v = E.getcell(st, p)
    if v is None:
        v = any_func('anyfn'); E.setcell(st, p, 32, v)
    if not isinstance(v, FuncV): raise Unsupported(f'not a std::function: {v}')
    return v
def setf(E, st, p, v): E.setcell(st, p, 32, v)
MODELS = []
def model(rx):
    def d(fn): MODELS.append((re.compile(rx), fn)); return fn
    return d
T = r'std::function<(?P<sig>.*)>'
def tail(d, mark):
    """parameter list of the member named by mark"""
    i = d.rindex(mark); return d[i:]
BADCALL = '@_ZTISt17bad_function_call'

def top(d, head):
    """split 'std::function<SIG>::rest' at the matching bracket"""
    if not d.startswith(head): return None
    n = 0
    for i in range(len(head) - 1, len(d)):
        c = d[i]
        if c == '<' or c == '(': n += 1
        elif c == '>' and d[i - 1] != '-' or c == ')': n -= 1
        if n == 0: return d[len(head):i], d[i + 1:]
    return None
def from_functor(E, st, ty, p):
    ty = re.sub(r'( const)?&{1,2}$', '', ty.strip())
    if ty.endswith(')') and '(*)' in ty or re.search(r'\(\*\)', ty): # function pointer
        v = p if isinstance(p, FnPtr) else E.load(st, p, ir.PTR)
        if isinstance(v, FnPtr): return FuncV(lam=('fp', v.name))
        return any_func('fnptr')
    o = st.mem[p.obj]
    c = E.new_obj(st, 'callable', o.size, 'heap')
    w = st.mem[c.id]
    w.cells = {f - p.c: x for f, x in o.cells.items() if f >= p.c}; w.regions = list(o.regions) if p.c == 0 else []; w.type = o.type
    return FuncV(lam=('op', ty), obj=c.id)
@model(r'^(bool |std::enable_if<.*>::type & )?std::function<')
def m_fn(E, st, a, ins, d):
    if d.startswith('bool '): return NotImplemented
    d0 = d[d.index('std::function<'):] if not d.startswith('std::function<') else d
    if d.startswith('std::enable_if<'):
        i = d.rfind('std::function<', 0, d.find('::operator=') if '::operator=' in d else None); d0 = d[d.rindex('type&') + 5:].strip() if 'type&' in d else d[i:]
    t = top(d0, 'std::function<')
    if t is None: return NotImplemented
    sig, rest = t
    if rest.startswith('::function'):
        r = rest[len('::function'):]
        if r.startswith('<'):
            k = top(r, '<'); ps = k[1]
            ty = split_params(ps[1:-1])[0]
            if ty.startswith('std::function<'): # move through the converting constructor
                v = getf(E, st, a[1]); setf(E, st, a[0], v); return None
            setf(E, st, a[0], from_functor(E, st, ty, a[1])); return None
        ps = r[1:-1]
        if ps in ('', 'std::nullptr_t', 'decltype(nullptr)'): setf(E, st, a[0], EMPTY); return None
        v = getf(E, st, a[1]); setf(E, st, a[0], v)
        if ps.endswith('&&'): setf(E, st, a[1], EMPTY)
        return None
    if rest.startswith('::~function'): E.delcell(st, a[0]); return None
    if rest.startswith('::operator='):
        r = rest[len('::operator='):]
        if r.startswith('<'):
            k = top(r, '<'); ty = split_params(k[1][1:-1])[0]
            setf(E, st, a[0], from_functor(E, st, ty, a[1])); return a[0]
        ps = r[1:-1]
        if 'nullptr' in ps: setf(E, st, a[0], EMPTY); return a[0]
        if not ps.startswith('std::function<'):
            setf(E, st, a[0], from_functor(E, st, ps, a[1])); return a[0]
        v = getf(E, st, a[1])
        if ps.endswith('&&'): setf(E, st, a[1], EMPTY)
        setf(E, st, a[0], v); return a[0]
    if rest.startswith('::operator bool'): return getf(E, st, a[0]).nonempty()
    if rest.startswith('::swap'):
        x, y = getf(E, st, a[0]), getf(E, st, a[1]); setf(E, st, a[0], y); setf(E, st, a[1], x); return None
    if rest.startswith('::operator()'):
        # an aggregate result comes through a hidden first argument
        sp = re.match(r'(.*?)\((.*)\)$', sig); np = len(split_params(sp.group(2)))
        sret = len(a) == np + 2
        v = getf(E, st, a[1] if sret else a[0])
        if v.lam:
            kind, nm = v.lam
            if kind == 'fp': return E.call(st, nm, a[1:], ins) or INLINED
            cands = [n for n in E.m.funcs if E.m.dem[n].startswith(nm + '::operator()(')]
            if len(cands) == 0: raise Unsupported('operator() of ' + nm)
            args = ([a[0], Ptr(v.obj)] + a[2:]) if sret else [Ptr(v.obj)] + a[1:]
            return E.inline(st, E.m.funcs[cands[0]], fix_args(E, st, E.m.funcs[cands[0]], args, sret), nm) or INLINED
        outs = []
        ne = v.nonempty()
        if E.feasible(st, z3.simplify(z3.Not(ne))):
            s = st.clone(); s.assume(z3.simplify(z3.Not(ne))); outs.append((s, None, Exc(BADCALL)))
        if E.feasible(st, ne):
            s = st.clone() if outs else st
            s.assume(ne)
            h = getattr(E.spec, 'on_call', None)
            r = h(E, s, v, a, ins, sig) if h else NotImplemented
            if r is NotImplemented:
                if ins.t is not None and ins.t != ('void',) and not sret: r = E.freshval(ins.t, 'fnret')
                else: r = None
            if isinstance(r, Outs): outs += r.xs
            else: outs.append((s, r, None))
        return Outs(outs)
    raise Unsupported(d)
@model(r'^bool std::operator(==|!=)<.*>\(std::function<.*std::nullptr_t')
def m_null(E, st, a, ins, d):
    p = a[0] if isinstance(a[0], Ptr) and a[0].obj > 0 else a[1]
    v = getf(E, st, p).nonempty()
    return v if 'operator!=' in d else z3.simplify(z3.Not(v))
def fix_args(E, st, f, args, sret):
    """parameters that std::function takes by forwarding reference and the callable by value, or the reverse"""
    f.parse()
    out = []
    for k, (nm, t, at) in enumerate(f.params):
        if k >= len(args): raise Unsupported('callable arguments')
        v = args[k]; r = E.m.rtype(t)
        if r[0] != 'ptr' and isinstance(v, Ptr): v = E.load(st, v, t)
        out.append(v)
    return out
@model(r'^std::_Function_base::~_Function_base\(\)$')
def m_fbd(E, st, a, ins, d):
    if isinstance(E.getcell(st, a[0]), FuncV): E.delcell(st, a[0]); return None
    return NotImplemented
