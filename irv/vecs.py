"""Assumed contract of std::vector: a sequence with value semantics.

The elements live in a buffer object of their own (an array per scalar field of the element); a vector
value is (buffer, number of elements).  Whatever may reallocate ends the life of the buffer, so that a
use of an iterator or reference after it is a use-after-free obligation."""
import z3, re
from .core import *
from .logic import *
from . import ir, strs
from .strs import StrV, new_str, ARR, empty_slice, params, split_params, forkexc, OOR

class Rec:
    """layout of an element: [(offset, kind, bytes, llvm type)]; kinds: i (integer), p (pointer into `target`), s (std::basic_string)"""
    def __init__(self, stride, fields, es=1):
        self.stride, self.fields, self.es = stride, fields, es
        self.types = [(o, t) for o, k, b, t in fields if t is not None]
        self.target = None            # object id that 'p' fields point into
    def field(self, off):
        for n, f in enumerate(self.fields):
            if f[0] == off: return n
    def sort(self, n): return z3.BitVecSort(8 * self.fields[n][2]) if self.fields[n][1] == 'i' else BV64
    def enc(self, E, st, n, v):
        o, k, b, t = self.fields[n]
        if k == 'i':
            if v is UNDEF or isinstance(v, Opaque): return fbv('undef', 8 * b)
            if isinstance(v, z3.BoolRef): return z3.If(v, bv(1, 8 * b), bv(0, 8 * b))
            if z3.is_bv(v): return v if v.size() == 8 * b else z3.ZeroExt(8 * b - v.size(), v)
        if k == 'p' and isinstance(v, Ptr):
            tg = getattr(E.spec, 'view_target', None)
            if v.obj == 0: return bv(0)
            if tg is None or v.obj != tg:
                E.oblige(st, 'post', 'element refers to the input', z3.BoolVal(False)); return bv(0)
            i = bv(v.c // self.es)
            if v.idx is not None:
                if v.stride != self.es: raise Unsupported('pointer element stride')
                i = z3.simplify(i + v.idx)
            return i
        raise Unsupported(f'element field of kind {k}: {v}')
    def dec(self, E, st, n, x, r):
        o, k, b, t = self.fields[n]
        x = z3.simplify(x)
        if k == 'p':
            tg = getattr(E.spec, 'view_target', None)
            if tg is None: raise Unsupported('pointer element')
            return E.norm(Ptr(tg, 0, x, self.es))
        if r[0] == 'i':
            if r[1] == 1: return z3.Extract(0, 0, x) == 1
            if r[1] < x.size(): return z3.Extract(r[1] - 1, 0, x)
        return x
    def getabs(self, E, st, o, p): raise Unsupported('abstract element')
    def setabs(self, E, st, o, p, v): raise Unsupported('abstract element')

def layout(elem):
    """Rec of an element type name, or an int size"""
    e = re.sub(r'\b(const|struct|class) ', '', elem).strip()
    ints = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'char32_t': 4, 'char16_t': 2, 'long long': 8, 'unsigned long long': 8, 'wchar_t': 4}
    if e in ints: return Rec(ints[e], [(0, 'i', ints[e], ir.I(8 * ints[e]))])
    if e in ('std::string_view', 'std::u32string_view', 'std::u16string_view') or e.startswith('std::basic_string_view<'):
        es = strs.cls(e); return Rec(16, [(0, 'i', 8, ir.I(64)), (8, 'p', 8, ir.PTR)], es)
    return None

class VecV(Abs):
    def __init__(self, elem, obj, n): self.elem, self.obj, self.n = elem, obj, n
    def join_kind(self): return 'vec ' + self.elem
    def same(self, o): return isinstance(o, VecV) and o.obj == self.obj and o.n.eq(self.n)
    def havoc(self, E, st, nm):
        v = new_vec(E, st, self.elem, fbv(nm + '_n')); st.assume(z3.ULE(v.n, MAXN)); return v
    def fields(self, st): return [r.arr for r in st.mem[self.obj].regions]
    def __repr__(self): return f'VecV({self.elem},{self.obj},{self.n})'
MAXN = bv(1 << 40)

def new_vec(E, st, elem, n, arrs=None):
    rc = layout(elem)
    if rc is None: raise Unsupported('vector of ' + elem)
    n = z3.simplify(n)
    o = E.new_obj(st, f'elements', None, 'heap')
    o.meta = {'rec': rc}
    o.regions = [Region(f[0], f[2], n, fresh(f'vec{f[0]}', z3.ArraySort(BV64, rc.sort(k))) if arrs is None else arrs[k]) for k, f in enumerate(rc.fields)]
    return VecV(elem, o.id, n)

def getvec(E, st, p, elem):
    E.touch(st, p, False)
    v = E.getcell(st, p)
    if v is None:
        v = new_vec(E, st, elem, fbv('anyvec')); st.assume(z3.ULE(v.n, MAXN)); E.setcell(st, p, 24, v)
    if not isinstance(v, VecV): raise Unsupported(f'not a vector: {v}')
    return v
def setvec(E, st, p, v, old=None):
    E.touch(st, p, True)
    if old is not None and old.obj in st.mem: E.wobj(st, old.obj).freed = True
    E.setcell(st, p, 24, v)
def grow(E, st, v, n):
    """same elements, room for n"""
    w = new_vec(E, st, v.elem, n, [r.arr for r in st.mem[v.obj].regions]); return w
def elemptr(E, v, i):
    return E.norm(Ptr(v.obj, 0, i, layout(v.elem).stride))

MODELS = []
def model(rx):
    def d(fn):
        MODELS.append((re.compile(rx), fn)); return fn
    return d
V = r'(?:\S.* )?std::vector<(?P<e>[\w:<>, ]*?), std::allocator<(?P=e)>>'
def el(rx, d): return re.match(rx, d).group('e')

CT = rf'^{V}::vector\((?P<p>.*)\)$'
@model(CT)
def m_ctor(E, st, a, ins, d):
    m = re.match(CT, d); e, pl = m.group('e'), m.group('p')
    if layout(e) is None: return NotImplemented
    if pl == '' or re.match(r'std::allocator<.*> const&$', pl): setvec(E, st, a[0], new_vec(E, st, e, bv(0))); return None
    if re.match(r'unsigned long, std::allocator<.*> const&$', pl):
        rc = layout(e); v = new_vec(E, st, e, a[1], [z3.K(BV64, z3.BitVecVal(0, 8 * f[2])) for f in rc.fields]) if all(f[1] == 'i' for f in rc.fields) else None
        if v is None: raise Unsupported(d)
        setvec(E, st, a[0], v); return None
    if pl.endswith('&&') and 'initializer' not in pl:
        v = getvec(E, st, a[1], e); setvec(E, st, a[0], v); E.setcell(st, a[1], 24, new_vec(E, st, e, bv(0))); return None
    if re.match(r'std::vector<.*> const&$', pl):
        v = getvec(E, st, a[1], e); setvec(E, st, a[0], grow(E, st, v, v.n)); return None
    raise Unsupported(d)
DT = rf'^{V}::~vector\(\)$'
@model(DT)
def m_dtor(E, st, a, ins, d):
    if layout(el(DT, d)) is None: return NotImplemented
    v = E.getcell(st, a[0])
    if isinstance(v, VecV) and v.obj in st.mem: E.wobj(st, v.obj).freed = True
    E.delcell(st, a[0]); return None
AC = rf'^{V}::(?P<m>size|empty|begin|end|cbegin|cend|data|front|back|clear|pop_back|capacity)\(\)(?: const)?$'
@model(AC)
def m_acc(E, st, a, ins, d):
    m = re.match(AC, d); e, f = m.group('e'), m.group('m')
    if layout(e) is None: return NotImplemented
    v = getvec(E, st, a[0], e)
    if f == 'size': return v.n
    if f == 'capacity':
        r = fbv('cap'); st.assume(z3.UGE(r, v.n)); return r
    if f == 'empty': return z3.simplify(v.n == 0)
    if f in ('begin', 'cbegin', 'data'): return Ptr(v.obj)
    if f in ('end', 'cend'): return elemptr(E, v, v.n)
    if f == 'clear': setvec(E, st, a[0], new_vec(E, st, e, bv(0)), v); return None
    E.oblige(st, 'precondition', f'vector::{f} on a non-empty vector', v.n != 0)
    if f == 'front': return Ptr(v.obj)
    if f == 'back': return elemptr(E, v, z3.simplify(v.n - 1))
    setvec(E, st, a[0], grow(E, st, v, z3.simplify(v.n - 1)), v); return None
IX = rf'^{V}::(?P<m>operator\[\]|at)\(unsigned long\)(?: const)?$'
@model(IX)
def m_index(E, st, a, ins, d):
    m = re.match(IX, d); e = m.group('e')
    if layout(e) is None: return NotImplemented
    v = getvec(E, st, a[0], e)
    if m.group('m') == 'at': return forkexc(E, st, z3.ULT(a[1], v.n), OOR, lambda s: elemptr(E, v, a[1]))
    E.oblige(st, 'precondition', 'vector::operator[] index within the vector', z3.ULT(a[1], v.n))
    return elemptr(E, v, a[1])
PB = rf'^{V}::(?P<m>push_back|emplace_back)(?:<(?P<t>.*)>)?\((?P<p>.*)\)$'
@model(PB)
def m_push(E, st, a, ins, d):
    m = re.match(PB, d); e = m.group('e'); rc = layout(e)
    if rc is None: return NotImplemented
    v = getvec(E, st, a[0], e)
    ps = split_params(m.group('p'))
    rd = lambda p, t: E.load(st, p, t)
    if len(ps) == 1 and (m.group('m') == 'push_back' or re.sub(r'(const|[& ])', '', ps[0]) == re.sub(r'(const|[& ])', '', e)):
        src = a[1]
        vals = [rd(Ptr(src.obj, src.c + o, src.idx, src.stride), t) for o, k, b, t in rc.fields]
    elif 'basic_string_view' in e or 'string_view' in e:
        if len(ps) == 2: vals = [rd(a[2], ir.I(64)), rd(a[1], ir.PTR)]
        else: raise Unsupported(d)
    elif len(ps) == 1 and rc.fields[0][1] == 'i' and len(rc.fields) == 1:
        w = layout(re.sub(r'[&]', '', ps[0]).strip())
        if w is None or w.stride != rc.stride: raise Unsupported(d)
        vals = [rd(a[1], rc.fields[0][3])]
    else: raise Unsupported(d)
    w = grow(E, st, v, z3.simplify(v.n + 1))
    setvec(E, st, a[0], w, v)
    for (o, k, b, t), x in zip(rc.fields, vals): E.store(st, E.norm(Ptr(w.obj, o, v.n, rc.stride)), x, t)
    return elemptr(E, w, v.n)
RS = rf'^{V}::(?P<m>reserve|shrink_to_fit)\('
@model(RS)
def m_res(E, st, a, ins, d):
    e = el(RS, d)
    if layout(e) is None: return NotImplemented
    v = getvec(E, st, a[0], e); setvec(E, st, a[0], grow(E, st, v, v.n), v); return None
