"""Building blocks for contracts: symbolic inputs, spec predicates, invariant templates."""
import z3, re
from .core import *
from .logic import *
from .verify import Spec
from . import ir, strs, rt
from .strs import char_slice, rep_slice, empty_slice, splice, find_contract, Slice, StrV, getstr, setstr, new_str, ARR, matches_at, eq_slices, Matcher, NPOS

INTMAX = bv(0x7fffffff)
def zx(v, w=64): return v if v.size() == w else z3.ZeroExt(w - v.size(), v)
def sx(v, w=64): return v if v.size() == w else (z3.SignExt(w - v.size(), v) if v.size() < w else z3.Extract(w - 1, 0, v))

# ---------------------------------------------------------------- inputs
def in_buf(E, st, name, n, es=1):
    """read-only input memory of n elements"""
    o = E.new_buf(st, name, es, n, fresh(name, ARR[es]), 'input')
    return o
def in_sv(E, st, name, es=1, maxlen=None, byref=True):
    """a std::string_view argument -> (args, Slice)"""
    n = fbv(name + '_len')
    st.assume(z3.ULE(n, maxlen if maxlen is not None else strs.MAXLEN))
    o = in_buf(E, st, name, n, es)
    s = Slice(o.regions[0].arr, bv(0), n, es, o.id)
    st.hints += [n]
    if byref:
        h = E.new_obj(st, name + '&', 16, 'input')
        h.cells[0] = (8, n); h.cells[8] = (8, Ptr(o.id))
        return [Ptr(h.id)], s
    return [n, Ptr(o.id)], s
def in_str(E, st, name, es=1, maxlen=None):
    """a std::string argument (by reference) -> ([ptr], StrV, Slice of the entry contents)"""
    n = fbv(name + '_len')
    st.assume(z3.ULE(n, maxlen if maxlen is not None else strs.MAXLEN))
    v = new_str(E, st, es, fresh(name, ARR[es]), n, name)
    h = E.new_obj(st, name + '&', 32, 'input')
    h.cells[0] = (32, v)
    st.hints += [n]
    return [Ptr(h.id)], v, v.slice(st)
def in_cstr(E, st, name, es=1, maxlen=None):
    n = fbv(name + '_len')
    st.assume(z3.ULE(n, maxlen if maxlen is not None else strs.MAXLEN))
    o = in_buf(E, st, name, z3.simplify(n + 1), es)
    o.meta['cstrlen'] = n
    a = o.regions[0].arr
    s = Slice(a, bv(0), n, es, o.id)
    st.assume(s.at(n) == 0, QAll(lambda k: z3.Implies(z3.ULT(k, n), s.at(k) != 0), s.trig() + [None], 'cstr'))
    st.hints += [n]
    return [Ptr(o.id)], s
def in_int(E, st, name, w=32, val=None):
    """an int & argument"""
    v = fbv(name, w) if val is None else val
    h = E.new_obj(st, name + '&', w // 8, 'input')
    h.cells[0] = (w // 8, v)
    return Ptr(h.id), v
def out_obj(E, st, name, size):
    h = E.new_obj(st, name, size, 'input'); return Ptr(h.id)
def cellv(E, st, p): 
    c = st.mem[p.obj].cells.get(p.c)
    return c[1] if c else None
def ret_sv(E, st, ret, es=1):
    """returned string_view {len, ptr} -> (len, ptr)"""
    return ret[0], ret[1]
def out_str(E, st, p): 
    v = cellv(E, st, p)
    if not isinstance(v, StrV): raise Unsupported(f'result is not a string: {v}')
    return v

# ---------------------------------------------------------------- UTF-8 specification
def u8_len(b):
    """length announced by a lead byte, 0 when it is not a lead byte (Unicode 3.9, table 3-7)"""
    return z3.If(z3.ULT(b, 0x80), bv(1), z3.If(z3.And(z3.UGE(b, 0xC2), z3.ULE(b, 0xDF)), bv(2),
           z3.If(z3.And(z3.UGE(b, 0xE0), z3.ULE(b, 0xEF)), bv(3), z3.If(z3.And(z3.UGE(b, 0xF0), z3.ULE(b, 0xF4)), bv(4), bv(0)))))
def u8_cont(b): return (b & 0xC0) == 0x80
def u8_wf(s, k):
    """a well-formed sequence starts at k"""
    b0, b1, b2, b3 = [s.at(z3.simplify(k + i)) for i in range(4)]
    fit = lambda i: z3.And(z3.ULT(k, s.n), z3.UGE(s.n - k, i))
    return z3.Or(z3.And(fit(1), z3.ULT(b0, 0x80)),
                 z3.And(fit(2), z3.UGE(b0, 0xC2), z3.ULE(b0, 0xDF), u8_cont(b1)),
                 z3.And(fit(3), z3.UGE(b0, 0xE0), z3.ULE(b0, 0xEF), u8_cont(b1), u8_cont(b2),
                        z3.Implies(b0 == 0xE0, z3.UGE(b1, 0xA0)), z3.Implies(b0 == 0xED, z3.ULE(b1, 0x9F))),
                 z3.And(fit(4), z3.UGE(b0, 0xF0), z3.ULE(b0, 0xF4), u8_cont(b1), u8_cont(b2), u8_cont(b3),
                        z3.Implies(b0 == 0xF0, z3.UGE(b1, 0x90)), z3.Implies(b0 == 0xF4, z3.ULE(b1, 0x8F))))
def u8_cp(s, k):
    b = [z3.ZeroExt(24, s.at(z3.simplify(k + i))) for i in range(4)]
    return z3.If(z3.ULT(b[0], 0x80), b[0],
           z3.If(z3.ULT(b[0], 0xE0), ((b[0] & 0x1F) << 6) | (b[1] & 0x3F),
           z3.If(z3.ULT(b[0], 0xF0), ((b[0] & 0x0F) << 12) | ((b[1] & 0x3F) << 6) | (b[2] & 0x3F),
                 ((b[0] & 0x07) << 18) | ((b[1] & 0x3F) << 12) | ((b[2] & 0x3F) << 6) | (b[3] & 0x3F))))
def scalar(c): return z3.And(z3.ULE(c, 0x10FFFF), z3.Not(z3.And(z3.UGE(c, 0xD800), z3.ULE(c, 0xDFFF))))
def enc_len(c):
    return z3.If(z3.ULT(c, 0x80), bv(1), z3.If(z3.ULT(c, 0x800), bv(2), z3.If(z3.ULT(c, 0x10000), bv(3), bv(4))))
def enc_byte(c, i):
    """i-th byte (python int) of the encoding of c"""
    x = lambda sh: z3.Extract(7, 0, z3.LShR(c, sh))
    t = lambda sh: (x(sh) & 0x3F) | 0x80
    z = bv(0, 8)
    L1, L2, L3 = z3.ULT(c, 0x80), z3.ULT(c, 0x800), z3.ULT(c, 0x10000)
    return [z3.If(L1, x(0), z3.If(L2, x(6) | 0xC0, z3.If(L3, x(12) | 0xE0, x(18) | 0xF0))),
            z3.If(L1, z, z3.If(L2, t(0), z3.If(L3, t(6), t(12)))),
            z3.If(L2, z, z3.If(L3, t(0), t(6))),
            z3.If(L3, z, t(0))][i]
def u8_valid(s):
    """every code point boundary starts a well-formed sequence, every continuation byte belongs to one"""
    def body(k):
        b = s.at(k)
        own = z3.Or(*[z3.And(z3.UGE(k, bv(i)), z3.Not(u8_cont(s.at(k - i))), z3.UGT(u8_len(s.at(k - i)), bv(i)), *[u8_cont(s.at(k - j)) for j in range(1, i)]) for i in (1, 2, 3)])
        return z3.Implies(z3.ULT(k, s.n), z3.If(u8_cont(b), own, u8_wf(s, k)))
    return QAll(body, s.trig() + [None], 'utf8')
def boundary(s, k): return z3.Or(k == s.n, z3.And(z3.ULT(k, s.n), z3.Not(u8_cont(s.at(k)))))

class Text8:
    """A valid UTF-8 text, i.e. a concatenation of well-formed sequences (this is the definition of validity):
    B(k): a code point starts at k or the text ends there; LEN(k), CP(k): length and value of the one that starts at k
    (abbreviations of u8_len/u8_cp); PRV(k): start of the one that ends at k."""
    _n = 0
    def __init__(self, st, s):
        Text8._n += 1
        i = Text8._n
        self.s = s
        B64 = z3.BitVecSort(64)
        self.B = z3.Function(f'bnd8_{i}', B64, z3.BoolSort())
        self.LEN = z3.Function(f'len8_{i}', B64, B64)
        self.CP = z3.Function(f'cp8_{i}', B64, z3.BitVecSort(32))
        self.PRV = z3.Function(f'prv8_{i}', B64, B64)
        n = s.n; B, LEN, CP, PRV = self.B, self.LEN, self.CP, self.PRV
        tr = [B, None]
        def fwd(k):
            l = LEN(k)
            return z3.Implies(z3.And(z3.ULT(k, n), B(k)), z3.And(z3.UGE(l, 1), z3.ULE(l, 4), z3.ULE(l, n - k), B(k + l), self.mid(k, l)))
        def bck(k):
            q = PRV(k)
            return z3.Implies(z3.And(z3.UGT(k, 0), z3.ULE(k, n), B(k)), z3.And(z3.ULT(q, k), B(q), q + LEN(q) == k, z3.ULE(LEN(q), 4), self.mid(q, LEN(q))))
        def byt(k):
            b = s.at(k)
            return z3.Implies(z3.ULT(k, n), z3.And(B(k) == z3.Not(u8_cont(b)), z3.Implies(B(k), z3.And((LEN(k) == 1) == z3.ULT(b, 0x80), z3.Implies(LEN(k) == 1, CP(k) == z3.ZeroExt(24, b)), z3.ULE(CP(k), 0x10FFFF), (LEN(k) == 1) == z3.ULT(CP(k), 0x80)))))
        st.assume(B(bv(0)), B(n), QAll(fwd, [LEN, CP, None], 'u8fwd'), QAll(bck, [PRV, None], 'u8bck'), QAll(byt, s.trig(), 'u8byte'))
        st.ghost[('text8', s.arr.get_id())] = self
        self.keep = s.arr
    def mid(self, k, l):
        return z3.And(*[z3.Implies(z3.UGT(l, i), z3.Not(self.B(k + i))) for i in (1, 2, 3)])
def text8_of(st, s): return st.ghost.get(('text8', s.arr.get_id()))

# ---------------------------------------------------------------- invariant templates
def ints(L, w=None):
    return [v for v in L.vars if v.kind == 'i' and (w is None or v.w == w)]
def ptrs(L): return [v for v in L.vars if v.kind == 'p']
def strsv(L): return [v for v in L.vars if v.kind == 'abs' and isinstance(v.head, StrV)]

def tmpl(name, key, fn):
    """candidate over one loop variable"""
    return (name, lambda g, st: (lambda v: None if v is None or v is UNDEF else fn(v))(g(key)))
