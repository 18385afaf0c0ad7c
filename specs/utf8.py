"""Contracts of Balau::Character's UTF-8 functions (Type/Character.hpp)."""
from irv.lib import *

class CharSpec(Spec):
    nm = ''
    uses = True            # usable at call sites
    def matches(self, E, name, dem): return dem.startswith(f'Balau::Character::{self.nm}(')
    @property
    def fn(self): return rf'^Balau::Character::{self.nm}\('
    def view(self, E, st, p):
        n = E.load(st, p, ir.I(64)); q = E.load(st, Ptr(p.obj, p.c + 8, p.idx, p.stride), ir.PTR)
        return strs.ptr_slice(E, st, q, n)
    def setup(self, E, st, f):
        a, self.s = in_sv(E, st, 'text', maxlen=INTMAX)
        p, self.off0 = in_int(E, st, 'offset')
        self.poff = p
        st.assume(self.pre(self.s, self.off0))
        self.o64 = sx(self.off0)
        st.hints += [self.o64]
        return [a[0], p]
    def model_inputs(self, m):
        n = m.eval(self.s.n, True).as_long()
        return dict(len=n, offset=m.eval(self.off0, True).as_signed_long(), bytes=[m.eval(self.s.at(bv(i)), True).as_long() for i in range(min(n, 64))])
    def post(self, E, st, ret, exc):
        if exc is not None: return [('no exception', z3.BoolVal(False))]
        return self.ensures(self.s, self.off0, ret, cellv(E, st, self.poff))
    def apply(self, E, st, args, ins):
        s = self.view(E, st, args[0])
        off = E.load(st, args[1], ir.I(32))
        off2 = fbv('offset', 32)
        ret = fbv('cp', 32) if self.ret else None
        T = text8_of(st, s)
        if T is not None:
            # the text is known to be valid: the contract in terms of its code points
            b = z3.simplify(s.off)
            o, o2 = z3.simplify(b + sx(off)), b + sx(off2)
            E.store(st, args[1], off2, ir.I(32))
            st.hints += [o, sx(off), sx(off2)]
            end = T.B(z3.simplify(b + s.n))
            if self.fwd:
                E.oblige(st, 'call-precondition', f'{self.nm}: offset within the text and at a code point boundary', z3.And(inrange(s, off), T.B(o), end))
                st.assume(sx(off2) == sx(off) + T.LEN(o), off2 >= 0, T.B(o), T.B(o + T.LEN(o)))
                if ret is not None: st.assume(ret == T.CP(o))
            else:
                E.oblige(st, 'call-precondition', f'{self.nm}: offset within the text and at a code point boundary', z3.And(in_prev(s, off), T.B(o), T.B(b)))
                st.assume(sx(off2) == T.PRV(o) - b, off2 >= 0, T.B(o), T.B(T.PRV(o)), o == T.PRV(o) + T.LEN(T.PRV(o)))
                if ret is not None: st.assume(ret == T.CP(T.PRV(o)))
            return ret
        E.oblige(st, 'call-precondition', f'{self.nm}: offset within the text and at a code point boundary', self.pre(s, off))
        E.store(st, args[1], off2, ir.I(32))
        for n, g in self.ensures(s, off, ret, off2): st.assume(g)
        st.hints += [sx(off), sx(off2)]
        return ret
    ret = True
    fwd = True

def inrange(s, off): return z3.And(off >= 0, z3.ULT(sx(off), s.n), z3.ULE(s.n, INTMAX))

class Next(CharSpec):
    nm = 'getNextUtf8'; title = 'decodes the code point at the offset and advances past it'
    def pre(self, s, off): return z3.And(inrange(s, off), u8_wf(s, sx(off)))
    def ensures(self, s, off, ret, off2):
        o = sx(off)
        return [('returns the code point encoded at the offset', ret == u8_cp(s, o)),
                ('offset advances by the length of the sequence', sx(off2) == o + u8_len(s.at(o))),
                ('the new offset does not pass the end', z3.ULE(sx(off2), s.n))]
class NextSafe(CharSpec):
    nm = 'getNextUtf8Safe'
    def pre(self, s, off): return inrange(s, off)
    def ensures(self, s, off, ret, off2):
        o = sx(off)
        wf = u8_wf(s, o)
        return [('well-formed: returns the code point', z3.Implies(wf, ret == u8_cp(s, o))),
                ('well-formed: advances by the sequence', z3.Implies(wf, sx(off2) == o + u8_len(s.at(o)))),
                ('ill-formed: returns a negative value', z3.Implies(z3.Not(wf), ret < 0)),
                ('always advances, never past the end', z3.And(sx(off2) > o, z3.ULE(sx(off2), s.n)))]
def prev_start(s, o, L):
    """a well-formed sequence of length L ends at o"""
    b = o - bv(L)
    return z3.And(z3.UGE(o, bv(L)), u8_wf(s, b), u8_len(s.at(b)) == bv(L))
def in_prev(s, off): return z3.And(off > 0, z3.ULE(sx(off), s.n), z3.ULE(s.n, INTMAX))
class Prev(CharSpec):
    nm = 'getPreviousUtf8'; fwd = False
    def pre(self, s, off):
        o = sx(off)
        return z3.And(in_prev(s, off), z3.Or(*[prev_start(s, o, L) for L in (1, 2, 3, 4)]))
    def ensures(self, s, off, ret, off2):
        o = sx(off)
        out = []
        for L in (1, 2, 3, 4):
            c = prev_start(s, o, L)
            if ret is not None: out.append((f'returns the preceding code point ({L} bytes)', z3.Implies(c, ret == u8_cp(s, o - L))))
            out.append((f'offset retreats to its first byte ({L} bytes)', z3.Implies(c, sx(off2) == o - L)))
        return out
    def invariants(self, E, L, entry, head):
        o = self.o64
        out = []
        for v in ints(L):
            for k in (0, 1, 2, 3):
                pass
            out.append(tmpl(f'{v.name} in [off-4, off]', v.key, lambda x: z3.And(sx(x) <= o, sx(x) >= o - 4, sx(x) >= 0)))
            out.append(tmpl(f'{v.name}: bytes after are trail', v.key, lambda x: z3.And(*[z3.Implies(z3.And(sx(x) <= o - i), u8_cont(self.s.at(o - i))) for i in (1, 2, 3, 4)])))
            out.append(tmpl(f'{v.name}>=0', v.key, lambda x: x >= 0))
            # accumulated bits, in terms of the distance from the end
        for c in ints(L, 32):
            for v in ints(L, 32):
                if v is c: continue
                def acc(g, st, c=c, v=v):
                    x, i = g(c.key), g(v.key)
                    if x is None or i is None: return None
                    t = lambda j: z3.ZeroExt(24, self.s.at(o - j)) & 0x3F
                    d = o - sx(i)
                    return z3.And(z3.ULE(d, 3), z3.UGE(d, 1), z3.Implies(d == 1, x == t(1)), z3.Implies(d == 2, x == (t(2) << 6 | t(1))), z3.Implies(d == 3, x == (t(3) << 12 | t(2) << 6 | t(1))))
                out.append((f'{c.name} holds the bits of the trail bytes after {v.name}', acc))
            for sfl in ints(L):
                if sfl.w not in (8, 32) or sfl is c: continue
                out.append((f'{sfl.name} == 6*(off - {c.name})', lambda g, st, c=c, sfl=sfl: None if g(c.key) is None or g(sfl.key) is None else sx(zx(g(sfl.key), 32)) == (o - sx(g(c.key))) * 6))
        for v in ints(L):
            for w in ints(L):
                if v is not w: out.append((f'{v.name} == off - {w.name}', lambda g, st, v=v, w=w: None if g(v.key) is None or g(w.key) is None else sx(zx(g(v.key), 32) if v.w < 32 else g(v.key)) == o - sx(g(w.key))))
                if v is not w and v.w == w.w: out.append((f'{v.name}=={w.name}', lambda g, st, v=v, w=w: None if g(v.key) is None or g(w.key) is None else g(v.key) == g(w.key)))
        return out
class PrevSafe(Prev):
    nm = 'getPreviousUtf8Safe'
    def pre(self, s, off): return in_prev(s, off)
    def ensures(self, s, off, ret, off2):
        return super().ensures(s, off, ret, off2) + [('always retreats, never before the start', z3.And(sx(off2) < sx(off), off2 >= 0))]
class Adv(Next):
    nm = 'advanceUtf8'; ret = False
    def pre(self, s, off): return z3.And(inrange(s, off), u8_wf(s, sx(off)))
    def ensures(self, s, off, ret, off2):
        o = sx(off)
        return [('offset advances by the length of the sequence', sx(off2) == o + u8_len(s.at(o))),
                ('the new offset does not pass the end', z3.ULE(sx(off2), s.n))]
class AdvSafe(NextSafe):
    nm = 'advanceUtf8Safe'; ret = False
    def ensures(self, s, off, ret, off2):
        o = sx(off)
        return [('well-formed: advances by the sequence', z3.Implies(u8_wf(s, o), sx(off2) == o + u8_len(s.at(o)))),
                ('always advances, never past the end', z3.And(sx(off2) > o, z3.ULE(sx(off2), s.n)))]
class Ret(Prev):
    nm = 'retreatUtf8'; ret = False
class RetSafe(PrevSafe):
    nm = 'retreatUtf8Safe'; ret = False

class ByteCount(CharSpec):
    nm = 'utf8ByteCount'
    def setup(self, E, st, f):
        self.c = fbv('c', 32); return [self.c]
    def model_inputs(self, m): return dict(c=m.eval(self.c, True).as_long())
    def ens(self, c, ret): return ret == z3.If(scalar(c), enc_len(c), bv(0))
    def post(self, E, st, ret, exc): return [('the UTF-8 length of the code point, 0 when it has none', self.ens(self.c, ret))]
    def apply(self, E, st, args, ins):
        r = fbv('u8len'); st.assume(self.ens(args[0], r)); return r

class SetUtf8(CharSpec):
    nm = 'setUtf8AndAdvanceOffset'
    def setup(self, E, st, f):
        a, self.v, self.d0 = in_str(E, st, 'dest', maxlen=INTMAX)
        p, self.off0 = in_int(E, st, 'offset')
        self.poff, self.pd = p, a[0]
        self.c = fbv('c', 32)
        o = sx(self.off0)
        st.assume(self.pre(self.d0, self.off0, self.c))
        self.k = fbv('k')
        st.hints += [o]
        return [a[0], p, self.c]
    def model_inputs(self, m): return dict(c=m.eval(self.c, True).as_long(), offset=m.eval(self.off0, True).as_signed_long(), len=m.eval(self.d0.n, True).as_long())
    def pre(self, s, off, c): return z3.And(scalar(c), off >= 0, z3.ULE(sx(off), s.n), z3.UGE(s.n - sx(off), enc_len(c)), z3.ULE(s.n, INTMAX))
    def ensures(self, s0, s1, off, off2, c):
        o = sx(off); L = enc_len(c)
        out = [('offset advances by the encoded length', sx(off2) == o + L), ('length unchanged', s0.n == s1.n)]
        for i in range(4):
            out.append((f'byte {i} of the encoding', z3.Implies(z3.UGT(L, i), s1.at(o + i) == enc_byte(c, i))))
        out.append(('every other byte is unchanged', QAll(lambda k: z3.Implies(z3.And(z3.ULT(k, s0.n), z3.Or(z3.ULT(k, o), z3.UGE(k, o + L))), s1.at(k) == s0.at(k)), s1.trig() + s0.trig() + [None], 'frame')))
        return out
    def post(self, E, st, ret, exc):
        if exc is not None: return [('no exception', z3.BoolVal(False))]
        v = out_str(E, st, self.pd)
        return self.ensures(self.d0, v.slice(st), self.off0, cellv(E, st, self.poff), self.c)
    def apply(self, E, st, args, ins):
        v = getstr(E, st, args[0]); off = E.load(st, args[1], ir.I(32)); c = args[2]
        s0 = v.slice(st)
        E.oblige(st, 'call-precondition', 'setUtf8AndAdvanceOffset: room for the code point', self.pre(s0, off, c))
        o = E.wobj(st, v.obj)
        rg = o.regions[0]
        na = fresh('u8set', rg.arr.sort())
        o.regions[0] = Region(rg.base, rg.es, rg.count, na)
        E.log(('arr', v.obj, 0))
        off2 = fbv('offset', 32)
        E.store(st, args[1], off2, ir.I(32))
        for n, g in self.ensures(s0, Slice(na, bv(0), v.n, 1), off, off2, c): st.assume(g)
        st.assume(z3.Select(na, v.n) == 0)
        st.hints += [sx(off), sx(off2)]
        return None

@rt.model(r'^utf8_prevCharSafeBody(_\d+)?$')
def m_prevsafe(E, st, a, ins, d):
    """ICU: (const uint8_t *s, int32_t start, int32_t *pi, UChar32 c, UBool strict): *pi indexes the (non-ASCII) byte just read"""
    s, start, pi, c = a[0], a[1], a[2], a[3]
    i = E.load(st, pi, ir.I(32))
    o = st.mem[s.obj]; rg = o.regions[0]
    E.oblige(st, 'bounds', 'utf8_prevCharSafeBody index', z3.And(i >= start, z3.ULT(sx(i), rg.count)))
    sl = Slice(rg.arr, bv(0), rg.count, 1)
    i2, r = fbv('i', 32), fbv('c', 32)
    e = sx(i) + 1
    sl2 = Slice(rg.arr, bv(0), e, 1)
    st.assume(i2 >= start, i2 <= i)
    for L in (2, 3, 4):
        st.assume(z3.Implies(z3.And(prev_start(sl2, e, L), sx(start) <= e - L), z3.And(sx(i2) == e - L, r == u8_cp(sl, e - L))))
    E.store(st, pi, i2, ir.I(32))
    return r
@rt.model(r'^utf8_back1SafeBody(_\d+)?$')
def m_back1(E, st, a, ins, d):
    """ICU: (const uint8_t *s, int32_t start, int32_t i) -> start of the sequence that contains the trail byte s[i]"""
    s, start, i = a
    o = st.mem[s.obj]; rg = o.regions[0]
    E.oblige(st, 'bounds', 'utf8_back1SafeBody index', z3.And(i >= start, z3.ULT(sx(i), rg.count)))
    e = sx(i) + 1
    sl2 = Slice(rg.arr, bv(0), e, 1)
    r = fbv('i', 32)
    st.assume(r >= start, r <= i)
    for L in (2, 3, 4):
        st.assume(z3.Implies(z3.And(prev_start(sl2, e, L), sx(start) <= e - L), sx(r) == e - L))
    return r

ALL = [Next(), NextSafe(), Prev(), PrevSafe(), Adv(), AdvSafe(), Ret(), RetSafe(), ByteCount(), SetUtf8()]
