"""Assumed contracts of std::basic_string / std::basic_string_view / C string functions."""
import z3, re
from .core import *
from .logic import *
from . import ir

NPOS = bv(-1)
ARR = {1: z3.ArraySort(BV64, z3.BitVecSort(8)), 2: z3.ArraySort(BV64, z3.BitVecSort(16)), 4: z3.ArraySort(BV64, z3.BitVecSort(32))}
MAXLEN = bv(1 << 40)

class StrV(Abs):
    """contents of a std::basic_string: a buffer object (n elements + terminator) and its length"""
    def __init__(self, es, obj, n): self.es, self.obj, self.n = es, obj, n
    def join_kind(self): return f'str{self.es}'
    def same(self, o): return isinstance(o, StrV) and self.obj == o.obj and self.n.eq(o.n)
    def havoc(self, E, st, nm):
        return new_str(E, st, self.es, fresh(nm + '_a', ARR[self.es]), fbv(nm + '_n'))
    def arr(self, st): return st.mem[self.obj].regions[0].arr
    def slice(self, st): return Slice(self.arr(st), bv(0), self.n, self.es, self.obj)
    def __repr__(self): return f'StrV({self.obj},{self.n})'

class Slice:
    __slots__ = ('arr', 'off', 'n', 'es', 'obj')
    def __init__(self, arr, off, n, es, obj=None): self.arr, self.off, self.n, self.es, self.obj = arr, off, n, es, obj
    def at(self, k): return z3.Select(self.arr, z3.simplify(self.off + k))
    def leaf(self):
        a = self.arr
        while a.decl().kind() == z3.Z3_OP_STORE: a = a.arg(0)
        return a.decl().name() if a.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
    def trig(self):
        """trigger: index term of the underlying array -> position in the slice"""
        l = self.leaf()
        return [(l, (lambda t: t - self.off))] if l else []

def new_str(E, st, es, arr, n, name='str', nul=True):
    n = z3.simplify(n)
    o = E.new_buf(st, name, es, z3.simplify(n + bv(1)), arr, 'heap')
    st.assume(z3.ULE(n, MAXLEN))
    if nul: st.assume(z3.Select(arr, n) == bv(0, 8 * es))
    return StrV(es, o.id, n)

def str_of_bytes(E, st, data, es=1):
    a = z3.K(BV64, bv(0, 8 * es))
    for i, x in enumerate(data):
        if x: a = z3.Store(a, bv(i), bv(x, 8 * es))
    o = E.new_buf(st, 'lit', es, bv(len(data) + 1), a)
    return StrV(es, o.id, bv(len(data)))

def getstr(E, st, p, es=1):
    v = E.getcell(st, p)
    if v is None or isinstance(v, Opaque):
        # a string the verifier has not seen: arbitrary contents
        v = new_str(E, st, es, fresh('anystr', ARR[es]), fbv('anylen'))
        E.setcell(st, p, 32, v)
    if not isinstance(v, StrV): raise Unsupported(f'not a string: {v}')
    return v
def setstr(E, st, p, v, old=None):
    E.setcell(st, p, 32, v)
def kill(E, st, v):
    if isinstance(v, StrV) and v.obj in st.mem:
        o = E.wobj(st, v.obj); o.freed = True
        E.freed_keep = getattr(E, 'freed_keep', [])
def ptr_slice(E, st, p, n, es=1):
    """n elements at pointer p"""
    if not isinstance(p, Ptr): raise Unsupported(f'slice of {p}')
    if z3.is_bv_value(n) and n.as_long() == 0 :
        return Slice(z3.K(BV64, bv(0, 8 * es)), bv(0), bv(0), es)
    if p.obj == 0:
        # a null view of length zero is the only legal one
        E.oblige(st, 'null-deref', 'non-empty view of null', n == 0)
        return Slice(z3.K(BV64, bv(0, 8 * es)), bv(0), bv(0), es)
    o = E.check_access(st, p, 'string access')
    if o is None: return Slice(fresh('dead', ARR[es]), bv(0), n, es)
    if not o.regions and o.meta.get('init') and o.cells:
        raise Unsupported('string over cells')
    if not o.regions:
        raise Unsupported(f'string pointer into {o.name}')
    ri = E.region_index(st, o, p, es)
    rg = o.regions[ri[0]]
    if rg.es != es: raise Unsupported('element size of string pointer')
    E.oblige(st, 'bounds', f'string view within {o.name}', z3.And(z3.ULE(ri[1], rg.count), z3.ULE(n, rg.count - ri[1])))
    return Slice(rg.arr, ri[1], n, es, p.obj)
def cstrlen(E, st, p, es=1):
    """length of the NUL-terminated string at p"""
    o = E.check_access(st, p, 'strlen')
    if o is None: return bv(0)
    if not o.regions: raise Unsupported(f'strlen of {o.name}')
    ri = E.region_index(st, o, p, es)
    rg = o.regions[ri[0]]
    by = o.meta.get('bytes', {}).get(rg.base)
    if by is not None and z3.is_bv_value(ri[1]):
        i = ri[1].as_long()
        return bv(by.index(0, i) - i)
    off = ri[1]
    kn = o.meta.get('cstrlen')
    if kn is not None:
        if z3.is_bv_value(off) and off.as_long() == 0: return kn
        if E.valid(st, z3.ULE(off, kn)): return z3.simplify(kn - off)
    n = fbv('strlen')
    st.assume(z3.ULT(n, MAXLEN), z3.Select(rg.arr, off + n) == 0,
              QAll(lambda k: z3.Implies(z3.ULT(k, n), z3.Select(rg.arr, off + k) != 0), [(E.leaf(rg.arr), lambda t: t - off), None], 'strlen'))
    E.oblige(st, 'bounds', f'terminator within {o.name}', z3.And(z3.ULE(off, rg.count), z3.ULT(n, rg.count - off)), assume=True) if o.meta.get('cstr') is None else None
    return n

# ---------------------------------------------------------------- predicates shared with the specifications
def eq_slices(a, b):
    """formula: equal contents"""
    if z3.is_bv_value(a.n) and z3.is_bv_value(b.n):
        if a.n.as_long() != b.n.as_long(): return z3.BoolVal(False)
    for x in (a, b):
        if z3.is_bv_value(x.n) and x.n.as_long() <= 64:
            return z3.And(a.n == b.n, *[a.at(bv(i)) == b.at(bv(i)) for i in range(x.n.as_long())])
    return And(a.n == b.n, QAll(lambda k: z3.Implies(z3.ULT(k, a.n), a.at(k) == b.at(k)), a.trig() + b.trig() + [None], 'eq'))

def matches_at(s, p, t):
    """t occurs in s at position p"""
    fit = z3.And(z3.ULE(p, s.n), z3.ULE(t.n, s.n - p))
    if z3.is_bv_value(t.n) and t.n.as_long() <= 32:
        return z3.And(fit, *[s.at(p + bv(i)) == t.at(bv(i)) for i in range(t.n.as_long())])
    return And(fit, QAll(lambda j: z3.Implies(z3.ULT(j, t.n), s.at(p + j) == t.at(j)),
                         [(l, (lambda x, f=f: f(x) - p)) for l, f in s.trig()] + t.trig() + [None], 'm'))

class Matcher:
    """M(p) <=> t occurs in s at p, as an uninterpreted predicate with its definition"""
    def __init__(self, E, st, s, t):
        key = ('M', s.arr.get_id(), z3.simplify(s.off).get_id(), z3.simplify(s.n).get_id(), t.arr.get_id(), z3.simplify(t.off).get_id(), z3.simplify(t.n).get_id())
        E.mcache = getattr(E, 'mcache', {})
        ent = E.mcache.get(key)
        if ent is None:
            f = z3.Function(f'match!{len(E.mcache)}', BV64, z3.BoolSort())
            ax = QAll(lambda p: Iff(f(p), matches_at(s, p, t)), [f], 'matchdef')
            ent = E.mcache[key] = (f, ax, s, t, (s.arr, s.off, s.n, t.arr, t.off, t.n, z3.simplify(s.off), z3.simplify(s.n), z3.simplify(t.off), z3.simplify(t.n)))
        self.f, self.ax = ent[0], ent[1]
        if not any(x is self.ax for x in st.pc): st.assume(self.ax)
    def __call__(self, p): return self.f(p)

def find_contract(E, st, s, t, pos):
    M = Matcher(E, st, s, t)
    r = fbv('find')
    st.assume(z3.Or(r == NPOS, z3.And(z3.UGE(r, pos), M(r), z3.ULE(r, s.n))),
              QAll(lambda p: z3.Implies(z3.And(z3.UGE(p, pos), z3.ULE(p, s.n), z3.Or(r == NPOS, z3.ULT(p, r))), z3.Not(M(p))), [M.f], 'find'))
    st.hints.append(r)
    return r
def rfind_contract(E, st, s, t, pos):
    M = Matcher(E, st, s, t)
    r = fbv('rfind')
    st.assume(z3.Or(r == NPOS, z3.And(z3.ULE(r, pos), M(r), z3.ULE(r, s.n))),
              QAll(lambda p: z3.Implies(z3.And(z3.ULE(p, pos), z3.ULE(p, s.n), z3.Or(r == NPOS, z3.UGT(p, r))), z3.Not(M(p))), [M.f], 'rfind'))
    st.hints.append(r)
    return r
def set_contract(E, st, s, pred, pos, forward, tr=()):
    """first/last position whose element satisfies pred"""
    r = fbv('fset')
    if forward:
        st.assume(z3.Or(r == NPOS, z3.And(z3.UGE(r, pos), z3.ULT(r, s.n), pred(s.at(r)))),
                  QAll(lambda p: z3.Implies(z3.And(z3.UGE(p, pos), z3.ULT(p, s.n), z3.Or(r == NPOS, z3.ULT(p, r))), z3.Not(pred(s.at(p)))), s.trig() + [None], 'fset'))
    else:
        st.assume(z3.Or(r == NPOS, z3.And(z3.ULE(r, pos), z3.ULT(r, s.n), pred(s.at(r)))),
                  QAll(lambda p: z3.Implies(z3.And(z3.ULE(p, pos), z3.ULT(p, s.n), z3.Or(r == NPOS, z3.UGT(p, r))), z3.Not(pred(s.at(p)))), s.trig() + [None], 'fset'))
    st.hints.append(r)
    return r
def eq_bool(E, st, a, b):
    f = eq_slices(a, b)
    if isg(f): return z3.simplify(f)
    e = fbool('streq')
    st.assume(Iff(e, f))
    return e
def compare_contract(E, st, a, b):
    """sign of the lexicographic comparison"""
    r = fbv('cmp', 32)
    d = fbv('cmpd')
    st.hints.append(d)
    lt = (lambda x, y: z3.ULT(x, y))
    st.assume(z3.ULE(d, a.n), z3.ULE(d, b.n),
              QAll(lambda k: z3.Implies(z3.ULT(k, d), a.at(k) == b.at(k)), a.trig() + b.trig() + [None], 'cmp'),
              z3.Or(z3.And(d == a.n, d == b.n, r == 0),
                    z3.And(d == a.n, z3.ULT(d, b.n), r < 0),
                    z3.And(z3.ULT(d, a.n), d == b.n, r > 0),
                    z3.And(z3.ULT(d, a.n), z3.ULT(d, b.n), a.at(d) != b.at(d), (r < 0) == lt(a.at(d), b.at(d)), r != 0)))
    return r

def splice(E, st, a, pos, dele, t, name='spl'):
    """slice/str contents a with [pos, pos+dele) replaced by slice t -> StrV"""
    es = a.es
    n = z3.simplify(a.n - dele + t.n)
    # small special cases keep terms ground
    if z3.is_bv_value(t.n) and t.n.as_long() <= 8 and z3.is_bv_value(dele) and dele.as_long() == 0 and z3.simplify(pos - a.n).eq(bv(0)) and z3.is_bv_value(z3.simplify(a.off)) and z3.simplify(a.off).as_long() == 0:
        arr = a.arr
        for i in range(t.n.as_long()): arr = z3.Store(arr, z3.simplify(a.n + bv(i)), t.at(bv(i)))
        arr = z3.Store(arr, n, bv(0, 8 * es))
        return new_str(E, st, es, arr, n, name, nul=False)
    arr = fresh(name, ARR[es])
    def body(k):
        return z3.Select(arr, k) == z3.If(z3.ULT(k, pos), a.at(k),
                                          z3.If(z3.ULT(k - pos, t.n), t.at(k - pos),
                                                z3.If(z3.ULT(k, n), a.at(k - t.n + dele), bv(0, 8 * es))))
    tr = [arr]
    for l, f in a.trig(): tr.append((l, lambda x, f=f: [f(x), f(x) - dele + t.n]))
    for l, f in t.trig(): tr.append((l, lambda x, f=f: f(x) + pos))
    # the terminator and everything the goal asks about inside the new string
    st.assume(QAll(lambda k: z3.Implies(z3.ULE(k, n), body(k)), tr, 'splice'))
    r = new_str(E, st, es, arr, n, name, nul=True)
    return r
def empty_slice(es): return Slice(z3.K(BV64, bv(0, 8 * es)), bv(0), bv(0), es)
def char_slice(c, es): return Slice(z3.K(BV64, c), bv(0), bv(1), es)
def rep_slice(c, n, es): return Slice(z3.K(BV64, c), bv(0), n, es)

# ---------------------------------------------------------------- models
MODELS = []
def model(rx):
    def d(fn):
        MODELS.append((re.compile(rx), fn)); return fn
    return d

def cls(d):
    """element size of the string class in a demangled name"""
    if 'u32string' in d or 'char32_t' in d: return 4
    if 'u16string' in d or 'char16_t' in d: return 2
    return 1

S = r'std::(?:string|u16string|u32string)'
SVW = r'std::(?:string_view|u16string_view|u32string_view)'
CH = r'(?:char|char16_t|char32_t)'

def throwing(E, st, ti): return Raise(Exc(ti))
OOR = '@_ZTISt12out_of_range'
LERR = '@_ZTISt12length_error'
def forkexc(E, st, okcond, ti, cont):
    """outcomes: cont(state) under okcond, an exception otherwise"""
    outs = []
    c = z3.simplify(okcond)
    if not z3.is_true(c) and E.feasible(st, z3.simplify(z3.Not(c))):
        s = st.clone(); s.assume(z3.simplify(z3.Not(c)))
        outs.append((s, None, Exc(ti)))
    if E.feasible(st, c):
        s = st.clone() if outs else st
        s.assume(c)
        v = cont(s)
        outs.append((s, v, None))
    return Outs(outs)

@model(r'^std::(?:allocator|__new_allocator)<.*>::(?:~)?(?:allocator|__new_allocator)\(')
def m_alloc(E, st, a, ins, d): return None

# --- std::basic_string members
@model(rf'^{S}::basic_string(?:<.*>)?\((.*)\)$')
def m_ctor(E, st, a, ins, d):
    es = cls(d)
    params = d[d.index('::basic_string') + len('::basic_string'):]
    m = re.match(r'(<.*?>)?\((.*)\)$', params)
    # template args may contain parentheses-free text only
    pl = params[params.rindex('(') + 1:-1] if '(' in params else ''
    this = a[0]
    pl0 = pl.split(',')[0].strip() if pl else ''
    def done(v): setstr(E, st, this, v); return None
    if pl in ('', ) or re.fullmatch(r'std::allocator<\w+> const&', pl):
        return done(str_of_bytes(E, st, b'', es))
    if re.fullmatch(rf'{S} const&', pl):
        s = getstr(E, st, a[1], es); return done(splice(E, st, s.slice(st), s.n, bv(0), empty_slice(es), 'copy'))
    if re.match(rf'{S}&&', pl):
        s = getstr(E, st, a[1], es)
        v = new_str(E, st, es, s.arr(st), s.n, 'moved', nul=False)
        setstr(E, st, a[1], str_of_bytes(E, st, b'', es)); kill(E, st, s)
        return done(v)
    if re.match(rf'{S} const&, unsigned long', pl):
        s = getstr(E, st, a[1], es); pos = a[2]
        n = a[3] if 'unsigned long, unsigned long' in pl else NPOS
        def cont(st2):
            m = z3.simplify(z3.If(z3.ULT(n, s.n - pos), n, s.n - pos))
            sl = Slice(s.arr(st2), pos, m, es)
            setstr(E, st2, this, splice(E, st2, empty_slice(es), bv(0), bv(0), sl, 'sub'))
        return forkexc(E, st, z3.ULE(pos, s.n), OOR, cont)
    if re.match(rf'{CH} const\*, (?:std::allocator|$)', pl) or re.fullmatch(rf'{CH} const\*', pl):
        n = cstrlen(E, st, a[1], es)
        return done(splice(E, st, empty_slice(es), bv(0), bv(0), ptr_slice(E, st, a[1], n, es), 'lit'))
    if re.match(rf'{CH} const\*, unsigned long', pl):
        return done(splice(E, st, empty_slice(es), bv(0), bv(0), ptr_slice(E, st, a[1], a[2], es), 'buf'))
    if re.match(rf'unsigned long, {CH}', pl):
        return done(splice(E, st, empty_slice(es), bv(0), bv(0), rep_slice(a[2], a[1], es), 'rep'))
    if re.match(rf'(?:{SVW}) const&, std::allocator', pl):
        n = E.load(st, a[1], ir.I(64)); p = E.load(st, Ptr(a[1].obj, a[1].c + 8, a[1].idx, a[1].stride), ir.PTR)
        return done(splice(E, st, empty_slice(es), bv(0), bv(0), ptr_slice(E, st, p, n, es), 'sv'))
    if re.match(rf'(?:{SVW}) const&, unsigned long, unsigned long', pl):
        n = E.load(st, a[1], ir.I(64)); p = E.load(st, Ptr(a[1].obj, a[1].c + 8, a[1].idx, a[1].stride), ir.PTR)
        pos, cnt = a[2], a[3]
        def cont(st2):
            m = z3.simplify(z3.If(z3.ULT(cnt, n - pos), cnt, n - pos))
            s = ptr_slice(E, st2, p, n, es)
            setstr(E, st2, this, splice(E, st2, empty_slice(es), bv(0), bv(0), Slice(s.arr, s.off + pos, m, es), 'sub'))
        return forkexc(E, st, z3.ULE(pos, n), OOR, cont)
    if re.match(rf'std::initializer_list<{CH}>', pl):
        return done(splice(E, st, empty_slice(es), bv(0), bv(0), ptr_slice(E, st, a[1], a[2], es), 'il'))
    # iterator ranges: two pointers (or one-pointer iterator objects)
    if len(a) >= 3 and isinstance(a[1], Ptr) and isinstance(a[2], Ptr):
        n = E.pdiff_any(a[2], a[1])
        E.oblige(st, 'precondition', 'iterator range is ordered', n >= 0)
        return done(splice(E, st, empty_slice(es), bv(0), bv(0), ptr_slice(E, st, a[1], n, es), 'range'))
    raise Unsupported('string constructor ' + d)

@model(rf'^{S}::~basic_string\(\)$')
def m_dtor(E, st, a, ins, d):
    v = E.getcell(st, a[0])
    if isinstance(v, StrV): kill(E, st, v)
    E.delcell(st, a[0]); return None

def mutate(E, st, p, old, new):
    kill(E, st, old); setstr(E, st, p, new)

@model(rf'^{S}::(size|length|empty|data|c_str|capacity|begin|end|cbegin|cend|rbegin|rend|front|back|clear|pop_back|max_size|shrink_to_fit)\(\)(?: const)?$')
def m_acc(E, st, a, ins, d):
    m = re.search(r'::(\w+)\(\)(?: const)?$', d).group(1)
    es = cls(d)
    if m in ('rbegin', 'rend'): return NotImplemented
    v = getstr(E, st, a[0], es)
    if m in ('size', 'length'): return v.n
    if m == 'capacity':
        r = fbv('cap'); st.assume(z3.UGE(r, v.n)); return r
    if m == 'max_size': return bv(0x7ffffffffffffffe // es)
    if m == 'empty': return z3.simplify(v.n == 0)
    if m in ('data', 'c_str', 'begin', 'cbegin'): return Ptr(v.obj, 0, None, 1)
    if m in ('end', 'cend'): return E.norm(Ptr(v.obj, 0, v.n, es))
    if m in ('front', 'back'):
        E.oblige(st, 'precondition', f'string::{m} on a non-empty string', v.n != 0)
        return Ptr(v.obj) if m == 'front' else E.norm(Ptr(v.obj, 0, z3.simplify(v.n - 1), es))
    if m == 'shrink_to_fit': return None
    if m == 'clear':
        mutate(E, st, a[0], v, str_of_bytes(E, st, b'', es)); return None
    if m == 'pop_back':
        E.oblige(st, 'precondition', 'string::pop_back on a non-empty string', v.n != 0)
        n = z3.simplify(v.n - 1)
        mutate(E, st, a[0], v, new_str(E, st, es, z3.Store(v.arr(st), n, bv(0, 8 * es)), n, 'pop', nul=False)); return None

@model(rf'^{S}::(operator\[\]|at)\(unsigned long\)(?: const)?$')
def m_index(E, st, a, ins, d):
    es = cls(d); v = getstr(E, st, a[0], es)
    if '::at(' in d:
        return forkexc(E, st, z3.ULT(a[1], v.n), OOR, lambda s: E.norm(Ptr(v.obj, 0, a[1], es)))
    E.oblige(st, 'precondition', 'string::operator[] index within the string', z3.ULE(a[1], v.n))
    return E.norm(Ptr(v.obj, 0, a[1], es))

def arg_slice(E, st, d, pl, a, i, es):
    """slice for the string-like parameter at a[i] described by parameter text pl -> (slice, next arg)"""
    if re.match(rf'{S}(?: const)?&', pl): return getstr(E, st, a[i], es).slice(st), i + 1
    if re.match(rf'{CH} const\*, unsigned long', pl): return ptr_slice(E, st, a[i], a[i + 1], es), i + 2
    if re.match(rf'{CH} const\*', pl):
        n = cstrlen(E, st, a[i], es); return ptr_slice(E, st, a[i], n, es), i + 1
    if re.match(rf'{SVW}(?: const)?&', pl) or re.match(r'std::basic_string_view<.*const&', pl):
        n = E.load(st, a[i], ir.I(64)); p = E.load(st, Ptr(a[i].obj, a[i].c + 8, a[i].idx, a[i].stride), ir.PTR)
        return ptr_slice(E, st, p, n, es), i + 1
    if re.match(rf'{SVW}', pl): return ptr_slice(E, st, a[i + 1], a[i], es), i + 2
    if re.match(rf'unsigned long, {CH}', pl): return rep_slice(a[i + 1], a[i], es), i + 2
    if re.match(rf'{CH}$|{CH},', pl): return char_slice(a[i], es), i + 1
    if re.match(rf'std::initializer_list', pl): return ptr_slice(E, st, a[i], a[i + 1], es), i + 2
    raise Unsupported('string parameter ' + pl)

def params(d):
    """text of the outermost parameter list"""
    depth = 0
    e = d.rindex(')')
    for i in range(e, -1, -1):
        if d[i] == ')': depth += 1
        if d[i] == '(':
            depth -= 1
            if depth == 0: return d[i + 1:e]
    return ''

@model(rf'^(?:.* )?{S}::(push_back|append|operator\+=|assign|operator=)(?:<.*>)?\(.*\)$')
def m_append(E, st, a, ins, d):
    es = cls(d.split('(')[0]) if 'u32' in d or 'u16' in d else 1
    m = re.search(r'::(push_back|append|operator\+=|assign|operator=)', d).group(1)
    pl = params(d)
    v = getstr(E, st, a[0], es)
    if len(a) >= 3 and isinstance(a[1], Ptr) and isinstance(a[2], Ptr) and m in ('append', 'assign'):
        n = E.pdiff_any(a[2], a[1])
        E.oblige(st, 'precondition', 'iterator range is ordered', n >= 0)
        t = ptr_slice(E, st, a[1], n, es)
    elif m == 'operator=' and re.match(rf'{S}&&', pl):
        if a[0].obj == a[1].obj and a[0].c == a[1].c: return a[0]
        s = getstr(E, st, a[1], es)
        nv = new_str(E, st, es, s.arr(st), s.n, 'moved', nul=False)
        mutate(E, st, a[0], v, nv)
        mutate(E, st, a[1], s, str_of_bytes(E, st, b'', es))
        return a[0]
    elif re.match(rf'{S} const&, unsigned long, unsigned long', pl):
        s = getstr(E, st, a[1], es)
        pos, cnt = a[2], a[3]
        E.oblige(st, 'precondition', 'append position within the string', z3.ULE(pos, s.n))
        t = Slice(s.arr(st), pos, z3.simplify(z3.If(z3.ULT(cnt, s.n - pos), cnt, s.n - pos)), es)
    else:
        t, _ = arg_slice(E, st, d, pl, a, 1, es)
    if m in ('assign', 'operator='):
        if m == 'operator=' and isinstance(a[1], Ptr) and a[0].obj == a[1].obj and a[0].c == a[1].c: return a[0]
        nv = splice(E, st, empty_slice(es), bv(0), bv(0), t, 'asg')
    else:
        nv = splice(E, st, v.slice(st), v.n, bv(0), t, 'app')
    mutate(E, st, a[0], v, nv)
    return None if m == 'push_back' else a[0]

@model(rf'^{S}::(reserve|resize)\(.*\)$')
def m_resize(E, st, a, ins, d):
    es = cls(d); v = getstr(E, st, a[0], es)
    if '::reserve' in d: return None
    c = a[2] if len(a) > 2 else bv(0, 8 * es)
    n = a[1]
    arr = fresh('rsz', ARR[es]); old = v.slice(st)
    st.assume(QAll(lambda k: z3.Implies(z3.ULE(k, n), z3.Select(arr, k) == z3.If(z3.ULT(k, n), z3.If(z3.ULT(k, old.n), old.at(k), c), bv(0, 8 * es))), [arr] + old.trig(), 'resize'))
    mutate(E, st, a[0], v, new_str(E, st, es, arr, n, 'rsz')); return None

@model(rf'^{S}::(erase|insert|replace)\(.*\)$')
def m_splice(E, st, a, ins, d):
    es = cls(d); v = getstr(E, st, a[0], es)
    m = re.search(r'::(erase|insert|replace)\(', d).group(1)
    pl = params(d)
    if m == 'erase' and pl.startswith('unsigned long'):
        pos, n = a[1], a[2]
        def cont(s):
            dele = z3.simplify(z3.If(z3.ULT(n, v.n - pos), n, v.n - pos))
            mutate(E, s, a[0], v, splice(E, s, v.slice(s), pos, dele, empty_slice(es), 'ers'))
            return a[0]
        return forkexc(E, st, z3.ULE(pos, v.n), OOR, cont)
    if m == 'erase' and '__normal_iterator' in pl:
        i = E.pdiff_any(a[1], Ptr(v.obj))
        if pl.count('__normal_iterator') >= 2 and len(a) > 2:
            j = E.pdiff_any(a[2], Ptr(v.obj))
        else: j = i + bv(1)
        E.oblige(st, 'precondition', 'erase range within the string', z3.And(z3.ULE(i, j), z3.ULE(j, v.n)))
        nv = splice(E, st, v.slice(st), i, z3.simplify(j - i), empty_slice(es), 'ers')
        mutate(E, st, a[0], v, nv)
        return E.norm(Ptr(nv.obj, 0, i, es))
    if m == 'insert' and pl.startswith('unsigned long, '):
        rest = pl[len('unsigned long, '):]
        t, _ = arg_slice(E, st, d, rest, a, 2, es)
        pos = a[1]
        def cont(s):
            mutate(E, s, a[0], v, splice(E, s, v.slice(s), pos, bv(0), t, 'ins'))
            return a[0]
        return forkexc(E, st, z3.ULE(pos, v.n), OOR, cont)
    if m == 'insert' and '__normal_iterator' in pl:
        i = E.pdiff_any(a[1], Ptr(v.obj))
        rest = pl[pl.rindex('>, ') + 3:] if '>, ' in pl else ''
        t, _ = arg_slice(E, st, d, rest, a, 2, es)
        E.oblige(st, 'precondition', 'insert position within the string', z3.ULE(i, v.n))
        nv = splice(E, st, v.slice(st), i, bv(0), t, 'ins')
        mutate(E, st, a[0], v, nv)
        return E.norm(Ptr(nv.obj, 0, i, es))
    if m == 'replace' and pl.startswith('unsigned long, unsigned long, '):
        t, _ = arg_slice(E, st, d, pl[len('unsigned long, unsigned long, '):], a, 3, es)
        pos, n = a[1], a[2]
        def cont(s):
            dele = z3.simplify(z3.If(z3.ULT(n, v.n - pos), n, v.n - pos))
            mutate(E, s, a[0], v, splice(E, s, v.slice(s), pos, dele, t, 'rep'))
            return a[0]
        return forkexc(E, st, z3.ULE(pos, v.n), OOR, cont)
    raise Unsupported(d)

@model(rf'^{S}::substr\(unsigned long, unsigned long\) const$')
def m_substr(E, st, a, ins, d):
    es = cls(d); v = getstr(E, st, a[1], es)
    pos, n = a[2], a[3]
    def cont(s):
        m = z3.simplify(z3.If(z3.ULT(n, v.n - pos), n, v.n - pos))
        setstr(E, s, a[0], splice(E, s, empty_slice(es), bv(0), bv(0), Slice(v.arr(s), pos, m, es), 'sub'))
    return forkexc(E, st, z3.ULE(pos, v.n), OOR, cont)

@model(rf'^(?:.* )?{SVW}::substr\(unsigned long, unsigned long\) const$')
def m_svsubstr(E, st, a, ins, d):
    es = cls(d)
    this, pos, n = a[0], a[1], a[2]
    ln = E.load(st, this, ir.I(64)); p = E.load(st, Ptr(this.obj, this.c + 8, this.idx, this.stride), ir.PTR)
    def cont(s):
        m = z3.simplify(z3.If(z3.ULT(n, ln - pos), n, ln - pos))
        q = p if p.obj == 0 else E.gep(s, ir.I(8 * es), [p, pos], None)
        return [m, q]
    return forkexc(E, st, z3.ULE(pos, ln), OOR, cont)

@model(rf'^{S}::operator std::basic_string_view<.*>\(\) const$|^{S}::operator {SVW}\(\) const$')
def m_tosv(E, st, a, ins, d):
    v = getstr(E, st, a[0], cls(d)); return [v.n, Ptr(v.obj)]

@model(rf'^(?:.* )?(?:{S}|{SVW})::(find|rfind|find_first_of|find_last_of|find_first_not_of|find_last_not_of|starts_with|ends_with)(?:<.*>)?\(.*\) const$')
def m_find(E, st, a, ins, d):
    m = re.search(r'::(find|rfind|find_first_of|find_last_of|find_first_not_of|find_last_not_of)(?:<.*>)?\(', d)
    if not m: return NotImplemented
    m = m.group(1)
    es = cls(d)
    isv = re.search(rf'{SVW}::{m}', d) is not None
    if isv:
        n = E.load(st, a[0], ir.I(64)); p = E.load(st, Ptr(a[0].obj, a[0].c + 8, a[0].idx, a[0].stride), ir.PTR)
        s = ptr_slice(E, st, p, n, es)
    else: s = getstr(E, st, a[0], es).slice(st)
    pl = params(d)
    if pl.startswith('unsigned long'): raise Unsupported(d)
    # (const C *, pos, n): counted
    if re.match(rf'{CH} const\*, unsigned long, unsigned long', pl):
        t = ptr_slice(E, st, a[1], a[3], es); pos = a[2]
    elif re.match(rf'{CH} const\*, unsigned long', pl):
        n = cstrlen(E, st, a[1], es); t = ptr_slice(E, st, a[1], n, es); pos = a[2]
    else:
        # template parameter T: const T & deduced to a string view convertible type
        if not re.match(rf'{S}|{SVW}|{CH}', pl): raise Unsupported(d)
        t, i = arg_slice(E, st, d, pl, a, 1, es); pos = a[i]
    if m == 'find':
        r = find_contract(E, st, s, t, pos)
        if hasattr(E.spec, 'on_find'): E.spec.on_find(E, st, s, t, pos, r)
        return r
    if m == 'rfind': return rfind_contract(E, st, s, t, pos)
    if not z3.is_bv_value(t.n): raise Unsupported('find_*_of with a symbolic set')
    cs = [t.at(bv(i)) for i in range(t.n.as_long())]
    inset = lambda c: z3.Or(*[c == x for x in cs]) if cs else z3.BoolVal(False)
    pred = (lambda c: z3.Not(inset(c))) if '_not_' in m else inset
    return set_contract(E, st, s, pred, pos, 'first' in m)

@model(rf'^(?:.* )?(?:{S}|{SVW})::compare(?:<.*>)?\(.*\) const$')
def m_compare(E, st, a, ins, d):
    es = cls(d)
    isv = re.search(rf'{SVW}::compare', d) is not None
    if isv:
        n = E.load(st, a[0], ir.I(64)); p = E.load(st, Ptr(a[0].obj, a[0].c + 8, a[0].idx, a[0].stride), ir.PTR)
        s = ptr_slice(E, st, p, n, es)
    else: s = getstr(E, st, a[0], es).slice(st)
    pl = params(d)
    i = 1
    if pl.startswith('unsigned long, unsigned long, '):
        pos, n = a[1], a[2]
        t, _ = arg_slice(E, st, d, pl[len('unsigned long, unsigned long, '):], a, 3, es)
        def cont(s2):
            m = z3.simplify(z3.If(z3.ULT(n, s.n - pos), n, s.n - pos))
            return compare_contract(E, s2, Slice(s.arr, z3.simplify(s.off + pos), m, es), t)
        return forkexc(E, st, z3.ULE(pos, s.n), OOR, cont)
    t, _ = arg_slice(E, st, d, pl, a, 1, es)
    return compare_contract(E, st, s, t)

@model(rf'^bool std::operator(==|!=|<|>|<=|>=)<{CH}, std::char_traits<.*>\((.*)\)$')
def m_cmpop(E, st, a, ins, d):
    op = re.search(r'operator(==|!=|<=|>=|<(?!c)|>(?!\())', d)
    op = re.match(r'^bool std::operator(==|!=|<=|>=|<|>)<', d).group(1)
    es = cls(d)
    pl = params(d)
    parts = split_params(pl)
    x, i = arg_slice(E, st, d, parts[0], a, 0, es)
    y, i = arg_slice(E, st, d, parts[1], a, i, es)
    if op in ('==', '!='):
        e = eq_bool(E, st, x, y)
        return e if op == '==' else z3.simplify(z3.Not(e))
    r = compare_contract(E, st, x, y)
    return {'<': r < 0, '>': r > 0, '<=': r <= 0, '>=': r >= 0}[op]

def split_params(pl):
    out = []; depth = 0; cur = ''
    for c in pl:
        if c in '<([{': depth += 1
        if c in '>)]}': depth -= 1
        if c == ',' and depth == 0: out.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    # std::type_identity aliases
    return [re.sub(r'^std::__type_identity<(.*)>::type$', r'\1', x) for x in out]

@model(rf'^{S} std::operator\+<{CH}, std::char_traits<.*\)$')
def m_plus(E, st, a, ins, d):
    es = cls(d)
    parts = split_params(params(d))
    x, i = arg_slice(E, st, d, parts[0], a, 1, es)
    y, i = arg_slice(E, st, d, parts[1], a, i, es)
    v = splice(E, st, x, x.n, bv(0), y, 'cat') if not (z3.is_bv_value(x.n)) else splice(E, st, splice(E, st, empty_slice(es), bv(0), bv(0), x, 'l').slice(st), x.n, bv(0), y, 'cat')
    for q, pr in ((1, parts[0]), (2, parts[1])):
        if pr.endswith('&&'):
            s = getstr(E, st, a[q], es); mutate(E, st, a[q], s, new_str(E, st, es, fresh('mvd', ARR[es]), fbv('mvd')))
    setstr(E, st, a[0], v); return None

@model(r'^(?:std::char_traits<(char|char32_t|char16_t)>::length\(|strlen$|std::__constant_string_p)')
def m_strlen(E, st, a, ins, d):
    return cstrlen(E, st, a[0], cls(d))

@model(r'^(?:std::char_traits<(?:char|char16_t|char32_t)>::compare\(|memcmp$|__builtin_memcmp)')
def m_memcmp(E, st, a, ins, d):
    es = cls(d)
    x, y = ptr_slice(E, st, a[0], a[2], es), ptr_slice(E, st, a[1], a[2], es)
    return compare_contract(E, st, x, y)

@model(r'^std::hash<std::.*string.*>::operator\(\)')
def m_hash(E, st, a, ins, d): return fbv('hash')

@model(r'^std::__throw_(\w+)\(')
def m_throw(E, st, a, ins, d):
    n = re.match(r'^std::__throw_(\w+)\(', d).group(1)
    ti = {'out_of_range_fmt': OOR, 'out_of_range': OOR, 'length_error': LERR, 'logic_error': '@_ZTISt11logic_error', 'bad_function_call': '@_ZTISt17bad_function_call',
          'invalid_argument': '@_ZTISt16invalid_argument', 'bad_alloc': '@_ZTISt9bad_alloc', 'system_error': '@_ZTISt12system_error', 'bad_cast': '@_ZTISt8bad_cast', 'bad_array_new_length': '@_ZTISt20bad_array_new_length'}.get(n)
    if ti is None: raise Unsupported(d)
    return Raise(Exc(ti))
