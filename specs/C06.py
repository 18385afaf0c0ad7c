"""C06: Strings::split, splitAndTrim"""
from irv.lib import *
from irv import vecs
from . import utf8, C03

class Found(Spec):
    """delimiterFound(input, index, delimiter): the delimiter occurs at the index"""
    must_terminate = True
    def __init__(self, es):
        self.es = es; C = {1: 'std::string_view', 4: 'std::u32string_view'}[es]
        self.fn = rf'^bool Balau::Util::Strings::delimiterFound<.*>\({C} const&, unsigned long, {C} const&\)$'
        self.title = f'delimiterFound ({8 * es}-bit characters)'
    def setup(self, E, st, f):
        a, self.s = in_sv(E, st, 'text', self.es); b, self.t = in_sv(E, st, 'delimiter', self.es)
        self.p = fbv('index'); st.assume(z3.ULE(self.p, self.s.n))
        st.hints += [self.p]
        return a + [self.p] + b
    def model_inputs(self, m):
        f = lambda s: [m.eval(s.at(bv(i)), True).as_long() for i in range(min(m.eval(s.n, True).as_long(), 40))]
        return dict(text=f(self.s), delimiter=f(self.t), index=m.eval(self.p, True).as_long())
    def post(self, E, st, ret, exc):
        if exc is not None: return [('no exception', z3.BoolVal(False))]
        r = ret if z3.is_bool(ret) else ret != 0
        return [('true exactly when the delimiter occurs at the index', Iff(r, matches_at(self.s, self.p, self.t)))]
    def invariants(self, E, L, entry, head):
        s, t, p = self.s, self.t, self.p; out = []
        for v in ints(L, 64):
            for nm, k in ((f'{v.name}', lambda x: x), (f'{v.name}-index', lambda x: x - p)):
                out.append(tmpl(f'{nm} within text and delimiter', v.key, lambda x, k=k: z3.And(z3.ULE(k(x), t.n), z3.ULE(k(x), s.n - p))))
                out.append(tmpl(f'{nm} characters match', v.key, lambda x, k=k: QAll(lambda j: z3.Implies(z3.ULT(j, k(x)), s.at(p + j) == t.at(j)), [(s.leaf(), lambda y: y - p), t.leaf(), None], 'pre')))
            for w in ints(L, 64):
                if w is not v: out.append((f'{v.name}=index+{w.name}', lambda g, st, v=v, w=w: g(v.key) == p + g(w.key)))
        return out
    def measures(self, E, L, entry, head):
        return [(f'len-{v.name}', lambda g, st, k=v.key: self.s.n - g(k)) for v in ints(L, 64)] + [(f'dlen-{v.name}', lambda g, st, k=v.key: self.t.n - g(k)) for v in ints(L, 64)]
    # use by callers
    def matches(self, E, name, dem): return isinstance(E.spec, Split) and E.spec.es == self.es and re.search(self.fn, dem) is not None
    def apply(self, E, st, a, ins):
        sp = E.spec
        def view(p): return E.load(st, p, ir.I(64)), E.load(st, Ptr(p.obj, p.c + 8, p.idx, p.stride), ir.PTR)
        (n, q), (m, r) = view(a[0]), view(a[2])
        whole = isinstance(q, Ptr) and isinstance(r, Ptr) and q.obj == sp.s.obj and r.obj == sp.t.obj and q.idx is None and q.c == 0 and r.idx is None and r.c == 0
        if not whole or not (z3.simplify(n == sp.s.n).eq(z3.BoolVal(True)) and z3.simplify(m == sp.t.n).eq(z3.BoolVal(True))): return NotImplemented
        E.oblige(st, 'call-precondition', 'delimiterFound: index within the text', z3.ULE(a[1], n))
        return sp.M(a[1])

class Split(Spec):
    must_terminate = True
    def __init__(self, root, es):
        self.es = es; self.fn = rf'^vh_{root}{8 * es}$'
        self.title = f'split into pieces ({8 * es}-bit characters)'
    def setup(self, E, st, f):
        a, self.s = in_sv(E, st, 'text', self.es); b, self.t = in_sv(E, st, 'delimiter', self.es)
        self.compress = fbool('compress')
        s, t = self.s, self.t
        self.view_target = s.obj
        self.M = M = z3.Function('delimiter_at', BV64, z3.BoolSort())
        st.assume(QAll(lambda k: z3.Implies(M(k), z3.And(z3.ULE(k, s.n), z3.ULE(t.n, s.n - k), z3.Implies(t.n != 0, s.at(k) == t.at(bv(0))))), [M], 'fits'))
        B = z3.BoolSort()
        # START(p): the left-to-right scan starts a piece at p; NEXT(p): first delimiter at or after p, or the end; IDX(p): pieces delivered before p
        self.ST, self.NX, self.IX = z3.Function('start', BV64, B), z3.Function('next', BV64, BV64), z3.Function('idx', BV64, BV64)
        dl, n = t.n, s.n
        self.cnt = lambda p: z3.If(z3.And(self.compress, self.NX(p) == p), bv(0), bv(1))
        def nx(p):
            q = self.NX(p)
            return And(z3.Implies(z3.And(self.ST(p), z3.ULE(p, n)), z3.And(z3.ULE(p, q), z3.ULE(q, n), z3.Implies(q != n, z3.And(M(q), self.ST(q + dl), self.IX(q + dl) == self.IX(p) + self.cnt(p))))),
                       QAll(lambda k: z3.Implies(z3.And(self.ST(p), z3.ULE(p, k), z3.ULT(k, q)), z3.Not(M(k))), [M, self.NX, None], 'nomatch'))
        st.assume(self.ST(bv(0)), self.IX(bv(0)) == 0, QAll(nx, [self.NX], 'scan'))
        st.hints += [bv(0), n]
        out = E.new_obj(st, 'result', 24, 'input'); self.out = out.id
        return [Ptr(out.id)] + a + b + [self.compress]
    def model_inputs(self, m):
        f = lambda s: [m.eval(s.at(bv(i)), True).as_long() for i in range(min(m.eval(s.n, True).as_long(), 40))]
        return dict(text=f(self.s), delimiter=f(self.t), compress=str(m.eval(self.compress, True)))
    def elem_ok(self, st, v, k):
        """element k is the k-th delivered piece"""
        L, P = v.fields(st); b = z3.Select(P, k); l = z3.Select(L, k)
        return z3.Implies(z3.ULT(k, v.n), z3.And(z3.ULE(b, self.s.n), self.ST(b), self.IX(b) == k, l == self.NX(b) - b, z3.Implies(self.compress, l != 0)))
    def elems(self, st, v):
        L, P = v.fields(st)
        return QAll(lambda k: self.elem_ok(st, v, k), [L, P, None], 'elem')
    def post(self, E, st, ret, exc):
        if exc is not None: return [('no exception', z3.BoolVal(False))]
        v = cellv(E, st, Ptr(self.out))
        if not isinstance(v, vecs.VecV): raise Unsupported('result is not a vector')
        s, t = self.s, self.t
        one = t.n == 0
        L, P = v.fields(st)
        out = [('an empty delimiter gives the whole text', z3.Implies(one, z3.And(v.n == 1, z3.Select(P, bv(0)) == 0, z3.Select(L, bv(0)) == s.n))),
               ('every element is the piece with that number', Or(one, self.elems(st, v))),
               ('all pieces are delivered', Or(one, QEx(lambda f: z3.And(z3.ULE(f, s.n), self.ST(f), self.NX(f) == s.n, v.n == self.IX(f) + self.cnt(f)), [self.ST, None], 'fin')))]
        return out
    def invariants(self, E, L, entry, head):
        out = []; s, t, M = self.s, self.t, self.M
        vv = [v for v in L.vars if v.kind == 'abs' and isinstance(v.head, vecs.VecV)]
        iv = ints(L, 64)
        for v in iv:
            out.append(tmpl(f'{v.name}<=len', v.key, lambda x: z3.ULE(x, s.n)))
            out.append(tmpl(f'{v.name} starts a piece', v.key, lambda x: z3.And(self.ST(x), z3.ULE(x, self.NX(x)))))
            for w in iv:
                if w is v: continue
                k1, k2 = v.key, w.key
                out.append((f'{v.name}<={w.name}', lambda g, st, k1=k1, k2=k2: z3.ULE(g(k1), g(k2))))
                out.append((f'no delimiter in [{v.name},{w.name})', lambda g, st, k1=k1, k2=k2: (lambda a, b: QAll(lambda k: z3.Implies(z3.And(z3.ULE(a, k), z3.ULT(k, b)), z3.Not(M(k))), [M, None], 'nod'))(g(k1), g(k2))))
        for c in vv:
            out.append((f'{c.name} holds pieces', lambda g, st, k=c.key: self.elems(st, g(k)) if g(k).obj in st.mem else None))
            for v in iv:
                out.append((f'{c.name} has the pieces before {v.name}', lambda g, st, k=c.key, k1=v.key: g(k).n == self.IX(g(k1))))
                out.append((f'size <= {v.name}', lambda g, st, k=c.key, k1=v.key: z3.ULE(g(k).n, g(k1))))
        return out
    def measures(self, E, L, entry, head):
        out = []
        for v in ints(L, 64):
            out.append((f'len-{v.name}', lambda g, st, k=v.key: self.s.n - g(k)))
        return out

class SplitUse(Spec):
    """the contract of split (proved above) at its call in splitAndTrim"""
    fn = None
    def matches(self, E, name, dem): return isinstance(E.spec, SplitTrim) and re.match(r'^Balau::Util::Strings::split\(std::(u32)?string_view const&, std::(u32)?string_view const&, bool\)$', dem) is not None
    def apply(self, E, st, a, ins):
        sp = E.spec
        for p, s in ((a[1], sp.s), (a[2], sp.t)):
            n, q = E.load(st, p, ir.I(64)), E.load(st, Ptr(p.obj, p.c + 8, p.idx, p.stride), ir.PTR)
            if not (q.obj == s.obj and q.idx is None and q.c == 0 and z3.is_true(z3.simplify(n == s.n))): return NotImplemented
        c = a[3] if z3.is_bool(a[3]) else a[3] != 0
        if not z3.is_true(z3.simplify(c == sp.compress)): return NotImplemented
        v = vecs.new_vec(E, st, 'std::string_view' if sp.es == 1 else 'std::u32string_view', fbv('pieces')); st.assume(z3.ULE(v.n, vecs.MAXN))
        vecs.setvec(E, st, a[0], v)
        sp.orig = (v.n, v.fields(st))
        L, P = v.fields(st)
        st.assume(QAll(lambda k: z3.Implies(z3.ULT(k, v.n), z3.And(z3.Select(P, k) == sp.P(k), z3.Select(L, k) == sp.L(k), z3.ULE(sp.P(k), sp.s.n), z3.ULE(sp.L(k), sp.s.n - sp.P(k)))), [L, P, None], 'elem'))
        st.assume(v.n == sp.N)
        return None
class TrimUse(Spec):
    """trim (its contract is C03's): a function of the view it is given, that returns a part of it"""
    fn = None
    def matches(self, E, name, dem): return isinstance(E.spec, SplitTrim) and re.match(r'^Balau::Util::Strings::trim\(std::(u32)?string_view const&\)$', dem) is not None
    def apply(self, E, st, a, ins):
        sp = E.spec; p = a[0]
        n, q = E.load(st, p, ir.I(64)), E.load(st, Ptr(p.obj, p.c + 8, p.idx, p.stride), ir.PTR)
        if not isinstance(q, Ptr) or q.obj != sp.s.obj: return NotImplemented
        b = z3.simplify(bv(q.c // sp.es) + (q.idx if q.idx is not None else bv(0)))
        E.oblige(st, 'call-precondition', 'trim: a view within the text', z3.And(z3.ULE(b, sp.s.n), z3.ULE(n, sp.s.n - b)))
        return [sp.TN(b, n), E.norm(Ptr(q.obj, 0, sp.TB(b, n), sp.es))]
class SplitTrim(Spec):
    must_terminate = True
    def __init__(self, es):
        self.es = es; self.fn = rf'^vh_splitTrim{8 * es}$'
        self.title = f'splitAndTrim is split followed by trim on every piece ({8 * es}-bit characters)'
    def setup(self, E, st, f):
        a, self.s = in_sv(E, st, 'text', self.es); b, self.t = in_sv(E, st, 'delimiter', self.es)
        self.compress = fbool('compress'); self.view_target = self.s.obj
        F = z3.Function
        self.P, self.L, self.N = F('piece_start', BV64, BV64), F('piece_length', BV64, BV64), fbv('pieces')
        self.TB, self.TN = F('trim_start', BV64, BV64, BV64), F('trim_length', BV64, BV64, BV64)
        out = E.new_obj(st, 'result', 24, 'input'); self.out = out.id; self.orig = None
        return [Ptr(out.id)] + a + b + [self.compress]
    def trimmed(self, L, P, k): return z3.And(z3.Select(P, k) == self.TB(self.P(k), self.L(k)), z3.Select(L, k) == self.TN(self.P(k), self.L(k)))
    def post(self, E, st, ret, exc):
        if exc is not None: return [('no exception', z3.BoolVal(False))]
        v = cellv(E, st, Ptr(self.out))
        if not isinstance(v, vecs.VecV): raise Unsupported('result is not a vector')
        L, P = v.fields(st)
        return [('as many elements as split gives', v.n == self.N),
                ('every element is the trimmed piece', QAll(lambda k: z3.Implies(z3.ULT(k, self.N), self.trimmed(L, P, k)), [L, P, None], 'elem'))]
    def invariants(self, E, L, entry, head):
        out = []
        if self.orig is None: return out
        n, (L0, P0) = self.orig
        v = cellv(E, head, Ptr(self.out))
        def idx(x): return z3.simplify(bv(x.c // 16) + (x.idx if x.idx is not None else bv(0)))
        its = [(p.name, p.key, idx) for p in ptrs(L) if isinstance(p.head, Ptr) and 'rec' in getattr(head.mem.get(p.head.obj), 'meta', {})] + [(p.name, p.key, lambda x: x) for p in ints(L, 64)]
        for nm, key, f in its:
            def done(g, st, key=key, f=f):
                v = cellv(E, st, Ptr(self.out)); i = f(g(key)); LL, PP = v.fields(st)
                return QAll(lambda k: z3.Implies(z3.ULT(k, n), z3.If(z3.ULT(k, i), self.trimmed(LL, PP, k), z3.And(z3.Select(LL, k) == z3.Select(L0, k), z3.Select(PP, k) == z3.Select(P0, k)))), [LL, PP, None], 'part')
            out.append((f'elements before {nm} are trimmed', done))
            out.append((f'{nm}<=n', lambda g, st, key=key, f=f: z3.ULE(f(g(key)), n)))
        return out
    def measures(self, E, L, entry, head):
        if self.orig is None: return []
        n = self.orig[0]
        return [(f'n-{p.name}', lambda g, st, k=p.key: n - z3.simplify(bv(g(k).c // 16) + (g(k).idx if g(k).idx is not None else bv(0)))) for p in ptrs(L)] + [(f'n-{p.name}', lambda g, st, k=p.key: n - g(k)) for p in ints(L, 64)]

HARNESS = ['C06.cpp']
MODELS = vecs.MODELS
FOUND = [Found(1), Found(4)]
SPECS = FOUND + [Split('split', 1), Split('split', 4), SplitTrim(1), SplitTrim(4)]
CONTRACTS = FOUND + [SplitUse(), TrimUse()] + utf8.ALL
DRIVER = 'C06.cpp'
BOUND = 'all texts of length <= 8 over two letters with delimiters of length <= 3, random texts'
ASSUMPTIONS = ['std::vector has the value semantics of its standard contract (irv/vecs.py)', 'for splitAndTrim: the pieces are well formed UTF-8 (C03 covers trim)']
NOTE = '''split, delimiterFound and splitAndTrim with literal delimiters are proved for all texts, delimiters and both compress modes (8 and 32 bit); the regex overload of split
is left out (std::regex). Trusted: std::vector and std::basic_string_view by their standard contracts.'''
