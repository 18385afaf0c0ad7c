"""C03: Strings::trim, trimLeft, trimRight for UTF-8 and UTF-32 views"""
from irv.lib import *
from . import utf8
isspace = lambda c: rt.icu_fn('isJavaSpaceChar')(c) != 0

class Trim(Spec):
    must_terminate = True
    def __init__(self, nm, es, left, right):
        self.nm, self.es, self.left, self.right = nm, es, left, right
        v = 'std::string_view' if es == 1 else 'std::u32string_view'
        self.fn = rf'^Balau::Util::Strings::{nm}\({v} const&\)$'
        self.title = f'{nm} ({"UTF-8" if es == 1 else "UTF-32"}): result is the maximal sub-view without outer whitespace'
    def setup(self, E, st, f):
        a, self.s = in_sv(E, st, 'text', self.es, maxlen=INTMAX)
        s = self.s
        self.T = Text8(st, s) if self.es == 1 else None
        return a
    def model_inputs(self, m):
        n = m.eval(self.s.n, True).as_long()
        return dict(len=n, text=[m.eval(self.s.at(bv(i)), True).as_long() for i in range(min(n, 40))])
    # a position where a code point starts, and that code point
    def bnd(self, k): return z3.BoolVal(True) if self.es == 4 else self.T.B(k)
    def cp(self, k): return self.s.at(k) if self.es == 4 else self.T.CP(k)
    def blank(self, lo, hi):
        """every code point that starts in [lo, hi) is whitespace"""
        s = self.s
        return QAll(lambda k: z3.Implies(z3.And(z3.UGE(k, lo), z3.ULT(k, hi), z3.ULT(k, s.n), self.bnd(k)), isspace(self.cp(k))), (s.trig() if self.es == 4 else [self.T.B, self.T.CP]) + [None], 'blank')
    def at_bnd(self, k): return z3.And(z3.ULE(k, self.s.n), z3.Or(k == self.s.n, self.bnd(k)))
    def post(self, E, st, ret, exc):
        if exc is not None: return [('no exception', z3.BoolVal(False))]
        s = self.s
        n, p = ret
        out = []
        if not isinstance(p, Ptr) or p.obj != s.obj:
            return [('the result is a view of the input', z3.BoolVal(False))]
        b = p.idx if p.idx is not None else bv(0)
        if p.idx is not None and p.stride != s.es: b = bv(p.c // s.es) + (p.idx * p.stride if p.stride != s.es else p.idx)
        elif p.c: b = b + bv(p.c // s.es)
        b = z3.simplify(b)
        e = z3.simplify(b + n)
        st.hints += [b, e, z3.simplify(e - 1), z3.simplify(s.n - 1)]
        out.append(('the view lies inside the input', z3.And(z3.ULE(b, s.n), z3.ULE(n, s.n - b))))
        empty = n == 0
        if not self.left: out.append(('nothing is removed on the left', z3.Or(empty, b == 0)))
        if not self.right: out.append(('nothing is removed on the right', z3.Or(empty, e == s.n)))
        out.append(('an empty result means that all code points on the trimmed side are whitespace', Implies(empty, self.blank(bv(0), s.n))))
        if self.left:
            out.append(('only whitespace is removed on the left', Or(empty, self.blank(bv(0), b))))
            out.append(('the first remaining code point is not whitespace', z3.Or(empty, z3.And(self.bnd(b), z3.Not(isspace(self.cp(b)))))))
        if self.right:
            out.append(('only whitespace is removed on the right', Or(empty, self.blank(e, s.n))))
            if self.es == 4: last = z3.Not(isspace(s.at(e - 1)))
            else:
                last = z3.Not(isspace(self.T.CP(self.T.PRV(e))))
            out.append(('the last remaining code point is not whitespace', z3.Or(empty, z3.And(self.at_bnd(e), last))))
        return out
    def invariants(self, E, L, entry, head):
        s = self.s; out = []
        for v in ints(L):
            if v.w not in (32, 64): continue
            nm = v.name
            out.append(tmpl(f'{nm}<=len', v.key, lambda x: z3.And(x >= 0, z3.ULE(sx(x), s.n))))
            if self.es == 1:
                out.append(tmpl(f'{nm} at a code point boundary', v.key, lambda x: self.at_bnd(sx(x))))
                for d in (1, 2, 3, 4): pass
            out.append(tmpl(f'code points before {nm} are blank', v.key, lambda x: self.blank(bv(0), sx(x))))
            out.append(tmpl(f'code points from {nm} are blank', v.key, lambda x: self.blank(sx(x), s.n)))
        for v in ints(L):
            for w in ints(L):
                if v is not w and v.w == w.w:
                    out.append((f'{v.name}=={w.name}', lambda g, st, v=v, w=w: None if g(v.key) is None or g(w.key) is None else g(v.key) == g(w.key)))
        return out
    def measures(self, E, L, entry, head):
        out = []
        for v in ints(L):
            out.append((f'len-{v.name}', lambda g, st, v=v: None if g(v.key) is None else self.s.n - sx(g(v.key))))
            out.append((f'{v.name}', lambda g, st, v=v: None if g(v.key) is None else sx(g(v.key))))
        return out

HARNESS = ['C03.cpp']
SPECS = [Trim('trim', 1, True, True), Trim('trimLeft', 1, True, False), Trim('trimRight', 1, False, True),
         Trim('trim', 4, True, True), Trim('trimLeft', 4, True, False), Trim('trimRight', 4, False, True)]
CONTRACTS = utf8.ALL
DRIVER = 'C03.cpp'
BOUND = 'all texts of up to 5 code points over 8 code points of every encoded length (spaces and others), random texts'
ASSUMPTIONS = ['UTF-8 texts are well formed (documented domain of trim) and shorter than 2^31 bytes', 'whitespace is what Character::isSpace says, i.e. ICU u_isJavaSpaceChar']
NOTE = '''trim, trimLeft and trimRight, UTF-8 and UTF-32, are proved against a first-order specification over code point boundaries for all texts, with termination; the UTF-8
stepping functions are used through their contracts (proved under C01); the whitespace predicate of ICU is uninterpreted.'''
