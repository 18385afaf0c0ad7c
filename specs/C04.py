"""C04: search functions of Strings"""
from irv.lib import *
from . import utf8

def arg(E, st, kind, es, name, byref=True):
    """-> (actual arguments, slice of the contents)"""
    if kind == 's': a, v, s = in_str(E, st, name, es); return a, s
    if kind == 'v': return in_sv(E, st, name, es)
    if kind == 'c': return in_cstr(E, st, name, es)
    c = fbv(name, 8 * es); return [c], char_slice(c, es)
def mslice(m, s):
    n = m.eval(s.n, True).as_long()
    return dict(len=n, chars=[m.eval(s.at(bv(i)), True).as_long() for i in range(min(n, 40))])

class Search(Spec):
    must_terminate = True
    def __init__(self, root, op, k1, k2, es):
        self.root, self.op, self.k1, self.k2, self.es = root, op, k1, k2, es
        self.fn = rf'^vh_{root}$'
        self.title = f'{op}({k1}, {k2}) on {8 * es}-bit characters'
    def setup(self, E, st, f):
        a, self.s = arg(E, st, self.k1, self.es, 'str')
        b, self.t = arg(E, st, self.k2, self.es, 'pattern')
        s, t = self.s, self.t
        self.M = Matcher(E, st, s, t)
        st.hints += [bv(0), s.n, z3.simplify(s.n - t.n)]
        if self.op == 'occurrences':
            # OCC(p): number of non-overlapping matches from left to right that start at p or later, by its recursion on the first match
            self.OCC = z3.Function('occ', BV64, BV64)
        return a + b
    def model_inputs(self, m): return dict(str=mslice(m, self.s), pattern=mslice(m, self.t))
    def post(self, E, st, ret, exc):
        if exc is not None: return [('no exception', z3.BoolVal(False))]
        s, t, M = self.s, self.t, self.M
        if self.op in ('startsWith', 'endsWith', 'contains'):
            r = ret if z3.is_bool(ret) else ret != 0
        if self.op == 'startsWith': return [('true exactly when the text begins with the pattern', Iff(r, M(bv(0))))]
        if self.op == 'endsWith':
            p = z3.simplify(s.n - t.n)
            return [('true exactly when the text ends with the pattern', Iff(r, z3.And(z3.UGE(s.n, t.n), M(p))))]
        if self.op == 'contains':
            return [('true exactly when the pattern occurs', Iff(r, QEx(lambda p: z3.And(z3.ULE(p, s.n), M(p)), [M.f, None], 'occ')))]
        if self.op == 'lastIndexOf':
            return [('npos exactly when there is no match', Implies(ret == NPOS, QAll(lambda p: z3.Implies(z3.ULE(p, s.n), z3.Not(M(p))), [M.f, None], 'none'))),
                    ('a position is a match', z3.Implies(ret != NPOS, z3.And(z3.ULE(ret, s.n), M(ret)))),
                    ('and no later one exists', Implies(ret != NPOS, QAll(lambda p: z3.Implies(z3.And(z3.UGT(p, ret), z3.ULE(p, s.n)), z3.Not(M(p))), [M.f, None], 'later')))]
        if self.op == 'occurrences':
            return [('the number of non-overlapping matches from left to right', ret == z3.If(t.n == 0, bv(0), self.OCC(bv(0))))]
    def occ_defs(self, st, r, pos):
        """definition of OCC at pos, r being the first match at or after pos (npos: none)"""
        return z3.And(z3.Implies(r == NPOS, self.OCC(pos) == 0), z3.Implies(r != NPOS, self.OCC(pos) == self.OCC(r + self.t.n) + 1))
    def on_find(self, E, st, s, t, pos, r):
        if self.op == 'occurrences' and s.obj == self.s.obj and t.obj == self.t.obj: st.assume(self.occ_defs(st, r, pos))
    def invariants(self, E, L, entry, head):
        out = []
        s, t = self.s, self.t
        for v in ints(L, 64):
            out.append(tmpl(f'{v.name}<=len', v.key, lambda x: z3.ULE(x, s.n)))
            if self.op == 'occurrences':
                for w in ints(L, 64):
                    if w is v: continue
                    out.append((f'{w.name} + matches from {v.name} = all matches', lambda g, st, v=v, w=w: None if g(v.key) is None or g(w.key) is None else g(w.key) + self.OCC(g(v.key)) == self.OCC(bv(0))))
        return out
    def measures(self, E, L, entry, head):
        return [(f'len-{v.name}', lambda g, st, v=v: None if g(v.key) is None else self.s.n - g(v.key)) for v in ints(L, 64)]

class Cpc(Spec):
    must_terminate = True
    def __init__(self, es):
        self.es = es
        self.fn = r'^vh_cpc_sv$' if es == 1 else r'^vh_cpc_wv$'
        self.title = 'codePointCount'
    def setup(self, E, st, f):
        a, self.s = in_sv(E, st, 'text', self.es, maxlen=INTMAX)
        if self.es == 1:
            T = self.T = Text8(st, self.s)
            # CNT(k): number of code points before the boundary k
            C = self.CNT = z3.Function('cnt', BV64, BV64)
            st.assume(C(bv(0)) == 0, QAll(lambda k: z3.Implies(z3.And(z3.ULT(k, self.s.n), T.B(k)), C(k + T.LEN(k)) == C(k) + 1), [T.LEN, T.CP, None], 'cnt'))
        return a
    def model_inputs(self, m): return dict(text=mslice(m, self.s))
    def post(self, E, st, ret, exc):
        if exc is not None: return [('no exception', z3.BoolVal(False))]
        return [('the number of code points', ret == (self.s.n if self.es == 4 else self.CNT(self.s.n)))]
    def invariants(self, E, L, entry, head):
        out = []
        for v in ints(L):
            out.append(tmpl(f'{v.name} is a boundary', v.key, lambda x: z3.And(x >= 0, z3.ULE(sx(x), self.s.n), self.T.B(sx(x)))))
            for w in ints(L, 64):
                if w is not v: out.append((f'{w.name} = count before {v.name}', lambda g, st, v=v, w=w: None if g(v.key) is None or g(w.key) is None else g(w.key) == self.CNT(sx(g(v.key)))))
        return out
    def measures(self, E, L, entry, head):
        return [(f'len-{v.name}', lambda g, st, v=v: None if g(v.key) is None else self.s.n - sx(g(v.key))) for v in ints(L)]

HARNESS = ['C04.cpp']
SPECS = []
for op, tag, kinds in (('startsWith', 'starts', 'sv ss sc cc vch sch cch wv ws wsc wch'), ('endsWith', 'ends', 'sv ss sc cc vch cch wv ws wch'),
                       ('contains', 'cont', 'sv ss sc cc vch sch cch wv ws wch'), ('lastIndexOf', 'last', 'sv ss sc cc wv ws'), ('occurrences', 'occ', 'sv ss sc cc wv ws')):
    for k in kinds.split():
        es = 4 if k[0] == 'w' else 1
        a, b = {'sv': 'vv', 'ss': 'ss', 'sc': 'sc', 'cc': 'cc', 'vch': 'vh', 'sch': 'sh', 'cch': 'ch', 'wv': 'vv', 'ws': 'ss', 'wsc': 'sc', 'wch': ('sh' if tag == 'cont' else 'vh')}[k]
        SPECS.append(Search(f'{tag}_{k}', op, a, b, es))
SPECS += [Cpc(1), Cpc(4)]
CONTRACTS = utf8.ALL
DRIVER = 'C04.cpp'
BOUND = 'all texts of length <= 6 and patterns of length <= 4 over two letters, random UTF-8 texts'
ASSUMPTIONS = ['UTF-8 texts given to codePointCount are well formed (its documented domain)']
NOTE = '''Every overload family (view, string, literal, single character; 8 and 32 bit) of startsWith, endsWith, contains, lastIndexOf, occurrences and codePointCount is proved
for all lengths; trusted: find/rfind/compare of std::basic_string(_view) by their standard contracts. The regex overloads are outside the reach of contracts here (std::regex) and are not claimed.'''
