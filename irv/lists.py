"""Assumed contract of std::list and std::deque: a sequence; elements keep their address while they live.

The elements are lo .. lo+n-1 of a buffer; an element that was removed is not reachable any more (obligation)."""
import z3, re
from .core import *
from .logic import *
from . import ir
from .vecs import layout
class ListV(Abs):
    def __init__(self, elem, obj, lo, n): self.elem, self.obj, self.lo, self.n = elem, obj, z3.simplify(lo), z3.simplify(n)
    def join_kind(self): return 'list ' + self.elem
    def same(self, o): return isinstance(o, ListV) and o.obj == self.obj and o.n.eq(self.n) and o.lo.eq(self.lo)
    def havoc(self, E, st, nm):
        v = new_list(E, st, self.elem, fbv(nm + '_n'), lo=fbv(nm + '_lo')); bound(st, v); return v
    def fields(self, st): return [r.arr for r in st.mem[self.obj].regions]
    def __repr__(self): return f'ListV({self.elem},{self.obj},{self.lo},{self.n})'
MAXN, MID = bv(1 << 40), bv(1 << 50)
def bound(st, v): st.assume(z3.ULE(v.n, MAXN), z3.UGE(v.lo, bv(1 << 49)), z3.ULE(v.lo, bv(1 << 51)))
def new_list(E, st, elem, n, arrs=None, lo=None):
    rc = layout(elem)
    if rc is None: raise Unsupported('list of ' + elem)
    o = E.new_obj(st, 'nodes', None, 'heap')
    o.regions = [Region(f[0], f[2], bv(1 << 52), fresh('node', z3.ArraySort(BV64, rc.sort(k))) if arrs is None else arrs[k]) for k, f in enumerate(rc.fields)]
    return ListV(elem, o.id, MID if lo is None else lo, n)
def get(E, st, p, elem):
    E.touch(st, p, False)
    v = E.getcell(st, p)
    if v is None: v = new_list(E, st, elem, fbv('anylist')); bound(st, v); E.setcell(st, p, 24, v)
    if not isinstance(v, ListV): raise Unsupported(f'not a list: {v}')
    return v
def put(E, st, p, v): E.touch(st, p, True); E.setcell(st, p, 24, v)
def ptr(E, v, i): return E.norm(Ptr(v.obj, 0, i, layout(v.elem).stride))
MODELS = []
def model(rx):
    def d(fn): MODELS.append((re.compile(rx), fn)); return fn
    return d
C = r'(?:\S.* )?std::(?:__cxx11::)?(?:list|deque)<(?P<e>[\w:<>, ]*?), std::allocator<(?P=e)>>'
RX = rf'^{C}::(?P<m>~?list|~?deque|front|back|push_back|push_front|emplace_back|emplace_front|pop_front|pop_back|empty|size|clear|swap)(?:<.*>)?\((?P<p>.*)\)(?: const)?$'
@model(RX)
def m_list(E, st, a, ins, d):
    m = re.match(RX, d); e, f, pl = m.group('e'), m.group('m'), m.group('p')
    rc = layout(e)
    if rc is None: return NotImplemented
    if f in ('list', 'deque'):
        if pl == '': put(E, st, a[0], new_list(E, st, e, bv(0))); return None
        if pl.endswith('&&'):
            v = get(E, st, a[1], e); put(E, st, a[0], v); put(E, st, a[1], new_list(E, st, e, bv(0))); return None
        if pl.endswith('const&') and 'allocator<' not in pl.split('>')[-1] and not pl.startswith('std::allocator'):
            v = get(E, st, a[1], e); put(E, st, a[0], new_list(E, st, e, v.n, v.fields(st), v.lo)); return None
        raise Unsupported(d)
    if f.startswith('~'):
        v = E.getcell(st, a[0])
        if isinstance(v, ListV) and v.obj in st.mem: E.wobj(st, v.obj).freed = True
        return None
    v = get(E, st, a[0], e)
    if f == 'empty': return v.n == 0
    if f == 'size': return v.n
    if f in ('front', 'back'):
        E.oblige(st, 'bounds', f'{f}() of a list that is not empty', v.n != 0)
        return ptr(E, v, v.lo if f == 'front' else v.lo + v.n - 1)
    if f in ('pop_front', 'pop_back'):
        E.oblige(st, 'bounds', f'{f}() of a list that is not empty', v.n != 0)
        put(E, st, a[0], ListV(e, v.obj, v.lo + 1 if f == 'pop_front' else v.lo, v.n - 1)); return None
    if f in ('push_back', 'push_front', 'emplace_back', 'emplace_front'):
        back = f.endswith('back')
        if len(a) < 2: vals = [bv(0)]
        else: vals = [E.load(st, Ptr(a[1].obj, a[1].c + fl[0], a[1].idx, a[1].stride), fl[3]) for fl in rc.fields]
        w = ListV(e, v.obj, v.lo if back else v.lo - 1, v.n + 1)
        put(E, st, a[0], w)
        p = ptr(E, w, w.lo + w.n - 1 if back else w.lo)
        for fl, x in zip(rc.fields, vals): E.store(st, Ptr(p.obj, p.c + fl[0], p.idx, p.stride), x, fl[3])
        return p if f.startswith('emplace') else None
    if f == 'clear': put(E, st, a[0], ListV(e, v.obj, v.lo, bv(0))); return None
    if f == 'swap':
        w = get(E, st, a[1], e); put(E, st, a[0], w); put(E, st, a[1], v); return None
    raise Unsupported(d)
