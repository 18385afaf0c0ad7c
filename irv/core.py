"""Forward symbolic executor over LLVM IR that generates verification conditions.

 * every function is executed once for *all* inputs: loops are cut at their headers, the loop state is
   havocked and replaced by the conjunction of the candidate invariants that survive Houdini;
 * a call goes to the callee's contract when it has one, to a model (assumed contract of a library
   function), or is executed in line;
 * machine integers are bit-vectors, memory is a set of objects with bounds obligations.
"""
import z3, re, sys, time, itertools
from . import ir
from .ir import Unsupported
from .logic import *

class Ptr:
    __slots__ = ('obj', 'c', 'idx', 'stride')
    def __init__(self, obj, c=0, idx=None, stride=1):
        self.obj, self.c, self.idx, self.stride = obj, c, idx, stride
    def __repr__(self): return f'Ptr({self.obj},{self.c},{self.idx},{self.stride})'
NULL = Ptr(0)
class FnPtr:
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
    def __repr__(self): return f'FnPtr({self.name})'
class PtrInt:
    """ptrtoint result"""
    __slots__ = ('p',)
    def __init__(self, p): self.p = p
class Undef:
    def __repr__(self): return 'undef'
UNDEF = Undef()
class Opaque:
    """a value the verifier knows nothing about (floats, library handles)"""
    __slots__ = ('tag', 'id')
    def __init__(self, tag='?'):
        self.tag = tag; self.id = next(_oid)
    def __repr__(self): return f'Opaque({self.tag})'
_oid = itertools.count(1)
class Abs:
    """base of abstract library values stored in memory cells"""
    def havoc(self, E, st, name): raise Unsupported('havoc of ' + type(self).__name__)
    def same(self, o): return self is o
    def join_kind(self): return type(self).__name__

class Region:
    __slots__ = ('base', 'es', 'count', 'arr')
    def __init__(self, base, es, count, arr):
        self.base, self.es, self.count, self.arr = base, es, count, arr

class Obj:
    __slots__ = ('id', 'name', 'size', 'cells', 'regions', 'freed', 'kind', 'type', 'const', 'meta')
    def __init__(self, id, name, size, kind):
        self.id, self.name, self.size, self.kind = id, name, size, kind
        self.cells = {}
        self.regions = []
        self.freed = False
        self.type = None
        self.const = False
        self.meta = {}
    def clone(self):
        o = Obj(self.id, self.name, self.size, self.kind)
        o.cells = dict(self.cells)
        o.regions = list(self.regions)
        o.freed, o.type, o.const, o.meta = self.freed, self.type, self.const, self.meta
        return o

class Frame:
    __slots__ = ('f', 'env', 'blk', 'prev', 'ip', 'call', 'loops', 'allocas', 'retmap')
    def __init__(self, f):
        self.f = f
        self.env = {}
        self.blk = f.entry
        self.prev = None
        self.ip = 0
        self.call = None      # the call instruction in the frame below
        self.loops = []
        self.allocas = []
        self.retmap = None
    def clone(self):
        g = Frame.__new__(Frame)
        g.f, g.env, g.blk, g.prev, g.ip, g.call = self.f, dict(self.env), self.blk, self.prev, self.ip, self.call
        g.loops, g.allocas, g.retmap = list(self.loops), list(self.allocas), self.retmap
        return g

class Exc:
    def __init__(self, ti, obj=None): self.ti, self.obj = ti, obj
    def __repr__(self): return f'Exc({self.ti})'

class Marker(F):
    """stands for the surviving candidates of a loop instance, at its header"""
    def __init__(self, inst): self.inst = inst

class State:
    __slots__ = ('frames', 'mem', 'pc', 'ghost', 'exc', 'caught', 'trace', 'hints')
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = []
        self.ghost = {}
        self.exc = None
        self.caught = []
        self.trace = []
        self.hints = []
    def clone(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        s.exc = self.exc
        s.caught = list(self.caught)
        s.trace = list(self.trace)
        s.hints = list(self.hints)
        return s
    def assume(self, *fs):
        for f in fs:
            if f is True: continue
            if f is False: f = z3.BoolVal(False)
            self.pc.append(f)
    @property
    def fr(self): return self.frames[-1]

class VC:
    __slots__ = ('name', 'kind', 'loc', 'prem', 'goal', 'cand', 'hints', 'func', 'trace', 'info')
    def __init__(self, name, kind, loc, prem, goal, hints, func, trace, cand=None):
        self.name, self.kind, self.loc, self.prem, self.goal = name, kind, loc, prem, goal
        self.hints, self.func, self.trace, self.cand = hints, func, trace, cand

class LoopVar:
    __slots__ = ('key', 'kind', 'w', 'entry', 'head', 'name')
    def __init__(self, key, kind, w, entry, head, name):
        self.key, self.kind, self.w, self.entry, self.head, self.name = key, kind, w, entry, head, name
    def __repr__(self): return f'{self.name}:{self.kind}{self.w}'

class LoopInst:
    def __init__(self, func, header, depth):
        self.func, self.header, self.depth = func, header, depth
        self.vars = []
        self.cands = []       # list of [name, closure, alive]
        self.dry = False
        self.log = None
        self.backs = []
        self.dead = set()
        self.E = None
        self.entry_state = None
        self.head_state = None
        self.measures = []
    def get(self, st, key):
        k = key[0]
        if k == 'phi': return st.frames[self.depth].env.get(key[1])
        if k == 'cell':
            o = st.mem.get(key[1])
            if o is None: return None
            c = o.cells.get(key[2])
            return c[1] if c else None
        if k == 'arr':
            o = st.mem.get(key[1])
            return o.regions[key[2]].arr
        if k == 'ghost': return st.ghost.get(key[1])
    def alive(self): return [c for c in self.cands if c[2]]

class DryStop(Exception): pass

class Stats:
    def __init__(self):
        self.inlined = {}
        self.models = {}
        self.contracts = {}
        self.instrs = 0
        self.paths = 0
        self.loops = 0
        self.queries = 0

class Engine:
    def __init__(self, mod, models=None, contracts=None, opts=None):
        self.m = mod
        self.models = models or []
        self.contracts = contracts or []
        self.opts = dict(max_paths=20000, max_instrs=3_000_000, feas_ms=300, overflow=True, max_inline=60, budget_s=400)
        self.opts.update(opts or {})
        self.vcs = []
        self.insts = []
        self.next_obj = itertools.count(1)
        self.stats = Stats()
        self.tids = {}
        self.dry = 0
        self.logs = []
        self.gobjs = {}
        self.spec = None
        self.scaled = {}
        self.model_cache = {}
        self.fs = z3.Solver()
        self.fs.set('timeout', self.opts['feas_ms'])
        self.fs_stack = []
        self.finals = []
        self.deadline = None
        self.asserted_globals = []
    # ------------------------------------------------------------ objects
    def new_obj(self, st, name, size, kind):
        o = Obj(next(self.next_obj), name, size, kind)
        st.mem[o.id] = o
        return o
    def wobj(self, st, oid):
        o = st.mem[oid].clone()
        st.mem[oid] = o
        return o
    def log(self, key):
        for L in self.logs: L.add(key)
    def new_buf(self, st, name, es, count, arr=None, kind='heap'):
        """object that is one array region of `count` (BV64 term) elements"""
        o = self.new_obj(st, name, None, kind)
        if arr is None: arr = fresh(name, z3.ArraySort(BV64, z3.BitVecSort(8 * es)))
        o.regions = [Region(0, es, count, arr)]
        return o
    def regions_of_type(self, t, base=0, out=None):
        """array regions of a type: [(off, es, n)] for integer arrays with > 1 element"""
        if out is None: out = []
        r = self.m.rtype(t)
        if r[0] == 'st':
            offs = self.m.layout(r)[2]
            for e, o in zip(r[1], offs): self.regions_of_type(e, base + o, out)
        elif r[0] == 'arr':
            e = self.m.rtype(r[2])
            if e[0] == 'i' and r[1] > 1:
                out.append((base, self.m.size(e), r[1]))
            else:
                s = self.m.size(r[2])
                if r[1] <= 256:
                    for i in range(r[1]): self.regions_of_type(r[2], base + i * s, out)
        return out
    def typed_obj(self, st, name, t, kind):
        o = self.new_obj(st, name, self.m.size(t), kind)
        o.type = t
        for (b, es, n) in self.regions_of_type(t):
            o.regions.append(Region(b, es, bv(n), fresh(name, z3.ArraySort(BV64, z3.BitVecSort(8 * es)))))
        return o
    def global_obj(self, st, g):
        if g in self.m.aliases: g = self.m.aliases[g]
        if g in self.m.funcs or g in self.m.decls: return FnPtr(g)
        if g in self.gobjs:
            oid = self.gobjs[g]
            if oid not in st.mem:
                st.mem[oid] = self.gstore[oid]
            return Ptr(oid)
        if not hasattr(self, 'gstore'): self.gstore = {}
        gi = self.m.global_init(g)
        oid = next(self.next_obj)
        self.gobjs[g] = oid
        if gi is None:
            o = Obj(oid, g, None, 'global'); o.meta = {'opaque': True}
        else:
            t, init, const = gi
            o = Obj(oid, g, self.m.size(t), 'global')
            o.type = t; o.const = const
            for (b, es, n) in self.regions_of_type(t):
                o.regions.append(Region(b, es, bv(n), fresh('g' + re.sub(r'\W', '_', g), z3.ArraySort(BV64, z3.BitVecSort(8 * es)))))
            if init is not None and (const or True):
                o.meta = {'init': const}
                self._ginit(st, o, t, init, 0, const)
        st.mem[oid] = o
        self.gstore[oid] = o
        return Ptr(oid)
    def _ginit(self, st, o, t, v, off, const):
        if not const: return
        r = self.m.rtype(t)
        if r[0] == 'st':
            offs = self.m.layout(r)[2]
            for i, e in enumerate(r[1]):
                x = v.v[i] if v.k == 'agg' else ir.Operand(v.k, None, e)
                self._ginit(st, o, e, x, off + offs[i], const)
        elif r[0] == 'arr':
            s = self.m.size(r[2])
            rg = None
            for q in o.regions:
                if q.base == off: rg = q
            e = self.m.rtype(r[2])
            if rg is not None and e[0] == 'i':
                vals = None
                if v.k == 'str': vals = list(ir.cstr_bytes(v.v))
                elif v.k == 'zero': vals = [0] * r[1]
                elif v.k == 'agg': vals = [x.v or 0 for x in v.v]
                if vals is not None:
                    o.meta.setdefault('bytes', {})[off] = vals
                    # an explicit store chain: constants stay constants
                    a = z3.K(BV64, bv(0, 8 * rg.es))
                    for i, x in enumerate(vals):
                        if x: a = z3.Store(a, bv(i), bv(x, 8 * rg.es))
                    if len(vals) > 4096: raise Unsupported('big global')
                    o.regions[o.regions.index(rg)] = Region(rg.base, rg.es, rg.count, a)
            else:
                for i in range(r[1]):
                    x = v.v[i] if v.k == 'agg' else ir.Operand(v.k, None, r[2])
                    self._ginit(st, o, r[2], x, off + i * s, const)
        else:
            if v.k == 'fc' or v.k == 'undef': return
            o.cells[off] = (self.m.size(r), self.const(st, v, r))
    # ------------------------------------------------------------ constants / operands
    def const(self, st, op, t=None):
        t = t or op.t
        k = op.k
        r = self.m.rtype(t)
        if k == 'c':
            if r[0] != 'i': raise Unsupported('const ' + repr(op))
            if r[1] == 1: return z3.BoolVal(bool(op.v))
            return z3.BitVecVal(op.v, r[1])
        if k == 'null': return NULL
        if k == 'undef':
            return self.undef(r)
        if k == 'zero': return self.zero(r)
        if k == 'g': return self.global_obj(st, op.v)
        if k == 'fc': return Opaque('float')
        if k == 'agg':
            return [self.const(st, x, x.t) for x in op.v]
        if k == 'gep':
            bt, ops = op.v
            return self.gep(st, bt, [self.const(st, x) for x in ops], [x.t for x in ops])
        if k == 'cast':
            cop, v, dt = op.v
            x = self.const(st, v)
            if cop in ('bitcast', 'addrspacecast'): return x
            if cop == 'inttoptr' and not isinstance(x, Ptr):
                if z3.is_bv_value(x) and x.as_long() == 0: return NULL
                return Ptr(-1, c=x.as_long() if z3.is_bv_value(x) else 0)
            if cop == 'ptrtoint': return PtrInt(x)
            raise Unsupported('const cast ' + cop)
        if k == 'str': return Opaque('str')
        if k == 'md': return None
        raise Unsupported('operand ' + repr(op))
    def undef(self, r):
        r = self.m.rtype(r)
        if r[0] == 'st': return [self.undef(e) for e in r[1]]
        if r[0] == 'arr' and r[1] < 64: return [self.undef(r[2]) for _ in range(r[1])]
        return UNDEF
    def zero(self, r):
        r = self.m.rtype(r)
        if r[0] == 'i': return z3.BoolVal(False) if r[1] == 1 else bv(0, r[1])
        if r[0] == 'ptr': return NULL
        if r[0] == 'st': return [self.zero(e) for e in r[1]]
        if r[0] == 'arr': return [self.zero(r[2]) for _ in range(r[1])]
        return Opaque('float0')
    def freshval(self, t, name='v'):
        r = self.m.rtype(t)
        if r[0] == 'i': return fbool(name) if r[1] == 1 else fbv(name, r[1])
        if r[0] == 'st': return [self.freshval(e, name) for e in r[1]]
        if r[0] == 'arr': return [self.freshval(r[2], name) for _ in range(r[1])]
        if r[0] == 'f': return Opaque('float')
        if r[0] == 'ptr': return Opaque('ptr')
        raise Unsupported('fresh ' + str(r))
    def val(self, st, op):
        if op.k == 'l':
            v = st.frames[-1].env.get(op.v)
            if v is None: raise Unsupported('undefined local ' + op.v)
            return v
        return self.const(st, op)
    def conc(self, v, t):
        """turn undef into a fresh value"""
        if v is UNDEF: return self.freshval(t, 'undef')
        return v
    # ------------------------------------------------------------ pointers
    def gep(self, st, bt, vals, types):
        p = vals[0]
        if isinstance(p, (FnPtr,)): return p
        if not isinstance(p, Ptr): raise Unsupported(f'gep on {p}')
        c, idx, stride = p.c, p.idx, p.stride
        t = bt
        for n, v in enumerate(vals[1:]):
            if n == 0: es = self.m.size(t)
            else:
                r = self.m.rtype(t)
                if r[0] == 'st':
                    i = v.as_long()
                    c += self.m.layout(r)[2][i]; t = r[1][i]
                    continue
                elif r[0] in ('arr', 'vec'):
                    t = r[2]; es = self.m.size(t)
                else: raise Unsupported('gep into ' + str(r))
            if isinstance(v, PtrInt): raise Unsupported('gep by ptrint')
            if v is UNDEF: raise Unsupported('gep by undef')
            if not z3.is_bv(v): raise Unsupported('gep index ' + repr(v))
            sc = self.scaled.get(v.get_id())
            if z3.is_bv_value(v):
                c += v.as_signed_long() * es
                continue
            if v.size() < 64: v = z3.SignExt(64 - v.size(), v)
            if es == 0: continue
            if sc is not None and es == 1:
                v, es = sc[0], sc[1]
            if idx is None: idx, stride = v, es
            elif stride == es: idx = idx + v
            elif es % stride == 0: idx = idx + v * (es // stride)
            elif stride % es == 0: idx = idx * (stride // es) + v; stride = es
            else: raise Unsupported('mixed strides')
        return self.norm(Ptr(p.obj, c, idx, stride))
    def norm(self, p):
        if p.idx is not None:
            if p.stride > 1 and p.c and p.c % p.stride == 0:
                pass
            s = z3.simplify(p.idx)
            if z3.is_bv_value(s):
                return Ptr(p.obj, p.c + s.as_signed_long() * p.stride, None, 1)
            return Ptr(p.obj, p.c, s, p.stride)
        return p
    def region_index(self, st, o, p, es_access):
        """(region number, index term) for pointer p in o; None when p denotes a plain cell"""
        if not o.regions: return None
        if p.idx is None:
            for n, r in enumerate(o.regions):
                if len(o.regions) == 1 and o.size is None:
                    pass
                else:
                    cnt = r.count.as_long() if z3.is_bv_value(r.count) else None
                    if p.c < r.base or (cnt is not None and p.c >= r.base + cnt * r.es):
                        continue
                d = p.c - r.base
                return (n, bv(d // r.es), d % r.es)
            return None
        best = None
        for n, r in enumerate(o.regions):
            if len(o.regions) == 1 and o.size is None: best = n; break
            cnt = r.count.as_long() if z3.is_bv_value(r.count) else 1 << 40
            if r.base <= p.c < r.base + cnt * r.es: best = n; break
        if best is None:
            # just before / just after a region
            for n, r in enumerate(o.regions):
                cnt = r.count.as_long() if z3.is_bv_value(r.count) else 1 << 40
                if r.base - 64 * r.es <= p.c <= r.base + (cnt + 64) * r.es: best = n
        if best is None: raise Unsupported(f'symbolic index outside any array of {o.name}')
        r = o.regions[best]
        d = p.c - r.base
        if p.stride % r.es == 0:
            i = p.idx * (p.stride // r.es) if p.stride != r.es else p.idx
            q, rem = d // r.es, d % r.es
        elif r.es % p.stride == 0:
            # e.g. byte offsets into a word array: only if provably aligned -> unsupported
            raise Unsupported('byte index into word array')
        else: raise Unsupported('stride mismatch')
        if q: i = i + bv(q)
        return (best, z3.simplify(i), rem)
    def inb(self, i, n, cnt):
        """0 <= i, i + n <= cnt (unsigned, no wrap)"""
        if n == 1: return z3.ULT(i, cnt)
        return z3.And(z3.ULE(i, cnt), z3.UGE(cnt - i, bv(n)))
    def check_access(self, st, p, what):
        if not isinstance(p, Ptr): raise Unsupported(f'{what} through {p}')
        if p.obj == 0:
            self.oblige(st, 'null-deref', what, z3.BoolVal(False)); return None
        if p.obj < 0: raise Unsupported('integer pointer')
        o = st.mem.get(p.obj)
        if o is None:
            if p.obj in getattr(self, 'gstore', {}):
                o = st.mem[p.obj] = self.gstore[p.obj]
            else:
                self.oblige(st, 'use-after-free', f'{what} of dead object', z3.BoolVal(False)); return None
        if o.freed:
            self.oblige(st, 'use-after-free', f'{what} of freed {o.name}', z3.BoolVal(False)); return None
        return o
    def load(self, st, p, t):
        o = self.check_access(st, p, 'load')
        if o is None: return self.deadval(st, t)
        r = self.m.rtype(t)
        sz = self.m.size(r)
        if r[0] in ('st', 'arr') :
            offs = self.m.layout(r)[2] if r[0] == 'st' else [i * self.m.size(r[2]) for i in range(r[1])]
            ts = r[1] if r[0] == 'st' else [r[2]] * r[1]
            return [self.load(st, Ptr(p.obj, p.c + f, p.idx, p.stride), e) for f, e in zip(offs, ts)]
        if 'rec' in o.meta: return self.rec_load(st, o, p, r, sz)
        ri = self.region_index(st, o, p, sz)
        if ri is not None:
            n, i, rem = ri
            rg = o.regions[n]
            if r[0] == 'ptr' and rg.es != 8: 
                raise Unsupported('pointer load from byte array')
            if rem and sz + rem > rg.es: raise Unsupported('unaligned array load')
            if sz <= rg.es:
                self.bound(st, o, self.inb(i, 1, rg.count), 'load')
                v = z3.Select(rg.arr, i)
                if sz < rg.es: v = z3.Extract(8 * (rem + sz) - 1, 8 * rem, v)
            else:
                k = sz // rg.es
                self.bound(st, o, self.inb(i, k, rg.count), 'load')
                v = z3.Concat(*[z3.Select(rg.arr, i + bv(j)) for j in range(k - 1, -1, -1)])
            if r[0] == 'i':
                if r[1] == 1: return z3.Extract(0, 0, v) == 1
                if r[1] < 8 * sz: v = z3.Extract(r[1] - 1, 0, v)
                return self.cs(v)
            if r[0] == 'f': return Opaque('float')
            raise Unsupported('region load ' + str(r))
        if p.idx is not None: raise Unsupported(f'symbolic offset into {o.name}')
        if o.size is not None and not (0 <= p.c and p.c + sz <= o.size):
            self.oblige(st, 'bounds', f'load outside {o.name}', z3.BoolVal(False))
            return self.deadval(st, t)
        c = o.cells.get(p.c)
        if c is None:
            # covered by a wider cell?
            for off, (s2, v2) in o.cells.items():
                if off < p.c < off + s2 or p.c < off < p.c + sz:
                    if off <= p.c and p.c + sz <= off + s2 and z3.is_bv(v2) and r[0] == 'i':
                        x = z3.Extract(8 * (p.c - off + sz) - 1, 8 * (p.c - off), v2)
                        return self.cs(x) if r[1] > 1 else z3.Extract(0, 0, x) == 1
                    if isinstance(v2, Abs): raise Unsupported(f'raw load inside {type(v2).__name__} of {o.name}')
                    return self.asm_load(st, o, p, r, sz)
            if o.meta.get('lazy'):
                v = o.meta['lazy'](self, st, o, p.c, r)
            elif 'undef_loads' in o.meta or o.kind in ('stack', 'heap', 'input', 'global'):
                if o.const: raise Unsupported(f'load from uninterpreted constant {o.name}')
                if self.opts.get('uninit') and o.kind in ('stack', 'heap') and r[0] in ('i', 'ptr'):
                    self.oblige(st, 'uninitialised-read', f'load of uninitialised {o.name}+{p.c}', z3.BoolVal(False), soft=True)
                v = self.freshval(r, f'{self.short(o.name)}_{p.c}')
                if isinstance(v, Opaque): v.tag = f'uninit {o.name}+{p.c}'
            o = self.wobj(st, p.obj)
            o.cells[p.c] = (sz, v)
            return v
        s2, v = c
        if s2 == sz or isinstance(v, Opaque):
            if isinstance(v, Abs): raise Unsupported(f'raw load of {type(v).__name__} in {o.name}')
            if r[0] == 'i' and z3.is_bv(v) and v.size() != r[1]:
                return z3.Extract(0, 0, v) == 1 if r[1] == 1 else z3.Extract(r[1] - 1, 0, v)
            if r[0] == 'i' and isinstance(v, z3.BoolRef) and r[1] > 1:
                return z3.If(v, bv(1, r[1]), bv(0, r[1]))
            if r[0] == 'i' and isinstance(v, Ptr): return PtrInt(v)
            if r[0] == 'ptr' and isinstance(v, PtrInt): return v.p
            if r[0] == 'ptr' and z3.is_bv_value(v) and v.as_long() == 0: return NULL
            return v
        if s2 > sz and z3.is_bv(v) and r[0] == 'i':
            x = z3.Extract(8 * sz - 1, 0, v)
            return self.cs(x) if r[1] > 1 else z3.Extract(0, 0, x) == 1
        return self.asm_load(st, o, p, r, sz)
    # ------------------------------------------------------------ arrays of records (elements of std::vector)
    def rec_loc(self, st, o, p):
        rc = o.meta['rec']
        i = bv(p.c // rc.stride); off = p.c % rc.stride
        if p.idx is not None:
            if p.stride % rc.stride: raise Unsupported('record index')
            i = z3.simplify(i + p.idx * (p.stride // rc.stride))
        return rc, i, off
    def rec_load(self, st, o, p, r, sz):
        rc, i, off = self.rec_loc(st, o, p)
        n = rc.field(off)
        if n is None: raise Unsupported(f'record field {off}')
        rg = o.regions[n]
        self.bound(st, o, z3.ULT(i, rg.count), 'load')
        v = rc.dec(self, st, n, z3.Select(rg.arr, i), r)
        return v
    def rec_store(self, st, o, p, v, r, sz):
        rc, i, off = self.rec_loc(st, o, p)
        n = rc.field(off)
        if n is None: raise Unsupported(f'record field {off}')
        rg = o.regions[n]
        self.bound(st, o, z3.ULT(i, rg.count), 'store')
        e = rc.enc(self, st, n, v)
        o = self.wobj(st, p.obj)
        o.regions[n] = Region(rg.base, rg.es, rg.count, z3.Store(rg.arr, i, e))
        self.log(('arr', o.id, n))
        self.on_write(st, o, ('arr', n, i))
    def asm_load(self, st, o, p, r, sz):
        """assemble an integer from smaller cells"""
        if r[0] != 'i': raise Unsupported(f'mixed load {r} from {o.name}+{p.c}')
        parts = []
        off = p.c
        while off < p.c + sz:
            c = o.cells.get(off)
            if c is None or isinstance(c[1], z3.BoolRef) or not z3.is_bv(c[1]) or off + c[0] > p.c + sz:
                if c is not None and isinstance(c[1], z3.BoolRef) and c[0] == 1:
                    parts.append(z3.If(c[1], bv(1, 8), bv(0, 8))); off += 1; continue
                if c is None and not any(f < off < f + s for f, (s, _) in o.cells.items()):
                    parts.append(fbv('pad', 8)); off += 1; continue
                raise Unsupported(f'mixed load at {o.name}+{p.c}')
            parts.append(c[1]); off += c[0]
        v = z3.Concat(*parts[::-1]) if len(parts) > 1 else parts[0]
        if r[1] < v.size(): v = z3.Extract(r[1] - 1, 0, v)
        return self.cs(v)
    def deadval(self, st, t):
        st.assume(z3.BoolVal(False))
        try: return self.freshval(t, 'dead')
        except Unsupported: return UNDEF
    def cs(self, v):
        return z3.simplify(v)
    def short(self, n): return re.sub(r'\W+', '_', n)[:24]
    def bound(self, st, o, f, what):
        self.oblige(st, 'bounds', f'{what} within {o.name}', f)
    def store(self, st, p, v, t):
        o = self.check_access(st, p, 'store')
        if o is None: return
        if o.const:
            self.oblige(st, 'const-write', f'store to constant {o.name}', z3.BoolVal(False)); return
        r = self.m.rtype(t)
        sz = self.m.size(r)
        if r[0] in ('st', 'arr'):
            offs = self.m.layout(r)[2] if r[0] == 'st' else [i * self.m.size(r[2]) for i in range(r[1])]
            ts = r[1] if r[0] == 'st' else [r[2]] * r[1]
            for f, e, x in zip(offs, ts, v): self.store(st, Ptr(p.obj, p.c + f, p.idx, p.stride), x, e)
            return
        if 'rec' in o.meta: return self.rec_store(st, o, p, v, r, sz)
        ri = self.region_index(st, o, p, sz)
        o = self.wobj(st, p.obj)
        if ri is not None:
            n, i, rem = ri
            rg = o.regions[n]
            if v is UNDEF: v = fbv('undef', 8 * sz)
            if isinstance(v, Opaque): v = fbv('opq', 8 * sz)
            if isinstance(v, z3.BoolRef): v = z3.If(v, bv(1, 8 * sz), bv(0, 8 * sz))
            if not z3.is_bv(v): raise Unsupported(f'store of {v} into array')
            if v.size() < 8 * sz: v = z3.ZeroExt(8 * sz - v.size(), v)
            if rem: raise Unsupported('unaligned array store')
            if sz == rg.es:
                self.bound(st, o, self.inb(i, 1, rg.count), 'store')
                arr = z3.Store(rg.arr, i, v)
            elif sz > rg.es:
                k = sz // rg.es
                self.bound(st, o, self.inb(i, k, rg.count), 'store')
                arr = rg.arr
                w = 8 * rg.es
                for j in range(k): arr = z3.Store(arr, i + bv(j), self.cs(z3.Extract(w * (j + 1) - 1, w * j, v)))
            else:
                self.bound(st, o, self.inb(i, 1, rg.count), 'store')
                old = z3.Select(rg.arr, i)
                arr = z3.Store(rg.arr, i, z3.Concat(z3.Extract(8 * rg.es - 1, 8 * sz, old), v))
            o.regions[n] = Region(rg.base, rg.es, rg.count, arr)
            self.log(('arr', o.id, n))
            self.on_write(st, o, ('arr', n, i))
            return
        if p.idx is not None: raise Unsupported(f'symbolic store into {o.name}')
        if o.size is not None and not (0 <= p.c and p.c + sz <= o.size):
            self.oblige(st, 'bounds', f'store outside {o.name}', z3.BoolVal(False)); return
        self.put(st, o, p.c, sz, v)
        self.on_write(st, o, ('cell', p.c))
    def on_write(self, st, o, what):
        h = self.opts.get('on_write')
        if h: h(self, st, o, what)
    def put(self, st, o, off, sz, v):
        """o must be writable"""
        kill = [f for f, (s, _) in o.cells.items() if f != off and f < off + sz and off < f + s]
        for f in kill:
            s, x = o.cells[f]
            self.log(('cell', o.id, f))
            del o.cells[f]
            if z3.is_bv(x) and f < off:
                o.cells[f] = (off - f, self.cs(z3.Extract(8 * (off - f) - 1, 0, x)))
            if z3.is_bv(x) and f + s > off + sz:
                b = off + sz - f
                o.cells[off + sz] = (f + s - off - sz, self.cs(z3.Extract(8 * s - 1, 8 * b, x)))
                self.log(('cell', o.id, off + sz))
        old = o.cells.get(off)
        if old is not None and old[0] > sz and z3.is_bv(old[1]):
            o.cells[off + sz] = (old[0] - sz, self.cs(z3.Extract(8 * old[0] - 1, 8 * sz, old[1])))
            self.log(('cell', o.id, off + sz))
        o.cells[off] = (sz, v)
        self.log(('cell', o.id, off))
    def getcell(self, st, p, size=None):
        """abstract value at pointer p (a cell), or None"""
        o = self.check_access(st, p, 'access')
        if o is None: return None
        if 'rec' in o.meta: return o.meta['rec'].getabs(self, st, o, p)
        if p.idx is not None: raise Unsupported('abstract value at symbolic offset')
        c = o.cells.get(p.c)
        return c[1] if c else None
    def setcell(self, st, p, size, v):
        if 'rec' in st.mem[p.obj].meta: return st.mem[p.obj].meta['rec'].setabs(self, st, st.mem[p.obj], p, v)
        o = self.wobj(st, p.obj)
        for f in [f for f, (s, _) in o.cells.items() if p.c < f < p.c + size]:
            del o.cells[f]; self.log(('cell', o.id, f))
        o.cells[p.c] = (size, v)
        self.log(('cell', o.id, p.c))
        self.on_write(st, o, ('cell', p.c))
    def delcell(self, st, p):
        if not isinstance(p, Ptr) or p.obj <= 0 or p.obj not in st.mem: return
        o = self.wobj(st, p.obj)
        if p.c in o.cells:
            del o.cells[p.c]
        self.log(('cell', o.id, p.c))
    def ghost_set(self, st, name, v):
        st.ghost[name] = v
        self.log(('ghost', name))
    # ------------------------------------------------------------ obligations
    def here(self, st):
        for fr in reversed(st.frames):
            try: ins = fr.f.blocks[fr.blk].instrs[min(fr.ip, len(fr.f.blocks[fr.blk].instrs) - 1)]
            except Exception: continue
            if ins.dbg:
                f, l = self.m.loc(ins.dbg)
                if '/Balau/' in f or 'harness' in f or fr is st.frames[0]:
                    return f'{f.split("/Balau/")[-1]}:{l}'
        return '?'
    def oblige(self, st, kind, name, goal, soft=False, assume=True):
        goal = tob(goal)
        if isg(goal):
            g = z3.simplify(goal)
            if z3.is_true(g):
                self.triv = getattr(self, 'triv', 0) + (0 if self.dry else 1)
                return
        if not self.dry:
            self.vcs.append(VC(name, kind, self.here(st), list(st.pc), goal, list(st.hints), self.cur, list(st.trace)))
        if assume: st.assume(goal)
    # ------------------------------------------------------------ feasibility
    def sync(self, pc):
        n = 0
        S = self.fs_stack
        while n < len(S) and n < len(pc) and S[n] is pc[n]: n += 1
        if n < len(S):
            self.fs.pop(len(S) - n); del S[n:]
        for f in pc[n:]:
            self.fs.push()
            if isg(f): self.fs.add(f)
            elif isinstance(f, FAnd):
                for x in f.xs:
                    if isg(x): self.fs.add(x)
            S.append(f)
    def feasible(self, st, extra=None):
        if extra is not None:
            if z3.is_true(extra): return True
            if z3.is_false(extra): return False
        self.sync(st.pc)
        self.stats.queries += 1
        if extra is not None:
            r = self.fs.check(extra)
        else: r = self.fs.check()
        return r != z3.unsat
    # ------------------------------------------------------------ main loop
    def run(self, st, dry_stop=None):
        """explore from st to completion; final states go to self.finals (unless in a dry run)"""
        work = [st]
        while work:
            s = work.pop()
            if self.deadline and time.time() > self.deadline: raise Unsupported('exploration budget exceeded')
            try:
                outs = self.run_path(s)
            except DryStop:
                continue
            work.extend(outs)
    def run_path(self, st):
        """run until a fork or end. returns list of successor states"""
        while True:
            if not st.frames:
                self.final(st); return []
            fr = st.frames[-1]
            blk = fr.f.blocks[fr.blk]
            if fr.ip >= len(blk.instrs): raise Unsupported('fell off block')
            ins = blk.instrs[fr.ip]
            self.stats.instrs += 1
            if self.stats.instrs > self.opts['max_instrs']: raise Unsupported('instruction budget exceeded')
            if (self.stats.instrs & 1023) == 0 and self.deadline and time.time() > self.deadline: raise Unsupported('exploration budget exceeded')
            h = getattr(self, 'x_' + ins.op, None)
            if h is None:
                if ins.op in ir.BIN: h = self.x_bin
                elif ins.op in ir.CAST: h = self.x_cast
                else: raise Unsupported(f'instruction {ins.text[:120]}')
            r = h(st, fr, ins)
            if r is None: continue
            if isinstance(r, list): return r
    def final(self, st):
        self.stats.paths += 0 if self.dry else 1
        if self.stats.paths > self.opts['max_paths']: raise Unsupported('path budget exceeded')
        if self.dry: return
        self.on_final(st)
    # simple results
    def setres(self, fr, ins, v):
        if ins.res: fr.env[ins.res] = v
        fr.ip += 1
    def num(self, v, t):
        """operand as z3 value"""
        if v is UNDEF: return self.freshval(t, 'undef')
        if isinstance(v, Opaque):
            r = self.m.rtype(t)
            if r[0] == 'i': return self.freshval(t, 'opq')
        return v
    def x_bin(self, st, fr, ins):
        a, b = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
        t = ins.t
        op = ins.op
        if op[0] == 'f' or t[0] != 'i':
            if t[0] == 'f': return self.setres(fr, ins, self.fbin(st, op, a, b, t))
            raise Unsupported('vector op')
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            return self.setres(fr, ins, self.ptrarith(st, op, a, b, t))
        a, b = self.num(a, t), self.num(b, t)
        w = t[1]
        if w == 1:
            if op == 'and': v = z3.And(a, b)
            elif op == 'or': v = z3.Or(a, b)
            elif op == 'xor': v = z3.Xor(a, b) if not z3.is_true(b) else z3.Not(a)
            elif op in ('add', 'sub'): v = z3.Xor(a, b)
            else: raise Unsupported('i1 ' + op)
            return self.setres(fr, ins, z3.simplify(v))
        sa = self.scaled.get(a.get_id())
        flags = ins.x
        ck = self.opts['overflow'] and 'nsw' in flags
        if op == 'add':
            if ck: self.ovf(st, 'add', z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)))
            v = a + b
        elif op == 'sub':
            if ck: self.ovf(st, 'sub', z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)))
            v = a - b
        elif op == 'mul':
            if ck: self.ovf(st, 'mul', z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b)))
            v = a * b
        elif op in ('udiv', 'sdiv', 'urem', 'srem'):
            if sa is not None and op in ('sdiv', 'udiv') and z3.is_bv_value(b) and b.as_long() == sa[1]:
                return self.setres(fr, ins, sa[0])
            self.oblige(st, 'div-by-zero', op, b != 0)
            if op[0] == 's' and self.opts['overflow']:
                self.ovf(st, op, z3.Or(a != z3.BitVecVal(1 << (w - 1), w), b != z3.BitVecVal(-1, w)))
            v = {'udiv': z3.UDiv, 'sdiv': lambda x, y: x / y, 'urem': z3.URem, 'srem': z3.SRem}[op](a, b)
        elif op in ('shl', 'lshr', 'ashr'):
            if sa is not None and op != 'shl' and z3.is_bv_value(b) and (1 << b.as_long()) == sa[1]:
                return self.setres(fr, ins, sa[0])
            if not z3.is_bv_value(b): self.oblige(st, 'shift-range', op, z3.ULT(b, w))
            v = a << b if op == 'shl' else (z3.LShR(a, b) if op == 'lshr' else a >> b)
        elif op == 'and': v = a & b
        elif op == 'or': v = a | b
        elif op == 'xor': v = a ^ b
        else: raise Unsupported(op)
        if z3.is_bv_value(a) or z3.is_bv_value(b) : v = z3.simplify(v)
        self.setres(fr, ins, v)
    def fbin(self, st, op, a, b, t): return Opaque('float')
    def ovf(self, st, what, f):
        self.oblige(st, 'overflow', f'signed {what} overflow', f)
    def ptroff(self, p):
        """byte offset as BV64"""
        v = bv(p.c)
        if p.idx is not None: v = v + (p.idx * p.stride if p.stride != 1 else p.idx)
        return v
    def ptrarith(self, st, op, a, b, t):
        if isinstance(a, PtrInt) and isinstance(b, PtrInt):
            if op == 'sub':
                p, q = a.p, b.p
                if not (isinstance(p, Ptr) and isinstance(q, Ptr)): raise Unsupported('ptr diff')
                if p.obj != q.obj:
                    if p.obj > 0 and q.obj > 0: self.oblige(st, 'ptr-diff', 'difference of pointers into different objects', z3.BoolVal(False))
                    return fbv('pd')
                return self.pdiff(p, q)
        if isinstance(a, PtrInt) and op in ('add', 'sub') and z3.is_bv(b):
            if op == 'sub': b = -b
            return PtrInt(self.gep(st, ir.I(8), [a.p, z3.simplify(b)], None))
        if isinstance(b, PtrInt) and op == 'add': return self.ptrarith(st, op, b, a, t)
        if isinstance(a, PtrInt) and op == 'and' and z3.is_bv_value(b):
            if isinstance(a.p, Ptr) and a.p.obj > 0: return bv(0) if b.as_long() < 8 else fbv('palign')
            return bv(0)
        raise Unsupported('pointer arithmetic ' + op)
    def pdiff(self, p, q):
        c = p.c - q.c
        pi, qi = p.idx, q.idx
        if pi is None and qi is None: return bv(c)
        s = p.stride if pi is not None else q.stride
        s2 = q.stride if qi is not None else s
        if s2 != s: raise Unsupported('ptr diff strides')
        d = (pi if pi is not None else bv(0)) - (qi if qi is not None else bv(0))
        if c % s: raise Unsupported('ptr diff remainder')
        d = z3.simplify(d + bv(c // s)) if c else z3.simplify(d)
        if s == 1: return d
        r = d * s
        self.scaled[r.get_id()] = (d, s, r)
        return r
    def x_fneg(self, st, fr, ins): self.setres(fr, ins, Opaque('float'))
    def x_fcmp(self, st, fr, ins): self.setres(fr, ins, fbool('fcmp'))
    def x_freeze(self, st, fr, ins):
        self.setres(fr, ins, self.conc(self.val(st, ins.ops[0]), ins.ops[0].t))
    def x_fence(self, st, fr, ins): fr.ip += 1
    def x_icmp(self, st, fr, ins):
        a, b = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
        r = self.icmp(st, ins.x, a, b, ins.ops[0].t)
        if isinstance(r, list):
            outs = []
            for cond, val in r:
                if not self.feasible(st, cond): continue
                s = st.clone(); s.assume(cond)
                s.fr.env[ins.res] = val; s.fr.ip += 1
                outs.append(s)
            return outs
        self.setres(fr, ins, z3.simplify(r))
    def icmp(self, st, pred, a, b, t):
        if isinstance(a, PtrInt): a = a.p
        if isinstance(b, PtrInt): b = b.p
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if z3.is_bv_value(b) and b.as_long() == 0: b = NULL
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                eq = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
                if pred == 'eq': return z3.BoolVal(eq)
                if pred == 'ne': return z3.BoolVal(not eq)
                raise Unsupported('fnptr cmp')
            if isinstance(a, (Opaque, Undef)) or isinstance(b, (Opaque, Undef)): return fbool('pcmp')
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)): raise Unsupported(f'pointer compare {a} {b}')
            if a.obj != b.obj:
                if pred == 'eq': return z3.BoolVal(False)
                if pred == 'ne': return z3.BoolVal(True)
                if a.obj == 0 or b.obj == 0 or a.obj < 0 or b.obj < 0:
                    return z3.BoolVal((pred in ('ugt', 'uge')) == (b.obj <= 0))
                return fbool('pcmp')
            d = self.pdiff_any(a, b)
            z = bv(0)
            return {'eq': d == z, 'ne': d != z, 'ugt': d > z, 'uge': d >= z, 'ult': d < z, 'ule': d <= z,
                    'sgt': d > z, 'sge': d >= z, 'slt': d < z, 'sle': d <= z}[pred]
        a, b = self.num(a, t), self.num(b, t)
        if not (z3.is_expr(a) and z3.is_expr(b)):
            return fbool('opqcmp')
        if isinstance(a, z3.BoolRef):
            if pred == 'eq': return a == b
            if pred == 'ne': return a != b
            x, y = z3.If(a, bv(1, 1), bv(0, 1)), z3.If(b, bv(1, 1), bv(0, 1))
            return self._icmp(pred, x, y)
        sa, sb = self.scaled.get(a.get_id()), self.scaled.get(b.get_id())
        if sa is not None and pred in ('eq', 'ne', 'sgt', 'slt', 'sge', 'sle'):
            if sb is not None and sb[1] == sa[1]: a, b = sa[0], sb[0]
            elif z3.is_bv_value(b) and b.as_signed_long() % sa[1] == 0: a, b = sa[0], bv(b.as_signed_long() // sa[1])
        return self._icmp(pred, a, b)
    def _icmp(self, pred, a, b):
        return {'eq': lambda: a == b, 'ne': lambda: a != b, 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b),
                'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'sgt': lambda: a > b, 'sge': lambda: a >= b,
                'slt': lambda: a < b, 'sle': lambda: a <= b}[pred]()
    def pdiff_any(self, a, b):
        try:
            d = self.pdiff(a, b)
            sc = self.scaled.get(d.get_id())
            return sc[0] if sc else d
        except Unsupported:
            return self.ptroff(a) - self.ptroff(b)
    def x_cast(self, st, fr, ins):
        v = self.val(st, ins.ops[0]); ft = ins.ops[0].t; t = ins.t
        op = ins.op
        if op in ('bitcast', 'addrspacecast'):
            if ft[0] != t[0]: raise Unsupported('bitcast')
            return self.setres(fr, ins, v)
        if op == 'ptrtoint': return self.setres(fr, ins, PtrInt(v) if t == ir.I(64) else fbv('pt', t[1]))
        if op == 'inttoptr':
            if isinstance(v, PtrInt): return self.setres(fr, ins, v.p)
            if z3.is_bv_value(v) and v.as_long() == 0: return self.setres(fr, ins, NULL)
            return self.setres(fr, ins, Opaque('inttoptr'))
        if op in ('uitofp', 'sitofp', 'fptrunc', 'fpext'): return self.setres(fr, ins, Opaque('float'))
        if op in ('fptoui', 'fptosi'): return self.setres(fr, ins, self.freshval(t, 'fp'))
        if isinstance(v, PtrInt) :
            return self.setres(fr, ins, fbv('ptrbits', t[1]))
        v = self.num(v, ft)
        w, w0 = t[1], ft[1]
        if w0 == 1:
            v = z3.If(v, bv(1 if op == 'zext' else -1, w), bv(0, w))
            if z3.is_bv_value(z3.simplify(v)): v = z3.simplify(v)
        elif op == 'zext': v = z3.simplify(z3.ZeroExt(w - w0, v))
        elif op == 'sext': v = z3.simplify(z3.SignExt(w - w0, v))
        elif op == 'trunc':
            v = z3.simplify(z3.Extract(0, 0, v) == 1 if w == 1 else z3.Extract(w - 1, 0, v))
        else: raise Unsupported(op)
        self.setres(fr, ins, v)
    def x_alloca(self, st, fr, ins):
        if ins.ops:
            n = self.val(st, ins.ops[0])
            if not (z3.is_bv_value(n) and n.as_long() == 1): raise Unsupported('dynamic alloca')
        o = self.typed_obj(st, (ins.res or '%a') + '@' + self.short(fr.f.name[1:]), ins.x, 'stack')
        fr.allocas.append(o.id)
        self.setres(fr, ins, Ptr(o.id))
    def x_load(self, st, fr, ins):
        p = self.val(st, ins.ops[0])
        self.touch(st, p, False)
        self.setres(fr, ins, self.load(st, p, ins.t))
    def x_store(self, st, fr, ins):
        v, p = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
        self.touch(st, p, True)
        self.store(st, p, v, ins.ops[0].t)
        fr.ip += 1
    def touch(self, st, p, write):
        h = self.opts.get('on_touch')
        if h: h(self, st, p, write)
    def x_getelementptr(self, st, fr, ins):
        vals = [self.val(st, o) for o in ins.ops]
        if isinstance(vals[0], Opaque): return self.setres(fr, ins, Opaque('gep'))
        self.setres(fr, ins, self.gep(st, ins.x, vals, [o.t for o in ins.ops]))
    def x_select(self, st, fr, ins):
        c, a, b = [self.val(st, o) for o in ins.ops]
        c = self.num(c, ir.I(1))
        if z3.is_true(c): return self.setres(fr, ins, a)
        if z3.is_false(c): return self.setres(fr, ins, b)
        if a is UNDEF: return self.setres(fr, ins, b)
        if b is UNDEF: return self.setres(fr, ins, a)
        if z3.is_expr(a) and z3.is_expr(b): return self.setres(fr, ins, z3.If(c, a, b))
        outs = []
        for cond, v in ((c, a), (z3.Not(c), b)):
            if self.feasible(st, cond):
                s = st.clone(); s.assume(cond); s.fr.env[ins.res] = v; s.fr.ip += 1; outs.append(s)
        return outs
    def x_extractvalue(self, st, fr, ins):
        v = self.val(st, ins.ops[0])
        for i in ins.x:
            if v is UNDEF: break
            v = v[i]
        self.setres(fr, ins, v)
    def x_insertvalue(self, st, fr, ins):
        a, b = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
        def put(a, t, ix):
            r = self.m.rtype(t)
            n = len(r[1]) if r[0] == 'st' else r[1]
            a = list(a) if a is not UNDEF else [UNDEF] * n
            if len(ix) == 1: a[ix[0]] = b
            else: a[ix[0]] = put(a[ix[0]], r[1][ix[0]] if r[0] == 'st' else r[2], ix[1:])
            return a
        self.setres(fr, ins, put(a, ins.ops[0].t, ins.x))
    def x_atomicrmw(self, st, fr, ins):
        p, v = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
        t = ins.ops[1].t
        old = self.load(st, p, t)
        if isinstance(old, (Ptr, Opaque)) or isinstance(v, (Ptr, Opaque)):
            if ins.x == 'xchg': new = v
            else: raise Unsupported('atomicrmw on pointer')
        else:
            old, v = self.num(old, t), self.num(v, t)
            new = {'add': lambda: old + v, 'sub': lambda: old - v, 'xchg': lambda: v, 'and': lambda: old & v, 'or': lambda: old | v, 'xor': lambda: old ^ v}[ins.x]()
        self.store(st, p, new, t)
        self.setres(fr, ins, old)
    def x_cmpxchg(self, st, fr, ins):
        p, e, n = [self.val(st, o) for o in ins.ops]
        t = ins.ops[1].t
        old = self.load(st, p, t)
        eq = z3.simplify(self.icmp(st, 'eq', old, e, t))
        outs = []
        for cond, val in ((eq, True), (z3.simplify(z3.Not(eq)), False)):
            if z3.is_false(cond) or not self.feasible(st, cond): continue
            s = st.clone(); s.assume(cond)
            if val: self.store(s, p, n, t)
            s.fr.env[ins.res] = [old, z3.BoolVal(val)]
            s.fr.ip += 1
            outs.append(s)
        return outs
    # ------------------------------------------------------------ control
    def x_unreachable(self, st, fr, ins):
        self.oblige(st, 'unreachable', 'unreachable code reached', z3.BoolVal(False))
        return []
    def x_br(self, st, fr, ins):
        if len(ins.x) == 1:
            return self.jump(st, ins.x[0])
        c = self.val(st, ins.ops[0])
        c = z3.simplify(self.num(c, ir.I(1)))
        if z3.is_true(c): return self.jump(st, ins.x[0])
        if z3.is_false(c): return self.jump(st, ins.x[1])
        nc = z3.simplify(z3.Not(c))
        f1 = self.feasible(st, c)
        f2 = self.feasible(st, nc) if f1 else True
        if f1 and f2:
            s2 = st.clone()
            s2.assume(nc)
            st.assume(c)
            loc = self.here(st)
            outs = []
            for s, l in ((s2, ins.x[1]), (st, ins.x[0])):
                s.trace.append((loc, 'T' if s is st else 'F'))
                try: r = self.jump(s, l)
                except DryStop: continue
                outs += r if isinstance(r, list) else [s]
            return outs
        if f1: st.assume(c); return self.jump(st, ins.x[0])
        st.assume(nc)
        return self.jump(st, ins.x[1])
    def x_switch(self, st, fr, ins):
        v = self.num(self.val(st, ins.ops[0]), ins.ops[0].t)
        dflt, cases = ins.x
        by = {}
        for c, l in cases:
            by.setdefault(l, []).append(v == self.const(st, c))
        outs = []
        none = []
        for l, cs in by.items():
            none += cs
            if l == dflt: continue
            cond = z3.simplify(z3.Or(*cs))
            if self.feasible(st, cond):
                s = st.clone(); s.assume(cond); s.trace.append((self.here(s), 'case'))
                try: r = self.jump(s, l)
                except DryStop: continue
                outs += r if isinstance(r, list) else [s]
        notd = [x for l, cs in by.items() if l != dflt for x in cs]
        cond = z3.simplify(z3.Not(z3.Or(*notd))) if notd else z3.BoolVal(True)
        if self.feasible(st, cond):
            st.assume(cond)
            try:
                r = self.jump(st, dflt)
                outs += r if isinstance(r, list) else [st]
            except DryStop: pass
        return outs
    def jump(self, st, label):
        """returns None (continue) or list of states"""
        fr = st.fr
        f = fr.f
        # leave loops
        while fr.loops and label not in f.loops[fr.loops[-1].header]:
            L = fr.loops.pop()
            if L.dry: raise DryStop()
        # parallel phi evaluation
        tgt = f.blocks[label]
        vals = []
        for ph in tgt.phis:
            for v, l in ph.x:
                if l == fr.blk:
                    vals.append((ph.res, self.val(st, v))); break
            else: raise Unsupported('phi without edge')
        if label in f.loops:
            if fr.loops and fr.loops[-1].header == label:
                for r, v in vals: fr.env[r] = v
                return self.backedge(st, fr.loops[-1])
            for r, v in vals: fr.env[r] = v
            fr.prev, fr.blk, fr.ip = fr.blk, label, 0
            return self.enter_loop(st, label)
        for r, v in vals: fr.env[r] = v
        fr.prev, fr.blk, fr.ip = fr.blk, label, 0
        return None
    # ------------------------------------------------------------ loops
    def kindof(self, v):
        if isinstance(v, z3.BoolRef): return ('b',)
        if z3.is_bv(v): return ('i', v.size())
        if isinstance(v, Ptr): return ('p', v.obj)
        if isinstance(v, z3.ArrayRef): return ('a', str(v.sort()))
        if isinstance(v, Abs): return ('abs', v.join_kind())
        if isinstance(v, FnPtr): return ('fn', v.name)
        if isinstance(v, Opaque): return ('o',)
        if isinstance(v, PtrInt): return ('pi', v.p.obj if isinstance(v.p, Ptr) else None)
        if v is UNDEF: return ('u',)
        if v is None: return ('none',)
        if isinstance(v, list): return ('l',)
        if z3.is_expr(v): return ('z', str(v.sort()))
        raise Unsupported('kind of ' + repr(v))
    def samev(self, a, b):
        if a is b: return True
        if z3.is_expr(a) and z3.is_expr(b): return a.eq(b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.obj == b.obj and a.c == b.c and ((a.idx is None and b.idx is None) or (a.idx is not None and b.idx is not None and a.stride == b.stride and a.idx.eq(b.idx)))
        if isinstance(a, FnPtr) and isinstance(b, FnPtr): return a.name == b.name
        if isinstance(a, Abs) and isinstance(b, Abs): return a.same(b)
        return False
    def enter_loop(self, st, label):
        f = st.fr.f
        depth = len(st.frames) - 1
        phis = f.blocks[label].phis
        base_log = None
        # ---- dry runs to find what the loop changes, and the shapes at the back edges
        changed = {}          # key -> list of shapes/values seen at back edges (beyond the entry value)
        existing = set(st.mem)
        for it in range(12):
            variants = self.havoc(st, depth, phis, changed)
            grew = False
            inner_keys = set()
            for hs, L in variants:
                L.dry = True
                L.log = set()
                hs.frames[depth].loops.append(L)
                self.logs.append(L.log)
                self.dry += 1
                try:
                    self.run(hs)
                finally:
                    self.dry -= 1
                    self.logs[:] = [x for x in self.logs if x is not L.log]
                keys = [('phi', p.res) for p in phis] + sorted((k for k in L.log if k[0] == 'ghost' or k[1] in existing), key=str)
                for k in keys:
                    inner_keys.add(k)
                    ev = L.get_entry(st, depth, k)
                    cur = changed.get(k)
                    for bs in L.backs:
                        v = L.get(bs, k)
                        hv = L.get(L.head0, k)
                        if cur is None:
                            if self.samev(v, hv) : continue
                            cur = changed[k] = [ev]
                            grew = True
                        sh = self.shape(v)
                        if sh not in [self.shape(x) for x in cur]:
                            cur.append(v); grew = True
                    if k[0] != 'phi' and cur is None and k not in changed and not L.backs:
                        pass
                # array regions written but back-edge value same object handled above
            if not grew: break
        else:
            raise Unsupported('loop shape does not stabilise')
        outs = []
        for hs, L in self.havoc(st, depth, phis, changed):
            if self.dry:
                # only the effects matter; record havocked keys as written
                for k in changed:
                    if k[0] != 'phi': self.log(k)
                hs.frames[depth].loops.append(L)
                L.cands = []
                outs.append(hs)
                continue
            self.stats.loops += 1
            for k in changed:
                if k[0] != 'phi': self.log(k)
            L.E = self
            L.entry_state = st.clone()
            L.head_state = hs.clone()
            L.idx = len(self.insts)
            self.insts.append(L)
            L.loc = self.here(hs)
            L.cands = []
            for c in self.candidates(L, st, hs):
                L.cands.append([c[0], c[1], True])
            # entry VCs
            for n, c in enumerate(L.cands):
                try: g = c[1](lambda k, s=st: L.get(s, k), st)
                except Unsupported: c[2] = False; continue
                if g is None: c[2] = False; continue
                self.vcs.append(VC(f'inv-entry {c[0]}', 'cand', L.loc, list(st.pc), tob(g), list(st.hints), self.cur, list(st.trace), (L, n)))
            hs.pc.append(Marker(L))
            hs.trace.append((L.loc, 'loop'))
            hs.frames[depth].loops.append(L)
            L.measures = self.measures(L, st, hs)
            outs.append(hs)
        return outs
    def shape(self, v):
        return self.kindof(v)
    def havoc(self, st, depth, phis, changed):
        """list of (state, LoopInst) with changed keys replaced by fresh values; forks over pointer bases"""
        f = st.frames[depth].f
        label = st.frames[depth].blk
        base = [(st.clone(), [])]
        for k, vals in changed.items():
            nxt = []
            for s, lv in base:
                nm = self.varname(k)
                kinds = []
                for v in vals:
                    kd = self.kindof(v)
                    if kd not in [x for x, _ in kinds]: kinds.append((kd, v))
                ent = vals[0]
                arms = []
                ints = [kd for kd, _ in kinds if kd[0] == 'i']
                for kd, v in kinds:
                    arms.append((kd, v))
                real = [(kd, v) for kd, v in arms if kd[0] not in ('u',)]
                if not real: real = arms
                if any(kd[0] == 'none' for kd, _ in real) and k[0] == 'cell':
                    # absent at entry or at a back edge: unknown at the head
                    o = self.wobj(s, k[1])
                    o.cells.pop(k[2], None)
                    nxt.append((s, lv))
                    continue
                for n, (kd, v) in enumerate(real):
                    s2 = s.clone() if n < len(real) - 1 else s
                    hv = self.havoc_val(s2, kd, v, nm, vals)
                    self.setkey(s2, depth, k, hv, v)
                    w = kd[1] if kd[0] == 'i' else 0
                    nxt.append((s2, lv + [LoopVar(k, kd[0], w, ent, hv, nm)]))
            base = nxt
            if len(base) > 16: raise Unsupported('too many loop shapes')
        out = []
        for s, lv in base:
            L = LoopInst(f, label, depth)
            L.vars = lv
            L.head0 = s.clone()
            L.get_entry = lambda st, d, k, L=L: L.get(st, k)
            out.append((s, L))
        return out
    def varname(self, k):
        return '_'.join(str(x) for x in k).replace('%', '')
    def havoc_val(self, s, kd, v, nm, vals):
        if kd[0] == 'b': return fbool(nm)
        if kd[0] == 'i': return fbv(nm, kd[1])
        if kd[0] == 'a': return fresh(nm, v.sort())
        if kd[0] == 'z': return fresh(nm, v.sort())
        if kd[0] == 'p':
            if v.obj <= 0: return v
            ps = [x for x in vals if isinstance(x, Ptr) and x.obj == v.obj]
            if all(self.samev(ps[0], x) for x in ps[1:]) and len(ps) > 1: return ps[0]
            o = s.mem.get(v.obj)
            es = 1
            strides = {x.stride for x in ps if x.idx is not None}
            if o is not None and len(o.regions) >= 1: es = o.regions[0].es
            if o is not None and len(o.regions) > 1:
                for r in o.regions:
                    if r.base <= v.c: es = r.es
            if strides: es = min(strides | {es}) if es > 1 else min(strides)
            if o is not None and 'rec' in o.meta: es = o.meta['rec'].stride
            if es == 1 and o is not None and not o.regions:
                raise Unsupported('pointer walks over cells')
            return Ptr(v.obj, v.c % es if (o.size is None) else self.regbase(o, v) , fbv(nm), es)
        if kd[0] == 'abs': return v.havoc(self, s, nm)
        if kd[0] == 'fn': return v
        if kd[0] == 'o': return Opaque('loop')
        if kd[0] == 'u': return UNDEF
        if kd[0] == 'pi': return PtrInt(self.havoc_val(s, ('p', kd[1]), v.p, nm, [x.p for x in vals if isinstance(x, PtrInt)]))
        raise Unsupported('havoc ' + str(kd))
    def regbase(self, o, v):
        best = v.c
        for r in o.regions:
            if r.base <= v.c: best = r.base
        return best
    def setkey(self, s, depth, k, hv, like):
        if k[0] == 'phi': s.frames[depth].env[k[1]] = hv
        elif k[0] == 'cell':
            o = self.wobj(s, k[1])
            old = o.cells.get(k[2])
            sz = old[0] if old else (32 if isinstance(like, Abs) else (like.size() // 8 if z3.is_bv(like) else (1 if isinstance(like, z3.BoolRef) else 8)))
            o.cells[k[2]] = (sz, hv)
        elif k[0] == 'arr':
            o = self.wobj(s, k[1])
            r = o.regions[k[2]]
            o.regions[k[2]] = Region(r.base, r.es, r.count, hv)
        elif k[0] == 'ghost': s.ghost[k[1]] = hv
    def backedge(self, st, L):
        if L.dry:
            L.backs.append(st)
            raise DryStop()
        if self.dry: raise DryStop()
        for n, c in enumerate(L.cands):
            if not c[2]: continue
            try: g = c[1](lambda k: L.get(st, k), st)
            except Unsupported: g = None
            if g is None: c[2] = False; continue
            self.vcs.append(VC(f'inv-step {c[0]}', 'cand', L.loc, list(st.pc), tob(g), list(st.hints), self.cur, list(st.trace), (L, n)))
        if L.measures is not None:
            ms = []
            for nm, m in L.measures:
                a = m(lambda k: L.get(L.head_state, k), L.head_state)
                b = m(lambda k: L.get(st, k), st)
                if a is None or b is None: ms.append((nm, None)); continue
                ms.append((nm, z3.And(a >= 0, b < a) if a.size() == b.size() else None))
            self.term = getattr(self, 'term', [])
            self.term.append((L, st.pc[:], ms, list(st.hints), list(st.trace)))
        return []
    def candidates(self, L, entry, head):
        return self.spec.invariants(self, L, entry, head) if self.spec else []
    def measures(self, L, entry, head):
        return self.spec.measures(self, L, entry, head) if self.spec else None
    # ------------------------------------------------------------ calls
    def x_ret(self, st, fr, ins):
        v = self.val(st, ins.ops[0]) if ins.ops else None
        return self.do_return(st, v)
    def do_return(self, st, v):
        fr = st.frames.pop()
        for L in fr.loops:
            if L.dry: raise DryStop()
        for a in fr.allocas:
            if a in st.mem: del st.mem[a]
        if not st.frames:
            st.ghost['$ret'] = v
            return None
        if fr.retmap is not None:
            outs = fr.retmap(self, st, v)
            if outs is not None: return outs
        return self.finish_call(st, v)
    def finish_call(self, st, v):
        fr = st.fr
        ins = fr.f.blocks[fr.blk].instrs[fr.ip]
        if ins.res: fr.env[ins.res] = v
        if ins.op == 'invoke': return self.jump(st, ins.x['normal'])
        fr.ip += 1
        return None
    def raise_exc(self, st, exc):
        """unwind from the current instruction of the top frame"""
        st.exc = exc
        while st.frames:
            fr = st.fr
            ins = fr.f.blocks[fr.blk].instrs[fr.ip]
            if ins.op == 'invoke':
                lp = fr.f.blocks[ins.x['unwind']].instrs[0]
                sel = self.lp_select(lp, exc)
                if sel is not None:
                    r = self.jump(st, ins.x['unwind'])
                    if isinstance(r, list): return r
                    st.fr.env[lp.res] = [exc, bv(sel, 32)]
                    st.fr.ip += 1
                    st.exc = None
                    return None
            st.frames.pop()
            for L in fr.loops:
                if L.dry: raise DryStop()
            for a in fr.allocas:
                if a in st.mem: del st.mem[a]
        st.ghost['$exc'] = exc
        return None
    def tid(self, name):
        return self.tids.setdefault(name, len(self.tids) + 1)
    def ti_bases(self, ti):
        out = [ti]
        i = 0
        while i < len(out):
            s = self.m.globals.get(out[i], '')
            for b in re.findall(r'ptr (@_ZTI\w+)', s):
                if b not in out: out.append(b)
            i += 1
        return out
    def lp_select(self, lp, exc):
        for kind, op in lp.x['clauses']:
            if kind == 'catch':
                if op.k == 'null': return self.tid('*')
                if exc.ti == '?': raise Unsupported('catch of an unknown exception type')
                if op.k == 'g' and op.v in self.ti_bases(exc.ti): return self.tid(op.v)
            else: raise Unsupported('filter clause')
        if lp.x['cleanup']: return 0
        return None
    def x_landingpad(self, st, fr, ins): raise Unsupported('landingpad reached by fallthrough')
    def x_resume(self, st, fr, ins):
        v = self.val(st, ins.ops[0])
        exc = v[0]
        fr2 = st.frames.pop()
        for L in fr2.loops:
            if L.dry: raise DryStop()
        for a in fr2.allocas:
            if a in st.mem: del st.mem[a]
        if not st.frames:
            st.ghost['$exc'] = exc
            return None
        return self.raise_exc(st, exc)
    def x_invoke(self, st, fr, ins): return self.x_call(st, fr, ins)
    def x_call(self, st, fr, ins):
        if ins.x.get('asm'): raise Unsupported('inline asm')
        cal = ins.x['callee']
        args = [self.val(st, a) if a.k != 'md' else None for a in ins.ops]
        c = self.val(st, cal)
        if isinstance(c, FnPtr): name = c.name
        elif isinstance(c, Opaque) or isinstance(c, Abs):
            r = self.call_opaque(st, c, args, ins)
            return self.outcomes(st, r)
        else: raise Unsupported(f'indirect call through {c}')
        return self.call(st, name, args, ins)
    def call_opaque(self, st, c, args, ins): raise Unsupported(f'call through {c}')
    def lookup_model(self, name):
        r = self.model_cache.get(name)
        if r is None:
            d = self.m.demangle(name)
            r = (None, d)
            for rx, fn in self.models:
                if rx.search(d):
                    r = (fn, d); break
            self.model_cache[name] = r
        return r
    def call(self, st, name, args, ins):
        if name in self.m.aliases: name = self.m.aliases[name]
        if name.startswith('@llvm.'):
            return self.outcomes(st, self.intrinsic(st, name, args, ins))
        d = self.m.demangle(name)
        for con in self.contracts:
            if con.matches(self, name, d) and not (con is self.spec and len(st.frames) == 0):
                self.stats.contracts[d] = self.stats.contracts.get(d, 0) + 1
                r = con.apply(self, st, args, ins)
                if r is not NotImplemented: return self.outcomes(st, r)
        fn, d = self.lookup_model(name)
        if fn is not None:
            r = fn(self, st, args, ins, d)
            if r is not NotImplemented:
                self.stats.models[d] = self.stats.models.get(d, 0) + 1
                return self.outcomes(st, r)
        f = self.m.funcs.get(name)
        if f is None: raise Unsupported('external function without a contract: ' + d)
        return self.inline(st, f, args, d)
    def inline(self, st, f, args, d=None, retmap=None):
        if len(st.frames) > self.opts['max_inline']: raise Unsupported('inlining too deep at ' + (d or f.name))
        if sum(1 for fr in st.frames if fr.f is f) >= self.opts.get('max_rec', 1): raise Unsupported('recursive call without a contract: ' + (d or f.name))
        f.parse()
        self.stats.inlined[d or f.name] = self.stats.inlined.get(d or f.name, 0) + 1
        nf = Frame(f)
        nf.retmap = retmap
        for (nm, t, at), v in zip(f.params, args):
            if 'byval' in at and isinstance(v, Ptr):
                raise Unsupported('byval')
            nf.env[nm] = v
        st.frames.append(nf)
        if f.entry in f.loops: raise Unsupported('entry is a loop header')
        return None
    def outcomes(self, st, r):
        """r: a value | list of Outcome tuples (state, value[, exc])"""
        if isinstance(r, Outs):
            outs = []
            for s, v, e in r.xs:
                try:
                    if e is not None: x = self.raise_exc(s, e)
                    else: x = self.finish_call(s, v)
                except DryStop: continue
                outs += x if isinstance(x, list) else [s]
            return outs
        if isinstance(r, Raise):
            return self.raise_exc(st, r.exc)
        if r is INLINED: return None
        return self.finish_call(st, r)
    def intrinsic(self, st, name, args, ins):
        n = name[6:]
        if n.startswith(('lifetime', 'dbg.', 'assume', 'experimental.noalias', 'donothing', 'invariant', 'stackrestore', 'prefetch', 'var.annotation')):
            if n.startswith('assume'): st.assume(args[0])
            return None
        if n.startswith('expect'): return args[0]
        if n.startswith('eh.typeid.for'):
            g = ins.ops[0]
            return bv(self.tid(g.v), 32)
        if n.startswith('memcpy') or n.startswith('memmove'):
            self.memcpy(st, args[0], args[1], args[2]); return None
        if n.startswith('memset'):
            self.memset(st, args[0], args[1], args[2]); return None
        if n.startswith('umul.with.overflow'):
            a, b = args[0], args[1]
            return [a * b, z3.Not(z3.BVMulNoOverflow(a, b, False))]
        if n.startswith('uadd.with.overflow'):
            a, b = args[0], args[1]
            return [a + b, z3.Not(z3.BVAddNoOverflow(a, b, False))]
        if n.startswith(('umax', 'umin', 'smax', 'smin')):
            a, b = args
            c = {'umax': z3.UGT, 'umin': z3.ULT, 'smax': lambda x, y: x > y, 'smin': lambda x, y: x < y}[n[:4]](a, b)
            return z3.If(c, a, b)
        if n.startswith('abs.'):
            return z3.If(args[0] < 0, -args[0], args[0])
        if n.startswith('bswap'):
            v = args[0]; w = v.size()
            return z3.Concat(*[z3.Extract(i + 7, i, v) for i in range(0, w, 8)])
        if n.startswith(('fshl', 'fshr')):
            a, b, c = args; w = a.size()
            c = z3.URem(c, bv(w, w))
            x = z3.Concat(a, b)
            cc = z3.ZeroExt(w, c)
            return z3.simplify(z3.Extract(2 * w - 1, w, x << cc)) if n.startswith('fshl') else z3.simplify(z3.Extract(w - 1, 0, z3.LShR(x, cc)))
        if n.startswith('is.constant'): return z3.BoolVal(False)
        if n.startswith('trap'):
            self.oblige(st, 'trap', 'trap reached', z3.BoolVal(False)); return Outs([])
        raise Unsupported('intrinsic ' + name)
    def memcpy(self, st, d, s, n):
        if z3.is_bv_value(n) and n.as_long() == 0: return
        if not isinstance(d, Ptr) or not isinstance(s, Ptr): raise Unsupported('memcpy')
        so = self.check_access(st, s, 'memcpy source'); do = self.check_access(st, d, 'memcpy destination')
        if so is None or do is None: return
        rc = so.meta.get('rec') or do.meta.get('rec')
        if rc is not None:
            if not z3.is_bv_value(n) or n.as_long() != rc.stride: raise Unsupported('memcpy of part of a record')
            for off, t in rc.types: self.store(st, Ptr(d.obj, d.c + off, d.idx, d.stride), self.load(st, Ptr(s.obj, s.c + off, s.idx, s.stride), t), t)
            return
        sr, dr = self.region_index(st, so, s, 1), self.region_index(st, do, d, 1)
        if sr is None and dr is None:
            if not z3.is_bv_value(n): raise Unsupported('memcpy of cells with symbolic size')
            k = n.as_long()
            for o, p in ((so, s), (do, d)):
                if o.size is not None and p.c + k > o.size: self.oblige(st, 'bounds', f'memcpy outside {o.name}', z3.BoolVal(False)); return
            # copy cells and embedded regions
            cells = {f - s.c: c for f, c in so.cells.items() if s.c <= f and f + c[0] <= s.c + k}
            do = self.wobj(st, d.obj)
            for f in [f for f, c in do.cells.items() if d.c <= f < d.c + k]:
                del do.cells[f]; self.log(('cell', do.id, f))
            for f, (z, v) in cells.items():
                if isinstance(v, Abs): raise Unsupported('memcpy of abstract value')
                do.cells[d.c + f] = (z, v); self.log(('cell', do.id, d.c + f))
            for r in so.regions:
                if s.c <= r.base < s.c + k:
                    for m, q in enumerate(do.regions):
                        if q.base - d.c == r.base - s.c and q.es == r.es:
                            do.regions[m] = Region(q.base, q.es, q.count, r.arr); self.log(('arr', do.id, m)); break
                    else: raise Unsupported('memcpy of array into cells')
            return
        if sr is None or dr is None:
            if not z3.is_bv_value(n): raise Unsupported('memcpy between array and cells')
            k = n.as_long()
            if sr is not None and so.regions[sr[0]].es == k or dr is not None and do.regions[dr[0]].es == k or k in (1, 2, 4, 8):
                v = self.load(st, s, ir.I(8 * k)); self.store(st, d, v, ir.I(8 * k)); return
            raise Unsupported('memcpy between array and cells')
        a, b = so.regions[sr[0]], do.regions[dr[0]]
        if a.es != b.es or sr[2] or dr[2]: raise Unsupported('memcpy between different element sizes')
        cnt = self.divn(n, a.es)
        si, di = sr[1], dr[1]
        self.oblige(st, 'bounds', f'memcpy source within {so.name}', z3.And(z3.ULE(si, a.count), z3.ULE(cnt, a.count - si)))
        self.oblige(st, 'bounds', f'memcpy destination within {do.name}', z3.And(z3.ULE(di, b.count), z3.ULE(cnt, b.count - di)))
        do = self.wobj(st, d.obj)
        do.regions[dr[0]] = Region(b.base, b.es, b.count, self.copy_arr(st, b.arr, di, a.arr, si, cnt))
        self.log(('arr', do.id, dr[0]))
        self.on_write(st, do, ('arr', dr[0], None))
    def divn(self, n, es):
        if es == 1: return n
        sc = self.scaled.get(n.get_id())
        if sc and sc[1] == es: return sc[0]
        if z3.is_bv_value(n): return bv(n.as_long() // es)
        return z3.UDiv(n, bv(es))
    def copy_arr(self, st, dst, di, src, si, cnt):
        """array equal to dst except [di, di+cnt) = src[si..)"""
        if z3.is_bv_value(cnt) and cnt.as_long() <= 16:
            r = dst
            vals = [z3.Select(src, si + bv(j)) for j in range(cnt.as_long())]
            for j, v in enumerate(vals): r = z3.Store(r, di + bv(j), v)
            return r
        n = fresh('cp', dst.sort())
        keys = [n, (self.leaf(src), lambda t: t - si + di), (self.leaf(dst), None)]
        st.assume(QAll(lambda k: z3.Select(n, k) == z3.If(z3.And(z3.ULE(di, k), z3.ULT(k - di, cnt)), z3.Select(src, k - di + si), z3.Select(dst, k)), keys, 'copy'))
        return n
    def leaf(self, a):
        """some array constant under stores (for triggers)"""
        while a.decl().kind() == z3.Z3_OP_STORE: a = a.arg(0)
        if a.decl().kind() == z3.Z3_OP_ITE: return self.leaf(a.arg(1))
        return a.decl().name()
    def memset(self, st, d, v, n):
        if z3.is_bv_value(n) and n.as_long() == 0: return
        o = self.check_access(st, d, 'memset')
        if o is None: return
        ri = self.region_index(st, o, d, 1)
        if ri is None:
            if not z3.is_bv_value(n): raise Unsupported('memset symbolic')
            k = n.as_long()
            if not (z3.is_bv_value(v) and v.as_long() == 0): raise Unsupported('memset of cells with nonzero')
            o = self.wobj(st, d.obj)
            for f in [f for f, c in o.cells.items() if d.c <= f < d.c + k]:
                del o.cells[f]; self.log(('cell', o.id, f))
            self.zerofill(st, o, d.c, k)
            return
        nreg, i, rem = ri
        r = o.regions[nreg]
        if r.base != 0 or o.size is not None:
            cap = r.count
            if z3.is_bv_value(n) and d.idx is None and z3.is_bv_value(cap) and d.c + n.as_long() > r.base + cap.as_long() * r.es:
                # spans several members
                if not (z3.is_bv_value(v) and v.as_long() == 0): raise Unsupported('memset over members')
                o = self.wobj(st, d.obj)
                lo, hi = d.c, d.c + n.as_long()
                for f in [f for f, c in o.cells.items() if lo <= f < hi]:
                    del o.cells[f]; self.log(('cell', o.id, f))
                for m, q in enumerate(o.regions):
                    if lo <= q.base and q.base + q.count.as_long() * q.es <= hi:
                        o.regions[m] = Region(q.base, q.es, q.count, z3.K(BV64, bv(0, 8 * q.es))); self.log(('arr', o.id, m))
                return
        if r.es != 1:
            if not (z3.is_bv_value(v)): raise Unsupported('memset words')
            b = v.as_long() & 255
            val = bv(int.from_bytes(bytes([b]) * r.es, 'little'), 8 * r.es)
        else:
            val = self.num(v, ir.I(8))
        if rem: raise Unsupported('memset unaligned')
        cnt = self.divn(n, r.es)
        self.oblige(st, 'bounds', f'memset within {o.name}', z3.And(z3.ULE(i, r.count), z3.ULE(cnt, r.count - i)))
        o = self.wobj(st, d.obj)
        na = fresh('ms', r.arr.sort())
        old = r.arr
        st.assume(QAll(lambda k: z3.Select(na, k) == z3.If(z3.And(z3.ULE(i, k), z3.ULT(k - i, cnt)), val, z3.Select(old, k)), [na, (self.leaf(old), None)], 'memset'))
        o.regions[nreg] = Region(r.base, r.es, r.count, na)
        self.log(('arr', o.id, nreg))
    def zerofill(self, st, o, off, k):
        def fill(t, base):
            r = self.m.rtype(t)
            if r[0] == 'st':
                for e, f in zip(r[1], self.m.layout(r)[2]): fill(e, base + f)
            elif r[0] == 'arr':
                for q, rg in enumerate(o.regions):
                    if rg.base == base and off <= base < off + k:
                        o.regions[q] = Region(rg.base, rg.es, rg.count, z3.K(BV64, bv(0, 8 * rg.es))); self.log(('arr', o.id, q)); return
                for i in range(r[1]): fill(r[2], base + i * self.m.size(r[2]))
            else:
                if off <= base and base + self.m.size(r) <= off + k:
                    o.cells[base] = (self.m.size(r), self.zero(r)); self.log(('cell', o.id, base))
        if o.type is None:
            if k > 16:
                if k % 8 or off % 8 or k > 4096: raise Unsupported('memset of untyped memory')
                for q in [q for q in o.cells if off <= q < off + k]: del o.cells[q]
                for q in range(off, off + k, 8): o.cells[q] = (8, bv(0)); self.log(('cell', o.id, q))
                return
            o.cells[off] = (k, bv(0, 8 * k))
            self.log(('cell', o.id, off)); return
        fill(o.type, 0)

class Outs:
    def __init__(self, xs):
        self.xs = [(x + (None,) if len(x) == 2 else x) for x in xs]
class Raise:
    def __init__(self, exc): self.exc = exc
class _Inl: pass
INLINED = _Inl()
