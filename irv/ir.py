"""Textual LLVM-IR (clang 18) reader.

Only what the verifier needs: types with layout, globals, functions (parsed on demand),
debug locations.  Everything not understood raises Unsupported, which the driver turns into
"outside the verifier's reach", never into a discharged obligation.
"""
import re, subprocess, functools

class Unsupported(Exception):
    pass

TOK = re.compile(r'''\s*(c?"(?:[^"\\]|\\.)*"|[%@]"[^"]*"|[%@][-\w$.]+|!"[^"]*"|![\w.]*|\#\d+|\$"[^"]*"|\$[-\w$.]+|-?\d+\.\d+(?:e[-+]\d+)?|0x[0-9A-Fa-f]+|-?\d+|[A-Za-z_][\w.]*|\.\.\.|[()\[\]{}<>,=*:|])''')

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise Unsupported('token: ' + s[i:i + 40])
        out.append(m.group(1))
        i = m.end()
    return out

# ---------------------------------------------------------------- types
VOID = ('void',)
PTR = ('ptr',)
def I(n): return ('i', n)

class Operand:
    __slots__ = ('k', 'v', 't')
    def __init__(self, k, v, t):
        self.k, self.v, self.t = k, v, t
    def __repr__(self):
        return f'{self.k}:{self.v}'

class Instr:
    __slots__ = ('op', 'res', 't', 'ops', 'x', 'dbg', 'text')
    def __init__(self, op):
        self.op = op
        self.res = None
        self.t = None
        self.ops = []
        self.x = None
        self.dbg = None
        self.text = ''
    def __repr__(self):
        return self.text

class Block:
    __slots__ = ('label', 'instrs', 'phis', 'succs')
    def __init__(self, label):
        self.label = label
        self.instrs = []
        self.phis = []
        self.succs = []

PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'signext', 'zeroext',
               'returned', 'immarg', 'nest', 'swiftself', 'writable', 'dead_on_unwind', 'inreg', 'allocptr', 'allocalign',
               'nofree', 'noreturn', 'inalloca', 'dso_local', 'hidden', 'fastcc', 'ccc', 'coldcc', 'tailcc', 'local_unnamed_addr', 'unnamed_addr',
               'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast', 'volatile', 'inbounds', 'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'weak', 'inrange'}
ATTR_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype', 'preallocated', 'range', 'nofpclass', 'initializes'}

class P:
    """token cursor"""
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod
    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None
    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x
    def acc(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False
    def exp(self, x):
        y = self.next()
        if y != x:
            raise Unsupported(f'expected {x} got {y} in {" ".join(self.t)[:200]}')
    def ptype(self):
        x = self.next()
        if x == 'ptr':
            t = PTR
            if self.peek() == 'addrspace':
                self.i += 4
        elif x == 'void': t = VOID
        elif re.fullmatch(r'i\d+', x): t = I(int(x[1:]))
        elif x == 'float': t = ('f', 32)
        elif x == 'double': t = ('f', 64)
        elif x == 'x86_fp80': t = ('f', 80)
        elif x == 'half': t = ('f', 16)
        elif x in ('label', 'metadata', 'token'): t = (x,)
        elif x[0] == '%': t = ('named', x)
        elif x == '{':
            el = []
            if not self.acc('}'):
                while True:
                    el.append(self.ptype())
                    if self.acc('}'): break
                    self.exp(',')
            t = ('st', tuple(el), False)
        elif x == '<':
            if self.acc('{'):
                el = []
                if not self.acc('}'):
                    while True:
                        el.append(self.ptype())
                        if self.acc('}'): break
                        self.exp(',')
                self.exp('>')
                t = ('st', tuple(el), True)
            else:
                n = int(self.next()); self.exp('x'); e = self.ptype(); self.exp('>')
                t = ('vec', n, e)
        elif x == '[':
            n = int(self.next()); self.exp('x'); e = self.ptype(); self.exp(']')
            t = ('arr', n, e)
        elif x == 'opaque':
            t = ('opaque',)
        else:
            raise Unsupported('type ' + x + ' in ' + ' '.join(self.t)[:160])
        # function type
        while self.peek() == '(' and t[0] != 'label':
            # could be function type in call: ret (args)
            depth = 0
            j = self.i
            while True:
                if self.t[j] == '(': depth += 1
                if self.t[j] == ')':
                    depth -= 1
                    if depth == 0: break
                j += 1
            self.i = j + 1
            t = ('fn', t)
            break
        return t
    def attrs(self):
        al = None
        while True:
            x = self.peek()
            if x in PARAM_ATTRS:
                self.i += 1
            elif x == 'align':
                self.i += 1
                if self.peek() == '(':
                    self.i += 3
                else:
                    self.i += 1
            elif x in ATTR_PAREN and self.t[self.i + 1] == '(':
                depth = 0
                nm = x
                self.i += 1
                st = self.i
                while True:
                    y = self.next()
                    if y == '(': depth += 1
                    if y == ')':
                        depth -= 1
                        if depth == 0: break
                if nm in ('byval',):
                    al = nm
            elif x is not None and x.startswith('#'):
                self.i += 1
            elif x is not None and x.startswith('"'):
                self.i += 1
                if self.acc('='): self.i += 1
            else:
                return al
    def value(self, t):
        x = self.next()
        if x[0] == '%': return Operand('l', x, t)
        if x[0] == '@': return Operand('g', x, t)
        if x == 'true': return Operand('c', 1, t)
        if x == 'false': return Operand('c', 0, t)
        if x == 'null': return Operand('null', None, t)
        if x in ('undef', 'poison'): return Operand('undef', None, t)
        if x == 'zeroinitializer': return Operand('zero', None, t)
        if x == 'none': return Operand('undef', None, t)
        if x.startswith('c"'): return Operand('str', x, t)
        if re.fullmatch(r'-?\d+', x):
            return Operand('c', int(x), t)
        if re.fullmatch(r'-?\d+\.\d+(e[-+]\d+)?', x) or x.startswith('0x'):
            return Operand('fc', x, t)
        if x in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[x]
            if x == '<' and self.peek() == '{':
                self.next(); close = '}'
            el = []
            if not self.acc(close):
                while True:
                    et = self.ptype(); self.attrs()
                    el.append(self.value(et))
                    if self.acc(close): break
                    self.exp(',')
            if x == '<' and close == '}': self.exp('>')
            return Operand('agg', el, t)
        if x == 'getelementptr':
            self.attrs()
            if self.peek() == 'inrange':
                self.next(); self.next()
            self.exp('(')
            bt = self.ptype(); self.exp(',')
            ops = []
            while True:
                self.attrs()
                ot = self.ptype(); self.attrs()
                ops.append(self.value(ot))
                if self.acc(')'): break
                self.exp(',')
            return Operand('gep', (bt, ops), t)
        if x in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'addrspacecast'):
            self.exp('(')
            st = self.ptype(); v = self.value(st); self.exp('to'); dt = self.ptype(); self.exp(')')
            return Operand('cast', (x, v, dt), t)
        if x in ('add', 'sub', 'icmp'):
            return self._cexpr(x, t)
        raise Unsupported('value ' + x + ' in ' + ' '.join(self.t)[:200])
    def _cexpr(self, x, t):
        raise Unsupported('constant expression ' + x)
    def tvalue(self):
        t = self.ptype()
        self.attrs()
        return self.value(t)

BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext', 'addrspacecast'}

class Func:
    def __init__(self, mod, name, header, lines):
        self.mod, self.name, self.header, self.lines = mod, name, header, lines
        self._parsed = False
        self.dem = None
    def parse(self):
        if self._parsed: return self
        self._parsed = True
        p = P(tokenize(self.header[len('define'):].rsplit('{', 1)[0]), self.mod)
        # linkage words
        while p.peek() in ('linkonce_odr', 'dso_local', 'internal', 'available_externally', 'weak_odr', 'hidden', 'protected', 'private', 'external', 'weak', 'linkonce') or p.peek() in PARAM_ATTRS:
            p.next()
        p.attrs()
        self.ret = p.ptype() if not (p.peek() or '').startswith('@') else VOID
        p.attrs()
        p.next()  # name
        p.exp('(')
        self.params = []
        self.vararg = False
        if not p.acc(')'):
            while True:
                if p.acc('...'):
                    self.vararg = True
                    p.exp(')'); break
                t = p.ptype()
                st = p.i
                p.attrs()
                at = p.t[st:p.i]
                nm = p.next() if (p.peek() or '').startswith('%') else None
                self.params.append((nm, t, at))
                if p.acc(')'): break
                p.exp(',')
        for k, (nm, t, at) in enumerate(self.params):
            if nm is None:
                self.params[k] = (f'%{k}', t, at)
        self.blocks = {}
        self.order = []
        cur = None
        nparam = len(self.params)
        buf = None
        for ln in self.lines:
            s = ln.split(' ; preds')[0].rstrip() if '; preds' in ln else ln.rstrip()
            st = s.strip()
            if not st or st.startswith(';'): continue
            m = re.match(r'^([-\w$.]+|"[^"]*"):', s)
            if m and not s.startswith(' '):
                lab = '%' + m.group(1)
                cur = Block(lab); self.blocks[lab] = cur; self.order.append(lab)
                continue
            if cur is None:
                # entry block unnamed
                lab = f'%{nparam}'
                cur = Block(lab); self.blocks[lab] = cur; self.order.append(lab)
            # multi-line (switch / invoke / landingpad)
            if buf is not None:
                buf += ' ' + st
                if buf_done(buf):
                    self._add(cur, buf); buf = None
                continue
            if (st.startswith('switch ') and ']' not in st.split('[', 1)[1]) :
                buf = st; continue
            if ('invoke ' in st and ' unwind label ' not in st):
                buf = st; continue
            if re.match(r'^(%\S+ = )?landingpad ', st):
                cur_lp = st
                ins = self._add(cur, st)
                continue
            if st.startswith('catch ') or st.startswith('filter ') or st == 'cleanup' or st.startswith('cleanup'):
                lp = cur.instrs[-1]
                if st.startswith('catch '):
                    p = P(tokenize(re.sub(r', !dbg !\d+$', '', st)), self.mod); p.next()
                    lp.x['clauses'].append(('catch', p.tvalue()))
                elif st.startswith('cleanup'):
                    lp.x['cleanup'] = True
                else:
                    lp.x['clauses'].append(('filter', None))
                continue
            self._add(cur, st)
        self.entry = self.order[0]
        for b in self.blocks.values():
            t = b.instrs[-1]
            if t.op == 'br': b.succs = list(t.x)
            elif t.op == 'switch': b.succs = [t.x[0]] + [l for _, l in t.x[1]]
            elif t.op == 'invoke': b.succs = [t.x['normal'], t.x['unwind']]
        self._loops()
        return self
    def _add(self, blk, s):
        ins = self.parse_instr(s)
        if ins.op == 'phi': blk.phis.append(ins)
        else: blk.instrs.append(ins)
        return ins
    def parse_instr(self, s):
        text = s
        dbg = None
        m = re.search(r', !dbg (!\d+)', s)
        if m: dbg = m.group(1)
        s = re.sub(r', ![\w.]+ (!\d+|![{][^}]*[}])', '', s)
        s = re.sub(r' ![a-z]\w* !\d+', '', s)
        p = P(tokenize(s), self.mod)
        res = None
        if len(p.t) > 1 and p.t[1] == '=' and p.t[0][0] == '%':
            res = p.next(); p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        ins = Instr(op)
        ins.res, ins.dbg, ins.text = res, dbg, text
        if op in BIN:
            flags = []
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint') or p.peek() in PARAM_ATTRS:
                flags.append(p.next())
            ins.t = p.ptype(); a = p.value(ins.t); p.exp(','); b = p.value(ins.t)
            ins.ops = [a, b]; ins.x = flags
        elif op == 'fneg':
            p.attrs(); ins.t = p.ptype(); ins.ops = [p.value(ins.t)]
        elif op in ('icmp', 'fcmp'):
            while p.peek() in ('nnan', 'ninf', 'fast', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'samesign'): p.next()
            ins.x = p.next(); t = p.ptype(); a = p.value(t); p.exp(','); b = p.value(t)
            ins.ops = [a, b]; ins.t = I(1)
        elif op in CAST:
            while p.peek() in ('nneg', 'nuw', 'nsw'): p.next()
            a = p.tvalue(); p.exp('to'); ins.t = p.ptype(); ins.ops = [a]
        elif op == 'alloca':
            while p.peek() == 'inalloca': p.next()
            ins.x = p.ptype(); ins.t = PTR
            n = None
            if p.acc(','):
                if p.peek() != 'align':
                    n = p.tvalue()
            ins.ops = [n] if n is not None else []
        elif op == 'load':
            atomic = p.acc('atomic')
            p.acc('volatile')
            ins.t = p.ptype(); p.exp(','); ins.ops = [p.tvalue()]; ins.x = atomic
        elif op == 'store':
            atomic = p.acc('atomic')
            p.acc('volatile')
            v = p.tvalue(); p.exp(','); d = p.tvalue(); ins.ops = [v, d]; ins.x = atomic
        elif op == 'getelementptr':
            p.attrs()
            ins.x = p.ptype(); ins.t = PTR
            while p.acc(','):
                p.attrs(); ins.ops.append(p.tvalue())
        elif op == 'phi':
            while p.peek() in PARAM_ATTRS: p.next()
            ins.t = p.ptype(); ins.x = []
            while True:
                p.exp('['); v = p.value(ins.t); p.exp(','); l = p.next(); p.exp(']')
                ins.x.append((v, l))
                if not p.acc(','): break
        elif op == 'select':
            while p.peek() in PARAM_ATTRS: p.next()
            c = p.tvalue(); p.exp(','); a = p.tvalue(); p.exp(','); b = p.tvalue()
            ins.ops = [c, a, b]; ins.t = a.t
        elif op == 'br':
            if p.peek() == 'label':
                p.next(); ins.x = [p.next()]
            else:
                c = p.tvalue(); p.exp(','); p.next(); a = p.next(); p.exp(','); p.next(); b = p.next()
                ins.ops = [c]; ins.x = [a, b]
        elif op == 'switch':
            v = p.tvalue(); p.exp(','); p.next(); d = p.next(); p.exp('[')
            cases = []
            while not p.acc(']'):
                c = p.tvalue(); p.exp(','); p.next(); cases.append((c, p.next()))
            ins.ops = [v]; ins.x = (d, cases)
        elif op == 'ret':
            t = p.ptype()
            if t != VOID: ins.ops = [p.value(t)]
        elif op in ('call', 'invoke'):
            p.attrs()
            t = p.ptype()
            if t[0] == 'fn': t = t[1]
            p.attrs()
            if p.peek() == 'asm':
                ins.x = {'asm': True}; ins.t = t
                raise_asm = True
                callee = Operand('asm', None, PTR)
                # skip to args
                while p.peek() != '(': p.next()
            else:
                callee = p.value(PTR)
            p.exp('(')
            args = []
            if not p.acc(')'):
                while True:
                    at = p.ptype()
                    if at == ('metadata',):
                        depth = 0
                        while not (depth == 0 and p.peek() in (',', ')')):
                            y = p.next()
                            if y in '([{<': depth += 1
                            if y in ')]}>': depth -= 1
                        args.append(Operand('md', None, at))
                    else:
                        p.attrs()
                        args.append(p.value(at))
                    if p.acc(')'): break
                    p.exp(',')
            ins.t = t; ins.ops = args; ins.x = {'callee': callee}
            if op == 'invoke':
                while p.peek() != 'to': p.next()
                p.next(); p.exp('label'); n = p.next(); p.exp('unwind'); p.exp('label'); u = p.next()
                ins.x['normal'] = n; ins.x['unwind'] = u
        elif op == 'landingpad':
            ins.t = p.ptype(); ins.x = {'clauses': [], 'cleanup': False}
            while p.peek() is not None:
                x = p.next()
                if x == 'cleanup': ins.x['cleanup'] = True
                elif x == 'catch': ins.x['clauses'].append(('catch', p.tvalue()))
                else: break
        elif op == 'resume':
            ins.ops = [p.tvalue()]
        elif op == 'unreachable':
            pass
        elif op == 'extractvalue':
            a = p.tvalue(); ix = []
            while p.acc(','): ix.append(int(p.next()))
            ins.ops = [a]; ins.x = ix
        elif op == 'insertvalue':
            a = p.tvalue(); p.exp(','); b = p.tvalue(); ix = []
            while p.acc(','): ix.append(int(p.next()))
            ins.ops = [a, b]; ins.x = ix; ins.t = a.t
        elif op == 'freeze':
            ins.ops = [p.tvalue()]
        elif op == 'fence':
            pass
        elif op == 'atomicrmw':
            p.acc('volatile'); ins.x = p.next(); a = p.tvalue(); p.exp(','); b = p.tvalue(); ins.ops = [a, b]
        elif op == 'cmpxchg':
            p.acc('weak'); p.acc('volatile'); a = p.tvalue(); p.exp(','); b = p.tvalue(); p.exp(','); c = p.tvalue(); ins.ops = [a, b, c]
        else:
            ins.op = 'unsupported'
            ins.x = op
        return ins
    def _loops(self):
        # dominators (iterative), back edges, natural loops
        order = []
        seen = set()
        stack = [(self.entry, iter(self.blocks[self.entry].succs))]
        seen.add(self.entry)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(self.blocks[s].succs))); break
            else:
                order.append(n); stack.pop()
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.blocks[b].succs: preds[s].append(b)
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for q in preds[b]:
                    if q in idom:
                        if new is None: new = q
                        else:
                            a, c = q, new
                            while a != c:
                                while idx[a] > idx[c]: a = idom[a]
                                while idx[c] > idx[a]: c = idom[c]
                            new = a
                if idom.get(b) != new:
                    idom[b] = new; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == self.entry: return False
                b = idom[b]
        self.loops = {}
        for b in rpo:
            for s in self.blocks[b].succs:
                if dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x); st.extend(preds[x])
                elif idx[s] <= idx[b]:
                    raise Unsupported('irreducible control flow in ' + self.name)

def buf_done(b):
    if b.startswith('switch '):
        return b.rstrip().endswith(']') or re.search(r'\](, !dbg !\d+)?$', b.rstrip()) is not None
    return ' unwind label ' in b

class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.md = {}
        self.aliases = {}
        self._lay = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if not ln:
                i += 1; continue
            c = ln[0]
            if c == '%':
                m = re.match(r'^(%"[^"]*"|%[-\w$.]+) = type (.*)$', ln)
                if m: self.types[m.group(1)] = m.group(2)
            elif c == '@':
                m = re.match(r'^(@"[^"]*"|@[-\w$.]+) = (.*)$', ln)
                self.globals[m.group(1)] = m.group(2)
                ma = re.search(r'\balias\b.*?, ptr (@\S+)$', m.group(2))
                if ma: self.aliases[m.group(1)] = ma.group(1)
            elif ln.startswith('define'):
                m = re.search(r'(@"[^"]*"|@[-\w$.]+)\(', ln)
                nm = m.group(1)
                j = i + 1
                while lines[j] != '}': j += 1
                self.funcs[nm] = Func(self, nm, ln, lines[i + 1:j])
                i = j
            elif ln.startswith('declare'):
                m = re.search(r'(@"[^"]*"|@[-\w$.]+)\(', ln)
                self.decls[m.group(1)] = ln
            elif c == '!':
                k = ln.find(' = ')
                self.md[ln[:k]] = ln[k + 3:]
            i += 1
        names = [x[1:].strip('"') for x in list(self.funcs) + list(self.decls)]
        dem = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        self.dem = {}
        for nm, d in zip(list(self.funcs) + list(self.decls), dem):
            self.dem[nm] = canon(d)
        self._ptypes = {}
        self._ginit = {}
    def demangle(self, nm):
        return self.dem.get(nm, nm)
    def find(self, rx):
        r = re.compile(rx)
        return [n for n in self.funcs if r.search(self.dem[n])]
    def rtype(self, t):
        """resolve named types one level"""
        if t[0] == 'named':
            r = self._ptypes.get(t[1])
            if r is None:
                r = P(tokenize(self.types[t[1]]), self).ptype()
                self._ptypes[t[1]] = r
            return r
        return t
    def layout(self, t):
        """(size, align, [offsets])"""
        r = self._lay.get(t)
        if r is not None: return r
        k = t[0]
        if k == 'i':
            nb = (t[1] + 7) // 8
            s = 1
            while s < nb: s *= 2
            r = (s, min(s, 16), None)
        elif k == 'ptr': r = (8, 8, None)
        elif k == 'f': r = {16: (2, 2, None), 32: (4, 4, None), 64: (8, 8, None), 80: (16, 16, None)}[t[1]]
        elif k == 'arr':
            s, a, _ = self.layout(t[2]); r = (s * t[1], a, None)
        elif k == 'vec':
            s, a, _ = self.layout(t[2]); r = (s * t[1], s * t[1], None)
        elif k == 'named': r = self.layout(self.rtype(t))
        elif k == 'st':
            off = 0; al = 1; offs = []
            for e in t[1]:
                s, a, _ = self.layout(e)
                if t[2]: a = 1
                off = (off + a - 1) // a * a
                offs.append(off); off += s; al = max(al, a)
            off = (off + al - 1) // al * al
            r = (off, al, offs)
        elif k == 'opaque': r = (0, 1, None)
        else: raise Unsupported('layout ' + str(t))
        self._lay[t] = r
        return r
    def size(self, t): return self.layout(t)[0]
    def global_init(self, nm):
        if nm in self._ginit: return self._ginit[nm]
        s = self.globals.get(nm)
        r = None
        if s is not None:
            s = re.sub(r'^(private|internal|linkonce_odr|external|dso_local|available_externally|weak_odr|hidden|unnamed_addr|local_unnamed_addr|common|weak|appending|thread_local|comdat|,|\s)+', '', s)
            s0 = s
            while True:
                s2 = re.sub(r'^(private|internal|linkonce_odr|external|dso_local|available_externally|weak_odr|hidden|unnamed_addr|local_unnamed_addr|common|weak|appending|thread_local(\(\w+\))?|linkonce)\s+', '', s)
                if s2 == s: break
                s = s2
            m = re.match(r'^(global|constant)\s+(.*)$', s)
            if m:
                rest = re.sub(r', (align|comdat|section|!dbg|no_sanitize).*$', '', m.group(2)) if not 'c"' in m.group(2) else m.group(2)
                p = P(tokenize(rest) if 'c"' not in rest else tokenize_c(rest), self)
                t = p.ptype()
                init = None
                if p.peek() is not None and p.peek() != ',':
                    try:
                        init = p.value(t)
                    except (Unsupported, IndexError):
                        init = None
                r = (t, init, m.group(1) == 'constant')
        self._ginit[nm] = r
        return r
    @functools.lru_cache(maxsize=None)
    def loc(self, d):
        """debug location -> (file, line)"""
        s = self.md.get(d)
        if not s: return ('?', 0)
        m = re.search(r'line: (\d+)', s); line = int(m.group(1)) if m else 0
        sc = re.search(r'scope: (!\d+)', s)
        f = '?'
        while sc:
            x = self.md.get(sc.group(1), '')
            mf = re.search(r'file: (!\d+)', x)
            if mf:
                fx = self.md.get(mf.group(1), '')
                mm = re.search(r'filename: "([^"]*)"', fx)
                if mm: f = mm.group(1)
                break
            sc = re.search(r'scope: (!\d+)', x)
        return (f, line)

def tokenize_c(s):
    return tokenize(s)

def cstr_bytes(tok):
    s = tok[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)

def canon(d):
    d = d.replace('std::__cxx11::', 'std::')
    d = d.replace('std::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'std::string')
    d = d.replace('std::basic_string<char32_t, std::char_traits<char32_t>, std::allocator<char32_t>>', 'std::u32string')
    d = d.replace('std::basic_string<char16_t, std::char_traits<char16_t>, std::allocator<char16_t>>', 'std::u16string')
    d = d.replace('std::basic_string_view<char, std::char_traits<char>>', 'std::string_view')
    d = d.replace('std::basic_string_view<char32_t, std::char_traits<char32_t>>', 'std::u32string_view')
    d = d.replace('std::basic_string_view<char16_t, std::char_traits<char16_t>>', 'std::u16string_view')
    d = d.replace('[abi:cxx11]', '')
    return d
