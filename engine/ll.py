"""Reader for textual LLVM IR (clang 18, opaque pointers), including the DWARF
metadata used to recover struct member offsets and enumerators.

Functions are parsed lazily.  Nothing here executes anything: it builds the
data structures (basic blocks, instructions, constants, types) that the
analyses in this directory work on.
"""
import re

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'elts', 'el', 'packed', '_sz', '_al', '_offs')
    def __init__(self, k, n=0, el=None, elts=None, packed=False):
        self.k = k; self.n = n; self.el = el; self.elts = elts; self.packed = packed
        self._sz = None; self._al = None; self._offs = None
    def __repr__(self):
        if self.k == 'i': return 'i%d' % self.n
        if self.k == 'arr': return '[%d x %r]' % (self.n, self.el)
        if self.k == 'struct': return '{%s}' % ','.join(map(repr, self.elts))
        return self.k

PTR = Ty('ptr'); VOID = Ty('void'); FLOAT = Ty('float'); DOUBLE = Ty('double')
FP80 = Ty('x86_fp80'); LABEL = Ty('label'); META = Ty('metadata')
_ints = {}
def I(n):
    t = _ints.get(n)
    if t is None:
        t = _ints[n] = Ty('i', n)
    return t

def sizeof(t):
    if t._sz is None:
        k = t.k
        if k == 'i':
            b = (t.n + 7) // 8
            s = 1
            while s < b: s *= 2
            t._sz = s; t._al = min(s, 16)
        elif k == 'ptr': t._sz = 8; t._al = 8
        elif k == 'float': t._sz = 4; t._al = 4
        elif k == 'double': t._sz = 8; t._al = 8
        elif k == 'x86_fp80': t._sz = 16; t._al = 16
        elif k == 'arr' or k == 'vec':
            t._sz = sizeof(t.el) * t.n; t._al = t.el._al if t.k == 'arr' else t._sz
        elif k == 'struct':
            off = 0; al = 1; offs = []
            for e in t.elts:
                s = sizeof(e)
                a = 1 if t.packed else e._al
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            t._sz = off; t._al = al; t._offs = offs
        elif k == 'opaque':
            t._sz = 0; t._al = 1
        else:
            raise ValueError('sizeof ' + repr(t))
    return t._sz

def alignof(t):
    sizeof(t)
    return t._al

def struct_offsets(t):
    sizeof(t)
    return t._offs

# ---------------------------------------------------------------- operands
# ('l', name)  local;  ('c', int) integer constant;  ('null',) ; ('undef',)
# ('g', name) global/function; ('f', text) float constant; ('zero',) zeroinit
# ('agg', [(ty,op)...]); ('str', bytes); ('gep', srcty, base(ty,op), [(ty,op)..])
# ('cast', op, (ty,op), ty)

TOK = re.compile(r'''
   (?P<str>c"(?:[^"])*")
 | (?P<qname>[%@]"[^"]*")
 | (?P<name>[%@][-a-zA-Z$._0-9]+)
 | (?P<meta>!"[^"]*"|!\d+|![a-zA-Z][\w.]*)
 | (?P<hash>\#\d+)
 | (?P<float>-?\d+\.\d+(?:e[+-]\d+)?)
 | (?P<hex>0x[KLMH]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+)
 | (?P<dots>\.\.\.)
 | (?P<quoted>"[^"]*")
 | (?P<word>[A-Za-z_][\w.]*)
 | (?P<punct>[\[\](){}<>,=*:|!])
 | (?P<ws>\s+)
''', re.X)

def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos] == ';':
                break
            raise SyntaxError('tok: %r' % s[pos:pos+60])
        pos = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        out.append((k, m.group()))
    return out

def decode_cstr(t):
    body = t[2:-1]
    out = bytearray()
    i = 0
    while i < len(body):
        c = body[i]
        if c == '\\':
            out.append(int(body[i+1:i+3], 16)); i += 3
        else:
            out.append(ord(c)); i += 1
    return bytes(out)

PARAM_ATTRS = {'noundef', 'dead_on_unwind', 'writable', 'signext', 'zeroext', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly',
               'readnone', 'returned', 'inreg', 'immarg', 'nofree', 'noreturn', 'nounwind', 'writable'}
SKIP_WORDS = {'inbounds', 'nuw', 'nsw', 'exact', 'volatile', 'nneg', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp',
              'contract', 'afn', 'reassoc', 'inrange'}

class P:
    __slots__ = ('t', 'i', 'mod')
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.mod = mod
    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None
    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None
    def next(self):
        v = self.t[self.i][1]; self.i += 1
        return v
    def accept(self, s):
        if self.i < len(self.t) and self.t[self.i][1] == s:
            self.i += 1
            return True
        return False
    def expect(self, s):
        if not self.accept(s):
            raise SyntaxError('expected %s got %r in %s' % (s, self.t[self.i:self.i+5], ' '.join(x[1] for x in self.t)))

    def type(self):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'word':
            if v[0] == 'i' and v[1:].isdigit(): t = I(int(v[1:]))
            elif v == 'ptr': t = PTR
            elif v == 'void': t = VOID
            elif v == 'double': t = DOUBLE
            elif v == 'float': t = FLOAT
            elif v == 'x86_fp80': t = FP80
            elif v == 'label': t = LABEL
            elif v == 'metadata': t = META
            elif v == 'opaque': t = Ty('opaque')
            else: raise SyntaxError('type %s' % v)
        elif v == '[':
            n = int(self.next()); self.expect('x'); el = self.type(); self.expect(']')
            t = Ty('arr', n=n, el=el)
        elif v == '{':
            t = self._struct('}', False)
        elif v == '<':
            if self.peek() == '{':
                self.i += 1
                t = self._struct('}', True)
                self.expect('>')
            else:
                n = int(self.next()); self.expect('x'); el = self.type(); self.expect('>')
                t = Ty('vec', n=n, el=el)
        elif k == 'name' or k == 'qname':
            t = self.mod.named_type(v)
        else:
            raise SyntaxError('type %r' % v)
        # function types
        while self.peek() == '(' and t is not None and self._looks_fnty():
            depth = 0
            while True:
                x = self.next()
                if x == '(': depth += 1
                elif x == ')':
                    depth -= 1
                    if depth == 0: break
        return t

    def _looks_fnty(self):
        # type followed by "(" is only a function type inside call instructions
        # of the form  call i32 (ptr, ...) @printf(
        j = self.i
        depth = 0
        while j < len(self.t):
            x = self.t[j][1]
            if x == '(': depth += 1
            elif x == ')':
                depth -= 1
                if depth == 0: break
            j += 1
        nxt = self.t[j+1] if j + 1 < len(self.t) else (None, None)
        return nxt[0] in ('name', 'qname')

    def _struct(self, close, packed):
        el = []
        if self.accept(close):
            return Ty('struct', elts=el, packed=packed)
        while True:
            el.append(self.type())
            if self.accept(close): break
            self.expect(',')
        return Ty('struct', elts=el, packed=packed)

    def skip_attrs(self):
        while True:
            v = self.peek()
            if v in PARAM_ATTRS:
                self.i += 1
            elif v == 'align':
                self.i += 2
            elif v in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'elementtype', 'memory'):
                self.i += 1
                if self.peek() == '(':
                    d = 0
                    while True:
                        x = self.next()
                        if x == '(': d += 1
                        elif x == ')':
                            d -= 1
                            if d == 0: break
            else:
                return

    def value(self, ty):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'name' or k == 'qname':
            nm = v[1:]
            if nm.startswith('"'): nm = nm[1:-1]
            return ('l', nm) if v[0] == '%' else ('g', nm)
        if k == 'num':
            return ('c', int(v))
        if k == 'float' or k == 'hex':
            return ('f', v)
        if k == 'str':
            return ('str', decode_cstr(v))
        if k == 'word':
            if v == 'true': return ('c', 1)
            if v == 'false': return ('c', 0)
            if v == 'null': return ('null',)
            if v in ('undef', 'poison'): return ('undef',)
            if v == 'zeroinitializer': return ('zero',)
            if v == 'getelementptr':
                while self.peek() in SKIP_WORDS: self.i += 1
                self.expect('(')
                st = self.type(); self.expect(',')
                ops = []
                while True:
                    while self.peek() in SKIP_WORDS: self.i += 1
                    t = self.type()
                    ops.append((t, self.value(t)))
                    if self.accept(')'): break
                    self.expect(',')
                return ('gep', st, ops[0], ops[1:])
            if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext'):
                self.expect('(')
                t = self.type(); x = self.value(t)
                self.expect('to'); t2 = self.type(); self.expect(')')
                return ('cast', v, (t, x), t2)
            if v in ('sub', 'add', 'and', 'or', 'mul', 'shl'):
                while self.peek() in SKIP_WORDS: self.i += 1
                self.expect('(')
                t = self.type(); x = self.value(t); self.expect(',')
                t2 = self.type(); y = self.value(t2); self.expect(')')
                return ('cbin', v, t, x, y)
            raise SyntaxError('value word %s in %s' % (v, ' '.join(x[1] for x in self.t)))
        if v == '[' or v == '{' or (v == '<'):
            packed = False
            close = {'[': ']', '{': '}', '<': '>'}[v]
            if v == '<' and self.peek() == '{':
                self.i += 1; close = '}'; packed = True
            el = []
            if not self.accept(close):
                while True:
                    t = self.type()
                    el.append((t, self.value(t)))
                    if self.accept(close): break
                    self.expect(',')
            if packed: self.expect('>')
            return ('agg', el)
        raise SyntaxError('value %r in %s' % (v, ' '.join(x[1] for x in self.t)))

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)


class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'fn')
    def __init__(self, op, res, ty, a, dbg):
        self.op = op; self.res = res; self.ty = ty; self.a = a; self.dbg = dbg
    def __repr__(self):
        return '%s = %s %r %r' % (self.res, self.op, self.ty, self.a)

class Block:
    __slots__ = ('name', 'phis', 'ins', 'term', 'idx', 'succ', 'livein', 'preds', 'loophdr')
    def __init__(self, name):
        self.name = name; self.phis = []; self.ins = []; self.term = None

BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptrunc', 'fpext', 'fptoui', 'fptosi',
         'uitofp', 'sitofp', 'addrspacecast'}
DBGRE = re.compile(r', !dbg !(\d+)')

class Func:
    def __init__(self, mod, name, header, body, line):
        self.mod = mod; self.name = name; self.header = header; self.body = body
        self._parsed = False
        self.line = line
        self.internal = ' internal ' in header or ' private ' in header
        m = re.search(r'!dbg !(\d+)', header)
        self.dbg = int(m.group(1)) if m else None

    def ensure(self):
        if not self._parsed:
            self._parse()
            self._parsed = True
        return self

    def _parse(self):
        mod = self.mod
        toks = tokenize(self.header[:self.header.rindex(')') + 1] if ')' in self.header else self.header)
        # find "@name ("
        p = P(toks, mod)
        while not (p.kind() in ('name', 'qname') and p.peek()[0] == '@'):
            p.i += 1
        # return type: scan backwards is hard; parse from after 'define' words
        q = P(toks, mod)
        q.i = 1
        while q.peek() in ('dso_local', 'internal', 'private', 'linkonce_odr', 'weak', 'hidden', 'available_externally', 'local_unnamed_addr', 'unnamed_addr', 'external', 'linkonce', 'weak_odr'):
            q.i += 1
        q.skip_attrs()
        while q.peek() in PARAM_ATTRS: q.i += 1
        try:
            self.rty = q.type()
        except SyntaxError:
            self.rty = VOID
        p.i += 1
        p.expect('(')
        self.params = []
        self.vararg = False
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    self.vararg = True
                else:
                    t = p.type(); 
                    self.byval = None
                    p.skip_attrs()
                    nm = p.next() if p.kind() in ('name', 'qname') else None
                    if nm is not None:
                        nm = nm[1:]
                        if nm.startswith('"'): nm = nm[1:-1]
                    self.params.append((t, nm))
                if p.accept(')'): break
                p.expect(',')
        self.blocks = {}
        self.order = []
        cur = None
        lines = self.body
        i = 0
        n = len(lines)
        unnamed = sum(1 for _, x in self.params if x is not None and x.isdigit())
        first = True
        while i < n:
            ln = lines[i]; i += 1
            if not ln.strip() or ln.lstrip().startswith(';'):
                continue
            if not ln.startswith(' '):
                lab = ln.split(':')[0]
                if lab.startswith('"'): lab = lab[1:-1]
                cur = Block(lab); self.blocks[lab] = cur; self.order.append(cur)
                continue
            if cur is None:
                cur = Block(str(len(self.params)) if all(x is not None and x.isdigit() for _, x in self.params) else 'entry')
                self.blocks[cur.name] = cur; self.order.append(cur)
            if '@llvm.dbg.' in ln:
                continue
            if ' switch ' in ln and ln.rstrip().endswith('['):
                parts = [ln]
                while True:
                    l2 = lines[i]; i += 1
                    parts.append(l2)
                    if l2.strip().startswith(']'):
                        break
                ln = ' '.join(x.strip() for x in parts)
            ins = self._ins(ln)
            if ins is None: continue
            if ins.op == 'phi': cur.phis.append(ins)
            elif ins.op in ('br', 'switch', 'ret', 'unreachable', 'indirectbr'):
                cur.term = ins
            else: cur.ins.append(ins)
        self._cfg()
        self.body = None

    def _ins(self, ln):
        m = DBGRE.search(ln)
        dbg = int(m.group(1)) if m else None
        if m: ln = ln[:m.start()]
        # strip other trailing metadata
        j = ln.find(', !')
        if j >= 0 and 'metadata' not in ln: ln = ln[:j]
        toks = tokenize(ln)
        p = P(toks, self.mod)
        res = None
        if p.kind() in ('name', 'qname') and p.peek(1) == '=':
            res = p.next()[1:]
            if res.startswith('"'): res = res[1:-1]
            p.i += 1
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op in BINOPS:
            while p.peek() in SKIP_WORDS: p.i += 1
            t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return Ins(op, res, t, (a, b), dbg)
        if op in CASTS:
            while p.peek() in SKIP_WORDS: p.i += 1
            t = p.type(); a = p.value(t); p.expect('to'); t2 = p.type()
            return Ins(op, res, t2, (t, a), dbg)
        if op == 'load':
            while p.peek() in ('volatile', 'atomic'): p.i += 1
            t = p.type(); p.expect(','); pt = p.type(); a = p.value(pt)
            return Ins(op, res, t, a, dbg)
        if op == 'store':
            while p.peek() in ('volatile', 'atomic'): p.i += 1
            t = p.type(); v = p.value(t); p.expect(','); pt = p.type(); a = p.value(pt)
            return Ins(op, None, t, (v, a), dbg)
        if op == 'getelementptr':
            while p.peek() in SKIP_WORDS: p.i += 1
            st = p.type(); p.expect(',')
            ops = []
            while True:
                t = p.type(); ops.append((t, p.value(t)))
                if not p.accept(','): break
            return Ins(op, res, st, (ops[0], ops[1:]), dbg)
        if op in ('icmp', 'fcmp'):
            while p.peek() in SKIP_WORDS: p.i += 1
            pred = p.next(); t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return Ins(op, res, t, (pred, a, b), dbg)
        if op == 'br':
            if p.peek() == 'label':
                p.i += 1
                return Ins('br', None, None, (None, self._lab(p.next())), dbg)
            t = p.type(); c = p.value(t); p.expect(','); p.expect('label'); a = self._lab(p.next())
            p.expect(','); p.expect('label'); b = self._lab(p.next())
            return Ins('br', None, t, (c, a, b), dbg)
        if op == 'switch':
            t = p.type(); c = p.value(t); p.expect(','); p.expect('label'); d = self._lab(p.next())
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.type(); v = p.value(ct); p.expect(','); p.expect('label'); l = self._lab(p.next())
                cases.append((v[1] & ((1 << t.n) - 1), l))
            return Ins('switch', None, t, (c, d, cases), dbg)
        if op == 'ret':
            t = p.type()
            return Ins('ret', None, t, None if t is VOID else p.value(t), dbg)
        if op == 'unreachable':
            return Ins('unreachable', None, None, None, dbg)
        if op == 'phi':
            while p.peek() in SKIP_WORDS: p.i += 1
            t = p.type()
            inc = []
            while True:
                p.expect('['); v = p.value(t); p.expect(','); l = self._lab(p.next()); p.expect(']')
                inc.append((v, l))
                if not p.accept(','): break
            return Ins('phi', res, t, inc, dbg)
        if op == 'select':
            while p.peek() in SKIP_WORDS: p.i += 1
            ct = p.type(); c = p.value(ct); p.expect(',')
            t, a = p.tv(); p.expect(','); t2, b = p.tv()
            return Ins('select', res, t, (c, a, b), dbg)
        if op == 'alloca':
            t = p.type()
            cnt = None
            if p.accept(','):
                if p.peek() != 'align':
                    ct = p.type(); cnt = (ct, p.value(ct))
            return Ins('alloca', res, t, cnt, dbg)
        if op == 'call':
            while p.peek() in SKIP_WORDS or p.peek() in PARAM_ATTRS or p.peek() in ('fastcc', 'align'): p.i += 1
            p.skip_attrs()
            if p.peek() == 'range':
                pass
            rt = p.type()
            if p.peek() == 'asm':
                return Ins('call', res, rt, (('asm', ' '.join(x[1] for x in p.t[p.i:])), []), dbg)
            callee = p.value(PTR)
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    t = p.type()
                    byval = None
                    # keep byval type
                    save = p.i
                    while True:
                        v = p.peek()
                        if v == 'byval':
                            q = P(p.t, p.mod); q.i = p.i + 2
                            byval = q.type()
                        before = p.i
                        if v in ('byval', 'sret', 'dereferenceable', 'dereferenceable_or_null', 'elementtype'):
                            p.i += 1
                            d = 0
                            while True:
                                x = p.next()
                                if x == '(': d += 1
                                elif x == ')':
                                    d -= 1
                                    if d == 0: break
                            continue
                        if v in PARAM_ATTRS: p.i += 1; continue
                        if v == 'align': p.i += 2; continue
                        break
                    if t is META:
                        args.append((t, ('undef',), None))
                        # skip to , or )
                        d = 0
                        while True:
                            x = p.peek()
                            if x == '(' : d += 1
                            if x == ')' and d == 0: break
                            if x == ')' : d -= 1
                            if x == ',' and d == 0: break
                            p.i += 1
                    else:
                        args.append((t, p.value(t), byval))
                    if p.accept(')'): break
                    p.expect(',')
            return Ins('call', res, rt, (callee, args), dbg)
        if op == 'extractvalue':
            t = p.type(); a = p.value(t); idx = []
            while p.accept(','): idx.append(int(p.next()))
            return Ins(op, res, t, (a, idx), dbg)
        if op == 'insertvalue':
            t = p.type(); a = p.value(t); p.expect(','); t2 = p.type(); b = p.value(t2); idx = []
            while p.accept(','): idx.append(int(p.next()))
            return Ins(op, res, t, (a, t2, b, idx), dbg)
        if op in ('freeze', 'fneg'):
            while p.peek() in SKIP_WORDS: p.i += 1
            t = p.type(); a = p.value(t)
            return Ins(op, res, t, a, dbg)
        if op == 'va_arg':
            pt, a = p.tv(); p.expect(','); t = p.type()
            return Ins(op, res, t, a, dbg)
        return Ins('unknown:' + op, res, None, ln, dbg)

    @staticmethod
    def _lab(s):
        s = s[1:]
        return s[1:-1] if s.startswith('"') else s

    def succs(self, b):
        t = b.term
        if t is None: return []
        if t.op == 'br':
            return [t.a[1]] if t.a[0] is None else [t.a[1], t.a[2]]
        if t.op == 'switch':
            return [t.a[1]] + [l for _, l in t.a[2]]
        return []

    def _cfg(self):
        for b in self.order:
            b.succ = []
            b.preds = []
        for b in self.order:
            seen = []
            for s in self.succs(b):
                if s not in seen: seen.append(s)
            b.succ = [self.blocks[s] for s in seen]
            for s in b.succ: s.preds.append(b)
        # reverse post order
        entry = self.order[0]
        seen = set(); post = []
        stack = [(entry, iter(entry.succ))]
        seen.add(entry.name)
        while stack:
            b, it = stack[-1]
            adv = False
            for s in it:
                if s.name not in seen:
                    seen.add(s.name)
                    stack.append((s, iter(s.succ)))
                    adv = True
                    break
            if not adv:
                post.append(b); stack.pop()
        post.reverse()
        for i, b in enumerate(post): b.idx = i
        self.rpo = post
        for b in self.order:
            if b.name not in seen:
                b.idx = 10**6
        for b in post:
            b.loophdr = any(p.idx >= b.idx for p in b.preds if p.idx < 10**6)
        # liveness
        use = {}; de = {}
        for b in post:
            u = set(); d = set()
            for ph in b.phis: d.add(ph.res)
            for ins in b.ins:
                for x in uses(ins):
                    if x not in d: u.add(x)
                if ins.res is not None: d.add(ins.res)
            if b.term is not None:
                for x in uses(b.term):
                    if x not in d: u.add(x)
            use[b.name] = u; de[b.name] = d
        live = {b.name: set() for b in post}
        changed = True
        while changed:
            changed = False
            for b in reversed(post):
                out = set()
                for s in b.succ:
                    out |= live[s.name]
                    for ph in s.phis:
                        for v, l in ph.a:
                            if l == b.name:
                                collect(v, out)
                new = use[b.name] | (out - de[b.name])
                if new != live[b.name]:
                    live[b.name] = new
                    changed = True
        for b in post: b.livein = live[b.name]

    def loc(self, dbg):
        return self.mod.loc(dbg)

def collect(v, s):
    if v[0] == 'l': s.add(v[1])
    elif v[0] == 'gep':
        collect(v[2][1], s)
        for _, x in v[3]: collect(x, s)
    elif v[0] == 'agg':
        for _, x in v[1]: collect(x, s)

def uses(ins):
    s = set()
    op = ins.op
    if op in BINOPS: collect(ins.a[0], s); collect(ins.a[1], s)
    elif op in CASTS: collect(ins.a[1], s)
    elif op in ('load', 'freeze', 'fneg', 'va_arg'): collect(ins.a, s)
    elif op == 'store': collect(ins.a[0], s); collect(ins.a[1], s)
    elif op == 'getelementptr':
        collect(ins.a[0][1], s)
        for _, x in ins.a[1]: collect(x, s)
    elif op in ('icmp', 'fcmp'): collect(ins.a[1], s); collect(ins.a[2], s)
    elif op == 'br':
        if ins.a[0] is not None: collect(ins.a[0], s)
    elif op == 'switch': collect(ins.a[0], s)
    elif op == 'ret':
        if ins.a is not None: collect(ins.a, s)
    elif op == 'select':
        for x in ins.a: collect(x, s)
    elif op == 'alloca':
        if ins.a is not None: collect(ins.a[1], s)
    elif op == 'call':
        if ins.a[0][0] != 'asm': collect(ins.a[0], s)
        for a in ins.a[1]: collect(a[1], s)
    elif op == 'extractvalue': collect(ins.a[0], s)
    elif op == 'insertvalue': collect(ins.a[0], s); collect(ins.a[2], s)
    return s


class Global:
    __slots__ = ('name', 'mod', 'ty', 'init_toks', 'const', 'external', 'internal', '_init')
    def init(self):
        if self._init is None and self.init_toks is not None:
            self._init = P(self.init_toks, self.mod).value(self.ty)
        return self._init


class Module:
    def __init__(self, text, name='?'):
        self.name = name
        self.types = {}
        self.tydefs = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.md_text = {}
        self._md = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define '):
                j = i + 1
                while not lines[j].startswith('}'):
                    j += 1
                m = re.search(r'@("[^"]*"|[-\w$.]+)\(', ln)
                nm = m.group(1).strip('"')
                h = ln
                self.funcs[nm] = Func(self, nm, h, lines[i+1:j], i)
                i = j + 1
                continue
            if ln.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-\w$.]+)\(', ln)
                if m: self.decls[m.group(1).strip('"')] = ln
            elif ln.startswith('%') and ' = type ' in ln:
                nm, rest = ln.split(' = type ', 1)
                self.tydefs[nm] = rest
            elif ln.startswith('@'):
                self._global(ln)
            elif ln.startswith('!') and ' = ' in ln:
                k, rest = ln.split(' = ', 1)
                if k[1:].isdigit():
                    self.md_text[int(k[1:])] = rest
            i += 1

    def named_type(self, nm):
        t = self.types.get(nm)
        if t is None:
            d = self.tydefs[nm]
            t = Ty('struct', elts=[])
            self.types[nm] = t
            r = P(tokenize(d), self).type()
            t.k = r.k; t.elts = r.elts; t.packed = r.packed; t.n = r.n; t.el = r.el
        return t

    def _global(self, ln):
        nm, rest = ln.split(' = ', 1)
        nm = nm[1:].strip('"')
        m = DBGRE.search(rest)
        j = rest.rfind(', !dbg')
        if j >= 0: rest = rest[:j]
        toks = tokenize(rest)
        p = P(toks, self)
        g = Global()
        g.name = nm; g.mod = self; g.external = False; g.internal = False; g._init = None
        while p.peek() not in ('global', 'constant'):
            w = p.next()
            if w == 'external': g.external = True
            if w in ('internal', 'private'): g.internal = True
            if w == 'alias': return
        g.const = p.next() == 'constant'
        g.ty = p.type()
        if g.external or p.peek() is None or p.peek() == ',':
            g.init_toks = None
        else:
            g.init_toks = toks[p.i:]
        self.globals[nm] = g

    # ------------------------------------------------------------ metadata
    def md(self, k):
        d = self._md.get(k)
        if d is None:
            d = self._md[k] = parse_md(self.md_text.get(k, ''))
        return d

    def loc(self, dbg):
        if dbg is None: return '?'
        d = self.md(dbg)
        line = d.get('line', '?')
        sc = d.get('scope')
        guard = 0
        while isinstance(sc, int) and guard < 50:
            s = self.md(sc)
            if 'file' in s and isinstance(s['file'], int):
                return '%s:%s' % (self.md(s['file']).get('filename', '?'), line)
            sc = s.get('scope'); guard += 1
        return '?:%s' % line


MDRE = re.compile(r'(\w+): ("(?:[^"\\]|\\.)*"|![\d]+|[^,()]+(?:\([^)]*\))?)')
def parse_md(t):
    d = {}
    t = t.replace('distinct ', '')
    if t.startswith('!{'):
        d['_list'] = [int(x[1:]) if x.startswith('!') and x[1:].isdigit() else None
                      for x in [y.strip() for y in t[2:-1].split(',')] if x]
        return d
    m = re.match(r'!(\w+)\(', t)
    if not m: return d
    d['_kind'] = m.group(1)
    for mm in MDRE.finditer(t[m.end():]):
        k, v = mm.groups()
        v = v.strip()
        if v.startswith('"'): d[k] = v[1:-1]
        elif v.startswith('!') and v[1:].isdigit(): d[k] = int(v[1:])
        else:
            if re.fullmatch(r'-?\d+', v):
                d[k] = ('n', int(v)) if k not in ('line', 'size', 'offset', 'value') else int(v)
            else: d[k] = v
    return d


class Types:
    """Struct layouts and enumerators recovered from debug info of a set of modules."""
    def __init__(self, mods):
        self.enums = {}      # enumerator -> value
        self.enum_types = {} # tag -> ordered [(name, value)]
        self.structs = {}    # name -> (mod, md id)
        self.typedefs = {}
        for mod in mods:
            for k, t in mod.md_text.items():
                if 'DICompositeType(' in t:
                    d = mod.md(k)
                    tag = d.get('tag')
                    if tag == 'DW_TAG_enumeration_type' and isinstance(d.get('elements'), int):
                        lst = []
                        for e in mod.md(d['elements']).get('_list', []):
                            ed = mod.md(e)
                            lst.append((ed['name'], ed['value']))
                            self.enums[ed['name']] = ed['value']
                        if 'name' in d: self.enum_types[d['name']] = lst
                        else: self.enum_types.setdefault('_anon', []).extend(lst)
                    elif tag in ('DW_TAG_structure_type', 'DW_TAG_union_type') and 'elements' in d and 'name' in d:
                        self.structs.setdefault(d['name'], (mod, k))
                elif 'DW_TAG_typedef' in t:
                    d = mod.md(k)
                    if 'name' in d and isinstance(d.get('baseType'), int):
                        self.typedefs.setdefault(d['name'], (mod, d['baseType']))

    def _strip(self, mod, k):
        while isinstance(k, int):
            d = mod.md(k)
            if d.get('tag') in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type'):
                k = d.get('baseType')
                continue
            return k
        return k

    def resolve(self, name):
        if name in self.structs: 
            return self.structs[name]
        if name in self.typedefs:
            mod, k = self.typedefs[name]
            k = self._strip(mod, k)
            d = mod.md(k)
            if 'elements' not in d and 'name' in d and d['name'] in self.structs:
                return self.structs[d['name']]
            return mod, k
        raise KeyError(name)

    def field(self, struct, path):
        """(byte offset, size bytes, kind) of a member path such as 'opr[0].reg.no'."""
        mod, k = self.resolve(struct)
        off = 0
        for part in re.findall(r'\w+|\[\d+\]', path):
            k = self._strip(mod, k)
            d = mod.md(k)
            if part[0] == '[':
                idx = int(part[1:-1])
                assert d.get('tag') == 'DW_TAG_array_type', d
                el = self._strip(mod, d['baseType'])
                sz = mod.md(el).get('size', 0) // 8
                off += idx * sz
                k = el
                continue
            if 'elements' not in d and d.get('name') in self.structs:
                mod, k = self.structs[d['name']]
                d = mod.md(k)
            r = self._find(mod, d, part)
            if r is None: raise KeyError('%s has no member %s (%s)' % (struct, part, path))
            o, k = r
            off += o
        k = self._strip(mod, k)
        d = mod.md(k) if isinstance(k, int) else {}
        return off, d.get('size', 0) // 8, d

    def _find(self, mod, d, name):
        for e in mod.md(d['elements']).get('_list', []):
            ed = mod.md(e)
            if ed.get('name') == name:
                return ed.get('offset', 0) // 8, ed['baseType']
            if 'name' not in ed:
                b = self._strip(mod, ed['baseType'])
                bd = mod.md(b)
                if 'elements' in bd:
                    r = self._find(mod, bd, name)
                    if r is not None:
                        return r[0] + ed.get('offset', 0) // 8, r[1]
        return None

    def members(self, struct):
        mod, k = self.resolve(struct)
        return [mod.md(e).get('name') for e in mod.md(mod.md(k)['elements'])['_list']]

    def size(self, struct):
        mod, k = self.resolve(struct)
        return mod.md(k).get('size', 0) // 8
