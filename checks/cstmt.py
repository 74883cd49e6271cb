"""The meaning of C statements over the abstract domain: an interpreter of small
programs (written from the standard) that forks where the facts do not decide a condition."""
from fn_common import *

class OMach(FMach):
    """the memory of the abstract program"""
    def __init__(self, facts): FMach.__init__(self, facts); self.addrs = {}; self.touched = []
    def fork(self, facts):
        m = FMach.fork(self, facts); m.addrs = dict(self.addrs); m.touched = list(self.touched); return m
    def store(self, addr, n, v):
        FMach.store(self, addr, n, v)
        addr = self.f.resolve(addr, 64)
        self.addrs[self.base(addr)] = addr; self.touched.append((addr, n))
    def own(self, key): return key[0] == 'lin' and any(a in LOCALS for a, _ in key[1])
LOCALS = set()
def local_addr(n):
    a = label_addr('local ' + n)
    LOCALS.update(x.id for x in to_lin(a, 64)[1])
    return a
class SS:
    """state of the program: facts, variables, memory (a log of stores), calls made"""
    def __init__(s, f, vals, mem): s.f = f; s.vals = vals; s.mem = mem; s.calls = []; s.steps = 0
    def fork(s, f):
        n = SS(f, dict(s.vals), s.mem.fork(f)); n.calls = list(s.calls); n.steps = s.steps
        return n
    def env(s):
        e = Env(s.f, s.vals); e.mem = s.mem; s.mem.f = s.f
        return e
    def tick(s):
        s.steps += 1
        if s.steps > 400: raise Undecided('the program runs too long')

# ---- places
class Addr(X):
    """address expressions and the objects they designate"""
class Obj_(X):
    """an object in memory: name -> label address"""
class Deref(X):
    def __init__(s, p, t=None): s.p = p; s.t = t or p.t.to; s.s = '*%s' % par(p)
    def subs(s): return (s.p,)
    def addr(s, e): return e.f.resolve(s.p.v(e), 64)
    def v(s, e): return getm(e, s.addr(e), s.t)
def getm(e, a, t): return e.f.resolve(e.mem.load(e.f.resolve(a, 64), t.size), t.w)
class Index(X):
    """p[i] with p a pointer or an array object"""
    def __init__(s, p, i): s.p = p; s.i = i; s.t = p.t.to; s.s = '%s[%s]' % (par(p), i.s)
    def subs(s): return (s.p, s.i)
    def addr(s, e):
        i = conv(e.f, s.i.v(e), s.i.t, I64)
        base = s.p.addr(e) if s.p.t.k == 'arr' else s.p.v(e)
        return e.f.resolve(add(base, mul(i, s.t.size, 64), 64), 64)
    def v(s, e): return getm(e, s.addr(e), s.t)
class Mem(X):
    """member of a structure: x.m (x an object) or x->m (x a pointer)"""
    def __init__(s, x, m, arrow=False):
        st = x.t.to if arrow else x.t
        s.x = x; s.m = m; s.arrow = arrow; s.off, s.t = st.members[m][:2]
        s.bits = st.members[m][2] if len(st.members[m]) > 2 else None
        s.s = '%s%s%s' % (par(x), '->' if arrow else '.', m)
    def subs(s): return (s.x,)
    def addr(s, e): return e.f.resolve(add(s.x.v(e) if s.arrow else s.x.addr(e), s.off, 64), 64)
    def v(s, e):
        x = getm(e, s.addr(e), s.t)
        if s.bits is None: return x
        b, n = s.bits
        x = mk(bits_of(x, s.t.w)[b:b + n])
        return (sext if s.t.s else zext)(x, n, s.t.w) if s.t.k != 'bool' else zext(x, n, s.t.w)
    def setbits(s, e, v):
        b, n = s.bits
        old = bits_of(getm(e, s.addr(e), s.t), s.t.w)
        return mk(old[:b] + bits_of(v, s.t.w)[:n] + old[b + n:])
class Glob(X):
    """a named object in memory"""
    def __init__(s, name, t): s.s = name; s.t = t
    def addr(s, e): return label_addr(s.s)
    def v(s, e): return getm(e, label_addr(s.s), s.t)
class Loc(Glob):
    """a local object whose address is taken: it has an address of its own"""
    def addr(s, e): return local_addr(s.s)
    def v(s, e): return getm(e, s.addr(e), s.t)
class AddrOf(X):
    def __init__(s, x): s.x = x; s.t = Pt(x.t); s.s = '&' + par(x)
    def subs(s): return (s.x,)
    def v(s, e): return s.x.addr(e)
class Arr:
    k = 'arr'; s = False
    def __init__(s, to, n): s.to = to; s.n = None; s.count = n; s.size = to.size * n; s.w = 8 * s.size
class Struct:
    k = 'struct'; s = False
    def __init__(s, name, fields, union=False, packed=False):
        """fields: (name, type) or (name, type, bits); layout of the platform ABIs"""
        s.n = ('union ' if union else 'struct ') + name; s.members = {}; off = 0; al = 1; bit = 0; s.fields = fields; sz = 0
        for fl in fields:
            nm, t = fl[0], fl[1]
            a = align(t)
            if len(fl) > 2:
                n = fl[2]
                if bit // t.w != (bit + n - 1) // t.w: bit = (bit + t.w - 1) // t.w * t.w
                o = bit // t.w * t.size
                s.members[nm] = (o, t, (bit - 8 * o, n)); bit += n
                off = (bit + 7) // 8
            else:
                off = 0 if union else (off + a - 1) // a * a
                s.members[nm] = (off, t); off += t.size; bit = 8 * off
            al = max(al, a); sz = max(sz, off)
        s.al = al; s.size = (sz + al - 1) // al * al; s.w = 8 * s.size
    @property
    def decl(s):
        out = []
        for fl in s.fields:
            nm, t = fl[0], fl[1]
            out.append(dname(t, nm) + (' : %d' % fl[2] if len(fl) > 2 else '') + ';')
        return '%s { %s };\n' % (s.n, ' '.join(out))
def align(t):
    if t.k == 'arr': return align(t.to)
    if t.k == 'struct': return t.al
    return t.size
def dname(t, nm):
    d = ''
    while t.k == 'arr': d += '[%d]' % t.count; t = t.to
    return '%s %s%s' % (t.n, nm, d)

def valbytes(t):
    """the bytes of an object that are not padding"""
    if t.k == 'arr': return {i * t.to.size + b for i in range(t.count) for b in valbytes(t.to)}
    if t.k == 'struct':
        out = set()
        for m, x in t.members.items():
            if len(x) > 2: out |= {x[0] + b for b in range(x[2][0] // 8, (x[2][0] + x[2][1] - 1) // 8 + 1)}
            else: out |= {x[0] + b for b in valbytes(x[1])}
        return out
    return set(range(t.size))

# ---- statements
def text(ss): return ' '.join(s.s for s in ss)
def block(ss): return '{ %s }' % text(ss)
class St:
    def run(s, st): raise NotImplementedError
def runs(ss, st, k=0):
    """runs a list of statements: [(state, signal)]"""
    out = []; todo = [(st, k)]
    while todo:
        st, k = todo.pop()
        if k == len(ss): out.append((st, None)); continue
        st.tick()
        for s2, sig in ss[k].run(st):
            if sig is None: todo.append((s2, k + 1))
            elif sig[0] == 'goto' and any(x.__class__ is Label and x.n == sig[1] for x in ss):
                todo.append((s2, [i for i, x in enumerate(ss) if x.__class__ is Label and x.n == sig[1]][0]))
            else: out.append((s2, sig))
    if len(out) > 200: raise Undecided('too many paths of the program')
    return out
def scoped(ss, st):
    """a block; its declarations hide outer ones"""
    old = dict(st.vals)
    return hiding([x.name for x in ss if x.__class__ is Decl], old, runs(ss, st))
def hiding(names, old, out):
    for s2, _ in out:
        for n in names:
            if n in old: s2.vals[n] = old[n]
            else: s2.vals.pop(n, None)
    return out
def decide(st, x):
    """[(state, truth)] of a condition"""
    if x.__class__ is Bin and x.op in ('&&', '||'):
        out = []
        for s2, t in decide(st, x.a):
            if t == (x.op == '||'): out.append((s2, t))
            else: out += decide(s2, x.b)
        return out
    if x.__class__ is Un and x.op == '!': return [(s2, not t) for s2, t in decide(st, x.x)]
    b = truth(st.f, x.v(st.env()), x.t)
    if b.__class__ is int: return [(st, bool(b))]
    out = []
    for t in (1, 0):
        f = st.f.copy()
        if f.assume(b, t) is False or not f.consistent(): continue
        out.append((st.fork(f), bool(t)))
    return out
def put(st, lv, v):
    """stores the value v (of lv's type)"""
    e = st.env()
    if lv.__class__ is Var: st.vals[lv.s] = st.f.resolve(v, lv.t.w)
    else:
        if getattr(lv, 'bits', None) is not None: v = lv.setbits(e, v)
        st.mem.store(lv.addr(e), lv.t.size, st.f.resolve(v, lv.t.w))
class Decl(St):
    def __init__(s, t, name, x=None):
        s.t = t; s.name = name; s.x = x; s.s = dname(t, name) + (' = %s;' % x.s if x is not None else ';')
    def run(s, st):
        if s.x is not None: st.vals[s.name] = asgn(st, s.x, s.t)
        return [(st, None)]
def asgn(st, x, t):
    v = x.v(st.env())
    if t.k == 'ptr' or x.t.k == 'ptr': return st.f.resolve(v, 64)
    return st.f.resolve(conv(st.f, v, x.t, t), t.w)
class Set(St):
    def __init__(s, lv, x, op=''): s.lv = lv; s.x = x; s.op = op; s.s = '%s %s= %s;' % (lv.s, op, x.s)
    def run(s, st):
        x = Bin(s.op, s.lv, s.x) if s.op else s.x
        v = asgn(st, x, s.lv.t)
        if getattr(s.lv, 'bits', None) is not None and s.lv.t.k == 'bool': pass
        put(st, s.lv, v)
        return [(st, None)]
class Chain(St):
    """a = b = x"""
    def __init__(s, a, b, x): s.a = a; s.b = b; s.x = x; s.s = '%s = %s = %s;' % (a.s, b.s, x.s)
    def run(s, st):
        v = asgn(st, s.x, s.b.t)
        put(st, s.b, v)
        if getattr(s.b, 'bits', None) is not None: v = s.b.v(st.env())
        put(st, s.a, st.f.resolve(conv(st.f, v, s.b.t, s.a.t), s.a.t.w)); return [(st, None)]
class Inc(St):
    """x++ and the like; with a variable to take the value of the expression"""
    def __init__(s, lv, op='++', post=True, to=None):
        s.lv = lv; s.op = op; s.post = post; s.to = to
        s.s = ('%s = ' % to.s if to is not None else '') + (par(lv) + op if post else op + par(lv)) + ';'
    def run(s, st):
        old = s.lv.v(st.env())
        v = asgn(st, Bin(s.op[0], s.lv, Lit('1', I32, 1)), s.lv.t)
        put(st, s.lv, v)
        if s.to is not None:
            r = old if s.post else s.lv.v(st.env())
            put(st, s.to, r if s.to.t.k == 'ptr' else conv(st.f, r, s.lv.t, s.to.t))
        return [(st, None)]
class If(St):
    def __init__(s, c, a, b=None, brace=True):
        s.c = c; s.a = a; s.b = b
        s.s = 'if (%s) %s' % (c.s, block(a)) + (' else %s' % block(b) if b is not None else '')
    def run(s, st):
        out = []
        for s2, t in decide(st, s.c): out += scoped(s.a if t else (s.b or []), s2)
        return out
def loop(st, c, body, step=(), first=True):
    out = []; todo = [(st, first)]
    while todo:
        st, test = todo.pop()
        st.tick()
        for s2, t in (decide(st, c) if test and c is not None else [(st, True)]):
            if not t: out.append((s2, None)); continue
            for s3, sig in scoped(body, s2):
                if sig == ('brk',): out.append((s3, None))
                elif sig is None or sig == ('cont',):
                    for s4, _ in runs(list(step), s3): todo.append((s4, True))
                else: out.append((s3, sig))
    return out
class While(St):
    def __init__(s, c, body): s.c = c; s.body = body; s.s = 'while (%s) %s' % (c.s, block(body))
    def run(s, st): return loop(st, s.c, s.body)
class Do(St):
    def __init__(s, body, c): s.c = c; s.body = body; s.s = 'do %s while (%s);' % (block(body), c.s)
    def run(s, st): return loop(st, s.c, s.body, first=False)
class For(St):
    def __init__(s, init, c, step, body):
        s.init = init; s.c = c; s.step = step; s.body = body
        s.s = 'for (%s %s; %s) %s' % (init.s, c.s if c is not None else '', step.s.rstrip(';'), block(body))
    def run(s, st):
        out = []; old = dict(st.vals)
        for s2, _ in s.init.run(st): out += loop(s2, s.c, s.body, [s.step])
        return hiding([s.init.name], old, out) if s.init.__class__ is Decl else out
class Switch(St):
    """cases: [(label or None, statements)]; a label is a constant expression or a pair of them (range)"""
    def __init__(s, x, cases):
        s.x = x; s.cases = cases
        def lab(l): return 'default:' if l is None else 'case %s ... %s:' % (l[0].s, l[1].s) if l.__class__ is tuple else 'case %s:' % l.s
        s.s = 'switch (%s) { %s }' % (x.s, ' '.join('%s %s' % (lab(l), text(b)) for l, b in cases))
    def run(s, st):
        t = promote(s.x.t)
        out = []; rest = [st]
        flat = [b for _, b in s.cases]
        starts = [(l, i) for i, (l, _) in enumerate(s.cases)]
        def go(st, i):
            for s2, sig in runs(sum(flat[i:], []), st): out.append((s2, None if sig == ('brk',) else sig))
        for l, i in starts:
            if l is None: continue
            c = Bin('==', Cast(t, s.x), Cast(t, l)) if l.__class__ is not tuple else Bin('&&', Bin('>=', Cast(t, s.x), Cast(t, l[0])), Bin('<=', Cast(t, s.x), Cast(t, l[1])))
            nxt = []
            for q in rest:
                for s2, tr in decide(q, c):
                    if tr: go(s2, i)
                    else: nxt.append(s2)
            rest = nxt
        d = [i for l, i in starts if l is None]
        for q in rest:
            if d: go(q, d[0])
            else: out.append((q, None))
        return out
class Break(St):
    s = 'break;'
    def run(s, st): return [(st, ('brk',))]
class Continue(St):
    s = 'continue;'
    def run(s, st): return [(st, ('cont',))]
class Goto(St):
    def __init__(s, n): s.n = n; s.s = 'goto %s;' % n
    def run(s, st): return [(st, ('goto', s.n))]
class Label(St):
    def __init__(s, n): s.n = n; s.s = '%s: ;' % n
    def run(s, st): return [(st, None)]
class Ret(St):
    def __init__(s, x=None): s.x = x; s.s = 'return %s;' % x.s if x is not None else 'return;'
    def run(s, st): return [(st, ('ret', (s.x.v(st.env()), s.x.t) if s.x is not None else None))]
class Blk(St):
    """a block; its declarations hide outer ones"""
    def __init__(s, ss): s.ss = ss; s.s = block(ss)
    def run(s, st):
        return scoped(s.ss, st)
class Call(St):
    """lv = f(args); or f(args);"""
    def __init__(s, lv, proto, args, fn=None, op=''):
        s.lv = lv; s.p = proto; s.args = args; s.fn = fn; s.op = op
        s.s = ('%s %s= ' % (lv.s, op) if lv is not None else '') + '%s(%s);' % (fn.s if fn is not None else proto.name, ', '.join(a.s for a in args))
    def run(s, st):
        e = st.env()
        st.calls.append((s.p, s.fn.v(e) if s.fn is not None else None, [(st.f.resolve(a.v(e), a.t.w), a.t) for a in s.args]))
        k = len(st.calls)
        st.mem.havoc(st.mem.own)
        for i, wt in s.p.writes: st.mem.store(st.f.resolve(s.args[i].v(st.env()), 64), wt.size, sym('wr%d_%d' % (k, i), wt.w))
        if s.lv is not None:
            r = s.p.ret; v = st.vals['ret%d' % k]
            class R(X):
                t = r; s = ''
                def v(self, e): return v
            put(st, s.lv, asgn(st, Bin(s.op, s.lv, R()) if s.op else R(), s.lv.t))
        return [(st, None)]
class Raw(St):
    """text with a given meaning in simpler statements"""
    def __init__(s, txt, ss): s.s = txt; s.ss = ss
    def run(s, st): return runs(s.ss, st)

class Prg(T):
    """a function given by statements"""
    def __init__(s, name, ret, params, ss, rets=None, **kw):
        T.__init__(s, name, ret, params, text(ss), rets=rets, **kw); s.ss = ss
    def outcomes(s, f, vals, mach):
        m = OMach(f); m.r = {}; m.prog = mach.prog
        st = SS(f, {k: v for k, v in vals.items()}, m)
        out = []
        for s2, sig in runs(s.ss, st):
            r = sig[1] if sig is not None and sig[0] == 'ret' else None
            if sig is not None and sig[0] != 'ret': raise Exception('stray %s in %s' % (sig[0], s.name))
            out.append((s2, r))
        return out
