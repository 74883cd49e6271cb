"""Meaning of whole compiled functions: the assembly text the compiler emits for a
C function is followed from its entry with the arguments where the platform's
calling convention puts them, to its return."""
import zlib
from csem import *
from cc_common import *
from sem_x64 import X64, R64, XMM
from sem_riscv import RV
from sem_arm import ARM

class FMach(Mach):
    """a machine that notes the stack pointer of every store and whose unknown memory is an array of bytes"""
    SP = None; sp0 = None
    def __init__(self, facts): Mach.__init__(self, facts); self.wild = []; self.ncall = 0; self.epoch = 0; self.frames = ()
    def fork(self, facts):
        m = Mach.fork(self, facts); m.wild = list(self.wild); m.ncall = self.ncall; m.epoch = self.epoch; m.frames = self.frames; m.SP = self.SP; m.sp0 = self.sp0
        return m
    def store(self, addr, n, v):
        Mach.store(self, addr, n, v)
        if self.SP is not None: self.wild.append((self.f.resolve(addr, 64), n, self.f.resolve(self.r[self.SP], 64)))
    def havoc(self, own):
        """a call: memory other than that own(key) may have changed"""
        self.epoch += 1
        self.mem = [e for e in self.mem if own(e[0])]
    def load(self, addr, n, init=None):
        key, off = self.base(addr)
        by = [None] * n; left = n
        for k, o, s, v in reversed(self.mem):
            if k != key: continue
            d = (off - o) & M64
            if d == 0 and s >= n and left == n: return trunc(v, 8 * s, 8 * n)
            if d < s or ((o - off) & M64) < n:
                vb = bits_of(v, 8 * s)
                for i in range(n):
                    j = (off + i - o) & M64
                    if by[i] is None and j < s: by[i] = vb[8 * j:8 * j + 8]; left -= 1
                if not left: return mk(sum(by, ()))
        if left == n: return self.initial(key, off, addr, n)
        for i in range(n):
            if by[i] is None: by[i] = bits_of(self.initial(key, off + i, add(addr, i, 64), 1), 8)
        return mk(sum(by, ()))
    def initial(self, key, off, addr, n):
        addr = self.f.resolve(addr, 64)
        if addr.__class__ is BV:
            c, t = to_lin(addr, 64)
            if self.prog is not None and len(t) == 1:
                (a, k), = t.items()
                if a.k == 'lab' and k == 1 and a.args[0] in self.prog.data and a.args[0] in self.prog.ro:
                    by = self.prog.bytes(a.args[0])
                    if by is not None and 0 <= c and c + n <= len(by): return int.from_bytes(bytes(by[c:c + n]), 'little')
        ep = 0 if self.own(key) else self.epoch
        return mk(sum((membyte(self.f.resolve(add(addr, i, 64), 64), ep) for i in range(n)), ()))
    def own(self, key): return key[0] == 'lin' and any(a in SP_IDS for a, _ in key[1])
def membyte(a, ep=0): return atom('mem', (a, 1) if not ep else (a, 1, ep), 8).bits
def memval(f, addr, n):
    """initial contents of memory"""
    return mk(sum((membyte(f.resolve(add(addr, i, 64), 64)) for i in range(n)), ()))

SP0 = mk((0,) * 4 + sym('sp0', 60).bits)      # a multiple of 16
SP_IDS = {a.id for a in to_lin(SP0, 64)[1]}
class Abi: pass
class AbiX64(Abi):
    arch = 'x64'; isa = X64; SP = 'rsp'; red = 128
    ia = ['rdi', 'rsi', 'rdx', 'rcx', 'r8', 'r9']; fa = ['xmm%d' % i for i in range(8)]
    ret = 'rax'; fret = 'xmm0'; saved = ['rbx', 'rbp', 'r12', 'r13', 'r14', 'r15']; ra = None
    volatile = ['rax', 'rcx', 'rdx', 'rsi', 'rdi', 'r8', 'r9', 'r10', 'r11'] + sorted(XMM)
    f2i = False; stk = 8                       # the return address lies below the stack arguments
    def sp_entry(self): return sub(SP0, 8, 64)
    def put(self, m, r, v, t, nm):
        if t.k == 'flo': v = mk(bits_of(v, t.w) + sym('hi_' + nm, 64).bits[:64 - t.w])
        elif t.w < 64:
            if t.w < 32 and t.k != 'flo': v = (sext if t.s else zext)(v, t.w, 32)      # (callers extend to 32 bits, as every x86-64 compiler does)
            v = mk(bits_of(v, 32) + sym('hi_' + nm, 32).bits)
        return v
    def arg_ok(self, v, t): return None
class AbiRV(Abi):
    arch = 'riscv64'; isa = RV; SP = 'sp'; red = 0
    ia = ['a%d' % i for i in range(8)]; fa = ['fa%d' % i for i in range(8)]
    ret = 'a0'; fret = 'fa0'; saved = ['s%d' % i for i in range(12)] + ['fs%d' % i for i in range(12)]; ra = 'ra'
    volatile = ['ra'] + ['t%d' % i for i in range(7)] + ['a%d' % i for i in range(8)] + ['ft%d' % i for i in range(12)] + ['fa%d' % i for i in range(8)]
    f2i = False; stk = 0                       # (the psABI passes floats in integer registers when the floating ones are used up: AbiRVStd)
    def sp_entry(self): return SP0
    def put(self, m, r, v, t, nm):
        if t.k == 'flo': return mk(bits_of(v, t.w) + (1,) * (64 - t.w)) if t.w < 64 else v
        if t.w < 32: v = (sext if t.s else zext)(v, t.w, 32)
        return sext(v, 32, 64) if t.w <= 32 else v
    def arg_ok(self, v, t):
        """the extension the psABI requires of integers: (got, wanted)"""
        if t.k == 'flo' or t.w == 64: return None
        x = trunc(v, 64, t.w)
        return self.put(None, None, x, t, '')
class AbiRVStd(AbiRV): f2i = True
class AbiARM(Abi):
    arch = 'aarch64'; isa = ARM; SP = 'sp'; red = 0
    ia = ['x%d' % i for i in range(8)]; fa = ['v%d' % i for i in range(8)]
    ret = 'x0'; fret = 'v0'; saved = ['x%d' % i for i in range(19, 30)] + ['v%d' % i for i in range(8, 16)]; ra = 'x30'
    volatile = ['x%d' % i for i in range(18)] + ['x30'] + ['v%d' % i for i in range(8)] + ['v%d' % i for i in range(16, 32)]
    f2i = False; stk = 0
    def sp_entry(self): return SP0
    def put(self, m, r, v, t, nm):
        if t.w < 64: v = mk(bits_of(v, t.w) + sym('hi_' + nm, 64).bits[:64 - t.w])      # the unused bits are unspecified
        return v
    def arg_ok(self, v, t): return None
ABIS = {'x64': AbiX64(), 'riscv64': AbiRV(), 'aarch64': AbiARM()}

def locate(abi, types, nfix=None):
    """where the arguments go: [('i', reg) | ('f', reg) | ('s', offset)]"""
    ni = nf = ns = 0; out = []
    for i, t in enumerate(types):
        var = nfix is not None and i >= nfix
        if t.k == 'flo' and not (var and abi.arch == 'riscv64'):
            if nf < len(abi.fa): out.append(('f', abi.fa[nf])); nf += 1; continue
            if abi.f2i and ni < len(abi.ia): out.append(('i', abi.ia[ni])); ni += 1; continue
        elif ni < len(abi.ia): out.append(('i', abi.ia[ni])); ni += 1; continue
        out.append(('s', 8 * ns)); ns += 1
    return out

def expand(arch, src):
    """the text with the repository's <stdarg.h> expanded"""
    import subprocess
    r = subprocess.run(['gcc', '-E', '-P', '-undef', '-nostdinc', '-D__XCC', '-D__linux__', '-D__%s' % {'x64': 'x86_64__', 'riscv64': 'riscv', 'aarch64': 'aarch64__'}[arch], '-I', os.path.join(REPO, 'include'), '-'], input=src, text=True, capture_output=True)
    if r.returncode: raise Broken('cannot expand <stdarg.h>: ' + r.stderr[:300])
    # (declarations of names that nothing uses only cost time)
    lines = [l for l in r.stdout.split('\n') if l.strip()]; text = '\n'.join(lines)
    return '\n'.join(l for l in lines if not (m := re.fullmatch(r'typedef [\w ]+[ *]+(\w+);', l.strip())) or len(re.findall(r'\b%s\b' % m.group(1), text)) > 1)
class Proto:
    def __init__(s, name, ret, params, va=False, writes=()): s.name = name; s.ret = ret; s.params = params; s.va = va; s.writes = writes      # writes: (argument, type) objects the function stores to
    @property
    def decl(s): return '%s %s(%s);' % (s.ret.n if s.ret else 'void', s.name, ', '.join([t.n for t in s.params] + (['...'] if s.va else [])) or 'void')

def make_isa(abi, prog, protos, vals={}):
    base = abi.isa
    class I(base):
        def call(self, m, *a):
            if abi.arch == 'x64': t = a[0]
            else: t = a[1][0]
            if t.__class__ is tuple: t = t[1]
            elif abi.arch == 'riscv64' and a[0] in ('jalr',): t = m.f.resolve(m.r[self.xr(t)], 64)
            elif abi.arch == 'aarch64' and a[0] == 'blr': t = m.f.resolve(m.r[self.x(t, 64, zr=False)[1]], 64)
            if t.__class__ is str: t = t.strip().split('@')[0]
            if t.__class__ is str and t in self.p.labels and t not in protos: return self.enter(m, t)
            m.ncall += 1
            sp = m.f.resolve(m.r[abi.SP], 64)
            m.calls.append((t, dict(m.r), sp, m.fork(m.f)))
            k = m.ncall
            p = protos.get(t) if t.__class__ is str else protos.get('*')
            for r in abi.volatile: m.r[r] = sym('hav%d_%s' % (k, r), 64)
            m.havoc(m.own)
            if p is not None and p.ret is not None:
                v = vals['ret%d' % k] if 'ret%d' % k in vals else zext(sym('ret%d' % k, inw(p.ret)), inw(p.ret), p.ret.w)
                r = abi.fret if p.ret.k == 'flo' else abi.ret
                m.r[r] = m.f.resolve(abi.put(m, r, v, p.ret, 'ret%d' % k), 64)
            if p is not None:
                for i, wt in p.writes:
                    loc = locate(abi, p.params)[i]
                    ptr = m.f.resolve(m.calls[-1][1][loc[1]], 64)
                    m.store(ptr, wt.size, sym('wr%d_%d' % (k, i), wt.w)); m.wild.pop()
            # everything below the stack pointer is lost
            key, off = m.base(sp)
            m.mem = [e for e in m.mem if not (e[0] == key and signed(e[1] - off, 64) < 0)]
            return None
        def enter(self, m, t):
            """a call of a function of the same file: it is followed"""
            sp = m.f.resolve(m.r[abi.SP], 64)
            if len(m.frames) > 5: raise Undecided('calls too deep')
            if m.f.resolve(trunc(sp, 64, 4), 4) != 0: raise Reject('the stack is not aligned to 16 bytes at a call of %s' % t)
            tok = label_addr('return %d %d' % (m.pc, len(m.frames)))
            if abi.arch == 'x64':
                m.r[abi.SP] = m.f.resolve(sub(sp, 8, 64), 64); m.store(m.r[abi.SP], 8, tok)
            else: m.r[abi.ra] = tok
            m.frames += ((m.pc, sp, tok, tuple(m.r[r] for r in abi.saved)),)
            return ('jump', t)
        def leave(self, m):
            pc, sp, tok, saved = m.frames[-1]
            if abi.arch == 'x64': ra = m.load(m.r[abi.SP], 8); m.r[abi.SP] = m.f.resolve(add(m.r[abi.SP], 8, 64), 64)
            else: ra = m.r[abi.ra]
            if m.f.resolve(sub(ra, tok, 64), 64) != 0: raise Reject('a callee does not return to its caller')
            if m.f.resolve(sub(m.r[abi.SP], sp, 64), 64) != 0: raise Reject('a callee does not restore the stack pointer')
            m.frames = m.frames[:-1]; m.pc = pc; m.out = None
            # what lies below the stack pointer is lost
            key, off = m.base(sp)
            m.mem = [e for e in m.mem if not (e[0] == key and signed(e[1] - off, 64) < 0)]
            for r in abi.volatile:
                if r not in (abi.ret, abi.fret): m.r[r] = sym('dead %d %s' % (m.pc, r), 64)
            return None
        def step(self, m, op, rest):
            if op in ('endbr64', '.loc', '.file', '.cfi_startproc'): return None
            if op == 'leave':
                m.r['rsp'] = m.r['rbp']
                m.r['rbp'] = m.load(m.r['rsp'], 8); m.r['rsp'] = add(m.r['rsp'], 8, 64)
                return None
            r = base.step(self, m, op, rest)
            if r is not None and r[0] == 'exit' and m.frames and m.out in ('ret', 'retq'): return self.leave(m)
            if r is not None and r[0] == 'exit' and m.out.__class__ is tuple and m.out[0] == 'ind':
                return self.table(m, m.out[1])
            return r
        def table(self, m, tgt):
            """an indirect jump through a table of labels"""
            tgt = m.f.resolve(tgt, 64)
            A = fp.top_atom(mk(tgt.bits[:8])) if tgt.__class__ is BV else None
            if A is None or A.k != 'mem': return ('exit',)
            addr = A.args[0]
            c, t = to_lin(addr, 64)
            labs = [a for a, k in t.items() if a.k == 'lab' and k == 1]
            if len(labs) != 1 or labs[0].args[0] not in self.p.data: return ('exit',)
            lab = labs[0].args[0]
            idx = sub(addr, label_addr(lab), 64)
            out = []
            ents = self.p.data[lab]
            for k, (d, x) in enumerate(ents):
                if d not in ('.quad', '.dword', '.xword', '.8byte'): return ('exit',)
                f = m.f.copy()
                if f.restrict(f.resolve(idx, 64), 64, ((8 * k, 8 * k),)) is False or not f.consistent(): continue
                pin(f, idx, 8 * k)
                mm = m.fork(f)
                if not goto(mm, self.p, x.strip()): mm.out = 'table'
                else: mm.out = None
                out.append(mm)
            f = m.f.copy()
            if f.restrict(f.resolve(idx, 64), 64, r_compl(tuple((8 * k, 8 * k) for k in range(len(ents))), 64)) is not False and f.consistent():
                mm = m.fork(f); mm.out = 'beyond the jump table'; mm.pc = len(self.p.ins); out.append(mm)
            return ('fork', out)
    return I(prog)
def pin(f, v, n):
    v = f.resolve(v, 64)
    if v.__class__ is int: return
    for i, b in enumerate(v.bits):
        b = f.rbit(b)
        if b.__class__ is Bit: f.assume(b, n >> i & 1, True)

class FProg(Prog):
    def __init__(self, text, tokens):
        Prog.__init__(self, text, tokens)
        # labels whose contents the program cannot change
        self.ro = set(); sect = '.text'
        for line in text.split('\n'):
            s = line.strip()
            if s in ('.text', '.data', '.bss'): sect = s
            elif s.startswith('.section'): sect = s.split(None, 1)[1]
            else:
                g = re.match(r'^([^\s:"]+):', s)
                if g and 'rodata' in sect: self.ro.add(g.group(1))

class T:
    """a function template.  params: [(type, name)]; want: expression node, or function of (Env, machine); lits: number of
    symbolic literals in the body; protos: functions it may call; calls: expected calls [(name, [expressions])];
    stores: function(Env) -> [(address, size, value)]"""
    def __init__(s, name, ret, params, body, want=None, lits=0, pre='', protos=(), calls=None, stores=None, needs=(), hints=None, rets=None, place=None, nfix=None, std=False):
        s.name = name; s.ret = ret; s.params = params; s.body = body; s.want = want; s.lits = lits; s.pre = pre
        s.protos = {p.name: p for p in protos}; s.calls = calls; s.stores = stores; s.needs = list(needs); s.hints = hints
        s.place = place or {}; s.nfix = nfix; s.std = std      # nfix: the function is variadic; std: needs <stdarg.h>
        s.rets = rets if rets is not None else [r for r in [(s.protos.get(c[0]) or s.protos['*']).ret for c in (calls or ())]]
    def outcomes(s, f, vals, mach):
        e = Env(f, vals)
        class St: pass
        st = St(); st.f = f; st.calls = None; st.stores = s.stores(e) if s.stores else []
        if s.calls is not None:
            st.calls = [(s.protos[n] if n.__class__ is str else s.protos['*'], None if n.__class__ is str else n.v(e), [(a.v(e), a.t) for a in args]) for n, args in (s.calls(e) if callable(s.calls) else s.calls)]
        if s.want is None: return [(st, None)]
        if callable(s.want): return [(st, (s.want(e, mach), s.ret))]
        return [(st, (s.want.v(e), s.want.t))]
    def source(s, fn):
        d = '\n'.join(p.decl for p in s.protos.values() if p.name != '*')
        return '%s\n%s\n%s %s(%s) { %s }\n' % (s.pre, d, s.ret.n if s.ret else 'void', fn, s.plist(), s.body)
    def plist(s):
        if s.nfix is not None: return ', '.join([decl(t, n) for t, n in s.params[:s.nfix]] + ['...'])
        return ', '.join(decl(t, n) for t, n in s.params) or 'void'
def inw(t): return 1 if t.k == 'bool' else t.w      # a _Bool object holds 0 or 1
def decl(t, n): return '%s %s' % (t.n, n)

class Fns:
    def __init__(self, arch, chk, args=(), abi=None):
        self.arch = arch; self.chk = chk; self.abi = abi or ABIS[arch]; self.tool = CcTool(arch, chk); self.args = list(args); self.jobs = []
        self.tag = arch + ''.join(' ' + a for a in args) + (' psABI' if abi else '')
        self.cache = {}
    def sample(self, ts):
        """quick tier: all templates for x86-64, a part of them for the other targets and with --apply-ssa (instruction selection of
        every target has checks of its own)"""
        if self.chk.tier != 'quick': return ts
        salt = {'x64': 0, 'riscv64': 1, 'aarch64': 2}[self.arch]; ssa = bool(self.args)
        if not salt and not ssa: return [t for t in ts if not t.std or zlib.crc32(t.name.encode()) % 2]
        return [t for t in ts if (zlib.crc32(t.name.encode()) + salt + ssa) % ((5 if salt == 2 and t.lits else 4 if ssa else 3) if salt else 2) == 0]
    def add(self, ts, per=8):
        """templates; those without literals are compiled several at a time"""
        if os.environ.get('VERIF_ONLY'): ts = [t for t in ts if re.search(os.environ['VERIF_ONLY'], t.name)]
        plain = [t for t in ts if not t.lits]
        groups = {}
        for t in plain: groups.setdefault((t.pre, t.std, tuple(p.decl for p in t.protos.values())), []).append(t)
        for g in groups.values():
            for i in range(0, len(g), per): self.jobs.append(lambda b=g[i:i + per]: self.batch(b))
        for t in ts:
            if t.lits: self.jobs.append(lambda t=t: self.batch([t]))
    def compile(self, src, nums, assume):
        if not nums and src in self.cache: return self.cache[src]
        r = self.tool.run(src, nums, args=tuple(self.args) + (SRC,), assume=assume)
        if not nums: self.cache[src] = r
        return r
    def batch(self, ts):
        head = PRE + ts[0].pre + '\n' + '\n'.join(p.decl for p in ts[0].protos.values() if p.name != '*') + '\n'
        body = ''
        for k, t in enumerate(ts):
            body += '%s f%d(%s) { %s }\n' % (t.ret.n if t.ret else 'void', k, t.plist(), t.body)
        src = head + body
        if ts[0].std: src = expand(self.arch, '#include <stdarg.h>\n' + src)
        for k, t in enumerate(ts):
            inputs = {n: inw(a) for a, n in t.params if a.k != 'ptr'}
            for i in range(t.lits): inputs['n%d' % (i + 1)] = 64
            for i, r in enumerate(t.rets):
                if r is not None: inputs['ret%d' % (i + 1)] = inw(r)
            h = {}
            for a, n in t.params:
                if a.k != 'ptr': h[n] = (FHINT[a.w] if a.k == 'flo' else [0, 1] if a.k == 'bool' else IHINT(a.w) + [2, 3, 7, 31, 63, 100])
            for i in range(t.lits): h['n%d' % (i + 1)] = IHINT(64) + IHINT(32) + IHINT(16) + IHINT(8) + [2, 3, 7, 31, 63, 2047, 2048, 4095, 4096]
            if t.hints: h.update(t.hints)
            self.chk.decide('%s %s' % (self.tag, t.name), inputs, lambda vals, k=k, t=t: self.analyse(src, k, t, vals), hints=h)
    def analyse(self, src, k, t, vals):
        vals = dict(vals)
        for a, n in t.params:
            if a.k == 'ptr': vals[n] = t.place.get(n) or label_addr('arg ' + n)
            if a.k == 'bool': vals[n] = zext(vals[n], 1, a.w)
        for i, r in enumerate(t.rets):
            if r is not None and r.k == 'bool': vals['ret%d' % (i + 1)] = zext(vals['ret%d' % (i + 1)], 1, r.w)
        nums = [vals['n%d' % (i + 1)] for i in range(t.lits)]
        def assume(f):
            e = Env(f, vals); out = []
            for x in t.needs: x.needs(e, out)
            return require(f, out)
        I, res = self.compile(src, nums, assume if t.lits else None)
        where = ' in `%s`' % t.source('f').strip().split('\n')[-1]
        obs = []
        for s, status in res:
            if status is None: obs.append(Fail(s.facts, 'the compiler aborts on a valid program' + where)); continue
            if status.__class__ is not int or status != 0: obs.append(Fail(s.facts, 'the compiler rejects a valid program' + where)); continue
            f = s.facts.copy()
            if assume(f) is False: continue
            try: prog = FProg(libc.file_text(I, s, 'stdout'), I.tokens); obs += self.follow(prog, 'f%d' % k, t, vals, f, where)
            except Reject as e: obs.append(Fail(f, str(e) + where))
        return obs
    def follow(self, prog, fn, t, vals, f, where):
        abi = self.abi
        isa = make_isa(abi, prog, t.protos, vals)
        m0 = abi.isa.machine(f)
        m = FMach(f); m.r = dict(m0.r); m.SP = abi.SP
        m.r[abi.SP] = abi.sp_entry(); m.sp0 = m.r[abi.SP]
        vv = dict(vals)
        for (a, n), loc in zip(t.params, locate(abi, [a for a, _ in t.params], t.nfix)):
            v = f.resolve(abi.put(m, None, vals[n], a, n), 64)
            if loc[0] in 'if': m.r[loc[1]] = v
            else:
                key, off = m.base(add(m.r[abi.SP], abi.stk + loc[1], 64))
                m.mem.append((key, off, 8, v))
        entry = dict(m.r)
        if fn not in prog.labels: raise Reject('the function is not emitted')
        m.pc = prog.labels[fn]
        fin = execute(isa.step, prog, m, None, budget=2000)
        obs = []
        for q in fin:
            g = q.f
            if q.out not in ('ret', 'retq'): obs.append(Fail(g, 'control leaves the function%s%s' % (' (%s)' % q.out if q.out.__class__ is str else '', where))); continue
            obs.append(Eq(g, g.resolve(q.r[abi.SP], 64), entry[abi.SP], 64, 'the stack pointer is not restored' + where))
            for r in abi.saved + ([abi.ra] if abi.ra else []):
                obs.append(Eq(g, g.resolve(q.r[r], 64), entry[r], 64, 'register %s is not preserved%s' % (r, where)))
            for st, res in t.outcomes(g, vv, q):
                g2 = st.f
                if t.ret is not None and res is not None:
                    v, vt = res
                    r = q.r[abi.fret if t.ret.k == 'flo' else abi.ret]
                    want = v if vt.k == 'ptr' or vt is t.ret else conv(g2, v, vt, t.ret)
                    got = g2.resolve(trunc(g2.resolve(r, 64), 64, t.ret.w), t.ret.w)
                    obs.append((FEq if t.ret.k == 'flo' else NEq)(g2, got, g2.resolve(want, t.ret.w), t.ret.w, 'the function returns a wrong value' + where))
                    x = abi.arg_ok(g2.resolve(r, 64), t.ret)
                    if x is not None: obs.append(NEq(g2, g2.resolve(r, 64), g2.resolve(x, 64), 64, 'the returned value is not extended as the ABI requires' + where))
                obs += self.memory(t, st, q.fork(g2), entry, where)
                obs += self.callsok(t, st, q, where)
        return obs
    def memory(self, t, st, q, entry, where):
        g = q.f; abi = self.abi
        want = getattr(st, 'stores', None)
        if want is None:
            # the stores the program makes outside its own objects, and what is there in the end
            seen = {}
            for key, o, n, v in st.mem.mem:
                if st.mem.own(key): continue
                a = st.mem.addrs[(key, o)]
                seen[(a if a.__class__ is int else a.id if hasattr(a, 'id') else a, n)] = (a, n)
            want = [(a, n, st.mem.load(a, n)) for a, n in seen.values()]
            ext = st.mem.touched
        else: ext = [(a, k) for a, k, _ in want]
        obs = []
        bad = []
        for addr, n, sp in q.wild:
            d = g.resolve(sub(addr, q.sp0, 64), 64)
            if d.__class__ is int:
                d = signed(d, 64)
                if d >= 0: bad.append('a store outside the frame of the function'); continue
                s = g.resolve(sub(addr, sp, 64), 64)
                if s.__class__ is int and signed(s, 64) < -abi.red: bad.append('a store below the stack pointer')
                continue
            hit = False
            for a, k in ext:
                o = g.resolve(sub(addr, a, 64), 64)
                if o.__class__ is int and 0 <= signed(o, 64) and signed(o, 64) + n <= k: hit = True; break
            if not hit:
                s = g.range(d, 64)
                if all(-(1 << 31) <= signed(lo, 64) and signed(hi, 64) < 0 and signed(lo, 64) <= signed(hi, 64) for lo, hi in s): continue
                bad.append('a store to memory the program does not modify')
        if bad: obs.append(Fail(g, bad[0] + where))
        else: obs.append(Ok(len(q.wild) or 1))
        for a, k, v in want:
            got = q.load(g.resolve(a, 64), k)
            obs.append(NEq(g, g.resolve(got, 8 * k), g.resolve(v, 8 * k), 8 * k, 'memory holds a wrong value' + where))
        return obs
    def callsok(self, t, st, q, where):
        g = st.f; abi = self.abi; obs = []
        exp = st.calls or []
        if len(q.calls) != len(exp): return [Fail(g, '%d calls instead of %d%s' % (len(q.calls), len(exp), where))]
        for (tgt, regs, sp, mm), (p, fv, args) in zip(q.calls, exp):
            if fv is None:
                if tgt != p.name: obs.append(Fail(g, 'calls %s instead of %s%s' % (tgt, p.name, where))); continue
            else:
                if tgt.__class__ is str: obs.append(Fail(g, 'calls %s instead of the pointer%s' % (tgt, where))); continue
                obs.append(NEq(g, g.resolve(tgt, 64), g.resolve(fv, 64), 64, 'calls a wrong address' + where))
            obs.append(Eq(g, g.resolve(trunc(sp, 64, 4), 4), 0, 4, 'the stack is not aligned to 16 bytes at a call' + where))
            types = list(p.params) + [pp_va(x) for _, x in args[len(p.params):]]
            mm = mm.fork(g)
            for i, ((a, at), pt, loc) in enumerate(zip(args, types, locate(abi, types, len(p.params) if p.va else None))):
                got = regs[loc[1]] if loc[0] in 'if' else mm.load(g.resolve(add(sp, loc[1], 64), 64), max(1, pt.size))
                w = 64 if loc[0] in 'if' else 8 * max(1, pt.size)
                want = conv(g, a, at, pt) if at.k != 'ptr' and pt.k != 'ptr' else conv(g, a, U64 if at.k == 'ptr' else at, U64)
                want = g.resolve(want, pt.w); got = g.resolve(got, w)
                if at.k == 'ptr' and want.__class__ is BV and is_local(want):
                    # a local object: any place in the frame
                    d = g.resolve(sub(got, q.sp0, 64), 64)
                    if d.__class__ is int and signed(d, 64) >= 0: obs.append(Fail(g, 'argument %d of %s points outside the frame%s' % (i + 1, p.name, where)))
                    continue
                obs.append((FEq if pt.k == 'flo' else NEq)(g, g.resolve(trunc(got, w, pt.w), pt.w), want, pt.w, 'argument %d of %s has a wrong value%s' % (i + 1, p.name, where)))
                if loc[0] == 'i':
                    x = abi.arg_ok(g.resolve(got, 64), pt)
                    if x is not None: obs.append(NEq(g, g.resolve(got, 64), g.resolve(x, 64), 64, 'argument %d of %s is not extended as the ABI requires%s' % (i + 1, p.name, where)))
            if p.va and abi.arch == 'x64':
                nf = sum(1 for x, l in zip(types, locate(abi, types)) if l[0] == 'f')
                al = g.resolve(trunc(regs['rax'], 64, 8), 8)
                if al.__class__ is not int or not nf <= al <= 8: obs.append(Fail(g, '%%al does not bound the vector registers used%s' % where))
        return obs
def is_local(v):
    c, t = to_lin(v, 64)
    return any(a.k == 'lab' and a.args[0].__class__ is str and a.args[0].startswith('local ') for a in t)
def pp_va(t):
    """default argument promotions"""
    if t.k == 'flo': return DBL
    if t.k == 'ptr': return t
    return promote(t)
