"""What x86-64 instructions in AT&T text do (Intel SDM vol. 2), over the abstract domain."""
from sem_common import *

R64 = ['rax', 'rcx', 'rdx', 'rbx', 'rsp', 'rbp', 'rsi', 'rdi'] + ['r%d' % i for i in range(8, 16)]
REG = {}
for i, n in enumerate(R64):
    REG[n] = (n, 64, 0)
    if i < 8:
        b = n[1:]
        REG['e' + b] = (n, 32, 0); REG[b] = (n, 16, 0)
        REG[(b[0] + 'l') if b in ('ax', 'bx', 'cx', 'dx') else b + 'l'] = (n, 8, 0)
        if b in ('ax', 'bx', 'cx', 'dx'): REG[b[0] + 'h'] = (n, 8, 8)
    else: REG[n + 'd'] = (n, 32, 0); REG[n + 'w'] = (n, 16, 0); REG[n + 'b'] = (n, 8, 0)
XMM = {'xmm%d' % i for i in range(16)}
SUF = {'b': 8, 'w': 16, 'l': 32, 'q': 64}
ALU = ('add', 'sub', 'and', 'or', 'xor', 'cmp', 'test', 'mov')
CC = {'e': 'e', 'z': 'e', 'ne': 'ne', 'nz': 'ne', 'l': 'l', 'nge': 'l', 'g': 'g', 'nle': 'g', 'le': 'le', 'ng': 'le', 'ge': 'ge', 'nl': 'ge',
      'b': 'b', 'c': 'b', 'nae': 'b', 'a': 'a', 'nbe': 'a', 'be': 'be', 'na': 'be', 'ae': 'ae', 'nb': 'ae', 'nc': 'ae',
      's': 's', 'ns': 'ns', 'p': 'p', 'pe': 'p', 'np': 'np', 'po': 'np', 'o': 'o', 'no': 'no'}

class X64:
    name = 'x64'
    def __init__(self, prog): self.p = prog
    @staticmethod
    def machine(facts):
        m = Mach(facts)
        for n in R64: m.r[n] = sym('reg_' + n, 64)
        for n in XMM: m.r[n] = sym('reg_' + n, 64)
        return m
    # ---- operands
    def parse(self, m, s):
        s = s.strip()
        if s[0] == '%':
            n = s[1:]
            if n in REG: return ('r',) + REG[n]
            if n in XMM: return ('x', n)
            raise Reject('unknown register %s' % s)
        if s[0] == '$': return ('i', self.p.num(s[1:]))
        if s[0] == '*':
            t = self.parse(m, s[1:])
            return ('*', t)
        return ('m', self.addr(m, s))
    def addr(self, m, s):
        mm = re.match(r'^(.*?)(\(([^)]*)\))?$', s)
        disp, par, inner = mm.group(1).strip(), mm.group(2), mm.group(3)
        if par is None:
            if re.match(r'^[-+]?(0x)?[\d\x01]', disp):
                a = self.p.num(disp)
                if not inrange(m.f, a, -(1 << 31), (1 << 31) - 1): raise Reject('absolute address out of range: %s' % self.show(s))
                return a
            raise Reject('bare label operand %s' % s)
        regs = [x.strip() for x in inner.split(',')]
        if regs[0] == '%rip':
            if len(regs) > 1: raise Reject('index with %rip')
            mm = re.match(r'^([^-+\x01]+)([-+].*)?$', disp)
            if not mm: raise Reject('rip-relative without a label: %s' % s)
            off = self.p.num(mm.group(2)) if mm.group(2) else 0
            return label_addr(mm.group(1).strip(), off)
        a = 0
        if disp:
            a = self.p.num(disp)
            if not inrange(m.f, a, -(1 << 31), (1 << 31) - 1): raise Reject('displacement out of range: %s' % self.show(s))
        if regs[0]:
            b = REG.get(regs[0][1:])
            if b is None or b[1] != 64: raise Reject('bad base register %s' % s)
            a = add(m.r[b[0]], a, 64)
        if len(regs) > 1:
            x = REG.get(regs[1][1:]); sc = int(regs[2], 0) if len(regs) > 2 else 1
            if x is None or x[1] != 64 or x[0] == 'rsp' or sc not in (1, 2, 4, 8): raise Reject('bad index %s' % s)
            a = add(a, mul(m.r[x[0]], sc, 64), 64)
        return a
    def show(self, s): return s.replace('\x01', '<').replace('\x02', '>')
    def get(self, m, o, w):
        k = o[0]
        if k == 'r':
            if o[2] != w: raise Reject('operand sizes differ')
            v = m.f.resolve(m.r[o[1]], 64)
            v = lshr(v, o[3], 64) if o[3] else v
            return m.f.resolve(trunc(v, 64, w), w)
        if k == 'm': return m.f.resolve(m.load(o[1], w // 8), w)
        if k == 'i': return m.f.resolve(trunc(o[1], 64, w), w)
        raise Reject('bad operand kind')
    def put(self, m, o, v, w):
        v = m.f.resolve(v, w)
        if o[0] == 'm': m.store(o[1], w // 8, v); return
        if o[0] != 'r': raise Reject('cannot write to this operand')
        if o[2] != w: raise Reject('operand sizes differ')
        if w == 64: m.r[o[1]] = v; return
        if w == 32: m.r[o[1]] = zext(v, 32, 64); return
        old = bits_of(m.r[o[1]], 64); nb = bits_of(v, w); h = o[3]
        m.r[o[1]] = mk(old[:h] + nb + old[h + w:])
    def width(self, ops, suf=None):
        w = SUF[suf] if suf else None
        for o in ops:
            if o[0] == 'r':
                if w is not None and o[2] != w: raise Reject('operand sizes differ')
                w = o[2]
        if w is None: raise Reject('operand size unknown')
        return w
    def imm(self, m, v, w, mov=False):
        """immediates are sign-extended imm32 in 64-bit operations; narrower ones may be written signed or unsigned"""
        if w == 64:
            if not mov and not inrange(m.f, v, -(1 << 31), (1 << 31) - 1): raise Reject('immediate does not fit 32 bits')
        # (the assembler reduces the others to the size of the operation)
    def cond(self, m, cc):
        cc = CC[cc]
        fl = m.flags
        if fl is None: raise Reject('condition on undefined flags')
        inv = {'ne': 'e', 'ge': 'l', 'le': 'g', 'ae': 'b', 'be': 'a', 'ns': 's', 'np': 'p', 'no': 'o'}
        if cc in inv: return bnot(self.cond(m, inv[cc]))
        k = fl[0]
        if k == 'fcmp':          # CF ZF PF from the relation
            r0, r1 = fl[1]
            un = band(r0, r1); n0 = bnot(r0); n1 = bnot(r1)
            zf = bnot(bxor(r0, r1)); cf = r0; pf = un      # less: CF; unordered: CF ZF PF
            return {'e': zf, 'b': cf, 'a': band(n0, r1), 'p': pf, 's': 0, 'o': 0, 'l': 0, 'g': bnot(zf)}[cc]    # OF = SF = 0
        a, b, w = fl[1], fl[2], fl[3]
        if k == 'sub':
            if cc == 'e': return ncmp(m.f, 'eq', a, b, w)
            if cc == 'l': return ncmp(m.f, 'slt', a, b, w)
            if cc == 'g': return ncmp(m.f, 'sgt', a, b, w)
            if cc == 'b': return ncmp(m.f, 'ult', a, b, w)
            if cc == 'a': return ncmp(m.f, 'ugt', a, b, w)
            if cc == 's': return bits_of(sub(a, b, w), w)[w - 1]
            if cc == 'o' and b.__class__ is int and 0 < b < 1 << (w - 1): return ncmp(m.f, 'slt', a, (1 << (w - 1)) + b, w)
            if cc == 'o': return bxor(ncmp(m.f, 'slt', a, b, w), bits_of(sub(a, b, w), w)[w - 1])
        if k == 'res':           # logical: CF = OF = 0, ZF SF from the result
            if cc == 'e': return ncmp(m.f, 'eq', a, 0, w)
            if cc in ('l', 's'): return bits_of(a, w)[w - 1]
            if cc == 'g': return ncmp(m.f, 'sgt', a, 0, w)
            if cc in ('b', 'o'): return 0
            if cc == 'a': return bnot(ncmp(m.f, 'eq', a, 0, w))
        if k == 'zs':            # only ZF and SF modelled
            if cc == 'e': return ncmp(m.f, 'eq', a, 0, w)
            if cc == 's': return bits_of(a, w)[w - 1]
        raise Undecided('flag %s' % cc)
    def xget(self, m, o, w):
        if o[0] == 'x': return m.f.resolve(trunc(m.r[o[1]], 64, w), w)
        if o[0] == 'm': return m.f.resolve(m.load(o[1], w // 8), w)
        raise Reject('xmm operand expected')
    def xput(self, m, n, v, w):
        if w == 64: m.r[n] = v
        else: m.r[n] = mk(bits_of(v, 32) + bits_of(m.r[n], 64)[32:])

    # ---- one instruction
    def step(self, m, op, rest):
        ops = [self.parse(m, x) for x in self.p.split(rest)] if not (op in ('jmp', 'call') or (op[0] == 'j' and op[1:] in CC)) else None
        f = m.f
        base = op
        if op[0] == 'j' and op[1:] in CC: return ('br', self.cond(m, op[1:]), rest)
        if op in ('jmp', 'call'):
            t = rest
            if t.startswith('*'):
                o = self.parse(m, t[1:])
                tgt = self.get(m, o, 64) if o[0] == 'r' else m.load(o[1], 8)
                t = ('ind', f.resolve(tgt, 64))
            if op == 'jmp':
                if t.__class__ is tuple: m.out = t; return ('exit',)
                return ('jump', t)
            return self.call(m, t)
        if op in ('ret', 'retq', 'leave', 'syscall'): m.out = op; return ('exit',)
        if op.startswith('set') and op[3:] in CC:
            self.put(m, ops[0], mk((self.cond(m, op[3:]),) + (0,) * 7), 8); return
        suf = None
        if op not in SINGLE:
            for b in SUFFIXED:
                if op == b: break
                if op[:-1] == b and op[-1] in SUF: base = b; suf = op[-1]; break
            else: raise Reject('unknown instruction %s' % op)
        if base in ALU and any(o[0] == 'x' for o in ops):
            if op == 'movq': base = 'movq_x'
            else: raise Reject('xmm operand of %s' % op)
        h = getattr(self, 'i_' + base, None)
        if h is None: raise Undecided('instruction %s' % op)
        return h(m, ops, suf)
    def call(self, m, t): m.calls.append(t); raise Undecided('call')

    def i_mov(self, m, o, suf):
        w = self.width(o, suf)
        if o[0][0] == 'i': self.imm(m, o[0][1], w, mov=o[1][0] == 'r')
        if o[0][0] == 'm' and o[1][0] == 'm': raise Reject('two memory operands')
        self.put(m, o[1], self.get(m, o[0], w), w)
    def i_movabs(self, m, o, suf): self.put(m, o[1], self.get(m, o[0], 64), 64)
    def ext(self, m, o, e, sw=None, dw=None):
        if o[1][0] != 'r': raise Reject('destination')
        sw = sw or (o[0][2] if o[0][0] == 'r' else None); dw = dw or o[1][2]
        if sw is None: raise Reject('source size unknown')
        if sw >= dw: raise Reject('extension to the same or a smaller size')
        if e is zext and sw == 32: raise Reject('movzx has no 32-bit source')
        self.put(m, o[1], e(self.get(m, o[0], sw), sw, dw), dw)
    def i_movsx(self, m, o, suf): self.ext(m, o, sext)
    def i_movzx(self, m, o, suf): self.ext(m, o, zext)
    def i_movslq(self, m, o, suf): self.ext(m, o, sext, 32, 64)
    i_movsxd = i_movslq
    def i_lea(self, m, o, suf):
        if o[0][0] != 'm' or o[1][0] != 'r': raise Reject('lea operands')
        w = o[1][2]
        self.put(m, o[1], trunc(o[0][1], 64, w), w)
    def alu(self, m, o, suf, fn, keep=True, fl=None):
        w = self.width(o, suf)
        if o[0][0] == 'i': self.imm(m, o[0][1], w)
        if o[0][0] == 'm' and o[1][0] == 'm': raise Reject('two memory operands')
        a = self.get(m, o[1], w); b = self.get(m, o[0], w)
        r = fn(a, b, w)
        if keep: self.put(m, o[1], r, w)
        m.flags = (fl, a, b, w) if fl == 'sub' else (fl, r, None, w)
    def i_add(self, m, o, s): self.alu(m, o, s, add, fl='zs')
    def i_sub(self, m, o, s): self.alu(m, o, s, sub, fl='sub')
    def i_cmp(self, m, o, s): self.alu(m, o, s, sub, keep=False, fl='sub')
    def i_and(self, m, o, s): self.alu(m, o, s, and_, fl='res')
    def i_or(self, m, o, s): self.alu(m, o, s, or_, fl='res')
    def i_xor(self, m, o, s):
        self.alu(m, o, s, xor_, fl='res')
    def i_test(self, m, o, s): self.alu(m, o, s, and_, keep=False, fl='res')
    def un(self, m, o, suf, fn, fl='zs'):
        w = self.width(o, suf)
        r = fn(self.get(m, o[0], w), w)
        self.put(m, o[0], r, w)
        if fl: m.flags = (fl, r, None, w)
    def i_inc(self, m, o, s): self.un(m, o, s, lambda a, w: add(a, 1, w))
    def i_dec(self, m, o, s): self.un(m, o, s, lambda a, w: sub(a, 1, w))
    def i_neg(self, m, o, s): self.un(m, o, s, neg)
    def i_not(self, m, o, s): self.un(m, o, s, not_, None)
    def shift(self, m, o, suf, fn):
        if len(o) == 1: o = [('i', 1)] + o
        w = SUF[suf] if suf else (o[1][2] if o[1][0] == 'r' else None)
        if w is None: raise Reject('operand size unknown')
        if o[0][0] == 'i':
            if not inrange(m.f, o[0][1], -128, 255): raise Reject('shift count')
        elif o[0] != ('r', 'rcx', 8, 0): raise Reject('shift count must be %cl')
        k = self.get(m, o[0], 8)
        k = m.f.resolve(trunc(k, 8, 6 if w == 64 else 5), 6)
        a = self.get(m, o[1], w)
        self.put(m, o[1], vshift(m.f, fn, a, k, w, 6 if w == 64 else 5), w)
        m.flags = None
    def i_shl(self, m, o, s): self.shift(m, o, s, 'shl')
    i_sal = i_shl
    def i_shr(self, m, o, s): self.shift(m, o, s, 'lshr')
    def i_sar(self, m, o, s): self.shift(m, o, s, 'ashr')
    def i_mul(self, m, o, s, e=zext, hi='umulh'):
        w = self.width(o, s); g = self.get(m, o[0], w)
        a = self.get(m, ('r', 'rax', w, 0), w)
        if w == 8: self.put(m, ('r', 'rax', 16, 0), mul(e(a, 8, 16), e(g, 8, 16), 16), 16)
        else:
            self.put(m, ('r', 'rax', w, 0), mul(a, g, w), w)
            self.put(m, ('r', 'rdx', w, 0), mk(atom(hi, (a, g, w), w).bits), w)
        m.flags = None
    def i_imul(self, m, o, s):
        if len(o) == 1: return self.i_mul(m, o, s, sext, 'smulh')
        w = self.width(o, s)
        if len(o) == 2: self.put(m, o[1], mul(self.get(m, o[1], w), self.get(m, o[0], w), w), w)
        else:
            self.imm(m, o[0][1], w)
            self.put(m, o[2], mul(self.get(m, o[1], w), self.get(m, o[0], w), w), w)
        m.flags = None
    def divide(self, m, o, s, q, r, e):
        w = self.width(o, s); g = self.get(m, o[0], w)
        if w == 8:
            n = self.get(m, ('r', 'rax', 16, 0), 16)
            lo, hi = trunc(n, 16, 8), lshr(n, 8, 16); hi = trunc(hi, 16, 8)
        else: lo = self.get(m, ('r', 'rax', w, 0), w); hi = self.get(m, ('r', 'rdx', w, 0), w)
        want = 0 if e is zext else ashr(lo, w - 1, w)
        if witness.equal(m.f, hi, want, w): qv, rv = q(lo, g, w), r(lo, g, w)
        else: qv = mk(atom('wdivq', (hi, lo, g, w), w).bits); rv = mk(atom('wdivr', (hi, lo, g, w), w).bits)
        if w == 8: self.put(m, ('r', 'rax', 8, 0), qv, 8); self.put(m, ('r', 'rax', 8, 8), rv, 8)
        else: self.put(m, ('r', 'rax', w, 0), qv, w); self.put(m, ('r', 'rdx', w, 0), rv, w)
        m.flags = None
    def i_div(self, m, o, s): self.divide(m, o, s, udiv, urem, zext)
    def i_idiv(self, m, o, s): self.divide(m, o, s, sdiv, srem, sext)
    def sx(self, m, w):
        self.put(m, ('r', 'rdx', w, 0), ashr(self.get(m, ('r', 'rax', w, 0), w), w - 1, w), w)
    def i_cwtd(self, m, o, s): self.sx(m, 16)
    def i_cltd(self, m, o, s): self.sx(m, 32)
    def i_cqto(self, m, o, s): self.sx(m, 64)
    i_cdq = i_cltd; i_cqo = i_cqto; i_cwd = i_cwtd
    def i_cwtl(self, m, o, s): self.put(m, ('r', 'rax', 32, 0), sext(self.get(m, ('r', 'rax', 16, 0), 16), 16, 32), 32)
    def i_cltq(self, m, o, s): self.put(m, ('r', 'rax', 64, 0), sext(self.get(m, ('r', 'rax', 32, 0), 32), 32, 64), 64)
    def i_cbtw(self, m, o, s): self.put(m, ('r', 'rax', 16, 0), sext(self.get(m, ('r', 'rax', 8, 0), 8), 8, 16), 16)
    def i_xchg(self, m, o, s):
        w = self.width(o, s); a, b = self.get(m, o[0], w), self.get(m, o[1], w)
        self.put(m, o[0], b, w); self.put(m, o[1], a, w)
    def i_push(self, m, o, s):
        v = self.get(m, o[0], 64)
        m.r['rsp'] = sub(m.r['rsp'], 8, 64)
        m.store(m.r['rsp'], 8, v)
    def i_pop(self, m, o, s):
        v = m.load(m.r['rsp'], 8)
        m.r['rsp'] = add(m.r['rsp'], 8, 64)
        self.put(m, o[0], v, 64)
    def i_nop(self, m, o, s): pass
    # ---- SSE scalar
    def xmov(self, m, o, w):
        if o[0][0] == 'm' and o[1][0] == 'x': m.r[o[1][1]] = zext(self.xget(m, o[0], w), w, 64)
        elif o[0][0] == 'x' and o[1][0] == 'x': self.xput(m, o[1][1], self.xget(m, o[0], w), w)
        elif o[0][0] == 'x' and o[1][0] == 'm': m.store(o[1][1], w // 8, self.xget(m, o[0], w))
        else: raise Reject('movss/movsd operands')
    def i_movss(self, m, o, s): self.xmov(m, o, 32)
    def i_movsd(self, m, o, s): self.xmov(m, o, 64)
    def i_movaps(self, m, o, s):
        if o[0][0] != 'x' or o[1][0] != 'x': raise Undecided('movaps')
        m.r[o[1][1]] = m.r[o[0][1]]
    i_movapd = i_movaps
    def i_movq_x(self, m, o, s):
        v = self.xget(m, o[0], 64) if o[0][0] in 'xm' else self.get(m, o[0], 64)
        if o[1][0] == 'x': m.r[o[1][1]] = v
        else: self.put(m, o[1], v, 64)
    def i_movd(self, m, o, s):
        v = self.xget(m, o[0], 32) if o[0][0] in 'xm' else self.get(m, o[0], 32)
        if o[1][0] == 'x': m.r[o[1][1]] = zext(v, 32, 64)
        else: self.put(m, o[1], v, 32)
    def fb(op, w):
        def g(self, m, o, s):
            if o[1][0] != 'x': raise Reject('destination')
            self.xput(m, o[1][1], fbin(op, self.xget(m, o[1], w), self.xget(m, o[0], w), w), w)
        return g
    for _n in ('add', 'sub', 'mul', 'div'):
        locals()['i_%sss' % _n] = fb('f' + _n, 32); locals()['i_%ssd' % _n] = fb('f' + _n, 64)
    def ps(fn):
        def g(self, m, o, s):
            if o[0][0] != 'x' or o[1][0] != 'x': raise Undecided('packed memory operand')
            m.r[o[1][1]] = fn(m.r[o[1][1]], m.r[o[0][1]], 64)
        return g
    i_xorps = ps(xor_); i_xorpd = ps(xor_); i_pxor = ps(xor_); i_andps = ps(and_); i_andpd = ps(and_)
    def fc(w):
        def g(self, m, o, s):
            if o[1][0] != 'x': raise Reject('destination')
            r0, r1 = frel(self.xget(m, o[1], w), self.xget(m, o[0], w), w)
            m.flags = ('fcmp', (m.f.rbit(r0), m.f.rbit(r1)))
        return g
    i_ucomiss = fc(32); i_comiss = fc(32); i_ucomisd = fc(64); i_comisd = fc(64)
    def ci(w):
        def g(self, m, o, s):
            sw = SUF[s] if s else (o[0][2] if o[0][0] == 'r' else None)
            if sw not in (32, 64) or o[1][0] != 'x': raise Reject('cvtsi2s operands')
            self.xput(m, o[1][1], i2fx(m.f, self.get(m, o[0], sw), sw, True, w), w)
        return g
    i_cvtsi2ss = ci(32); i_cvtsi2sd = ci(64)
    def ct(w):
        def g(self, m, o, s):
            if o[1][0] != 'r' or o[1][2] not in (32, 64): raise Reject('cvtt destination')
            dw = o[1][2]
            return f2i_fork(self, m, self.xget(m, o[0], w), w, dw, lambda mm, v: self.put(mm, o[1], v, dw), other=1 << (dw - 1))
        return g
    i_cvttss2si = ct(32); i_cvttsd2si = ct(64)
    def i_cvtsd2ss(self, m, o, s): self.xput(m, o[1][1], f2f(self.xget(m, o[0], 64), 64, 32), 32)
    def i_cvtss2sd(self, m, o, s): self.xput(m, o[1][1], f2f(self.xget(m, o[0], 32), 32, 64), 64)

SUFFIXED = ['mov', 'lea', 'add', 'sub', 'cmp', 'and', 'or', 'xor', 'test', 'inc', 'dec', 'neg', 'not', 'shl', 'sal', 'shr', 'sar', 'mul', 'imul',
            'div', 'idiv', 'push', 'pop', 'xchg', 'cvtsi2ss', 'cvtsi2sd', 'cvttss2si', 'cvttsd2si']
SINGLE = {'movsd', 'movss', 'movsx', 'movzx', 'movslq', 'movsxd', 'movabs', 'movd', 'movaps', 'movapd', 'cltd', 'cdq', 'cqto', 'cqo', 'cwtl', 'cwtd', 'cwd', 'cltq', 'cbtw',
          'addss', 'addsd', 'subss', 'subsd', 'mulss', 'mulsd', 'divss', 'divsd', 'xorps', 'xorpd', 'pxor', 'andps', 'andpd', 'ucomiss', 'ucomisd', 'comiss', 'comisd',
          'cvtsd2ss', 'cvtss2sd', 'nop'}
