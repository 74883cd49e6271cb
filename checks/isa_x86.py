"""x86-64 reference decoder (from the Intel SDM opcode maps) over bytes whose
bits may be abstract.  Produces (mnemonic, operand size, operands)."""
from common import *

ALU = ['add', 'or', 'adc', 'sbb', 'and', 'sub', 'xor', 'cmp']
CC = ['o', 'no', 'b', 'ae', 'e', 'ne', 'be', 'a', 's', 'ns', 'p', 'np', 'l', 'ge', 'le', 'g']
SH = ['rol', 'ror', 'rcl', 'rcr', 'shl', 'shr', 'sal', 'sar']
SSE = {0x51: 'sqrt', 0x58: 'add', 0x59: 'mul', 0x5c: 'sub', 0x5e: 'div', 0x5d: 'min', 0x5f: 'max'}

class Ins:
    """m, size (bits, 0 if none), ops in AT&T order (source first, destination last)"""
    __slots__ = ('m', 'size', 'ops')
    def __init__(self, m, size=0, *ops): self.m = m; self.size = size; self.ops = list(ops)
    def __repr__(self): return '%s%s %s' % (self.m, '/%d' % self.size if self.size else '', ', '.join(map(opstr, self.ops)))
def opstr(o):
    if o[0] == 'r': return '%sreg%d:%r' % ('high-' if o[3] else '', o[1], o[2])
    if o[0] == 'm': return '%s[base=%s index=%s scale=%s disp=%r]' % (o[5] if len(o) > 5 and o[5] else '', _n(o[1]), _n(o[2]), o[3], sgn(o[4]))
    if o[0] == 'i': return '$%r' % (sgn(o[1]),)
    if o[0] == 'x': return 'xmm:%r' % (o[1],)
    return str(o)
def _n(x): return '-' if x is None else repr(x)
def sgn(v): return signed(v, 64) if v.__class__ is int else v

class Short(Exception): pass

def low(v, n, k=0):
    if v.__class__ is int: return (v >> k) & ((1 << n) - 1)
    return mk(v.bits[k:k + n])
def full4(ext, v3):
    b = bits_of(v3, 3)
    return mk(tuple(b[:3]) + (ext,))

class D:
    def __init__(self, facts, bs):
        self.f = facts; self.bs = bs; self.i = 0
        self.p66 = False; self.rep = 0; self.seg = ''
        self.rex = None
    def fork(self, f):
        d = D(f, self.bs); d.i = self.i; d.p66 = self.p66; d.rep = self.rep; d.seg = self.seg; d.rex = self.rex
        return d
    def peek(self):
        if self.i >= len(self.bs): raise Short()
        v = self.bs[self.i]
        return self.f.full(v) if v.__class__ is BV else v
    def byte(self):
        v = self.peek(); self.i += 1; return v
    def imm(self, n):
        parts = ()
        for _ in range(n): parts += tuple(bits_of(self.byte(), 8))
        return mk(parts)
    def rexbit(self, k):
        if self.rex is None: return 0
        b = bits_of(self.rex, 8)[k]
        return self.f.rbit(b) if b.__class__ is Bit else b

def decode(facts, bs):
    """[(facts, Ins | str)]"""
    out = []
    work = [D(facts, bs)]
    while work:
        d = work.pop()
        try:
            res = _one(d)
        except Short:
            out.append((d.f, 'instruction truncated')); continue
        for r in res:
            if r.__class__ is D: work.append(r)
            else: out.append(r)
    return out

def _constsplit(d, v, w):
    """states of d in which v is constant"""
    r = []
    for f, c in splitc(d.f, v, w):
        r.append((d.fork(f), c))
    return r

def _one(d):
    v = d.peek()
    if v.__class__ is int:
        if d.rex is None:
            if v == 0x66: d.i += 1; d.p66 = True; return [d]
            if v in (0xf2, 0xf3): d.i += 1; d.rep = v; return [d]
            if v in (0x64, 0x65): d.i += 1; d.seg = 'fs' if v == 0x64 else 'gs'; return [d]
        elif v in (0x66, 0xf2, 0xf3, 0x64, 0x65): return [(d.f, 'REX prefix followed by a legacy prefix (REX ignored)')]
        if v >> 4 == 4:
            if d.rex is not None: return [(d.f, 'two REX prefixes')]
            d.i += 1; d.rex = v; return [d]
        return opcode(d)
    top = low(v, 4, 4)
    if top.__class__ is not int: return [d.fork(f) for f, c in splitc(d.f, top, 4)]
    if top == 4:
        if d.rex is not None: return [(d.f, 'two REX prefixes')]
        d.i += 1; d.rex = v; return [d]
    return opcode(d)

def opsize(d):
    """[(d, size)] from REX.W / 66"""
    w = d.rexbit(3)
    if w.__class__ is int: return [(d, 64 if w else 16 if d.p66 else 32)]
    r = []
    for x in (0, 1):
        f = d.f.copy()
        if f.assume(w, x):
            e = d.fork(f); r.append((e, 64 if x else 16 if d.p66 else 32))
    return r

def greg(d, size, ext, v3):
    """[(d, operand)]"""
    if size == 8 and d.rex is None:
        r = []
        for f, hi in splitbit(d.f, icmp('ult', 3, zext(v3, 3, 8) if v3.__class__ is BV else v3, 8)):
            e = d.fork(f)
            n = full4(0, v3)
            r.append((e, ('r', 8, sub(n, 4, 4) if hi else n, hi)))
        return r
    return [(d, ('r', size, full4(ext, v3), False))]

def modrm(d):
    """[(d, regfield3, rm)], rm = ('reg', v3) | ('m', ...)"""
    b = d.byte()
    reg = low(b, 3, 3); rm = low(b, 3, 0)
    out = []
    for e, mod in _constsplit(d, low(b, 2, 6), 2):
        if mod == 3:
            out.append((e, reg, ('reg', rm))); continue
        for f, isib in spliteq(e.f, rm, 4, 3):
            e2 = e.fork(f)
            if isib:
                s = e2.byte()
                idx = low(s, 3, 3); base = low(s, 3, 0)
                for e3, sc in _constsplit(e2, low(s, 2, 6), 2):
                    index = full4(e3.rexbit(1), idx)
                    for f4, noidx in spliteq(e3.f, index, 4, 4):
                        e4 = e3.fork(f4)
                        ix = None if noidx else index
                        bc = [(f4, False)]
                        if mod == 0: bc = spliteq(f4, base, 5, 3)
                        for f5, nobase in bc:
                            e5 = e4.fork(f5)
                            bb = None if nobase else full4(e5.rexbit(0), base)
                            n = 4 if nobase else (0, 1, 4)[mod]
                            disp = sext(e5.imm(n), 8 * n, 64) if n else 0
                            out.append((e5, reg, ('m', bb, ix, 1 << sc, disp, e5.seg)))
            else:
                cc = [(f, False)]
                if mod == 0: cc = spliteq(f, rm, 5, 3)
                for f5, rip in cc:
                    e5 = e2.fork(f5)
                    n = 4 if rip else (0, 1, 4)[mod]
                    disp = sext(e5.imm(n), 8 * n, 64) if n else 0
                    out.append((e5, reg, ('m', 'rip' if rip else full4(e5.rexbit(0), rm), None, 1, disp, e5.seg)))
    return out

def rmop(d, rm, size):
    if rm[0] == 'reg': return greg(d, size, d.rexbit(0), rm[1])
    return [(d, rm)]
def xop(d, ext, v3): return ('x', full4(ext, v3))
def rmx(d, rm): return xop(d, d.rexbit(0), rm[1]) if rm[0] == 'reg' else rm

def fin(d, ins):
    if d.i != len(d.bs): return (d.f, 'followed by %d stray byte(s): %s' % (len(d.bs) - d.i, ins))
    return (d.f, ins)

def opcode(d):
    v = d.byte()
    out = []
    if v.__class__ is not int:
        hi5 = low(v, 5, 3)
        if hi5.__class__ is int and hi5 in (0x50 >> 3, 0x58 >> 3, 0xb0 >> 3, 0xb8 >> 3):
            r3 = low(v, 3)
            if hi5 in (10, 11):
                return [fin(d, Ins('push' if hi5 == 10 else 'pop', 64, ('r', 64, full4(d.rexbit(0), r3), False)))]
            if hi5 == 0xb0 >> 3:
                im = d.imm(1)
                return [fin(e, Ins('mov', 8, ('i', sext(im, 8, 64)), r)) for e, r in greg(d, 8, d.rexbit(0), r3)]
            res = []
            for e, sz in opsize(d):
                n = sz // 8
                im = e.imm(n)
                res.append(fin(e, Ins('mov', sz, ('i', sext(im, sz, 64) if n < 8 else im), ('r', sz, full4(e.rexbit(0), r3), False))))
            return res
        return [_again(d, f, c) for f, c in splitc(d.f, v, 8)]
    b = v
    if b in (0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x57) or 0x58 <= b < 0x60:
        return [fin(d, Ins('push' if b < 0x58 else 'pop', 64, ('r', 64, full4(d.rexbit(0), b & 7), False)))]
    if 0xb0 <= b < 0xb8:
        im = d.imm(1)
        return [fin(e, Ins('mov', 8, ('i', sext(im, 8, 64)), r)) for e, r in greg(d, 8, d.rexbit(0), b & 7)]
    if 0xb8 <= b < 0xc0:
        for e, sz in opsize(d):
            n = sz // 8
            im = e.imm(n)
            out.append(fin(e, Ins('mov', sz, ('i', sext(im, sz, 64) if n < 8 else im), ('r', sz, full4(e.rexbit(0), b & 7), False))))
        return out
    if b < 0x40 and (b & 7) < 6 or b in (0x84, 0x85, 0x88, 0x89, 0x8a, 0x8b):
        if b < 0x40: name = ALU[b >> 3]; form = b & 7
        elif b in (0x84, 0x85): name = 'test'; form = b & 1
        else: name = 'mov'; form = b & 3
        for e, sz in ([(d, 8)] if not form & 1 else opsize(d)):
            if form >= 4:
                n = {8: 1, 16: 2, 32: 4, 64: 4}[sz]
                im = sext(e.imm(n), 8 * n, 64)
                out.append(fin(e, Ins(name, sz, ('i', im), ('r', sz, 0, False)))); continue
            for e2, reg, rm in modrm(e):
                for e3, ro in greg(e2, sz, e2.rexbit(2), reg):
                    for e4, mo in rmop(e3, rm, sz):
                        out.append(fin(e4, Ins(name, sz, ro, mo) if form < 2 else Ins(name, sz, mo, ro)))
        return out
    if b in (0x80, 0x81, 0x83, 0xc0, 0xc1, 0xd0, 0xd1, 0xd2, 0xd3, 0xc6, 0xc7, 0xf6, 0xf7, 0xfe, 0xff):
        for e, sz in ([(d, 8)] if b in (0x80, 0xc0, 0xd0, 0xd2, 0xc6, 0xf6, 0xfe) else opsize(d)):
            for e2, reg, rm in modrm(e):
                for e3, ext in _constsplit(e2, reg, 3):
                    for e4, mo in rmop(e3, rm, sz):
                        out.append(_group(e4, b, ext, sz, mo))
        return out
    if b == 0x8d:
        for e, sz in opsize(d):
            for e2, reg, rm in modrm(e):
                if rm[0] == 'reg': out.append((e2.f, 'lea with a register operand')); continue
                for e3, ro in greg(e2, sz, e2.rexbit(2), reg): out.append(fin(e3, Ins('lea', sz, rm, ro)))
        return out
    if b == 0x63:
        for e, sz in opsize(d):
            for e2, reg, rm in modrm(e):
                for e3, ro in greg(e2, sz, e2.rexbit(2), reg):
                    for e4, mo in rmop(e3, rm, 32): out.append(fin(e4, Ins('movsx', sz, mo, ro)))
        return out
    if b in (0x98, 0x99):
        for e, sz in opsize(d):
            out.append(fin(e, Ins({0x98: {16: 'cbw', 32: 'cwtl', 64: 'cltq'}, 0x99: {16: 'cwd', 32: 'cltd', 64: 'cqto'}}[b][sz])))
        return out
    if b in (0x68, 0x6a):
        n = 4 if b == 0x68 else 1
        if d.p66: return [(d.f, 'push of a 16-bit immediate')]
        return [fin(d, Ins('push', 64, ('i', sext(d.imm(n), 8 * n, 64))))]
    if b == 0xc3: return [fin(d, Ins('ret'))]
    if b == 0xcd: return [fin(d, Ins('int', 0, ('i', zext(d.imm(1), 8, 64))))]
    if b in (0xe8, 0xe9): return [fin(d, Ins('call' if b == 0xe8 else 'jmp', 0, ('rel', 32, sext(d.imm(4), 32, 64))))]
    if b == 0xeb: return [fin(d, Ins('jmp', 0, ('rel', 8, sext(d.imm(1), 8, 64))))]
    if 0x70 <= b < 0x80: return [fin(d, Ins('j' + CC[b & 15], 0, ('rel', 8, sext(d.imm(1), 8, 64))))]
    if b == 0x0f: return opcode0f(d)
    return [(d.f, 'unknown opcode %#04x' % b)]

def _again(d, f, c):
    e = d.fork(f)
    e.bs = list(e.bs); e.i -= 1
    e.bs[e.i] = c
    return e

def _group(d, b, ext, sz, mo):
    if b in (0x80, 0x81, 0x83):
        n = 1 if b != 0x81 else {16: 2, 32: 4, 64: 4}[sz]
        im = sext(d.imm(n), 8 * n, 64)
        return fin(d, Ins(ALU[ext], sz, ('i', im), mo))
    if b in (0xc0, 0xc1): return fin(d, Ins(SH[ext], sz, ('i', zext(d.imm(1), 8, 64)), mo))
    if b in (0xd0, 0xd1): return fin(d, Ins(SH[ext], sz, ('i', 1), mo))
    if b in (0xd2, 0xd3): return fin(d, Ins(SH[ext], sz, ('r', 8, 1, False), mo))
    if b in (0xc6, 0xc7):
        if ext: return (d.f, 'opcode %#x /%d' % (b, ext))
        n = {8: 1, 16: 2, 32: 4, 64: 4}[sz]
        return fin(d, Ins('mov', sz, ('i', sext(d.imm(n), 8 * n, 64)), mo))
    if b in (0xf6, 0xf7):
        if ext < 2:
            n = {8: 1, 16: 2, 32: 4, 64: 4}[sz]
            return fin(d, Ins('test', sz, ('i', sext(d.imm(n), 8 * n, 64)), mo))
        return fin(d, Ins([0, 0, 'not', 'neg', 'mul', 'imul', 'div', 'idiv'][ext], sz, mo))
    if ext < 2: return fin(d, Ins(['inc', 'dec'][ext], sz, mo))
    if b == 0xff and ext in (2, 4, 6):
        if mo[0] == 'r': mo = ('r', 64) + mo[2:]
        return fin(d, Ins({2: 'call', 4: 'jmp', 6: 'push'}[ext], 64, mo))
    return (d.f, 'opcode %#x /%d' % (b, ext))

def opcode0f(d):
    v = d.byte()
    if v.__class__ is not int:
        out = []
        for f, c in splitc(d.f, v, 8):
            e = d.fork(f); e.bs = list(e.bs); e.bs[e.i - 1] = c; e.i -= 1
            out += opcode0f(e)
        return out
    b = v; out = []
    if b == 0x05: return [fin(d, Ins('syscall'))]
    if b == 0x1e and d.rep == 0xf3:
        x = d.byte()
        return [fin(d, Ins('endbr64' if x == 0xfa else 'nop?'))]
    if 0x80 <= b < 0x90: return [fin(d, Ins('j' + CC[b & 15], 0, ('rel', 32, sext(d.imm(4), 32, 64))))]
    if 0x90 <= b < 0xa0:
        for e, reg, rm in modrm(d):
            for e2, mo in rmop(e, rm, 8): out.append(fin(e2, Ins('set' + CC[b & 15], 8, mo)))
        return out
    if b in (0xb6, 0xb7, 0xbe, 0xbf):
        for e, sz in opsize(d):
            for e2, reg, rm in modrm(e):
                for e3, ro in greg(e2, sz, e2.rexbit(2), reg):
                    for e4, mo in rmop(e3, rm, 8 if not b & 1 else 16): out.append(fin(e4, Ins('movzx' if b < 0xb8 else 'movsx', sz, mo, ro)))
        return out
    if b == 0xaf:
        for e, sz in opsize(d):
            for e2, reg, rm in modrm(e):
                for e3, ro in greg(e2, sz, e2.rexbit(2), reg):
                    for e4, mo in rmop(e3, rm, sz): out.append(fin(e4, Ins('imul', sz, mo, ro)))
        return out
    suf = {0: 'pd' if d.p66 else 'ps', 0xf2: 'sd', 0xf3: 'ss'}[d.rep]
    if d.rep and d.p66: suf += '+66'
    if b in (0x10, 0x11):
        nm = {'sd': 'movsd', 'ss': 'movss'}.get(suf, 'movu' + suf)
        for e, reg, rm in modrm(d):
            x = xop(e, e.rexbit(2), reg); y = rmx(e, rm)
            out.append(fin(e, Ins(nm, 0, y, x) if b == 0x10 else Ins(nm, 0, x, y)))
        return out
    if b in SSE or b in (0x54, 0x55, 0x56, 0x57, 0x5a, 0x2e, 0x2f):
        if b in SSE: nm = SSE[b] + suf
        elif b == 0x5a: nm = {'sd': 'cvtsd2ss', 'ss': 'cvtss2sd', 'ps': 'cvtps2pd', 'pd': 'cvtpd2ps'}.get(suf, '?')
        elif b in (0x2e, 0x2f): nm = ('ucomi' if b == 0x2e else 'comi') + {'ps': 'ss', 'pd': 'sd'}.get(suf, '?')
        else:
            nm = {0x54: 'and', 0x55: 'andn', 0x56: 'or', 0x57: 'xor'}[b] + suf
        for e, reg, rm in modrm(d): out.append(fin(e, Ins(nm, 0, rmx(e, rm), xop(e, e.rexbit(2), reg))))
        return out
    if b == 0x2a and suf in ('sd', 'ss'):
        for e, sz in opsize(d):
            for e2, reg, rm in modrm(e):
                for e3, mo in rmop(e2, rm, 64 if sz == 64 else 32): out.append(fin(e3, Ins('cvtsi2' + suf, sz, mo, xop(e3, e3.rexbit(2), reg))))
        return out
    if b in (0x2c, 0x2d) and suf in ('sd', 'ss'):
        for e, sz in opsize(d):
            for e2, reg, rm in modrm(e):
                sz2 = 64 if sz == 64 else 32
                for e3, ro in greg(e2, sz2, e2.rexbit(2), reg):
                    out.append(fin(e3, Ins(('cvtt' if b == 0x2c else 'cvt') + suf + '2si', sz, rmx(e3, rm), ro)))
        return out
    return [(d.f, 'unknown opcode 0f %02x' % b)]

# ------------------------------------------------------------------ comparison
def compare(facts, got, want, what, imm_width=None):
    """obligations that the decoded instruction is the wanted one"""
    if got.__class__ is str: return [Fail(facts, '%s: encodes an invalid sequence: %s' % (what, got))]
    head = '%s: encodes %s, expected %s' % (what, got, want)
    m = 'shl' if got.m == 'sal' else got.m
    if m != want.m or len(got.ops) != len(want.ops) or (want.size and got.size != want.size): return [Fail(facts, head)]
    obs = []
    for g, w in zip(got.ops, want.ops):
        if g[0] != w[0]: return [Fail(facts, head)]
        if g[0] == 'r':
            if g[1] != w[1] or bool(g[3]) != bool(w[3]): return [Fail(facts, head)]
            obs.append(Eq(facts, g[2], w[2], 4, head))
        elif g[0] == 'x': obs.append(Eq(facts, g[1], w[1], 4, head))
        elif g[0] == 'i':
            n = w[2] if len(w) > 2 else 64
            obs.append(Eq(facts, trunc(g[1], 64, n), trunc(w[1], 64, n), n, head))
        elif g[0] == 'rel': pass
        elif g[0] == 'm':
            if (g[5] if len(g) > 5 else '') != (w[5] if len(w) > 5 else ''): return [Fail(facts, head)]
            for a, b in ((g[1], w[1]), (g[2], w[2])):
                if (a is None) != (b is None) or (a == 'rip') != (b == 'rip'): return [Fail(facts, head)]
                if a is not None and a != 'rip': obs.append(Eq(facts, a, b, 4, head))
            if g[2] is not None and g[3] != w[3]: return [Fail(facts, head)]
            obs.append(Eq(facts, g[4], w[4], 64, head))
    return obs or [Ok()]
