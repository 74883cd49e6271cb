"""RV64GC reference model (from the RISC-V unprivileged ISA manual): decoding
of 32-bit and compressed instructions whose fields may be abstract, and their
effect on registers/memory as terms."""
from common import *

class Illegal(Exception): pass

M64 = (1 << 64) - 1
def fld(v, hi, lo, w=32):
    """bits hi..lo of an abstract word"""
    if v.__class__ is int: return (v >> lo) & ((1 << (hi - lo + 1)) - 1)
    return mk(v.bits[lo:hi + 1])
def cat(*parts):
    """cat((value,width)...) msb first"""
    bits = ()
    for v, w in parts:
        bits = tuple(bits_of(v, w))[:w] + bits
    return mk(bits)
def b5(v3): return cat((1, 2), (v3, 3))

class In:
    __slots__ = ('m', 'f')
    def __init__(self, m, **f): self.m = m; self.f = f
    def __repr__(self): return self.m + ' ' + ' '.join('%s=%r' % x for x in sorted(self.f.items()))

def i_imm(w): return sext(fld(w, 31, 20), 12, 64)
def s_imm(w): return sext(cat((fld(w, 31, 25), 7), (fld(w, 11, 7), 5)), 12, 64)
def b_imm(w): return sext(cat((fld(w, 31, 31), 1), (fld(w, 7, 7), 1), (fld(w, 30, 25), 6), (fld(w, 11, 8), 4), (0, 1)), 13, 64)
def u_imm(w): return sext(cat((fld(w, 31, 12), 20), (0, 12)), 32, 64)
def j_imm(w): return sext(cat((fld(w, 31, 31), 1), (fld(w, 19, 12), 8), (fld(w, 20, 20), 1), (fld(w, 30, 21), 10), (0, 1)), 21, 64)

R33 = {(0, 0): 'add', (0x20, 0): 'sub', (0, 1): 'sll', (0, 2): 'slt', (0, 3): 'sltu', (0, 4): 'xor', (0, 5): 'srl', (0x20, 5): 'sra',
       (0, 6): 'or', (0, 7): 'and', (1, 0): 'mul', (1, 1): 'mulh', (1, 2): 'mulhsu', (1, 3): 'mulhu', (1, 4): 'div', (1, 5): 'divu', (1, 6): 'rem', (1, 7): 'remu'}
R3B = {(0, 0): 'addw', (0x20, 0): 'subw', (0, 1): 'sllw', (0, 5): 'srlw', (0x20, 5): 'sraw', (1, 0): 'mulw', (1, 4): 'divw', (1, 5): 'divuw',
       (1, 6): 'remw', (1, 7): 'remuw'}
LD = {0: 'lb', 1: 'lh', 2: 'lw', 3: 'ld', 4: 'lbu', 5: 'lhu', 6: 'lwu'}
ST = {0: 'sb', 1: 'sh', 2: 'sw', 3: 'sd'}
BR = {0: 'beq', 1: 'bne', 4: 'blt', 5: 'bge', 6: 'bltu', 7: 'bgeu'}
FP = {0x00: 'fadd.s', 0x04: 'fsub.s', 0x08: 'fmul.s', 0x0c: 'fdiv.s', 0x01: 'fadd.d', 0x05: 'fsub.d', 0x09: 'fmul.d', 0x0d: 'fdiv.d'}
FSG = {(0x10, 0): 'fsgnj.s', (0x10, 1): 'fsgnjn.s', (0x10, 2): 'fsgnjx.s', (0x11, 0): 'fsgnj.d', (0x11, 1): 'fsgnjn.d', (0x11, 2): 'fsgnjx.d'}
FCMP = {(0x50, 0): 'fle.s', (0x50, 1): 'flt.s', (0x50, 2): 'feq.s', (0x51, 0): 'fle.d', (0x51, 1): 'flt.d', (0x51, 2): 'feq.d'}
FCVT = {(0x60, 0): 'fcvt.w.s', (0x60, 1): 'fcvt.wu.s', (0x60, 2): 'fcvt.l.s', (0x60, 3): 'fcvt.lu.s',
        (0x61, 0): 'fcvt.w.d', (0x61, 1): 'fcvt.wu.d', (0x61, 2): 'fcvt.l.d', (0x61, 3): 'fcvt.lu.d',
        (0x68, 0): 'fcvt.s.w', (0x68, 1): 'fcvt.s.wu', (0x68, 2): 'fcvt.s.l', (0x68, 3): 'fcvt.s.lu',
        (0x69, 0): 'fcvt.d.w', (0x69, 1): 'fcvt.d.wu', (0x69, 2): 'fcvt.d.l', (0x69, 3): 'fcvt.d.lu',
        (0x21, 0): 'fcvt.d.s', (0x20, 1): 'fcvt.s.d', (0x2c, 0): 'fsqrt.s', (0x2d, 0): 'fsqrt.d'}
FMV = {(0x71, 0, 0): 'fmv.x.d', (0x70, 0, 0): 'fmv.x.w', (0x79, 0, 0): 'fmv.d.x', (0x78, 0, 0): 'fmv.w.x'}

def dec32(facts, w):
    """[(facts, In)] for a 32-bit word"""
    out = []
    for f, opc in splitc(facts, fld(w, 6, 0), 7):
        rd = fld(w, 11, 7); rs1 = fld(w, 19, 15); rs2 = fld(w, 24, 20)
        if opc in (0x37, 0x17):
            out.append((f, In('lui' if opc == 0x37 else 'auipc', rd=rd, imm=u_imm(w)))); continue
        if opc == 0x6f:
            out.append((f, In('jal', rd=rd, imm=j_imm(w)))); continue
        for f2, f3 in splitc(f, fld(w, 14, 12), 3):
            def o(i, ff=None): out.append((ff or f2, i))
            def bad(why, ff=None): out.append((ff or f2, In('illegal', why='%s (opcode 0x%02x funct3 %d)' % (why, opc, f3))))
            if opc == 0x03:
                if f3 in LD: o(In(LD[f3], rd=rd, rs1=rs1, imm=i_imm(w)))
                else: bad('load')
            elif opc == 0x23:
                if f3 in ST: o(In(ST[f3], rs2=rs2, rs1=rs1, imm=s_imm(w)))
                else: bad('store')
            elif opc == 0x07:
                if f3 in (2, 3): o(In('flw' if f3 == 2 else 'fld', rd=rd, rs1=rs1, imm=i_imm(w)))
                else: bad('fp load')
            elif opc == 0x27:
                if f3 in (2, 3): o(In('fsw' if f3 == 2 else 'fsd', rs2=rs2, rs1=rs1, imm=s_imm(w)))
                else: bad('fp store')
            elif opc == 0x63:
                if f3 in BR: o(In(BR[f3], rs1=rs1, rs2=rs2, imm=b_imm(w)))
                else: bad('branch')
            elif opc == 0x67:
                if f3 == 0: o(In('jalr', rd=rd, rs1=rs1, imm=i_imm(w)))
                else: bad('jalr')
            elif opc in (0x13, 0x1b):
                nm = {0: 'addi', 2: 'slti', 3: 'sltiu', 4: 'xori', 6: 'ori', 7: 'andi'}.get(f3)
                if opc == 0x1b and f3 != 0: nm = None
                if nm: o(In(nm + ('w' if opc == 0x1b else ''), rd=rd, rs1=rs1, imm=i_imm(w)))
                elif f3 in (1, 5):
                    hb = 26 if opc == 0x13 else 25
                    for f4, top in splitc(f2, fld(w, 31, hb), 32 - hb):
                        t = top << (hb - 25)
                        n2 = {(1, 0): 'slli', (5, 0): 'srli', (5, 0x20): 'srai'}.get((f3, t))
                        if n2: o(In(n2 + ('w' if opc == 0x1b else ''), rd=rd, rs1=rs1, imm=zext(fld(w, hb - 1, 20), hb - 20, 64)), f4)
                        else: bad('shift immediate with bits 31..%d = %#x' % (hb, top), f4)
                else: bad('op-imm')
            elif opc in (0x33, 0x3b):
                for f4, f7 in splitc(f2, fld(w, 31, 25), 7):
                    nm = (R33 if opc == 0x33 else R3B).get((f7, f3))
                    if nm: o(In(nm, rd=rd, rs1=rs1, rs2=rs2), f4)
                    else: bad('op funct7 %#x' % f7, f4)
            elif opc == 0x73:
                for f4, x in splitc(f2, w, 32):
                    if x == 0x73: o(In('ecall'), f4)
                    elif x == 0x100073: o(In('ebreak'), f4)
                    else: bad('system', f4)
            elif opc == 0x53:
                for f4, f7 in splitc(f2, fld(w, 31, 25), 7):
                    if f7 in FP: o(In(FP[f7], rd=rd, rs1=rs1, rs2=rs2, rm=f3), f4)
                    elif (f7, f3) in FSG: o(In(FSG[(f7, f3)], rd=rd, rs1=rs1, rs2=rs2), f4)
                    elif (f7, f3) in FCMP: o(In(FCMP[(f7, f3)], rd=rd, rs1=rs1, rs2=rs2), f4)
                    else:
                        for f5, r2 in splitc(f4, rs2, 5):
                            if (f7, r2) in FCVT: o(In(FCVT[(f7, r2)], rd=rd, rs1=rs1, rm=f3), f5)
                            elif (f7, r2, f3) in FMV: o(In(FMV[(f7, r2, f3)], rd=rd, rs1=rs1), f5)
                            else: bad('fp funct7 %#x rs2 %d' % (f7, r2), f5)
            else:
                bad('opcode')
    return out

def dec16(facts, h):
    """[(facts, In)] for a compressed parcel (low two bits != 3)"""
    out = []
    F = lambda hi, lo: fld(h, hi, lo)
    for f, q in splitc(facts, cat((F(15, 13), 3), (F(1, 0), 2)), 5):
        f3 = q >> 2; op = q & 3
        rd = F(11, 7); rs2 = F(6, 2)
        rdp = b5(F(9, 7)); rs2p = b5(F(4, 2))
        imm6 = sext(cat((F(12, 12), 1), (F(6, 2), 5)), 6, 64)
        sh6 = zext(cat((F(12, 12), 1), (F(6, 2), 5)), 6, 64)
        lw = zext(cat((F(5, 5), 1), (F(12, 10), 3), (F(6, 6), 1), (0, 2)), 7, 64)
        ldo = zext(cat((F(6, 5), 2), (F(12, 10), 3), (0, 3)), 8, 64)
        def o(i, ff=None): out.append((ff or f, i))
        def bad(why, ff=None): out.append((ff or f, In('illegal', why='compressed: ' + why)))
        if op == 0:
            if f3 == 0:
                imm = zext(cat((F(10, 7), 4), (F(12, 11), 2), (F(5, 5), 1), (F(6, 6), 1), (0, 2)), 10, 64)
                for f2, z in spliteq(f, imm, 0, 64):
                    if z: bad('c.addi4spn with zero immediate', f2)
                    else: o(In('addi', rd=rs2p, rs1=2, imm=imm), f2)
            elif f3 == 1: o(In('fld', rd=rs2p, rs1=rdp, imm=ldo))
            elif f3 == 2: o(In('lw', rd=rs2p, rs1=rdp, imm=lw))
            elif f3 == 3: o(In('ld', rd=rs2p, rs1=rdp, imm=ldo))
            elif f3 == 5: o(In('fsd', rs2=rs2p, rs1=rdp, imm=ldo))
            elif f3 == 6: o(In('sw', rs2=rs2p, rs1=rdp, imm=lw))
            elif f3 == 7: o(In('sd', rs2=rs2p, rs1=rdp, imm=ldo))
            else: bad('quadrant 0 funct3 %d' % f3)
        elif op == 1:
            if f3 == 0: o(In('addi', rd=rd, rs1=rd, imm=imm6))
            elif f3 == 1:
                for f2, z in spliteq(f, rd, 0, 5):
                    if z: bad('c.addiw with rd=x0 (reserved)', f2)
                    else: o(In('addiw', rd=rd, rs1=rd, imm=imm6), f2)
            elif f3 == 2: o(In('addi', rd=rd, rs1=0, imm=imm6))
            elif f3 == 3:
                for f2, z in spliteq(f, rd, 2, 5):
                    for f4, zi in spliteq(f2, imm6, 0, 64):
                        if zi: bad('c.lui/c.addi16sp with zero immediate (reserved)', f4)
                        elif z:
                            imm = sext(cat((F(12, 12), 1), (F(4, 3), 2), (F(5, 5), 1), (F(2, 2), 1), (F(6, 6), 1), (0, 4)), 10, 64)
                            o(In('addi', rd=2, rs1=2, imm=imm), f4)
                        else: o(In('lui', rd=rd, imm=shl(imm6, 12, 64)), f4)
            elif f3 == 4:
                for f2, k in splitc(f, F(11, 10), 2):
                    if k == 0: o(In('srli', rd=rdp, rs1=rdp, imm=sh6), f2)
                    elif k == 1: o(In('srai', rd=rdp, rs1=rdp, imm=sh6), f2)
                    elif k == 2: o(In('andi', rd=rdp, rs1=rdp, imm=imm6), f2)
                    else:
                        for f4, kk in splitc(f2, cat((F(12, 12), 1), (F(6, 5), 2)), 3):
                            nm = {0: 'sub', 1: 'xor', 2: 'or', 3: 'and', 4: 'subw', 5: 'addw'}.get(kk)
                            if nm: o(In(nm, rd=rdp, rs1=rdp, rs2=rs2p), f4)
                            else: bad('reserved arithmetic', f4)
            elif f3 == 5:
                o(In('jal', rd=0, imm=cj_imm(h)))
            else:
                o(In('beq' if f3 == 6 else 'bne', rs1=rdp, rs2=0, imm=cb_imm(h)))
        else:
            if f3 == 0: o(In('slli', rd=rd, rs1=rd, imm=sh6))
            elif f3 == 1: o(In('fld', rd=rd, rs1=2, imm=zext(cat((F(4, 2), 3), (F(12, 12), 1), (F(6, 5), 2), (0, 3)), 9, 64)))
            elif f3 == 3:
                for f2, z in spliteq(f, rd, 0, 5):
                    if z: bad('c.ldsp with rd=x0 (reserved)', f2)
                    else: o(In('ld', rd=rd, rs1=2, imm=zext(cat((F(4, 2), 3), (F(12, 12), 1), (F(6, 5), 2), (0, 3)), 9, 64)), f2)
            elif f3 == 2:
                for f2, z in spliteq(f, rd, 0, 5):
                    if z: bad('c.lwsp with rd=x0 (reserved)', f2)
                    else: o(In('lw', rd=rd, rs1=2, imm=zext(cat((F(3, 2), 2), (F(12, 12), 1), (F(6, 4), 3), (0, 2)), 8, 64)), f2)
            elif f3 == 4:
                for f2, b12 in splitc(f, F(12, 12), 1):
                    for f4, z2 in spliteq(f2, rs2, 0, 5):
                        if z2:
                            for f5, z in spliteq(f4, rd, 0, 5):
                                if not b12:
                                    if z: bad('c.jr with rs1=x0 (reserved)', f5)
                                    else: o(In('jalr', rd=0, rs1=rd, imm=0), f5)
                                else:
                                    if z: o(In('ebreak'), f5)
                                    else: o(In('jalr', rd=1, rs1=rd, imm=0), f5)
                        else:
                            o(In('add', rd=rd, rs1=rd if b12 else 0, rs2=rs2), f4)
            elif f3 == 5: o(In('fsd', rs2=rs2, rs1=2, imm=zext(cat((F(9, 7), 3), (F(12, 10), 3), (0, 3)), 9, 64)))
            elif f3 == 6: o(In('sw', rs2=rs2, rs1=2, imm=zext(cat((F(8, 7), 2), (F(12, 9), 4), (0, 2)), 8, 64)))
            elif f3 == 7: o(In('sd', rs2=rs2, rs1=2, imm=zext(cat((F(9, 7), 3), (F(12, 10), 3), (0, 3)), 9, 64)))
            else: bad('quadrant 2 funct3 %d' % f3)
    return out

def cj_imm(h):
    F = lambda hi, lo: fld(h, hi, lo)
    return sext(cat((F(12, 12), 1), (F(8, 8), 1), (F(10, 9), 2), (F(6, 6), 1), (F(7, 7), 1), (F(2, 2), 1), (F(11, 11), 1), (F(5, 3), 3), (0, 1)), 12, 64)
def cb_imm(h):
    F = lambda hi, lo: fld(h, hi, lo)
    return sext(cat((F(12, 12), 1), (F(6, 5), 2), (F(2, 2), 1), (F(11, 10), 2), (F(4, 3), 2), (0, 1)), 9, 64)

def decode(facts, bs):
    """decode a byte list: [(facts, [In...])]"""
    if not bs: return [(facts, [])]
    if len(bs) < 2: return [(facts, [In('illegal', why='odd number of bytes')])]
    lo = cat((bs[1], 8), (bs[0], 8))
    out = []
    for f, q in splitc(facts, fld(lo, 1, 0), 2):
        if q == 3:
            if len(bs) < 4:
                out.append((f, [In('illegal', why='truncated 32-bit instruction')])); continue
            w = cat((bs[3], 8), (bs[2], 8), (bs[1], 8), (bs[0], 8))
            rest = bs[4:]
            ds = dec32(f, w)
        else:
            rest = bs[2:]
            ds = dec16(f, lo)
        for f2, i in ds:
            for f3, tail in decode(f2, rest):
                out.append((f3, [i] + tail))
    return out

# ---------------------------------------------------------------- effects
class Mach:
    """register file / memory effect of a straight-line sequence"""
    def __init__(self, facts):
        self.facts = facts; self.x = []; self.f = []; self.eff = []
    def copy(self):
        m = Mach(self.facts); m.x = list(self.x); m.f = list(self.f); m.eff = list(self.eff)
        return m

def rd_x(ms, r):
    """read integer register r: [(mach, value)]"""
    out = []
    for m in ms:
        for f, z in spliteq(m.facts, r, 0, 5):
            m2 = m.copy(); m2.facts = f
            if z: out.append((m2, 0))
            else: out += _rd(m2, m2.x, r, 'x')
    return out
def rd_f(ms, r):
    out = []
    for m in ms: out += _rd(m, m.f, r, 'f')
    return out
def _rd(m, lst, r, bank, i=None):
    if i is None: i = len(lst) - 1
    if i < 0:
        rr = m.facts.resolve(r, 5)
        rr = mk(tuple(m.facts.rbit(b) for b in bits_of(rr, 5)))
        return [(m, mk(atom('reg' + bank, (rr,), 64).bits))]
    k, v = lst[i]
    out = []
    for f, e in spliteq(m.facts, k, r, 5):
        m2 = m.copy(); m2.facts = f
        if e: out.append((m2, v))
        else: out += _rd(m2, m2.x if bank == 'x' else m2.f, r, bank, i - 1)
    return out
def wr_x(m, r, v):
    out = []
    for f, z in spliteq(m.facts, r, 0, 5):
        m2 = m.copy(); m2.facts = f
        if not z: m2.x.append((r, v))
        out.append(m2)
    return out

def w32(v): return sext(trunc(v, 64, 32), 32, 64)
def opaque(name, args, w=64): return mk(atom('op:' + name, tuple(args), w).bits)
def b1(bit): return mk((bit,) + (0,) * 63) if bit.__class__ is Bit else bit

def alu(f, m, a, b):
    R = f.resolve
    a = R(a, 64); b = R(b, 64)
    if m == 'add': return add(a, b, 64)
    if m == 'sub': return sub(a, b, 64)
    if m == 'and': return and_(a, b, 64)
    if m == 'or': return or_(a, b, 64)
    if m == 'xor': return xor_(a, b, 64)
    if m == 'addw': return w32(add(a, b, 64))
    if m == 'subw': return w32(sub(a, b, 64))
    if m == 'slt': return b1(icmp('slt', a, b, 64))
    if m == 'sltu': return b1(icmp('ult', a, b, 64))
    if m == 'mul': return mul(a, b, 64)
    if m == 'mulw': return w32(mul(a, b, 64))
    sh = trunc(b, 64, 6); shw = trunc(b, 64, 5)
    if b.__class__ is int:
        if m == 'sll': return shl(a, sh, 64)
        if m == 'srl': return lshr(a, sh, 64)
        if m == 'sra': return ashr(a, sh, 64)
        a32 = trunc(a, 64, 32)
        if m == 'sllw': return sext(shl(a32, shw, 32), 32, 64)
        if m == 'srlw': return sext(lshr(a32, shw, 32), 32, 64)
        if m == 'sraw': return sext(ashr(a32, shw, 32), 32, 64)
    if m in ('sll', 'srl', 'sra'): return opaque(m, (a, sh))
    if m in ('sllw', 'srlw', 'sraw'): return opaque(m, (trunc(a, 64, 32), shw))
    if m.endswith('w'): return opaque(m, (trunc(a, 64, 32), trunc(b, 64, 32)))
    return opaque(m, (a, b))

IMMOP = {'addi': 'add', 'addiw': 'addw', 'andi': 'and', 'ori': 'or', 'xori': 'xor', 'slti': 'slt', 'sltiu': 'sltu',
         'slli': 'sll', 'srli': 'srl', 'srai': 'sra', 'slliw': 'sllw', 'srliw': 'srlw', 'sraiw': 'sraw'}
ROPS = set(R33.values()) | set(R3B.values())

def step(ms, i):
    out = []
    m = i.m; f = i.f
    if m in ROPS:
        for a, va in rd_x(ms, f['rs1']):
            for b, vb in rd_x([a], f['rs2']):
                out += wr_x(b, f['rd'], alu(b.facts, m, va, vb))
    elif m in IMMOP:
        for a, va in rd_x(ms, f['rs1']):
            out += wr_x(a, f['rd'], alu(a.facts, IMMOP[m], va, f['imm']))
    elif m == 'lui':
        for a in ms: out += wr_x(a, f['rd'], f['imm'])
    elif m == 'auipc':
        for a in ms: out += wr_x(a, f['rd'], opaque('auipc', (f['imm'],)))
    elif m in ('lb', 'lh', 'lw', 'ld', 'lbu', 'lhu', 'lwu', 'fld', 'flw'):
        for a, va in rd_x(ms, f['rs1']):
            ad = add(va, a.facts.resolve(f['imm'], 64), 64)
            a = a.copy(); a.eff.append(('load', m, ad))
            v = opaque('load:' + m, (ad, len(a.eff)))
            if m[0] == 'f': a.f.append((f['rd'], v)); out.append(a)
            else: out += wr_x(a, f['rd'], v)
    elif m in ('sb', 'sh', 'sw', 'sd', 'fsd', 'fsw'):
        for a, va in rd_x(ms, f['rs1']):
            ad = add(va, a.facts.resolve(f['imm'], 64), 64)
            for b, vb in (rd_f([a], f['rs2']) if m[0] == 'f' else rd_x([a], f['rs2'])):
                b = b.copy()
                w = {'sb': 8, 'sh': 16, 'sw': 32, 'sd': 64, 'fsd': 64, 'fsw': 32}[m]
                b.eff.append(('store', w, ad, trunc(b.facts.resolve(vb, 64), 64, w))); out.append(b)
    elif m in ('beq', 'bne', 'blt', 'bge', 'bltu', 'bgeu'):
        for a, va in rd_x(ms, f['rs1']):
            for b, vb in rd_x([a], f['rs2']):
                b = b.copy(); b.eff.append(('branch', m, va, vb, f['imm'])); out.append(b)
    elif m == 'jal':
        for a in ms:
            a = a.copy(); a.eff.append(('jump', f['imm'])); 
            out += wr_x(a, f['rd'], opaque('link', (len(a.eff),)))
    elif m == 'jalr':
        for a, va in rd_x(ms, f['rs1']):
            a = a.copy(); a.eff.append(('jumpr', add(va, a.facts.resolve(f['imm'], 64), 64)))
            out += wr_x(a, f['rd'], opaque('link', (len(a.eff),)))
    elif m in ('ecall', 'ebreak'):
        for a in ms:
            a = a.copy(); a.eff.append((m,)); out.append(a)
    elif m[0] == 'f':
        rm = f.get('rm')
        if rm.__class__ is int and rm in (0, 7): rm = 'default'   # default rounding environment
        if m in ('fcvt.d.w', 'fcvt.d.wu', 'fcvt.d.s'): rm = None   # exact
        if m in ('fmv.x.d', 'fmv.x.w') or m in FCMP.values() or m[:7] in ('fcvt.w.', 'fcvt.wu', 'fcvt.l.', 'fcvt.lu'):
            for a, va in rd_f(ms, f['rs1']):
                for b, vb in (rd_f([a], f['rs2']) if 'rs2' in f else [(a, 0)]):
                    out += wr_x(b, f['rd'], opaque(m, (va, vb, rm)))
        elif m in ('fcvt.d.w', 'fcvt.d.wu', 'fcvt.d.l', 'fcvt.d.lu', 'fcvt.s.w', 'fcvt.s.wu', 'fcvt.s.l', 'fcvt.s.lu', 'fmv.d.x', 'fmv.w.x'):
            for a, va in rd_x(ms, f['rs1']):
                a = a.copy(); a.f.append((f['rd'], opaque(m, (va, rm)))); out.append(a)
        else:
            for a, va in rd_f(ms, f['rs1']):
                for b, vb in (rd_f([a], f['rs2']) if 'rs2' in f else [(a, 0)]):
                    b = b.copy(); b.f.append((f['rd'], opaque(m, (va, vb, rm)))); out.append(b)
    else:
        raise Illegal('%s: %s' % (m, f.get('why')))
    return out

def execute(facts, ins):
    ms = [Mach(facts)]
    for i in ins: ms = step(ms, i)
    return ms

def compare(facts, got, want, what):
    """obligations that two instruction sequences have the same effect"""
    obs = []
    try:
        gms = execute(facts, got)
    except Illegal as e:
        return [Fail(facts, '%s: encodes an illegal/reserved instruction: %s' % (what, e))]
    for g in gms:
        for w in execute(g.facts, want):
            F = w.facts
            if len(g.eff) != len(w.eff):
                obs.append(Fail(F, '%s: encodes %s' % (what, ins_str(F, got)))); continue
            for a, b in zip(g.eff, w.eff):
                if a[:2] != b[:2] if a[0] in ('load', 'store', 'branch') else a[0] != b[0]:
                    obs.append(Fail(F, '%s: encodes %s' % (what, ins_str(F, got)))); break
                for x, y in zip(a, b):
                    if x.__class__ is str or x is y: continue
                    obs.append(Eq(F, x, y, 64 if a[0] != 'store' else (64 if x is a[2] else a[1]), '%s: encodes %s' % (what, ins_str(F, got))))
            # final registers: every register written by either must agree
            for bank in ('x', 'f'):
                gx = getattr(g, bank); wx = getattr(w, bank)
                keys = []
                for k, _ in gx + wx:
                    if not any(k is q or (k.__class__ is int and k == q) for q in keys): keys.append(k)
                for k in keys:
                    mg = g.copy(); mg.facts = F
                    for m1, v1 in (rd_x([mg], k) if bank == 'x' else rd_f([mg], k)):
                        mw = w.copy(); mw.facts = m1.facts
                        for m2, v2 in (rd_x([mw], k) if bank == 'x' else rd_f([mw], k)):
                            obs.append(Eq(m2.facts, v1, v2, 64, '%s: encodes %s' % (what, ins_str(m2.facts, got))))
            if not gx and not wx and not g.eff: obs.append(Ok())
    return obs

def ins_str(f, ins):
    def r(v): 
        v = f.resolve(v) if v.__class__ is BV else v
        return signed(v, 64) if v.__class__ is int and v >> 63 else v
    return '; '.join(i.m + ' ' + ','.join('%s=%s' % (k, r(v)) for k, v in i.f.items()) for i in ins) or '(nothing)'
