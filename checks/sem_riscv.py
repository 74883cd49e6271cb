"""What RV64GC instructions in assembler text do (RISC-V unprivileged ISA, assembler pseudo-instructions), over the abstract domain."""
from sem_common import *

XN = ['zero', 'ra', 'sp', 'gp', 'tp', 't0', 't1', 't2', 's0', 's1'] + ['a%d' % i for i in range(8)] + ['s%d' % i for i in range(2, 12)] + ['t%d' % i for i in range(3, 7)]
XR = {n: n for n in XN}; XR.update({'x%d' % i: n for i, n in enumerate(XN)}); XR['fp'] = 's0'
FN_ = ['ft%d' % i for i in range(8)] + ['fs0', 'fs1'] + ['fa%d' % i for i in range(8)] + ['fs%d' % i for i in range(2, 12)] + ['ft%d' % i for i in range(8, 12)]
FR = {n: n for n in FN_}; FR.update({'f%d' % i: n for i, n in enumerate(FN_)})
BR = {'beq': 'eq', 'bne': 'ne', 'blt': 'slt', 'bge': 'sge', 'bltu': 'ult', 'bgeu': 'uge', 'bgt': 'sgt', 'ble': 'sle', 'bgtu': 'ugt', 'bleu': 'ule'}
BRZ = {'beqz': 'eq', 'bnez': 'ne', 'bltz': 'slt', 'bgez': 'sge', 'bgtz': 'sgt', 'blez': 'sle'}
RRR = {'add': (add, 64), 'sub': (sub, 64), 'mul': (mul, 64), 'div': (sdiv, 64), 'divu': (udiv, 64), 'rem': (srem, 64), 'remu': (urem, 64),
       'and': (and_, 64), 'or': (or_, 64), 'xor': (xor_, 64), 'addw': (add, 32), 'subw': (sub, 32), 'mulw': (mul, 32),
       'divw': (sdiv, 32), 'divuw': (udiv, 32), 'remw': (srem, 32), 'remuw': (urem, 32)}
RRI = {'addi': (add, 64), 'andi': (and_, 64), 'ori': (or_, 64), 'xori': (xor_, 64), 'addiw': (add, 32)}
SH = {'sll': ('shl', 64), 'srl': ('lshr', 64), 'sra': ('ashr', 64), 'sllw': ('shl', 32), 'srlw': ('lshr', 32), 'sraw': ('ashr', 32)}
SHI = {'slli': ('shl', 64), 'srli': ('lshr', 64), 'srai': ('ashr', 64), 'slliw': ('shl', 32), 'srliw': ('lshr', 32), 'sraiw': ('ashr', 32)}
LD = {'lb': (1, 1), 'lh': (2, 1), 'lw': (4, 1), 'ld': (8, 1), 'lbu': (1, 0), 'lhu': (2, 0), 'lwu': (4, 0)}
ST = {'sb': 1, 'sh': 2, 'sw': 4, 'sd': 8}
ONES32 = (1,) * 32

class RV:
    name = 'riscv64'
    def __init__(self, prog): self.p = prog
    @staticmethod
    def machine(facts):
        m = Mach(facts)
        for n in XN + FN_: m.r[n] = sym('reg_' + n, 64)
        m.r['zero'] = 0
        return m
    def xr(self, s):
        s = s.strip()
        if s not in XR: raise Reject('not an integer register: %s' % s)
        return XR[s]
    def fr(self, s):
        s = s.strip()
        if s not in FR: raise Reject('not a floating-point register: %s' % s)
        return FR[s]
    def x(self, m, s, w=64): return m.f.resolve(trunc(m.r[self.xr(s)], 64, w), w)
    def putx(self, m, s, v, w=64):
        """results of 32-bit operations are sign-extended"""
        r = self.xr(s)
        if r == 'zero': return
        m.r[r] = m.f.resolve(sext(v, w, 64) if w < 64 else v, 64)
    def imm(self, m, s, lo, hi):
        v = self.p.num(s)
        if not inrange(m.f, v, lo, hi): raise Reject('immediate out of range: %s' % s)
        return signfit(m.f, v, hi)
    def addr(self, m, s):
        g = re.match(r'^(.*)\((\w+)\)$', s.strip())
        if not g: raise Reject('not a memory operand: %s' % s)
        off = self.imm(m, g.group(1), -2048, 2047) if g.group(1).strip() else 0
        return m.f.resolve(add(self.x(m, g.group(2)), off, 64), 64)
    def fget(self, m, s, w):
        v = m.f.resolve(m.r[self.fr(s)], 64)
        if w == 64: return v
        b = bits_of(v, 64)
        if any(m.f.rbit(x) is not ONE for x in b[32:]): return mk(atom('unboxed', (v,), 32).bits)    # a value that is not NaN-boxed reads as NaN
        return m.f.resolve(mk(b[:32]), 32)
    def fput(self, m, s, v, w):
        m.r[self.fr(s)] = v if w == 64 else mk(bits_of(v, 32) + ONES32)
    def label(self, m, s):
        g = re.match(r'^\s*"?([A-Za-z_.$][\w.$@]*)"?\s*(?:([+-])\s*(\S+))?\s*$', s)
        if not g: raise Reject('not a symbol: %s' % s)
        off = 0
        if g.group(2):
            off = self.p.num(g.group(3))
            if g.group(2) == '-': off = neg(off, 64)
        return m.f.resolve(label_addr(g.group(1), off), 64)
    def step(self, m, op, rest):
        o = self.p.split(rest)
        def n(k):
            if len(o) != k: raise Reject('wrong number of operands: %s %s' % (op, rest))
        f = m.f
        if op in BR:
            n(3); return ('br', ncmp(f, BR[op], self.x(m, o[0]), self.x(m, o[1]), 64), o[2])
        if op in BRZ:
            n(2); return ('br', ncmp(f, BRZ[op], self.x(m, o[0]), 0, 64), o[1])
        if op == 'j': n(1); return ('jump', o[0])
        if op == 'jr': n(1); m.out = ('ind', self.x(m, o[0])); return ('exit',)
        if op == 'ret': m.out = 'ret'; return ('exit',)
        if op in ('call', 'jalr', 'jal', 'tail'): return self.call(m, op, o)
        if op in RRR:
            n(3); fn, w = RRR[op]; self.putx(m, o[0], fn(self.x(m, o[1], w), self.x(m, o[2], w), w), w); return
        if op in RRI:
            n(3); fn, w = RRI[op]
            if fn is add: fn = lambda a, b, w: badd(f, a, b, w)
            self.putx(m, o[0], fn(self.x(m, o[1], w), trunc(self.imm(m, o[2], -2048, 2047), 64, w), w), w); return
        if op in SH:
            n(3); fn, w = SH[op]; kw = 6 if w == 64 else 5
            self.putx(m, o[0], vshift(f, fn, self.x(m, o[1], w), self.x(m, o[2], kw), w, kw), w); return
        if op in SHI:
            n(3); fn, w = SHI[op]; kw = 6 if w == 64 else 5
            self.putx(m, o[0], vshift(f, fn, self.x(m, o[1], w), trunc(self.imm(m, o[2], 0, w - 1), 64, kw), w, kw), w); return
        if op in ('slt', 'sltu'):
            n(3); self.bit(m, o[0], ncmp(f, 'slt' if op == 'slt' else 'ult', self.x(m, o[1]), self.x(m, o[2]), 64)); return
        if op in ('slti', 'sltiu'):
            n(3); self.bit(m, o[0], ncmp(f, 'slt' if op == 'slti' else 'ult', self.x(m, o[1]), self.imm(m, o[2], -2048, 2047), 64)); return
        if op in ('seqz', 'snez', 'sltz', 'sgtz'):
            n(2); self.bit(m, o[0], ncmp(f, {'seqz': 'eq', 'snez': 'ne', 'sltz': 'slt', 'sgtz': 'sgt'}[op], self.x(m, o[1]), 0, 64)); return
        if op in LD:
            n(2); k, s = LD[op]; v = f.resolve(m.load(self.addr(m, o[1]), k), 8 * k)
            self.putx(m, o[0], (sext if s else zext)(v, 8 * k, 64) if k < 8 else v); return
        if op in ST:
            n(2); k = ST[op]; m.store(self.addr(m, o[1]), k, self.x(m, o[0], 8 * k)); return
        if op in ('flw', 'fld'):
            n(2); w = 32 if op == 'flw' else 64; self.fput(m, o[0], f.resolve(m.load(self.addr(m, o[1]), w // 8), w), w); return
        if op in ('fsw', 'fsd'):
            n(2); w = 32 if op == 'fsw' else 64; m.store(self.addr(m, o[1]), w // 8, f.resolve(trunc(m.r[self.fr(o[0])], 64, w), w)); return
        if op == 'li': n(2); self.putx(m, o[0], f.resolve(self.p.num(o[1]), 64)); return
        if op == 'lui':
            n(2); v = self.imm(m, o[1], 0, (1 << 20) - 1); self.putx(m, o[0], shl(trunc(v, 64, 32), 12, 32), 32); return
        if op in ('la', 'lla'): n(2); self.putx(m, o[0], self.label(m, o[1])); return
        if op == 'mv': n(2); self.putx(m, o[0], self.x(m, o[1])); return
        if op == 'neg': n(2); self.putx(m, o[0], bneg(f, self.x(m, o[1]), 64)); return
        if op == 'negw': n(2); self.putx(m, o[0], bneg(f, self.x(m, o[1], 32), 32), 32); return
        if op == 'not': n(2); self.putx(m, o[0], not_(self.x(m, o[1]), 64)); return
        if op in ('sext.b', 'sext.h', 'sext.w', 'zext.b', 'zext.h', 'zext.w'):
            n(2); k = {'b': 8, 'h': 16, 'w': 32}[op[5]]
            self.putx(m, o[0], (sext if op[0] == 's' else zext)(self.x(m, o[1], k), k, 64)); return
        if op == 'nop': return
        p = op.split('.')
        if p[0] in ('fadd', 'fsub', 'fmul', 'fdiv') and len(p) == 2:
            n(3); w = self.fw(p[1]); self.fput(m, o[0], fbin(p[0], self.fget(m, o[1], w), self.fget(m, o[2], w), w), w); return
        if p[0] in ('feq', 'flt', 'fle') and len(p) == 2:
            n(3); w = self.fw(p[1]); self.bit(m, o[0], fcond(f, p[0][1:], self.fget(m, o[1], w), self.fget(m, o[2], w), w)); return
        if p[0] in ('fmv', 'fneg', 'fabs') and len(p) == 2:
            n(2); w = self.fw(p[1]); v = self.fget(m, o[1], w)
            self.fput(m, o[0], v if p[0] == 'fmv' else xor_(v, 1 << (w - 1), w) if p[0] == 'fneg' else and_(v, (1 << (w - 1)) - 1, w), w); return
        if p[0] == 'fmv' and len(p) == 3:
            n(2)
            if p[1] == 'x' and p[2] in 'wd': w = 32 if p[2] == 'w' else 64; self.putx(m, o[0], f.resolve(trunc(m.r[self.fr(o[1])], 64, w), w), w); return
            if p[2] == 'x' and p[1] in 'wd': w = 32 if p[1] == 'w' else 64; self.fput(m, o[0], self.x(m, o[1], w), w); return
        if p[0] == 'fcvt' and len(p) == 3:
            I = {'w': (32, 1), 'wu': (32, 0), 'l': (64, 1), 'lu': (64, 0)}
            rm = o[2].strip() if len(o) == 3 else 'dyn'
            if p[1] in I:
                w, s = I[p[1]]; fw = self.fw(p[2]); v = self.fget(m, o[1], fw)
                if rm != 'rtz': self.putx(m, o[0], mk(atom('f2i_round', (v, rm, w, s), w).bits), w); return
                return f2i_fork(self, m, v, fw, w, lambda mm, r: self.putx(mm, o[0], r, w), bool(s))
            if p[2] in I:
                w, s = I[p[2]]; fw = self.fw(p[1])
                if rm not in ('dyn', 'rne'): raise Undecided('rounding mode')
                self.fput(m, o[0], i2fx(f, self.x(m, o[1], w), w, bool(s), fw), fw); return
            a, b = self.fw(p[2]), self.fw(p[1])
            if a != b: self.fput(m, o[0], f2f(self.fget(m, o[1], a), a, b), b); return
        raise Reject('unknown instruction %s' % op)
    def fw(self, s):
        if s not in ('s', 'd'): raise Reject('floating-point format %s' % s)
        return 32 if s == 's' else 64
    def bit(self, m, r, b): self.putx(m, r, mk((b,) + (0,) * 63) if b.__class__ is not int else b)
    def call(self, m, op, o): raise Undecided('call')
