"""What A64 instructions in assembler text do (Arm architecture reference, assembler aliases), over the abstract domain."""
from sem_common import *

XRN = ['x%d' % i for i in range(31)]
VRN = ['v%d' % i for i in range(32)]
CC = {'eq', 'ne', 'hs', 'cs', 'lo', 'cc', 'mi', 'pl', 'vs', 'vc', 'hi', 'ls', 'ge', 'lt', 'gt', 'le'}
INV = {'ne': 'eq', 'lo': 'hs', 'cc': 'hs', 'cs': 'hs', 'pl': 'mi', 'vc': 'vs', 'ls': 'hi', 'lt': 'ge', 'le': 'gt'}
LDN = {'ldrb': (1, 0), 'ldrh': (2, 0), 'ldrsb': (1, 1), 'ldrsh': (2, 1), 'ldrsw': (4, 1), 'ldurb': (1, 0), 'ldurh': (2, 0), 'ldursb': (1, 1), 'ldursh': (2, 1), 'ldursw': (4, 1)}
STN = {'strb': 1, 'strh': 2, 'sturb': 1, 'sturh': 2}

def bitmask_ok(v, w):
    """is the w-bit constant a logical (bitmask) immediate?"""
    if v in (0, (1 << w) - 1): return False
    for e in (2, 4, 8, 16, 32, 64):
        if e > w: break
        x = v & ((1 << e) - 1)
        if any((v >> i) & ((1 << e) - 1) != x for i in range(0, w, e)): continue
        r = x
        for _ in range(e):
            if r & (r + 1) == 0: return True
            r = (r >> 1) | ((r & 1) << (e - 1))
    return False

class ARM:
    name = 'aarch64'
    def __init__(self, prog): self.p = prog
    @staticmethod
    def machine(facts):
        m = Mach(facts)
        for n in XRN + VRN + ['sp']: m.r[n] = sym('reg_' + n, 64)
        return m
    # ---- operands: (kind, register, width)
    def reg(self, s, sp=False, zr=True):
        s = s.strip()
        g = re.match(r'^([xw])(\d+)$', s)
        if g and int(g.group(2)) <= 30: return ('r', 'x%d' % int(g.group(2)), 64 if g.group(1) == 'x' else 32)
        if s == 'fp': return ('r', 'x29', 64)
        if s == 'lr': return ('r', 'x30', 64)
        if s in ('sp', 'wsp'):
            if not sp: raise Reject('the stack pointer cannot be used here')
            return ('r', 'sp', 64 if s == 'sp' else 32)
        if s in ('xzr', 'wzr'):
            if not zr: raise Reject('the zero register cannot be used here')
            return ('z', None, 64 if s == 'xzr' else 32)
        g = re.match(r'^([sd])(\d+)$', s)
        if g and int(g.group(2)) <= 31: return ('v', 'v%d' % int(g.group(2)), 32 if g.group(1) == 's' else 64)
        return None
    def need(self, s, **k):
        o = self.reg(s, **k)
        if o is None: raise Reject('not a register: %s' % s)
        return o
    def x(self, s, w=None, **k):
        o = self.need(s, **k)
        if o[0] == 'v': raise Reject('integer register expected: %s' % s)
        if w is not None and o[2] != w: raise Reject('register widths differ')
        return o
    def v(self, s, w=None):
        o = self.need(s)
        if o[0] != 'v': raise Reject('floating-point register expected: %s' % s)
        if w is not None and o[2] != w: raise Reject('register widths differ')
        return o
    def get(self, m, o):
        if o[0] == 'z': return 0
        return m.f.resolve(trunc(m.r[o[1]], 64, o[2]), o[2])
    def put(self, m, o, v):
        if o[0] == 'z': return
        v = m.f.resolve(v, o[2])
        m.r[o[1]] = v if o[2] == 64 else zext(v, 32, 64)
    def isimm(self, s):
        s = s.strip()
        return s.startswith('#') or re.match(r'^[-+]?(0x)?[\d\x01]', s) is not None
    def num(self, s):
        s = s.strip()
        return self.p.num(s[1:] if s.startswith('#') else s)
    def imm(self, m, s, lo, hi):
        v = self.num(s)
        if not inrange(m.f, v, lo, hi): raise Reject('immediate out of range: %s' % s)
        return signfit(m.f, v, max(hi, -lo))
    def addr(self, m, o):
        """memory operand at o[0] and possibly o[1] (post-index): (address, writeback or None, offset fits)"""
        s = o[0].strip()
        g = re.match(r'^\[(.*)\](!?)$', s)
        if not g: raise Reject('not a memory operand: %s' % s)
        p = self.p.split(g.group(1))
        b = self.x(p[0], 64, sp=True, zr=False)
        base = m.f.resolve(m.r[b[1]], 64)
        if len(o) == 2:
            if len(p) != 1 or g.group(2): raise Reject('post-index form')
            v = self.imm(m, o[1], -256, 255); return base, (b[1], m.f.resolve(add(base, v, 64), 64)), None
        if len(o) != 1: raise Reject('wrong number of operands')
        if len(p) == 1: return base, None, 0
        if self.isimm(p[1]) or p[1].strip().startswith(':lo12:'):
            if p[1].strip().startswith(':lo12:'): return self.lo12(m, base, p[1].strip()[6:]), None, 0
            if len(p) != 2: raise Reject('memory operand')
            v = m.f.resolve(self.num(p[1]), 64)
            a = m.f.resolve(add(base, v, 64), 64)
            if g.group(2):
                if not inrange(m.f, v, -256, 255): raise Reject('pre-index offset out of range')
                return a, (b[1], a), None
            return a, None, v
        if g.group(2): raise Reject('memory operand')
        r = self.x(p[1], None, zr=False)
        v = self.get(m, r)
        if len(p) == 2:
            if r[2] != 64: raise Reject('a 32-bit index needs an extension')
            return m.f.resolve(add(base, v, 64), 64), None, ('sh', 0)
        e = p[2].split(); k = int(e[1].lstrip('#'), 0) if len(e) > 1 else 0
        if e[0] == 'lsl' and r[2] == 64: pass
        elif e[0] == 'uxtw' and r[2] == 32: v = zext(v, 32, 64)
        elif e[0] == 'sxtw' and r[2] == 32: v = sext(v, 32, 64)
        elif e[0] == 'sxtx' and r[2] == 64: pass
        else: raise Reject('index extension %s' % p[2])
        return m.f.resolve(add(base, shl(v, k, 64), 64), 64), None, ('sh', k)
    def memop(self, m, o, n):
        a, wb, off = self.addr(m, o)
        if off.__class__ is tuple:
            if off[1] not in (0, n.bit_length() - 1): raise Reject('index shift does not fit the access')
        elif off is not None and off.__class__ is int and off == 0: pass
        elif off is not None and not inrange(m.f, off, -256, 255):
            if not inrange(m.f, off, 0, 4095 * n): raise Reject('offset out of range')
            low = m.f.resolve(trunc(off, 64, n.bit_length() - 1), n.bit_length() - 1) if n > 1 else 0
            if low.__class__ is not int or low: raise Reject('offset not a multiple of the access size')
        return a, wb
    def label(self, m, s):
        g = re.match(r'^\s*"?([A-Za-z_.$][\w.$@]*)"?\s*(?:([+-])\s*(\S+))?\s*$', s)
        if not g: raise Reject('not a symbol: %s' % s)
        off = 0
        if g.group(2):
            off = self.p.num(g.group(3))
            if g.group(2) == '-': off = neg(off, 64)
        return m.f.resolve(label_addr(g.group(1), off), 64)
    def lo12(self, m, base, s):
        a = self.label(m, s)
        if m.f.resolve(base, 64) is not page(a): raise Reject('low part of an address whose page is not in the register: %s' % s)
        return a
    def cond(self, m, cc):
        cc = {'cs': 'hs', 'cc': 'lo'}.get(cc, cc)
        fl = m.flags
        if fl is None: raise Reject('condition on undefined flags')
        if cc in INV: return bnot(self.cond(m, INV[cc]))
        if fl[0] == 'fcmp':      # N Z C V: equal 0110, less 1000, greater 0010, unordered 0011
            r0, r1 = fl[1]
            n0, n1 = bnot(r0), bnot(r1)
            N = band(r0, n1); Z = band(n0, n1); C = bnot(N); V = band(r0, r1)
            return {'eq': Z, 'hs': C, 'mi': N, 'vs': V, 'hi': band(C, bnot(Z)), 'ge': bnot(bxor(N, V)), 'gt': band(bnot(Z), bnot(bxor(N, V)))}[cc]
        _, a, b, w = fl
        f = m.f
        if cc == 'eq': return ncmp(f, 'eq', a, b, w)
        if cc == 'ge': return ncmp(f, 'sge', a, b, w)
        if cc == 'gt': return ncmp(f, 'sgt', a, b, w)
        if cc == 'mi': return bits_of(sub(a, b, w), w)[w - 1]
        if cc == 'hs': return ncmp(f, 'uge', a, b, w)
        if cc == 'hi': return ncmp(f, 'ugt', a, b, w)
        raise Undecided('flag %s' % cc)
    # ---- one instruction
    def step(self, m, op, rest):
        o = self.p.split(rest)
        f = m.f
        def n(*k):
            if len(o) not in k: raise Reject('wrong number of operands: %s %s' % (op, rest))
        if op == 'b': n(1); return ('jump', o[0])
        if op[:1] == 'b' and (op[1:] in CC or op[1:2] == '.' and op[2:] in CC): n(1); return ('br', self.cond(m, op[1:].lstrip('.')), o[0])
        if op in ('cbz', 'cbnz'):
            n(2); r = self.x(o[0]); return ('br', ncmp(f, 'eq' if op == 'cbz' else 'ne', self.get(m, r), 0, r[2]), o[1])
        if op == 'br': n(1); m.out = ('ind', f.resolve(m.r[self.x(o[0], 64, zr=False)[1]], 64)); return ('exit',)
        if op == 'ret': m.out = 'ret'; return ('exit',)
        if op in ('bl', 'blr'): return self.call(m, op, o)
        if op == 'nop': return
        if op in ('add', 'sub', 'adds', 'subs', 'cmp', 'cmn'):
            if op in ('cmp', 'cmn'): n(2); o = [None] + o
            else: n(3, 4)
            isimm = self.isimm(o[2])
            lo = o[2].strip().startswith(':lo12:')
            a = self.x(o[1], sp=True, zr=not (isimm or lo)); w = a[2]
            d = self.x(o[0], w, sp=op in ('add', 'sub'), zr=not (isimm or lo) or op not in ('add', 'sub')) if o[0] else None
            va = self.get(m, a)
            if lo:
                if op != 'add' or w != 64 or len(o) != 3: raise Reject('low part in %s' % op)
                self.put(m, d, self.lo12(m, va, o[2].strip()[6:])); return
            if isimm:
                v = self.num(o[2])
                if len(o) == 4:
                    if o[3].replace('#', '').split() != ['lsl', '12'] or not inrange(f, v, 0, 4095): raise Reject('shifted immediate')
                    v = shl(v, 12, 64)
                elif not inrange(f, v, -4095, 4095):
                    if not inrange(f, v, 0, 4095 << 12) or f.resolve(trunc(v, 64, 12), 12) != 0: raise Reject('immediate out of range: %s' % o[2])
                else: v = signfit(f, v, 4095)
                vb = f.resolve(trunc(v, 64, w), w)
            else:
                b = self.x(o[2], w)
                vb = self.get(m, b)
                if (a[1] == 'sp' or d and d[1] == 'sp') and b[0] == 'z': pass
                if len(o) == 4:
                    e = o[3].split(); k = int(e[1].lstrip('#'), 0)
                    if e[0] != 'lsl' or not 0 <= k < w: raise Undecided('shifted register')
                    vb = shl(vb, k, w)
            minus = op in ('sub', 'subs', 'cmp')
            if d: self.put(m, d, (sub if minus else lambda x, y, w: badd(f, x, y, w))(va, vb, w))
            if op in ('adds', 'subs', 'cmp', 'cmn'):
                if minus: m.flags = ('sub', va, vb, w)
                else:
                    # a + n sets the flags of a - (-n) unless n is zero (carry) or the smallest number (overflow)
                    if vb.__class__ is int and vb == 0 or not all(lo_ <= hi_ and lo_ > 0 and hi_ < 1 << (w - 1) for lo_, hi_ in ([(vb, vb)] if vb.__class__ is int else f.range(vb, w))):
                        raise Undecided('flags of cmn')
                    m.flags = ('sub', va, f.resolve(neg(vb, w), w), w)
            return
        if op in ('mul', 'sdiv', 'udiv', 'and', 'orr', 'eor', 'eon', 'bic', 'orn'):
            n(3); d = self.x(o[0], sp=False); w = d[2]; a = self.get(m, self.x(o[1], w))
            if self.isimm(o[2]):
                if op not in ('and', 'orr', 'eor'): raise Reject('immediate operand of %s' % op)
                b = f.resolve(trunc(self.num(o[2]), 64, w), w)
                if b.__class__ is not int: raise Reject('not known to be a logical immediate')
                if not bitmask_ok(b, w): raise Reject('not a logical immediate')
            else: b = self.get(m, self.x(o[2], w))
            fn = {'mul': mul, 'sdiv': sdiv, 'udiv': udiv, 'and': and_, 'orr': or_, 'eor': xor_}.get(op)
            if fn is None:
                nb = not_(b, w)
                v = xor_(a, nb, w) if op == 'eon' else and_(a, nb, w) if op == 'bic' else or_(a, nb, w)
            else: v = fn(a, b, w)
            self.put(m, d, v); return
        if op in ('msub', 'madd'):
            n(4); d = self.x(o[0]); w = d[2]; a, b, c = (self.get(m, self.x(s, w)) for s in o[1:])
            self.put(m, d, remainder(f, a, b, c, w) if op == 'msub' else add(c, mul(a, b, w), w)); return
        if op in ('lsl', 'lsr', 'asr'):
            n(3); d = self.x(o[0]); w = d[2]; kw = 6 if w == 64 else 5; a = self.get(m, self.x(o[1], w))
            if self.isimm(o[2]): k = trunc(self.imm(m, o[2], 0, w - 1), 64, kw)
            else: k = trunc(self.get(m, self.x(o[2], w)), w, kw)
            self.put(m, d, vshift(f, {'lsl': 'shl', 'lsr': 'lshr', 'asr': 'ashr'}[op], a, k, w, kw)); return
        if op in ('neg', 'mvn'):
            n(2); d = self.x(o[0]); a = self.get(m, self.x(o[1], d[2])); self.put(m, d, neg(a, d[2]) if op == 'neg' else not_(a, d[2])); return
        if op == 'mov':
            n(2)
            if self.isimm(o[1]):
                d = self.x(o[0], zr=False); w = d[2]; v = f.resolve(self.num(o[1]), 64)
                if not inrange(f, v, -65536, 65535):
                    if v.__class__ is not int or not (-(1 << (w - 1)) <= signed(v, 64) < 1 << w if w == 32 else True): raise Reject('mov of an immediate that needs several instructions')
                    x = v & ((1 << w) - 1); y = x ^ ((1 << w) - 1)
                    if not (any(z & ~(0xffff << k) == 0 for z in (x, y) for k in range(0, w, 16)) or bitmask_ok(x, w)): raise Reject('mov of an immediate that needs several instructions')
                else: v = halfword(f, v)
                self.put(m, d, trunc(v, 64, w)); return
            s_ = o[0].strip() in ('sp', 'wsp') or o[1].strip() in ('sp', 'wsp')
            d = self.x(o[0], sp=True, zr=not s_); a = self.x(o[1], d[2], sp=True, zr=not s_)
            self.put(m, d, self.get(m, a)); return
        if op in ('movz', 'movn', 'movk'):
            n(2, 3); d = self.x(o[0], zr=False); w = d[2]; v = trunc(self.imm(m, o[1], 0, 65535), 64, 16)
            k = 0
            if len(o) == 3:
                e = o[2].replace('#', ' ').split()
                if e[0] != 'lsl': raise Reject('shift of %s' % op)
                k = int(e[1], 0)
            if k % 16 or k >= w: raise Reject('shift of %s' % op)
            if op == 'movk':
                b = bits_of(self.get(m, d), w); b = bits_of(relin(f, mk(b[:16]), 16), 16) + b[16:]; self.put(m, d, mk(b[:k] + bits_of(v, 16) + b[k + 16:])); return
            v = shl(zext(v, 16, w), k, w)
            self.put(m, d, v if op == 'movz' else not_(v, w)); return
        if op in ('sxtb', 'sxth', 'sxtw', 'uxtb', 'uxth', 'uxtw'):
            n(2); d = self.x(o[0]); a = self.x(o[1]); k = {'b': 8, 'h': 16, 'w': 32}[op[3]]
            if op in ('sxtw', 'uxtw') and d[2] != 64: raise Reject('%s needs a 64-bit destination' % op)
            if a[2] != 32 and (d[2] != 64 or a[2] != 64): raise Reject('source of %s' % op)
            v = trunc(self.get(m, a), a[2], k)
            self.put(m, d, (sext if op[0] == 's' else zext)(v, k, d[2]) if k < d[2] else v); return
        if op == 'cset': n(2); d = self.x(o[0]); b = self.cond(m, o[1].strip()); self.put(m, d, mk((b,) + (0,) * (d[2] - 1)) if b.__class__ is not int else b); return
        if op == 'adrp': n(2); self.put(m, self.x(o[0], 64, zr=False), page(self.label(m, o[1]))); return
        if op == 'adr': n(2); self.put(m, self.x(o[0], 64, zr=False), self.label(m, o[1])); return
        if op in LDN or op in ('ldr', 'ldur'):
            n(2, 3); d = self.need(o[0])
            if op in LDN:
                k, s = LDN[op]
                if d[0] == 'v' or (not s and d[2] != 32) or (k == 4 and d[2] != 64): raise Reject('destination of %s' % op)
            else: k, s = d[2] // 8, 0
            a, wb = self.memop(m, o[1:], k)
            v = f.resolve(m.load(a, k), 8 * k)
            if d[0] == 'v': self.vput(m, d, v)
            else: self.put(m, d, (sext if s else zext)(v, 8 * k, d[2]) if 8 * k < d[2] else v)
            if wb: m.r[wb[0]] = wb[1]
            return
        if op in STN or op in ('str', 'stur'):
            n(2, 3); d = self.need(o[0])
            if op in STN:
                k = STN[op]
                if d[0] == 'v' or d[2] != 32: raise Reject('source of %s' % op)
            else: k = d[2] // 8
            a, wb = self.memop(m, o[1:], k)
            v = trunc(self.get(m, d), d[2], 8 * k)
            if wb and wb[1] is a: m.r[wb[0]] = wb[1]      # (pre-index: the stack pointer moves first)
            m.store(a, k, v)
            if wb: m.r[wb[0]] = wb[1]
            return
        if op in ('stp', 'ldp'):
            n(3, 4); d1 = self.need(o[0]); d2 = self.need(o[1]); k = d1[2] // 8
            if d1[0] != d2[0] and 'v' in (d1[0], d2[0]) or d1[2] != d2[2]: raise Reject('register pair')
            a, wb, off = self.addr(m, o[2:])
            if off.__class__ is tuple: raise Reject('address of a pair')
            if off is not None and not inrange(f, off, -64 * k, 63 * k): raise Reject('offset of a pair out of range')
            if op == 'stp':
                v1 = self.get(m, d1); v2 = self.get(m, d2)
                if wb and wb[1] is a: m.r[wb[0]] = wb[1]
                m.store(a, k, v1); m.store(f.resolve(add(a, k, 64), 64), k, v2)
            else:
                v1 = f.resolve(m.load(a, k), 8 * k); v2 = f.resolve(m.load(f.resolve(add(a, k, 64), 64), k), 8 * k)
                for d, v in ((d1, v1), (d2, v2)): (self.vput if d[0] == 'v' else self.put)(m, d, v)
            if wb: m.r[wb[0]] = wb[1]
            return
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            n(3); d = self.v(o[0]); w = d[2]; self.vput(m, d, fbin(op, self.get(m, self.v(o[1], w)), self.get(m, self.v(o[2], w)), w)); return
        if op == 'fneg': n(2); d = self.v(o[0]); w = d[2]; self.vput(m, d, xor_(self.get(m, self.v(o[1], w)), 1 << (w - 1), w)); return
        if op == 'fmov':
            n(2); d = self.need(o[0]); a = self.need(o[1])
            if d[2] != a[2] or 'v' not in (d[0], a[0]): raise Reject('fmov operands')
            (self.vput if d[0] == 'v' else self.put)(m, d, self.get(m, a)); return
        if op == 'fcvt':
            n(2); d = self.v(o[0]); a = self.v(o[1])
            if d[2] == a[2]: raise Reject('fcvt to the same format')
            self.vput(m, d, f2f(self.get(m, a), a[2], d[2])); return
        if op == 'fcmp': n(2); a = self.v(o[0]); b = self.v(o[1], a[2]); m.flags = ('fcmp', tuple(f.rbit(x) for x in frel(self.get(m, a), self.get(m, b), a[2]))); return
        if op in ('scvtf', 'ucvtf'):
            n(2); d = self.v(o[0]); a = self.x(o[1]); self.vput(m, d, i2fx(f, self.get(m, a), a[2], op == 'scvtf', d[2])); return
        if op in ('fcvtzs', 'fcvtzu'):
            n(2); d = self.x(o[0]); a = self.v(o[1])
            return f2i_fork(self, m, self.get(m, a), a[2], d[2], lambda mm, r: self.put(mm, d, r), op == 'fcvtzs')
        raise Reject('unknown instruction %s' % op)
    def vput(self, m, d, v):
        v = m.f.resolve(v, d[2])
        m.r[d[1]] = v if d[2] == 64 else zext(v, 32, 64)
    def call(self, m, op, o): raise Undecided('call')

def relin(f, v, w):
    """the low w bits of a sum, with the terms cut to w bits first"""
    v = f.resolve(v, w)
    d = decomp(v) if v.__class__ is BV else None
    if d is not None and d[1] < w and d[2] != 's' and d[0].k == 'lin' and d[0].w >= w:
        # the bits cut off are zero when the sum stays in range
        b = rng_of(f, mk(d[0].bits[:w]), w)
        if b is not None and b[-1][1] < (1 << d[1]): v = mk(d[0].bits[:w]); d = decomp(v)
    if d is None or d[1] != w or d[0].k != 'lin': return v
    c, ts = d[0].args
    r = c & ((1 << w) - 1)
    for a, n in ts:
        bits = tuple(a.args[0]) + (a.args[1],) * w if a.k == 'bv' else a.bits
        x = mk((tuple(bits) + (0,) * w)[:w])
        r = add(r, mul(relin(f, x, w), n & ((1 << w) - 1), w), w)
    return f.resolve(r, w)
def rng_of(f, v, w):
    return f.range(v, w) if v.__class__ is BV else [(v, v)]
def halfword(f, v):
    """operand of mov, between -65536 and 65535"""
    v = f.resolve(v, 64)
    if v.__class__ is int: return v
    if inrange(f, v, -65535, 0):
        z = ncmp(f, 'eq', relin(f, trunc(v, 64, 16), 16), 0, 16)
        if z.__class__ is int and z == 0: f.assume(v.bits[63], 1)
    v = signfit(f, v, 65535)
    if v.__class__ is BV:
        lo = relin(f, trunc(v, 64, 16), 16)
        v = mk(bits_of(lo, 16) + v.bits[16:])
    return v
def page(a): return mk(atom('page', (a,), 64).bits)
def remainder(f, q, b, c, w):
    """c - q * b, which is the remainder when q is the quotient of c by b"""
    d = decomp(q) if q.__class__ is BV else None
    if d is not None and d[1] == w and d[0].k in ('sdiv', 'udiv') and d[0].args[0] is c and (d[0].args[1] is b or d[0].args[1] == b):
        return (srem if d[0].k == 'sdiv' else urem)(c, b, w)
    return sub(c, mul(q, b, w), w)
