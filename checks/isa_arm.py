"""A64 reference model (Arm ARM, the integer/FP subset): decoding of words whose
fields may be abstract into canonical operations."""
from common import *
from isa_riscv import fld, cat

class In:
    __slots__ = ('m', 'f')
    def __init__(self, m, **f): self.m = m; self.f = f
    def __repr__(self):
        return self.m + ' ' + ' '.join('%s=%s' % (k, x) for k, x in sorted(self.f.items()))

def bad(why): return In('unallocated', why=why)
def zx(v, w): return zext(v, w, 64)
def sx(v, w): return sext(v, w, 64)

LOGIC = {0: ('and', 'bic'), 1: ('orr', 'orn'), 2: ('eor', 'eon'), 3: ('ands', 'bics')}
SH = ('lsl', 'lsr', 'asr', 'ror')
EXT = ('uxtb', 'uxth', 'uxtw', 'uxtx', 'sxtb', 'sxth', 'sxtw', 'sxtx')
F1 = {0: 'fmov', 1: 'fabs', 2: 'fneg', 3: 'fsqrt'}
F2 = {0: 'fmul', 1: 'fdiv', 2: 'fadd', 3: 'fsub', 4: 'fmax', 5: 'fmin', 8: 'fnmul'}

def decode(facts, w):
    """[(facts, In)]; 'sp' in a field name marks fields where 31 is the stack pointer"""
    out = []
    rd, rn, rm, ra = fld(w, 4, 0), fld(w, 9, 5), fld(w, 20, 16), fld(w, 14, 10)
    def put(f, m, **k): out.append((f, In(m, **k)))
    for f, op0 in splitc(facts, fld(w, 28, 25), 4):
        # ---- data processing, immediate
        if op0 in (8, 9):
            for f, k in splitc(f, fld(w, 31, 22), 10):
                sf = k >> 9; opS = (k >> 7) & 3; cls = (k >> 1) & 7
                low = k & 1
                if cls in (0, 1):
                    # adr/adrp: bits 28..24 = 10000
                    immhi, immlo = fld(w, 23, 5), fld(w, 30, 29)
                    put(f, 'adrp' if sf else 'adr', rd=(5, rd), imm=(64, sx(cat((immhi, 19), (immlo, 2)), 21)))
                elif cls == 2:           # add/sub immediate (bits 28..23 = 100010)
                    imm = zx(fld(w, 21, 10), 12)
                    if low: imm = shl(imm, 12, 64)
                    m = ('add', 'adds', 'sub', 'subs')[opS]
                    kw = dict(sf=sf, rn_sp=(5, rn), imm=(64, imm))
                    kw['rd' if opS & 1 else 'rd_sp'] = (5, rd)
                    put(f, m + 'i', **kw)
                elif cls == 5:           # move wide (100101)
                    hw = fld(w, 22, 21)
                    for f2, h in splitc(f, hw, 2):
                        if opS == 1 or (not sf and h >= 2): out.append((f2, bad('move wide'))); continue
                        imm = fld(w, 20, 5)
                        if opS == 3: put(f2, 'movk', sf=sf, rd=(5, rd), imm=(16, imm), sh=(8, 16 * h)); continue
                        v = shl(zx(imm, 16), 16 * h, 64)
                        if opS == 0: v = xor_(v, (1 << 64) - 1, 64)
                        if not sf: v = zx(trunc(v, 64, 32), 32)
                        put(f2, 'movi', sf=sf, rd=(5, rd), val=(64, v))
                elif cls == 6:           # bitfield (100110)
                    if opS == 3 or low != sf: out.append((f, bad('bitfield'))); continue
                    immr, imms = fld(w, 21, 16), fld(w, 15, 10)
                    if not sf:
                        for f2, x in splitbit(f, bits_of(immr, 6)[5]):
                            for f3, y in splitbit(f2, bits_of(imms, 6)[5]):
                                if x or y: out.append((f3, bad('bitfield')))
                                else: put(f3, ('sbfm', 'bfm', 'ubfm')[opS], sf=sf, rd=(5, rd), rn=(5, rn), immr=(6, immr), imms=(6, imms))
                        continue
                    put(f, ('sbfm', 'bfm', 'ubfm')[opS], sf=sf, rd=(5, rd), rn=(5, rn), immr=(6, immr), imms=(6, imms))
                else: out.append((f, bad('data processing immediate')))
        # ---- branches
        elif op0 in (10, 11):
            for f, k in splitc(f, fld(w, 31, 26), 6):
                if k in (5, 0x25): put(f, 'bl' if k == 0x25 else 'b', imm=(64, sx(cat((fld(w, 25, 0), 26), (0, 2)), 28))); continue
                for f2, j in splitc(f, fld(w, 25, 21), 5):
                    if k == 0x15 and j < 16:   # 0101 0100
                        if j >> 3: out.append((f2, bad('branch'))); continue
                        for f3, z in splitbit(f2, bits_of(w, 32)[4]):
                            if z: out.append((f3, bad('bc.cond')))
                            else: put(f3, 'b.cond', cond=(4, fld(w, 3, 0)), imm=(64, sx(cat((fld(w, 23, 5), 19), (0, 2)), 21)))
                    elif k == 0x35 and j >= 16:   # 1101011
                        for f3, rest in splitc(f2, cat((fld(w, 20, 10), 11), (fld(w, 4, 0), 5)), 16):
                            if rest != (0x1f << 6) << 5 or j not in (16, 17, 18): out.append((f3, bad('branch register'))); continue
                            put(f3, {16: 'br', 17: 'blr', 18: 'ret'}[j], rn=(5, rn))
                    elif k == 0x35 and j == 0:
                        for f3, z in splitc(f2, fld(w, 4, 0), 5):
                            put(f3, {1: 'svc', 2: 'hvc', 3: 'smc'}.get(z, 'exception?'), imm=(64, zx(fld(w, 20, 5), 16)))
                    else: out.append((f2, bad('branch/system')))
        # ---- loads and stores
        elif op0 & 5 == 4:
            for f, k in splitc(f, fld(w, 31, 22), 10):
                size = k >> 8; V = (k >> 4) & 1; grp = (k >> 5) & 7; opc = k & 3; b24 = (k >> 2) & 1
                # bits 29..27
                if grp == 5:      # pair: opc(31:30) 101 V 0 mode(24:23) L(22)
                    mode = (k >> 1) & 7; L = k & 1
                    if V: sz = {0: 4, 1: 8, 2: 16}.get(size)
                    else: sz = {0: 4, 2: 8}.get(size)
                    if sz is None or mode not in (0, 1, 2, 3): out.append((f, bad('pair'))); continue
                    off = shl(sx(fld(w, 21, 15), 7), {4: 2, 8: 3, 16: 4}[sz], 64)
                    put(f, 'ldp' if L else 'stp', v=V, size=sz, rt=(5, rd), rt2=(5, fld(w, 14, 10)), rn_sp=(5, rn), off=(64, off),
                        mode=('none', 'post', 'off', 'pre')[mode])
                    continue
                if grp != 7: out.append((f, bad('load/store'))); continue
                kw = dict(v=V, rt=(5, rd), rn_sp=(5, rn))
                if V:
                    scale = size | ((opc >> 1) << 2)
                    if scale > 4: out.append((f, bad('fp load/store'))); continue
                    m = 'ld' if opc & 1 else 'st'
                    kw['size'] = 1 << scale; kw['sx'] = 0
                else:
                    scale = size
                    kw['size'] = 1 << scale
                    if (opc >= 2 and size == 3) or (opc == 3 and size == 2): out.append((f, bad('load size'))); continue
                    m = 'ld' if opc else 'st'
                    kw['sx'] = {0: 0, 1: 0, 2: 64, 3: 32}[opc]
                if (k >> 3) & 1: out.append((f, bad('load/store'))); continue
                if b24:
                    put(f, m, mode='uimm', off=(64, shl(zx(fld(w, 21, 10), 12), scale, 64)), **kw); continue
                for f2, s in splitc(f, cat((fld(w, 21, 21), 1), (fld(w, 11, 10), 2)), 3):
                    if s == 6:
                        for f3, opt in splitc(f2, fld(w, 15, 13), 3):
                            if not opt & 2: out.append((f3, bad('register offset option'))); continue
                            for f4, S in splitc(f3, fld(w, 12, 12), 1):
                                put(f4, m, mode='reg', rm=(5, rm), ext={2: 'uxtw', 3: 'x', 6: 'sxtw', 7: 'x'}[opt], amt=(8, scale if S else 0), **kw)
                    elif s in (0, 1, 3):
                        put(f2, m, mode={0: 'unscaled', 1: 'post', 3: 'pre'}[s], off=(64, sx(fld(w, 20, 12), 9)), **kw)
                    else: out.append((f2, bad('load/store')))
        # ---- data processing, register
        elif op0 & 7 == 5:
            for f, k in splitc(f, fld(w, 31, 21), 11):
                sf = k >> 10; opS = (k >> 8) & 3; b28 = (k >> 7) & 1; lo = k & 0xf    # bits 24..21
                if not b28:
                    if lo < 8:     # logical shifted
                        sh = (k >> 1) & 3; N = k & 1
                        for f2, big in splitbit(f, bits_of(w, 32)[15]) if not sf else [(f, False)]:
                            if big: out.append((f2, bad('shift amount'))); continue
                            put(f2, LOGIC[opS][N], sf=sf, rd=(5, rd), rn=(5, rn), rm=(5, rm), sh=SH[sh], amt=(8, zext(fld(w, 15, 10), 6, 8)))
                    elif lo & 1 == 0:    # add/sub shifted
                        sh = (k >> 1) & 3
                        if sh == 3: out.append((f, bad('add shifted ror'))); continue
                        for f2, big in splitbit(f, bits_of(w, 32)[15]) if not sf else [(f, False)]:
                            if big: out.append((f2, bad('shift amount'))); continue
                            put(f2, ('add', 'adds', 'sub', 'subs')[opS], sf=sf, rd=(5, rd), rn=(5, rn), rm=(5, rm), sh=SH[sh], amt=(8, zext(fld(w, 15, 10), 6, 8)))
                    else:
                        if (k >> 1) & 3: out.append((f, bad('add extended'))); continue
                        for f2, opt in splitc(f, fld(w, 15, 13), 3):
                            for f3, am in splitc(f2, fld(w, 12, 10), 3):
                                if am > 4: out.append((f3, bad('extend amount'))); continue
                                e = EXT[opt]
                                if (sf and opt in (3, 7)) or (not sf and opt in (2, 3, 6, 7)): e = 'lsl'
                                kw = dict(sf=sf, rn_sp=(5, rn), rm=(5, rm), sh=e, amt=(8, am))
                                kw['rd' if opS & 1 else 'rd_sp'] = (5, rd)
                                put(f3, ('add', 'adds', 'sub', 'subs')[opS], **kw)
                else:
                    if lo in (8, 0xb, 0xd) or lo >= 8:
                        for f2, o0 in splitc(f, fld(w, 15, 15), 1):
                            if opS or lo != 8: out.append((f2, bad('3 source'))); continue
                            put(f2, 'msub' if o0 else 'madd', sf=sf, rd=(5, rd), rn=(5, rn), rm=(5, rm), ra=(5, ra))
                    elif lo == 4:
                        for f2, o2 in splitc(f, fld(w, 11, 10), 2):
                            m = {(0, 0): 'csel', (0, 1): 'csinc', (2, 0): 'csinv', (2, 1): 'csneg'}.get((opS, o2))
                            if m is None: out.append((f2, bad('conditional select'))); continue
                            put(f2, m, sf=sf, rd=(5, rd), rn=(5, rn), rm=(5, rm), cond=(4, fld(w, 15, 12)))
                    elif lo == 6 and opS == 0:
                        for f2, o2 in splitc(f, fld(w, 15, 10), 6):
                            m = {2: 'udiv', 3: 'sdiv', 8: 'lslv', 9: 'lsrv', 10: 'asrv', 11: 'rorv'}.get(o2)
                            if m is None: out.append((f2, bad('2 source'))); continue
                            put(f2, m, sf=sf, rd=(5, rd), rn=(5, rn), rm=(5, rm))
                    else: out.append((f, bad('data processing register')))
        elif op0 & 7 == 7:
            for f, k in splitc(f, fld(w, 31, 21), 11):
                sf = k >> 10; ty = (k >> 1) & 3
                if (k >> 3) & 0x7f != 0x1e or not k & 1 or ty > 1: out.append((f, bad('fp'))); continue
                for f2, lo in splitc(f, fld(w, 15, 10), 6):
                    if lo == 0:
                        for f3, ro in splitc(f2, fld(w, 20, 16), 5):
                            m = {2: 'scvtf', 3: 'ucvtf', 0x18: 'fcvtzs', 0x19: 'fcvtzu', 6: 'fmov.xf', 7: 'fmov.fx'}.get(ro)
                            if m is None: out.append((f3, bad('fp int conversion'))); continue
                            put(f3, m, sf=sf, ty=ty, rd=(5, rd), rn=(5, rn))
                    elif sf: out.append((f2, bad('fp')))
                    elif lo & 0x1f == 0x10:
                        for f3, o in splitc(f2, cat((fld(w, 20, 15), 6)), 6):
                            if o in F1: put(f3, F1[o], ty=ty, rd=(5, rd), rn=(5, rn))
                            elif o & ~3 == 4:
                                if (o & 3, ty) in ((0, 1), (1, 0)): put(f3, 'fcvt', src=ty, dst=o & 3, rd=(5, rd), rn=(5, rn))
                                else: out.append((f3, bad('fcvt')))
                            else: out.append((f3, bad('fp 1 source')))
                    elif lo & 0xf == 8:
                        for f3, o in splitc(f2, cat((fld(w, 15, 14), 2), (fld(w, 4, 0), 5)), 7):
                            if o: out.append((f3, bad('fp compare') if o != 8 else In('fcmpz', ty=ty, rn=(5, rn)))); continue
                            put(f3, 'fcmp', ty=ty, rn=(5, rn), rm=(5, rm))
                    elif lo & 3 == 2:
                        m = F2.get(lo >> 2)
                        if m is None: out.append((f2, bad('fp 2 source'))); continue
                        put(f2, m, ty=ty, rd=(5, rd), rn=(5, rn), rm=(5, rm))
                    else: out.append((f2, bad('fp')))
        else: out.append((f, bad('top level')))
    return out

def compare(facts, got, want, mn):
    """obligations that the decoded instruction is the wanted one.  Register
    operands of want: ('x', no) plain (31 is zero) or ('sp',)."""
    obs = []
    def fail(why, f=None): return [Fail(f or facts, '%s: %s (encoded as %r)' % (mn, why, got))]
    if got.m != want.m: return fail('another operation, wanted %s' % want.m)
    for k, v in want.f.items():
        if v.__class__ is tuple and v and v[0] in ('x', 'sp'):
            if k + '_sp' in got.f:
                g = got.f[k + '_sp'][1]
                if v[0] == 'sp': obs.append(Eq(facts, g, 31, 5, '%s: %s is not sp (%r)' % (mn, k, got)))
                else:
                    obs.append(Eq(facts, g, v[1], 5, '%s: wrong register in %s (%r)' % (mn, k, got)))
                    for f2, eq in spliteq(facts, v[1], 31, 5):
                        if eq: obs += fail('zero register in %s encodes the stack pointer' % k, f2)
            elif k in got.f:
                g = got.f[k][1]
                if v[0] == 'sp': obs += fail('stack pointer in %s encodes the zero register' % k)
                else: obs.append(Eq(facts, g, v[1], 5, '%s: wrong register in %s (%r)' % (mn, k, got)))
            else: obs += fail('no field %s' % k)
            continue
        g = got.f.get(k)
        if v.__class__ is tuple:
            obs.append(Eq(facts, g[1], v[1], v[0], '%s: field %s is wrong (%r)' % (mn, k, got)))
        elif v.__class__ is set:
            if g not in v: obs += fail('%s is %s, wanted %s' % (k, g, '/'.join(map(str, sorted(v)))))
        elif g != v: obs += fail('%s is %s, wanted %s' % (k, g, v))
    return obs or [Ok()]
