"""C02: AArch64 assembler: every accepted instruction is encoded as itself."""
from asm_common import *
import isa_arm as V
from isa_arm import In
import itertools

R32, R64, F32, F64, RSP, RZR, IMM, IND, ROI, EXP, CND, SFT, EXT = (1 << i for i in range(13))
M64 = (1 << 64) - 1
EXTN = ('uxtb', 'uxth', 'uxtw', 'uxtx', 'sxtb', 'sxth', 'sxtw', 'sxtx', 'lsl', 'lsr', 'asr')
ROIX = ('', 'sxtw', 'uxtw', 'lsl', 'sxtx')
COND = 'eq ne hs lo mi pl vs vc hi ls ge lt gt le al nv'.split()

def alts(f):
    out = []
    if f & R32: out.append(('w', 'W'))
    if f & R64: out.append(('x', 'X'))
    if f & RSP: out.append(('sp', 'SP'))
    if f & F32: out.append(('s', 'S'))
    if f & F64: out.append(('d', 'D'))
    if f & IMM: out.append(('imm', 'imm'))
    if f & IND:
        out += [('ind', '[base]', None, 0), ('ind', '[base,imm]', 'ofs', 0), ('ind', '[base,imm]!', 'ofs', 1), ('ind', '[base],imm', 'ofs', 2),
                ('ind', '[base,:lo12:label]', 'lab', 0)]
    if f & ROI:
        for ix in 'WX':
            for e in range(5):
                for sc in ((False, True) if e else (False,)):
                    out.append(('roi', '[base,%sindex%s%s]' % (ix, ',' + ROIX[e] if e else '', ' scale' if sc else ''), ix, e, sc))
    if f & EXP: out += [('lab', 'label'), ('expnum', 'number')]
    if f & CND: out.append(('cond', 'cond'))
    if f & SFT: out += [('sft', 'lsl %d' % n, n) for n in (0, 16, 32, 48)]
    if f & EXT: out += [('ext', n, i) for i, n in enumerate(EXTN)]
    return out

class Spec:
    def __init__(self, wants, accept=(), illegal=(), never=None, may=False, pick=None):
        self.wants = wants; self.accept = list(accept); self.illegal = list(illegal); self.never = never; self.may = may

LD = {'ldrb': (1, 0), 'ldrh': (2, 0), 'ldrsb': (1, 1), 'ldrsh': (2, 1), 'ldrsw': (4, 1), 'strb': (1, 0), 'strh': (2, 0)}

def sfof(o): return 1 if o[0] in ('x', 'sp', 'd') else 0
def regw(o): return ('sp',) if o[0] == 'sp' else ('x', o[1])

def spec(mn, o):
    n = len(o)
    sf = sfof(o[0]) if o else 0
    bits = 64 if sf else 32
    if mn == 'mov' and o[1][0] == 'imm':
        v = o[1][1]
        val = v if sf else zext(trunc(v, 64, 32), 32, 64)
        return Spec([In('movi', rd=regw(o[0]), val=(64, val), sf=sf)], accept=[(v, -65536, 65535, 0)], illegal=[] if sf else [(v, -(1 << 31), (1 << 32) - 1)])
    if mn == 'mov':
        if o[0][0] == 'sp' or o[1][0] == 'sp':
            zr = [x for x in o if x[0] != 'sp']
            return Spec([In('addi', sf=1, rd=regw(o[0]), rn=regw(o[1]), imm=(64, 0))], accept=[(zext(x[1], 5, 64), 0, 30, 0) for x in zr])
        return Spec([In('orr', sf=sf, rd=regw(o[0]), rn=('x', 31), rm=regw(o[1]), sh='lsl', amt=(8, 0)),
                     In('addi', sf=sf, rd=regw(o[0]), rn=regw(o[1]), imm=(64, 0))])
    if mn == 'movk':
        return Spec([In('movk', sf=sf, rd=regw(o[0]), imm=(16, trunc(o[1][1], 64, 16)), sh=(8, o[2][1]))],
                    accept=[(o[1][1], 0, 65535, 0)], illegal=[(o[1][1], 0, 65535)], may=not sf and o[2][1] >= 32)
    if mn in ('add', 'sub'):
        if o[2][0] in ('imm', 'expnum'):
            v = o[2][1]; other = {'add': 'subi', 'sub': 'addi'}[mn]
            nz = [(zext(x[1], 5, 64), 0, 30, 0) for x in o[:2] if x[0] != 'sp']
            return Spec([In(mn + 'i', sf=sf, rd=regw(o[0]), rn=regw(o[1]), imm=(64, v)), In(other, sf=sf, rd=regw(o[0]), rn=regw(o[1]), imm=(64, sub(0, v, 64)))],
                        accept=nz + [(v, -4095, 4095, 0)], may=o[2][0] == 'expnum')
        if o[2][0] == 'lab':
            nz = [(zext(x[1], 5, 64), 0, 30, 0) for x in o[:2] if x[0] != 'sp']
            return Spec([In(mn + 'i', sf=sf, rd=regw(o[0]), rn=regw(o[1]), imm=(64, 0))], accept=nz, may=mn == 'sub')
        k, amt = ('lsl', 0)
        acc = []; ill = []
        may = False
        if n > 3:
            k, amt = EXTN[o[3][1]], o[3][2]
            hi = 4 if o[3][1] < 8 else bits - 1
            a64 = sext(amt, 32, 64)
            acc = [(a64, 0, hi, 0)]; ill = [(a64, 0, hi)]
            if o[3][1] < 8: acc += [(zext(x[1], 5, 64), 0, 30, 0) for x in o[:2]]
            if k in ('uxtx', 'sxtx') or (not sf and k in ('uxtw', 'sxtw')): k = 'lsl'
            amt = trunc(amt, 32, 8)
        elif 'sp' in (o[0][0], o[1][0]):
            acc = [(zext(x[1], 5, 64), 0, 30, 0) for x in o[:2] if x[0] != 'sp']
        return Spec([In(mn, sf=sf, rd=regw(o[0]), rn=regw(o[1]), rm=regw(o[2]), sh=k, amt=(8, amt))], accept=acc, illegal=ill)
    if mn in ('mul', 'madd', 'msub'):
        return Spec([In('madd' if mn == 'mul' else mn, sf=sf, rd=regw(o[0]), rn=regw(o[1]), rm=regw(o[2]), ra=('x', 31) if mn == 'mul' else regw(o[3]))])
    if mn in ('sdiv', 'udiv'): return Spec([In(mn, sf=sf, rd=regw(o[0]), rn=regw(o[1]), rm=regw(o[2]))])
    if mn in ('and', 'orr', 'eor', 'eon'):
        return Spec([In(mn, sf=sf, rd=regw(o[0]), rn=regw(o[1]), rm=regw(o[2]), sh='lsl', amt=(8, 0))])
    if mn in ('cmp', 'cmn'):
        m = {'cmp': 'subs', 'cmn': 'adds'}[mn]
        if o[1][0] == 'imm':
            v = o[1][1]; other = {'subs': 'addsi', 'adds': 'subsi'}[m]
            return Spec([In(m + 'i', sf=sf, rd=('x', 31), rn=regw(o[0]), imm=(64, v)), In(other, sf=sf, rd=('x', 31), rn=regw(o[0]), imm=(64, sub(0, v, 64)))],
                        accept=[(v, 0, 4095, 0), (zext(o[0][1], 5, 64), 0, 30, 0)])
        return Spec([In(m, sf=sf, rd=('x', 31), rn=regw(o[0]), rm=regw(o[1]), sh='lsl', amt=(8, 0))])
    if mn in ('lsl', 'lsr', 'asr'):
        if o[2][0] != 'imm': return Spec([In(mn + 'v', sf=sf, rd=regw(o[0]), rn=regw(o[1]), rm=regw(o[2]))])
        v = o[2][1]; a = trunc(v, 64, 6)
        msk = bits - 1
        if mn == 'lsl': r, s, m = and_(sub(0, a, 6), msk, 6), sub(msk, a, 6), 'ubfm'
        else: r, s, m = a, msk, {'lsr': 'ubfm', 'asr': 'sbfm'}[mn]
        return Spec([In(m, sf=sf, rd=regw(o[0]), rn=regw(o[1]), immr=(6, r), imms=(6, s))], accept=[(v, 0, msk, 0)], illegal=[(v, 0, msk)])
    if mn in ('sxtb', 'sxth', 'sxtw', 'uxtb', 'uxth', 'uxtw'):
        s = {'b': 7, 'h': 15, 'w': 31}[mn[3]]
        if mn[0] == 's': return Spec([In('sbfm', sf=sf, rd=regw(o[0]), rn=regw(o[1]), immr=(6, 0), imms=(6, s))])
        w = [In('ubfm', rd=regw(o[0]), rn=regw(o[1]), immr=(6, 0), imms=(6, s))]
        if mn == 'uxtw': w = [In('ubfm', sf=1, **w[0].f), In('orr', sf=0, rd=regw(o[0]), rn=('x', 31), rm=regw(o[1]), sh='lsl', amt=(8, 0))]
        return Spec(w)
    if mn in LD or mn in ('ldr', 'str'):
        store = mn[:2] == 'st'
        fp = o[0][0] in 'sd'
        kw = dict(v=int(fp), rt=('x', o[0][1]))
        if mn in ('ldr', 'str'): size = 8 if sf else 4; sg = 0
        else: size, sg = LD[mn]
        kw['size'] = size
        kw['sx'] = 0 if not sg else (64 if sf else 32)
        m = 'st' if store else 'ld'
        lg = size.bit_length() - 1
        a = o[1]
        if a[0] == 'ind':
            kw['rn'] = ('b', a[1])
            if a[2] == 'lab': return Spec([In(m, mode='uimm', off=(64, 0), **kw)], may=True)   # references: C06
            off = a[2] if a[2] is not None else 0
            if a[3]: return Spec([In(m, mode={1: 'pre', 2: 'post'}[a[3]], off=(64, off), **kw)], accept=[(off, -256, 255, 0)])
            # two disjoint regions that must be accepted
            return Spec([In(m, mode={'uimm', 'unscaled'}, off=(64, off), **kw)], accept=[('or', (off, -256, -1, 0), (off, 0, 4095 << lg, lg))])
        _, base, idx, ix, e, sc = a
        ext = ROIX[e]
        kw['rn'] = ('b', base); kw['rm'] = ('x', idx)
        amt = sc if sc is not None else 0
        ill = []
        if sc is not None: ill = [('or', (sc, 0, 0, 0), (sc, lg, lg, 0))]
        never = None
        may = False
        if ix == 'W' and ext not in ('sxtw', 'uxtw'): never = 'a W index register needs sxtw or uxtw'
        if ix == 'X' and ext in ('sxtw', 'uxtw'): may = True
        if ext == 'lsl' and sc is None: may = True
        return Spec([In(m, mode='reg', ext=ext if ext in ('sxtw', 'uxtw') else 'x', amt=(8, trunc(amt, 64, 8)), **kw)], accept=list(ill), illegal=ill, never=never, may=may)
    if mn in ('ldp', 'stp'):
        fp = o[0][0] in 'sd'
        size = 8 if sf else 4; lg = 3 if sf else 2
        a = o[2]
        off = a[2] if a[2] is not None else 0
        if off == 'lab': return Spec([], may=True, never='a label is not an ldp/stp offset')
        mode = {0: 'off', 1: 'pre', 2: 'post'}[a[3]]
        return Spec([In(mn, v=int(fp), size=size, rt=('x', o[0][1]), rt2=('x', o[1][1]), rn=('b', a[1]), off=(64, off), mode=mode)],
                    accept=[(off, -64 << lg, 63 << lg, lg)])
    if mn == 'adrp':
        return Spec([In('adrp', rd=regw(o[0]), imm=(64, 0))], may=o[1][0] != 'lab', never=None)
    if mn == 'cset':
        c = zext(o[1][1], 4, 64)
        return Spec([In('csinc', sf=sf, rd=regw(o[0]), rn=('x', 31), rm=('x', 31), cond=(4, xor_(o[1][1], 1, 4)))], accept=[(c, 0, 13, 0)], illegal=[(c, 0, 13)])
    if mn == 'b': return Spec([In('b', imm=(64, 0))], may=o[0][0] != 'lab')
    if mn == 'bl': return Spec([In('bl', imm=(64, 0))], may=o[0][0] != 'lab')
    if mn[:1] == 'b' and mn[1:] in COND: return Spec([In('b.cond', cond=(4, COND.index(mn[1:])), imm=(64, 0))], may=o[0][0] != 'lab')
    if mn in ('br', 'blr'): return Spec([In(mn, rn=regw(o[0]))])
    if mn == 'ret': return Spec([In('ret', rn=('x', 30))])
    if mn == 'svc': return Spec([In('svc', imm=(64, o[0][1]))], accept=[(o[0][1], 0, 65535, 0)])
    if mn in ('fmov', 'fneg', 'fsqrt'): return Spec([In(mn, ty=sf, rd=('x', o[0][1]), rn=('x', o[1][1]))])
    if mn in ('fadd', 'fsub', 'fmul', 'fdiv'): return Spec([In(mn, ty=sf, rd=('x', o[0][1]), rn=('x', o[1][1]), rm=('x', o[2][1]))])
    if mn == 'fcmp': return Spec([In('fcmp', ty=sf, rn=('x', o[0][1]), rm=('x', o[1][1]))])
    if mn in ('scvtf', 'ucvtf'): return Spec([In(mn, sf=sfof(o[1]), ty=sf, rd=('x', o[0][1]), rn=('x', o[1][1]))])
    if mn in ('fcvtzs', 'fcvtzu'): return Spec([In(mn, sf=sf, ty=sfof(o[1]), rd=('x', o[0][1]), rn=('x', o[1][1]))])
    if mn == 'fcvt': return Spec([In('fcvt', src=sfof(o[1]), dst=sf, rd=('x', o[0][1]), rn=('x', o[1][1]))])
    return None

def parts_of(g, c):
    """partition of g by a range condition"""
    if c[0] == 'or':
        out = []
        for g2, y in parts_of(g, c[1]):
            if y: out.append((g2, True))
            else: out += parts_of(g2, c[2])
        return out
    val, lo, hi, al = c if len(c) == 4 else c + (0,)
    out = []
    for g2, ge in splitbit(g, cmpbit(g, 'sge', val, lo & M64, 64)):
        if not ge: out.append((g2, False)); continue
        for g3, le in splitbit(g2, cmpbit(g2, 'sle', val, hi & M64, 64)):
            if not le: out.append((g3, False)); continue
            if not al: out.append((g3, True)); continue
            for g4, eq in spliteq(g3, fld_lo(g3, val, al), 0, al): out.append((g4, eq))
    return out
def fld_lo(g, v, n):
    v = g.resolve(v, 64) if v.__class__ is not int else v
    return trunc(v, 64, n)

def match(want, got):
    if want.m != got.m: return False
    for k, v in want.f.items():
        if v.__class__ is tuple: continue
        g = got.f.get(k)
        if (g not in v) if v.__class__ is set else g != v: return False
    return True

def compare(g, got, sp, mn):
    c = [w for w in sp.wants if match(w, got)] or sp.wants[:1]
    w = In(c[0].m, **c[0].f)
    obs = []
    b = w.f.get('rn')
    if b and b[0] == 'b':
        del w.f['rn']
        if 'rn_sp' in got.f: obs.append(Eq(g, got.f['rn_sp'][1], b[1], 5, '%s: wrong base register (%r)' % (mn, got)))
    return obs + V.compare(g, got, w, mn)

def run():
    chk = Check('C02', 'Abstract interpretation of the AArch64 encoder (assemble_inst and everything it calls, LLVM IR of the working tree) on every row of the '
                'instruction tables x operand form with abstract register numbers, immediates, offsets and scales; every resulting word is decoded with an independent '
                'A64 model and compared with the written instruction; operands outside the encodable range must be refused; operand texts are parsed abstractly.')
    chk.minimum = 150
    A = Asm('aarch64', chk)
    rows = A.rows()
    unknown = []
    only = os.environ.get('ONLY')
    for mn, op, fl in rows:
        if only and mn != only: continue
        fl = [f for f in fl if f]
        def alternatives(f, mn=mn):
            if f == IMM and mn == 'lsl':     # one instance per amount: the two fields are arithmetic functions of it
                return [('imm', 'imm %d' % n, n) for n in list(range(-2, 68)) + [127, 128, 4095, 4096, -64, -4096, 1 << 32, (1 << 32) + 1, -(1 << 63)]]
            return alts(f)
        for combo in itertools.product(*[alternatives(f) for f in fl]):
            kinds = [c[0] for c in combo]
            key = 'aarch64 ' + mn + ' ' + ','.join(c[1] for c in combo)
            inputs = {}
            for j, c in enumerate(combo):
                if c[0] in 'wxsd': inputs['r%d' % j] = 5
                elif c[0] == 'imm' and len(c) > 2: pass
                elif c[0] in ('imm', 'expnum'): inputs['imm'] = 64
                elif c[0] == 'ind':
                    inputs['base'] = 5
                    if c[2] == 'ofs': inputs['ofs'] = 64
                elif c[0] == 'roi':
                    inputs['base'] = 5; inputs['index'] = 5
                    if c[4]: inputs['scale'] = 64
                elif c[0] == 'cond': inputs['cond'] = 4
                elif c[0] == 'ext': inputs['amt'] = 32
            if inputs.get('r0') and mn in LD and combo[0][0] not in 'wx': continue
            def analyse(v, combo=combo, op=op, mn=mn, key=key):
                ops = []
                def setup(setf, fix, lab, st):
                    E = A.T.enums
                    for j, c in enumerate(combo):
                        p = 'opr[%d].' % j
                        k = c[0]
                        if k in ('w', 'x', 's', 'd', 'sp'):
                            setf(p + 'type', E['FREG'] if k in 'sd' else E['REG'])
                            setf(p + 'reg.size', E['REG32'] if k in 'ws' else E['REG64'])
                            if k == 'sp': setf(p + 'reg.no', 31); setf(p + 'reg.sp', 1); ops.append(('sp', 31))
                            else: setf(p + 'reg.no', zext(v['r%d' % j], 5, 8)); setf(p + 'reg.sp', 0); ops.append((k, v['r%d' % j]))
                        elif k == 'imm':
                            n = c[2] & M64 if len(c) > 2 else v['imm']
                            setf(p + 'type', E['IMMEDIATE']); setf(p + 'immediate', n); ops.append(('imm', n))
                        elif k == 'expnum':
                            setf(p + 'type', E['DIRECT']); setf(p + 'direct.expr.expr', fix('e', v['imm'])); ops.append(('expnum', v['imm']))
                        elif k == 'lab':
                            setf(p + 'type', E['DIRECT']); setf(p + 'direct.expr.expr', lab('l')); ops.append(('lab',))
                            if mn in ('add', 'sub'): setf(p + 'direct.expr.flag', 2)
                        elif k == 'ind':
                            setf(p + 'type', E['INDIRECT']); setf(p + 'indirect.reg.size', E['REG64']); setf(p + 'indirect.reg.no', zext(v['base'], 5, 8))
                            setf(p + 'indirect.prepost', c[3])
                            if c[2] == 'ofs': setf(p + 'indirect.offset.expr', fix('o', v['ofs'])); ops.append(('ind', v['base'], v['ofs'], c[3]))
                            elif c[2] == 'lab':
                                setf(p + 'indirect.offset.expr', lab('l')); setf(p + 'indirect.offset.flag', 2); ops.append(('ind', v['base'], 'lab', c[3]))
                            else: ops.append(('ind', v['base'], None, 0))
                        elif k == 'roi':
                            setf(p + 'type', E['REGISTER_OFFSET'])
                            q = p + 'register_offset.'
                            setf(q + 'base_reg.size', E['REG64']); setf(q + 'base_reg.no', zext(v['base'], 5, 8))
                            setf(q + 'index_reg.size', E['REG64'] if c[2] == 'X' else E['REG32']); setf(q + 'index_reg.no', zext(v['index'], 5, 8))
                            setf(q + 'extend', c[3])
                            if c[4]: setf(q + 'scale', fix('s', v['scale']))
                            ops.append(('roi', v['base'], v['index'], c[2], c[3], v['scale'] if c[4] else None))
                        elif k == 'cond': setf(p + 'type', E['COND']); setf(p + 'cond', zext(v['cond'], 4, 32)); ops.append(('cond', v['cond']))
                        elif k == 'sft': setf(p + 'type', E['SHIFT']); setf(p + 'immediate', c[2]); ops.append(('sft', c[2]))
                        elif k == 'ext':
                            setf(p + 'type', E['EXTEND']); setf(p + 'extend.option', c[2]); setf(p + 'extend.imm', v['amt']); ops.append(('ext', c[2], v['amt']))
                I, res = A.encode(op, setup)
                sp = spec(mn, ops)
                obs = []
                for b in I.bad: obs.append(Fail(b[2].facts, '%s access at %s' % (b[0], b[1])))
                runs = [(s.facts, bs, 'diagnosed') for s, bs in res] + [(s.facts, None, 'assertion %s at %s' % (txt, loc)) for s, loc, txt in I.assert_fail]
                for facts, bs, why in runs:
                    if bs is None:
                        if sp.never or sp.may: obs.append(Ok()); continue
                        ps = [(facts, True)]
                        for c in sp.accept:
                            ps = [(g2, y and z) for g, y in ps for g2, z in (parts_of(g, c) if y else [(g, False)])]
                        for g, y in ps:
                            obs.append(Fail(g, '%s: legal operands are rejected (%s)' % (mn, why)) if y else Ok())
                        continue
                    if len(bs) != 4:
                        obs.append(Fail(facts, '%s: %d bytes are emitted' % (mn, len(bs)))); continue
                    w = cat_bytes(bs)
                    if sp.never:
                        for g, got in V.decode(facts, w): obs.append(Fail(g, '%s: %s, but it is accepted and encodes %r' % (mn, sp.never, got)))
                        continue
                    ps = [(facts, True)]
                    for c in sp.illegal:
                        ps = [(g2, y and z) for g, y in ps for g2, z in (parts_of(g, c) if y else [(g, False)])]
                    for g, y in ps:
                        for g2, got in V.decode(g, w):
                            if not y: obs.append(Fail(g2, '%s: operand outside its range is accepted and encodes %r' % (mn, got)))
                            else: obs += compare(g2, got, sp, mn)
                return obs
            dummy = {n: 0 for n in inputs}
            try:
                if spec(mn, [mkop(c, dummy, j) for j, c in enumerate(combo)]) is None:
                    unknown.append(mn); continue
            except Exception as e:
                chk.undecide(key, repr(e)); continue
            hints = {'imm': [0, 1, -1, 31, 32, 33, 63, 64, 65, 4095, 4096, -4095, -4096, 65535, 65536, -65536, -65537, (1 << 32) - 1, 1 << 32, -(1 << 31)],
                     'ofs': [0, 1, -1, 4, 8, 255, 256, -256, -257, 252, 504, 511, 512, -512, 3, 5, 4095, 4096, 8190, 16380, 32760, 32768, 128, 124],
                     'scale': [0, 1, 2, 3, 4], 'amt': [0, 1, 4, 5, 31, 32, 63, 64, -1, 8], 'r0': [31, 0, 5], 'r1': [31, 0, 5]}
            chk.decide(key, inputs, analyse, hints=hints)
    chk.notes['rows'] = len(rows)
    chk.notes['mnemonics_without_model'] = sorted(set(unknown))
    if not only: names(chk, A)
    return chk.finish()

def mkop(c, v, j):
    k = c[0]
    if k in ('w', 'x', 's', 'd', 'sp'): return (k, 0)
    if k in ('imm', 'expnum'): return (k, 0)
    if k == 'ind': return ('ind', 0, 'lab' if c[2] == 'lab' else (0 if c[2] else None), c[3])
    if k == 'roi': return ('roi', 0, 0, c[2], c[3], 0 if c[4] else None)
    if k == 'cond': return ('cond', 0)
    if k == 'sft': return ('sft', c[2])
    if k == 'ext': return ('ext', c[2], 0)
    return (k,)

def cat_bytes(bs):
    bits = ()
    for b in bs: bits += tuple(bits_of(b, 8))[:8]
    return mk(bits)

def names(chk, A):
    E = A.T.enums
    def one(key, text, flags, expect):
        chk.instances += 1
        try: res = A.parse_text(text, flags)
        except Undecided as e: chk.undecide(key, str(e)); return
        for st, r, rd, p, I in res:
            chk.obl += 1
            err = any(e[0] == 'error' for e in st.ev) or not r
            why = expect(r, rd, p, err, I, st)
            if why: chk.violation(key, why)
            else: chk.proved += 1
    def fixnum(I, st, e): return signed(I.load(st, Ptr(e.obj, A.T.field('Expr', 'fixnum')[0]), ll.I(64)), 64) if e.__class__ is Ptr else None
    regs = []
    for i in range(31): regs += [('x%d' % i, R64, i, 1), ('w%d' % i, R32, i, 0)]
    regs += [('xzr', R64, 31, 1), ('wzr', R32, 31, 0), ('fp', R64, 29, 1), ('lr', R64, 30, 1), ('sp', RSP, 31, 1)]
    for i in range(32): regs += [('s%d' % i, F32, i, 0), ('d%d' % i, F64, i, 1)]
    allr = R32 | R64 | F32 | F64
    for n, flag, no, is64 in regs:
        for t in (n, n.upper()):
            def ex(r, rd, p, err, I, st):
                if err or r != flag or rd('reg.no') != no or rd('reg.size') != (E['REG64'] if is64 else E['REG32']) or rd('reg.sp') != (1 if flag == RSP else 0) \
                   or rd('type') != (E['FREG'] if flag in (F32, F64) else E['REG']) or p.off != len(n):
                    return '%s is parsed as number %s size %s sp %s (flags %s)' % (t, rd('reg.no'), rd('reg.size'), rd('reg.sp'), r)
            one('aarch64 operand ' + t, t + ', x', allr, ex)
        if flag in (F32, F64): continue
        if is64:
            for text, off, pp in (('[%s]' % n, None, 0), ('[%s, #-16]' % n, -16, 0), ('[%s, #24]!' % n, 24, 1), ('[%s], #-32' % n, -32, 2)):
                def ei(r, rd, p, err, I, st):
                    if n == 'xzr': return None if err else '%s is accepted (xzr cannot be a base)' % text
                    if err or r != IND or rd('indirect.reg.no') != no or rd('indirect.prepost') != pp or fixnum(I, st, rd('indirect.offset.expr')) != off or p.off != len(text):
                        return '%s is parsed as base %s offset %s mode %s' % (text, rd('indirect.reg.no'), fixnum(I, st, rd('indirect.offset.expr')), rd('indirect.prepost'))
                one('aarch64 operand ' + text, text, IND | ROI, ei)
            text = '[%s, x3, lsl #3]' % n
            def eb(r, rd, p, err, I, st):
                q = 'register_offset.'
                if n == 'xzr': return None if err else '%s is accepted (xzr cannot be a base)' % text
                if err or r != ROI or rd(q + 'base_reg.no') != no or rd(q + 'index_reg.no') != 3 or rd(q + 'extend') != 3 or fixnum(I, st, rd(q + 'scale')) != 3:
                    return '%s is parsed as base %s index %s extend %s' % (text, rd(q + 'base_reg.no'), rd(q + 'index_reg.no'), rd(q + 'extend'))
            one('aarch64 operand ' + text, text, IND | ROI, eb)
        for e, nm in enumerate(ROIX):
            for sc in ((None,) if not e else (None, 2)):
                text = '[x7, %s%s%s]' % (n, ', ' + nm if e else '', ' #2' if sc else '')
                def ex(r, rd, p, err, I, st):
                    q = 'register_offset.'
                    if n == 'sp': return None if err else '%s is accepted (sp cannot be an index)' % text
                    if err and ((nm == 'lsl' and sc is None) or (not is64 and nm not in ('sxtw', 'uxtw')) or (is64 and nm in ('sxtw', 'uxtw'))): return None
                    if err or r != ROI or rd(q + 'base_reg.no') != 7 or rd(q + 'index_reg.no') != no or rd(q + 'index_reg.size') != (E['REG64'] if is64 else E['REG32']) \
                       or rd(q + 'extend') != e or fixnum(I, st, rd(q + 'scale')) != sc or p.off != len(text):
                        return '%s is parsed as base %s index %s extend %s scale %s' % (text, rd(q + 'base_reg.no'), rd(q + 'index_reg.no'), rd(q + 'extend'), fixnum(I, st, rd(q + 'scale')))
                one('aarch64 operand ' + text, text, IND | ROI, ex)
    for i, c in enumerate(COND):
        def ec(r, rd, p, err, I, st):
            if err or r != CND or rd('cond') != i: return 'condition %s is parsed as %s' % (c, rd('cond'))
        one('aarch64 condition ' + c, c, CND, ec)
    for i, nm in enumerate(EXTN):
        for amt in (None, 0, 3, 4294967296, -1):
            text = nm if amt is None else '%s #%d' % (nm, amt)
            def ee(r, rd, p, err, I, st):
                if amt is None and i >= 8: return None if err else '%s without an amount is accepted' % text
                if amt not in (None, 0, 3):
                    a = rd('extend.imm')
                    return None if err or signed(a, 32) == amt else '%s is parsed as amount %s' % (text, a)
                if err or r != EXT or rd('extend.option') != i or rd('extend.imm') != (amt or 0) or p.off != len(text):
                    return '%s is parsed as option %s amount %s' % (text, rd('extend.option'), rd('extend.imm'))
            one('aarch64 operand ' + text, text, EXT, ee)
    for a in (0, 16, 32, 48, 8, 64, -16):
        text = 'lsl #%d' % a
        def es(r, rd, p, err, I, st):
            if a not in (0, 16, 32, 48): return None if err else '%s is accepted for movk' % text
            if err or r != SFT or rd('immediate') != a: return '%s is parsed as %s' % (text, rd('immediate'))
        one('aarch64 movk shift ' + text, text, SFT, es)
    for a in (0, 1, -1, 4095, (1 << 31), -(1 << 31), (1 << 63) - 1, -(1 << 63)):
        text = '#%d' % a
        def em(r, rd, p, err, I, st):
            if err or r != IMM or signed(rd('immediate'), 64) != a: return '%s is parsed as %s' % (text, rd('immediate'))
        one('aarch64 immediate ' + text, text, IMM, em)
    for text, fl in ((':lo12:foo', 2), (':got:foo', 5), (':got_lo12:foo', 6), ('foo', 0)):
        def el(r, rd, p, err, I, st):
            if err or r != EXP or rd('direct.expr.flag') != fl: return '%s is parsed with flags %s' % (text, rd('direct.expr.flag'))
        one('aarch64 label ' + text, text, EXP, el)

if __name__ == '__main__': main(run)
