"""The meaning of each IR operation, written once for all machines."""
from isel import *

BIN = ['ADD', 'SUB', 'MUL', 'DIV', 'MOD', 'BITAND', 'BITOR', 'BITXOR', 'LSHIFT', 'RSHIFT']
FN = {'ADD': add, 'SUB': sub, 'MUL': mul, 'BITAND': and_, 'BITOR': or_, 'BITXOR': xor_}
SIGNEDC = {'eq': 'eq', 'ne': 'ne', 'lt': 'slt', 'le': 'sle', 'ge': 'sge', 'gt': 'sgt'}
UNSC = {'eq': 'eq', 'ne': 'ne', 'lt': 'ult', 'le': 'ule', 'ge': 'uge', 'gt': 'ugt'}

def low(v, size): return trunc(v, 64, 8 * size)

def spec_bin(kind, a, b, w, uns):
    if kind in FN: return FN[kind](a, b, w)
    if kind == 'DIV': return (udiv if uns else sdiv)(a, b, w)
    if kind == 'MOD': return (urem if uns else srem)(a, b, w)

def const_range(size):
    w = 8 * size
    if size == 8: return None
    return ((0, (1 << w) - 1), ((1 << 64) - (1 << (w - 1)), (1 << 64) - 1))

def assume_const(f, v, size, ranges=None):
    r = ranges or const_range(size)
    if r is None: return True
    if v.__class__ is int: return any(lo <= v <= hi for lo, hi in r)
    if f.restrict(v, 64, r) is False: return False
    if not ranges: signfit(f, v, (1 << 8 * size) - 1)

class Ops:
    """enumerates the operations of one machine; minsize: smallest size arithmetic happens at"""
    def __init__(self, sel, chk, limit, arith, shifts, muls, cmps):
        self.sel = sel; self.chk = chk; self.limit = limit
        self.arith = arith; self.shifts = shifts; self.muls = muls; self.cmps = cmps
        self.jobs = []
    def go(self, name, inputs, build_, oracle, hints=None, assume=None, limit=None, frame=False):
        def analyse(vals):
            return self.sel.run(vals, build_, oracle, limit or self.limit, frame=frame, assume=assume, seed=self.chk.seed)
        self.jobs.append(lambda: self.chk.decide(name, inputs, analyse, hints=hints))
    def val(self, vals, n, size):
        return low(self.sel.cfg.operand(self.sel, n, size, False, vals), size)

    # ---- binary operations
    def binops(self):
        for kind in BIN:
            sizes = self.muls if kind in ('MUL', 'DIV', 'MOD') else self.shifts if 'SHIFT' in kind else self.arith
            for size in sizes:
                for uns in ((0, 1) if kind in ('DIV', 'MOD', 'RSHIFT', 'MUL', 'ADD', 'SUB', 'LSHIFT') else (0,)):
                    for form in ('reg', 'const', 'same', 'constl'):
                        if form == 'same' and 'SHIFT' in kind: continue
                        if form == 'constl' and (kind not in ('SUB', 'LSHIFT', 'RSHIFT', 'DIV', 'MOD') or not self.sel.cfg.constl): continue
                        self.bin(kind, size, uns, form)
    def bin(self, kind, size, uns, form):
        sel = self.sel; w = 8 * size; sh = 'SHIFT' in kind
        kw = 6 if size == 8 else 5
        def shamt(vals):
            k = vals['k']
            return zext(k, kw, 64)
        def build_(I, st, vals):
            x = sel.const(I, st, size, vals['a']) if form == 'constl' else sel.vreg(I, st, size)
            if form == 'same': y = x
            elif form == 'const': y = sel.const(I, st, size, shamt(vals) if sh else vals['c'])
            else: y = sel.vreg(I, st, size)
            d = sel.vreg(I, st, size)
            sel.push(I, st, sel.ir(st, kind, uns, d, x, y))
            opr = {}
            if form != 'constl': opr['a'] = (x, size, False)
            if form in ('reg', 'constl'): opr['b'] = (y, size, False)
            return dict(operands=opr, dst=(d, size, False), vals=vals)
        def oracle(sel_, m, dreg, case):
            vals = case['vals']
            f = m.f
            a = low(vals['a'], size) if form == 'constl' else self.val(vals, 'a', size)
            a = f.resolve(a, w)
            got = res(sel, m, dreg, size, False)
            if sh:
                k = f.resolve(vals['k'], kw)
                want = vshift(f, 'shl' if kind == 'LSHIFT' else 'lshr' if uns else 'ashr', a, k, w, kw)
            else:
                b = a if form == 'same' else low(vals['c'], size) if form == 'const' else self.val(vals, 'b', size)
                b = f.resolve(b, w)
                want = spec_bin(kind, a, b, w, uns)
            out = [Eq(f, got, want, w, 'IR_%s of size %d%s computes the wrong value' % (kind, size, ' (unsigned)' if uns else ''))]
            out += sel.cfg.canon(sel, m, dreg, size, uns)
            if no_stores(m): out.append(Fail(f, 'the operation writes memory'))
            if m.out is not None: out.append(Fail(f, 'the operation jumps away'))
            return out
        def assume(f, vals):
            if form == 'const' and not sh:
                if assume_const(f, vals['c'], size, sel.cfg.cranges(size, uns)) is False: return False
            if form == 'constl' and assume_const(f, vals['a'], size, sel.cfg.cranges(size, uns)) is False: return False
            if kind in ('DIV', 'MOD'):
                z = low(vals['c'], size) if form == 'const' else self.val(vals, 'b' if form != 'same' else 'a', size)
                if z.__class__ is int:
                    if z == 0: return False
                else:
                    f.restrict(z, w, ((1, (1 << w) - 1),))
            if sh and size * 8 < (1 << kw) and size >= 4:
                k = vals['k']
                if k.__class__ is int: return k < w
                f.restrict(k, kw, ((0, w - 1),))
        inputs = {'a': 64}
        hints = {'a': IHINT(64) + IHINT(32) + IHINT(w)}
        if form == 'const' and not sh:
            inputs['c'] = 64
            hints['c'] = [0, 1, M64, 5, M64 - 5, 127, 128, M64 - 127, M64 - 128, 2047, 2048, M64 - 2047, M64 - 2048, 4095, 4096, 4097, 0xfff000, 0x1000000,
                          M64 - 4095, M64 - 4094, M64 - 4096, 0xff, 0xffff, 0xffff0000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, M64 - 0x7fffffff, M64 - 0x80000000, 0x123456789abcdef0]
        if sh: inputs['k'] = kw
        elif form in ('reg', 'constl'): inputs['b'] = 64; hints['b'] = IHINT(64) + IHINT(w)
        if sh and form in ('reg', 'constl'):
            sel.cfg.kwidth = kw
        name = '%s %s%d %s' % (sel.arch, kind, size, {'reg': 'reg,reg', 'const': 'reg,const', 'same': 'reg,same reg', 'constl': 'const,reg'}[form]) + (' unsigned' if uns else '')
        self.go(name, inputs, build_, oracle, hints, assume)

    def fbinops(self):
        for kind in ('ADD', 'SUB', 'MUL', 'DIV'):
            for size in (4, 8):
                for form in ('reg', 'same', 'const', 'constl'): self.fbin(kind, size, form)
    def fconst(self, I, st, size):
        """a floating constant: (vreg, label)"""
        sel = self.sel
        v = sel.call(I, st, 'new_const_vfreg', [fp.x80(1234.5), VSZ[size]])
        nm = I.load(st, Ptr(v.obj, v.off + sel.T.field('VReg', 'flonum')[0] + 8), ll.PTR)
        return v, sel.name(I, st, nm)
    def fbin(self, kind, size, form):
        sel = self.sel; w = 8 * size
        def build_(I, st, vals):
            cl = None
            if form == 'constl': x, cl = self.fconst(I, st, size)
            else: x = sel.vreg(I, st, size, True)
            if form == 'same': y = x
            elif form == 'const': y, cl = self.fconst(I, st, size)
            else: y = sel.vreg(I, st, size, True)
            d = sel.vreg(I, st, size, True)
            sel.push(I, st, sel.ir(st, kind, 0, d, x, y))
            opr = {}
            if form != 'constl': opr['a'] = (x, size, True)
            if form in ('reg', 'constl'): opr['b'] = (y, size, True)
            return dict(operands=opr, dst=(d, size, True), vals=vals, cl=cl)
        def oracle(sel_, m, dreg, case):
            f = m.f; vals = case['vals']
            c = mk(atom('mem', (label_addr(case['cl']), size), w).bits) if case['cl'] else None
            a = c if form == 'constl' else f.resolve(trunc(vals['a'], 64, w), w)
            b = a if form == 'same' else c if form == 'const' else f.resolve(trunc(vals['b'], 64, w), w)
            return [Eq(f, res(sel, m, dreg, size, True), fbin('f' + kind.lower(), a, b, w), w, 'floating IR_%s of size %d is wrong' % (kind, size))] \
                + sel.cfg.canonf(sel, m, dreg, size)
        inp = {}
        if form != 'constl': inp['a'] = 64
        if form in ('reg', 'constl'): inp['b'] = 64
        self.go('%s F%s%d %s' % (sel.arch, kind, size, form), inp, build_, oracle, {'a': FHINT[w], 'b': FHINT[w]})

    # ---- unary
    def unops(self):
        for kind in ('NEG', 'BITNOT'):
            for size in self.arith:
                for uns in (0, 1): self.un(kind, size, uns)
        for size in (4, 8): self.fneg(size)
    def un(self, kind, size, uns):
        sel = self.sel; w = 8 * size
        def build_(I, st, vals):
            x = sel.vreg(I, st, size); d = sel.vreg(I, st, size)
            sel.push(I, st, sel.ir(st, kind, uns, d, x))
            return dict(operands={'a': (x, size, False)}, dst=(d, size, False), vals=vals)
        def oracle(sel_, m, dreg, case):
            a = m.f.resolve(self.val(case['vals'], 'a', size), w)
            want = neg(a, w) if kind == 'NEG' else not_(a, w)
            return [Eq(m.f, res(sel, m, dreg, size, False), want, w, 'IR_%s of size %d is wrong' % (kind, size))] + sel.cfg.canon(sel, m, dreg, size, uns)
        self.go('%s %s%d%s' % (sel.arch, kind, size, ' unsigned' if uns else ''), {'a': 64}, build_, oracle, {'a': IHINT(w) + IHINT(64)})
    def fneg(self, size):
        sel = self.sel; w = 8 * size
        def build_(I, st, vals):
            x = sel.vreg(I, st, size, True); d = sel.vreg(I, st, size, True)
            sel.push(I, st, sel.ir(st, 'NEG', 0, d, x))
            return dict(operands={'a': (x, size, True)}, dst=(d, size, True), vals=vals)
        def oracle(sel_, m, dreg, case):
            a = m.f.resolve(trunc(case['vals']['a'], 64, w), w)
            return [Eq(m.f, res(sel, m, dreg, size, True), xor_(a, 1 << (w - 1), w), w, 'negating a float of size %d is wrong' % size)] + sel.cfg.canonf(sel, m, dreg, size)
        self.go('%s FNEG%d' % (sel.arch, size), {'a': 64}, build_, oracle, {'a': FHINT[w]})

    # ---- moves
    def movs(self):
        sel = self.sel
        for size in (1, 2, 4, 8):
            for c in (False, True):
                for kind in ('MOV', 'RESULT'):
                    for uns in (0, 1): self.mov(kind, size, False, c, uns)
        for size in (4, 8):
            for c in (False, True):
                for kind in ('MOV', 'RESULT'): self.mov(kind, size, True, c, 0)
    def mov(self, kind, size, flo, c, uns):
        sel = self.sel; w = 8 * size
        def build_(I, st, vals):
            cl = None
            if not c: x = sel.vreg(I, st, size, flo)
            elif flo: x, cl = self.fconst(I, st, size)
            else: x = sel.const(I, st, size, vals['c'])
            d = sel.vreg(I, st, size, flo) if kind == 'MOV' else 0
            sel.push(I, st, sel.ir(st, kind, uns, d, x))
            r = dict(operands={} if c else {'a': (x, size, flo)}, dst=(d, size, flo) if d else None, vals=vals, cl=cl)
            if kind == 'RESULT': r['clobber'] = [sel.cfg.retreg(flo)]
            return r
        def oracle(sel_, m, dreg, case):
            vals = case['vals']
            if c and flo: v = mk(atom('mem', (label_addr(case['cl']), size), w).bits)
            else: v = trunc(vals['c'], 64, w) if c else self.val(vals, 'a', size) if not flo else trunc(vals['a'], 64, w)
            rg = dreg or sel.cfg.retreg(flo)
            return [Eq(m.f, res(sel, m, rg, size, flo), m.f.resolve(v, w), w, 'IR_%s of size %d is wrong' % (kind, size))] \
                + (sel.cfg.canonf(sel, m, rg, size) if flo else sel.cfg.canon(sel, m, rg, size, uns))
        inp = {'c': 64} if c and not flo else {} if c else {'a': 64}
        def assume(f, vals):
            if c and not flo: return assume_const(f, vals['c'], size, sel.cfg.cranges(size, uns))
        self.go('%s %s%s%d %s%s' % (sel.arch, kind, 'f' if flo else '', size, 'const' if c else 'reg', ' unsigned' if uns else ''), inp, build_, oracle,
                {'c': CH, 'a': IHINT(w)}, assume, limit=0 if kind == 'MOV' and not c and self.chk.tier != 'quick' else None)

    # ---- casts
    def casts(self):
        for s in (1, 2, 4, 8):
            for d in (1, 2, 4, 8):
                if s == d: continue
                for uns in (0, 1): self.cast(s, d, uns)
        for s in (1, 2, 4, 8):
            for d in (4, 8):
                for uns in (0, 1): self.cast_if(s, d, uns); self.cast_fi(d, s, uns)
        self.cast_ff(4, 8); self.cast_ff(8, 4)
    def cast(self, s, d, uns):
        """flag unsigned: for widening the operand's signedness, for narrowing the result's"""
        sel = self.sel
        def build_(I, st, vals):
            x = sel.vreg(I, st, s); y = sel.vreg(I, st, d)
            sel.push(I, st, sel.ir(st, 'CAST', uns, y, x))
            return dict(operands={'a': (x, s, False)}, dst=(y, d, False), vals=vals)
        def oracle(sel_, m, dreg, case):
            a = m.f.resolve(self.val(case['vals'], 'a', s), 8 * s)
            want = trunc(a, 8 * s, 8 * d) if d < s else (zext if uns else sext)(a, 8 * s, 8 * d)
            return [Eq(m.f, res(sel, m, dreg, d, False), want, 8 * d, 'conversion from %d to %d bytes is wrong' % (s, d))] + sel.cfg.canon(sel, m, dreg, d, uns)
        self.go('%s CAST %d->%d%s' % (sel.arch, s, d, ' unsigned' if uns else ''), {'a': 64}, build_, oracle, {'a': IHINT(64) + IHINT(8 * s) + IHINT(8 * d)})
    def cast_if(self, s, d, uns):
        sel = self.sel; w = 8 * s
        def build_(I, st, vals):
            x = sel.vreg(I, st, s); y = sel.vreg(I, st, d, True)
            sel.push(I, st, sel.ir(st, 'CAST', uns, y, x))
            return dict(operands={'a': (x, s, False)}, dst=(y, d, True), vals=vals)
        def oracle(sel_, m, dreg, case):
            a = m.f.resolve(self.val(case['vals'], 'a', s), w)
            want = i2fx(m.f, a, w, not uns, 8 * d)
            got = res(sel, m, dreg, d, True)
            got = rounding(m.f, got, want, 8 * d)
            return [Eq(m.f, got, want, 8 * d, 'conversion of a %d-byte integer to a %d-byte float is wrong' % (s, d))] + sel.cfg.canonf(sel, m, dreg, d)
        self.go('%s CAST i%d->f%d%s' % (sel.arch, s, d, ' unsigned' if uns else ''), {'a': 64}, build_, oracle, {'a': IHINT(64) + IHINT(w)})
    def cast_fi(self, s, d, uns):
        sel = self.sel; w = 8 * s
        def build_(I, st, vals):
            x = sel.vreg(I, st, s, True); y = sel.vreg(I, st, d)
            sel.push(I, st, sel.ir(st, 'CAST', uns, y, x))
            return dict(operands={'a': (x, s, True)}, dst=(y, d, False), vals=vals)
        lo, hi = (0, (1 << 8 * d) - 1) if uns else (-(1 << (8 * d - 1)), (1 << (8 * d - 1)) - 1)
        def assume(f, vals):
            x = trunc(vals['a'], 64, w)
            if x.__class__ is int:
                v = d2f(x, w)
                return v == v and abs(v) < 2.0 ** 65 and lo <= int(v) <= hi
            M = 1 << 66
            f.restrict(f2i(x, w), 66, ((0, hi),) if uns else ((0, hi), (M + lo, M - 1)))
        def oracle(sel_, m, dreg, case):
            x = trunc(case['vals']['a'], 64, w)
            if x.__class__ is int: want = int(d2f(x, w)) & ((1 << 8 * d) - 1)
            else:
                t = f2i(x, w); want = m.f.resolve(trunc(t, 66, 8 * d), 8 * d)
                if uns and d == 8 and all(signed(a, 66) >= 1 << 63 and signed(a, 66) <= signed(b, 66) for a, b in m.f.range(m.f.resolve(t, 66), 66)):
                    # between 2^63 and 2^64 the integer is the mantissa, shifted into place
                    want = or_(shl(zext(x, w, 64), 11 if w == 64 else 40, 64), 1 << 63, 64)
            return [Eq(m.f, res(sel, m, dreg, d, False), want, 8 * d, 'conversion of a %d-byte float to a %d-byte %s integer is wrong' % (s, d, 'unsigned' if uns else 'signed'))] \
                + sel.cfg.canon(sel, m, dreg, d, uns)
        self.go('%s CAST f%d->i%d%s' % (sel.arch, s, d, ' unsigned' if uns else ''), {'a': 64}, build_, oracle, {'a': FHINT[w]}, assume)
    def cast_ff(self, s, d):
        sel = self.sel
        def build_(I, st, vals):
            x = sel.vreg(I, st, s, True); y = sel.vreg(I, st, d, True)
            sel.push(I, st, sel.ir(st, 'CAST', 0, y, x))
            return dict(operands={'a': (x, s, True)}, dst=(y, d, True), vals=vals)
        def oracle(sel_, m, dreg, case):
            a = trunc(case['vals']['a'], 64, 8 * s)
            return [Eq(m.f, res(sel, m, dreg, d, True), f2f(a, 8 * s, 8 * d), 8 * d, 'conversion between floats is wrong')] + sel.cfg.canonf(sel, m, dreg, d)
        self.go('%s CAST f%d->f%d' % (sel.arch, s, d), {'a': 64}, build_, oracle, {'a': FHINT[8 * s]})

    # ---- comparisons
    def conds(self):
        for cond in ('eq', 'ne', 'lt', 'le', 'ge', 'gt'):
            for size in self.cmps:
                for uns in (0, 1):
                    for form in ('reg', 'const', 'same'):
                        self.cmp('COND', cond, size, uns, form, False); self.cmp('JMP', cond, size, uns, form, False)
            for size in (4, 8):
                for form in ('reg', 'same', 'const'): 
                    self.cmp('COND', cond, size, 0, form, True); self.cmp('JMP', cond, size, 0, form, True)
    def cmp(self, kind, cond, size, uns, form, flo):
        sel = self.sel; w = 8 * size
        cv = sel.COND[cond] | (sel.COND['flonum'] if flo else sel.COND['unsigned'] if uns else 0)
        def build_(I, st, vals):
            cl = None
            x = sel.vreg(I, st, size, flo)
            if form == 'same': y = x
            elif form == 'const' and flo: y, cl = self.fconst(I, st, size)
            elif form == 'const': y = sel.const(I, st, size, vals['c'])
            else: y = sel.vreg(I, st, size, flo)
            d = sel.vreg(I, st, 4) if kind == 'COND' else 0
            ir = sel.ir(st, kind, uns, d, x, y)
            if kind == 'COND': I.store(st, Ptr(ir.obj, sel.irf['u']), ll.I(32), cv)
            else:
                I.store(st, Ptr(ir.obj, sel.irf['u']), ll.PTR, sel.bb2)
                I.store(st, Ptr(ir.obj, sel.irf['u'] + 8), ll.I(32), cv)
            sel.push(I, st, ir)
            opr = {'a': (x, size, flo)}
            if form == 'reg': opr['b'] = (y, size, flo)
            return dict(operands=opr, dst=(d, 4, False) if d else None, vals=vals, cl=cl)
        def oracle(sel_, m, dreg, case):
            f = m.f; vals = case['vals']
            if flo:
                a = f.resolve(trunc(vals['a'], 64, w), w)
                b = a if form == 'same' else mk(atom('mem', (label_addr(case['cl']), size), w).bits) if form == 'const' else f.resolve(trunc(vals['b'], 64, w), w)
                return self.frelcases(m, a, b, w, kind, cond, size, dreg)
            else:
                a = self.val(vals, 'a', size)
                b = a if form == 'same' else low(vals['c'], size) if form == 'const' else self.val(vals, 'b', size)
                want = ncmp(m.f0, (UNSC if uns else SIGNEDC)[cond], m.f0.resolve(a, w), m.f0.resolve(b, w), w)
                if form == 'const' and kind == 'COND' and sel.arch != 'x64': want = cmpsame(m.f, want, (UNSC if uns else SIGNEDC)[cond], a, b, w)
            want = f.rbit(want) if want.__class__ is Bit else want
            if kind == 'COND':
                got = res(sel, m, dreg, 4, False)
                out = [Eq(f, got, mk((want,) + (0,) * 31), 32, 'IR_COND %s of size %d is wrong' % (cond, size))] + sel.cfg.canon(sel, m, dreg, 4, 0)
                if m.out is not None: out.append(Fail(f, 'jumps away'))
                return out
            if m.out not in (None, sel.lab2): return [Fail(f, 'jumps to the wrong place (%s)' % (m.out,))]
            return [Eq(f, mk((want,)), 1 if m.out else 0, 1, 'the branch is %staken wrongly (%s, size %d)' % ('' if m.out else 'not ', cond, size))]
        def assume(f, vals):
            if form == 'const' and not flo: return assume_const(f, vals['c'], size, sel.cfg.cranges(size, uns))
        inp = {'a': 64}; h = {'a': FHINT[w] if flo else IHINT(w) + IHINT(64) + CH, 'c': CH, 'b': FHINT[w] if flo else IHINT(w) + IHINT(64) + CH}
        if form == 'reg': inp['b'] = 64
        if form == 'const' and not flo: inp['c'] = 64
        self.go('%s %s %s%s%d %s%s' % (sel.arch, kind, cond, ' f' if flo else ' ', size, form, ' unsigned' if uns else ''), inp, build_, oracle, h, assume)

    def frelcases(self, m, a, b, w, kind, cond, size, dreg):
        """one obligation per possible relation between the two operands"""
        sel = self.sel; out = []
        r0, r1 = frel(a, b, w)
        for x0 in (0, 1):
            for x1 in (0, 1):
                f = m.f.copy()
                if f.assume(f.rbit(r0), x0) is False or f.assume(f.rbit(r1), x1) is False: continue
                if f.rbit(r0) is not x0 or f.rbit(r1) is not x1 or not f.consistent(): continue
                want = fcond(f, cond, a, b, w)
                rel = {(0, 0): 'equal', (1, 0): 'less', (0, 1): 'greater', (1, 1): 'unordered'}[(x0, x1)]
                if kind == 'COND':
                    out.append(Eq(f, f.resolve(trunc(m.r[dreg], 64, 32), 32), mk((want,) + (0,) * 31), 32, 'IR_COND %s of floats of size %d is wrong for %s operands' % (cond, size, rel)))
                    if m.out is not None: out.append(Fail(f, 'jumps away'))
                else:
                    if m.out not in (None, sel.lab2): out.append(Fail(f, 'jumps to the wrong place (%s)' % (m.out,)))
                    else: out.append(Eq(f, mk((want,)), 1 if m.out else 0, 1, 'the branch on %s of floats is %staken for %s operands' % (cond, '' if m.out else 'not ', rel)))
        if kind == 'COND': out += sel.cfg.canon(sel, m, dreg, 4, 0)
        return out
    # ---- memory
    def mems(self):
        for size in (1, 2, 4, 8):
            for uns in (0, 1):
                for cst in (False, True): self.load(size, False, uns, cst)
                self.load_s(size, False, uns)
            for cv in (False, True):
                for cst in (False, True): self.store(size, False, cv, cst)
            self.store_s(size, False)
        for size in (4, 8):
            for cst in (False, True):
                self.load(size, True, 0, cst); self.store(size, True, False, cst)
            self.store(size, True, True, False)
            self.load_s(size, True, 0); self.store_s(size, True)
        self.bofs(); self.iofs(); self.sofs()
    def loaded(self, m, dreg, size, flo, addr, uns):
        sel = self.sel; w = 8 * size
        out = [Eq(m.f, res(sel, m, dreg, size, flo), mk(atom('mem', (m.f.resolve(addr, 64), size), w).bits), w, 'a %d-byte load yields the wrong value' % size)]
        if no_stores(m): out.append(Fail(m.f, 'a load writes memory'))
        return out + (sel.cfg.canonf(sel, m, dreg, size) if flo else sel.cfg.canon(sel, m, dreg, size, uns))
    def load(self, size, flo, uns, cst):
        sel = self.sel
        def build_(I, st, vals):
            p = sel.const(I, st, 8, vals['c']) if cst else sel.vreg(I, st, 8)
            d = sel.vreg(I, st, size, flo)
            sel.push(I, st, sel.ir(st, 'LOAD', uns, d, p))
            return dict(operands={} if cst else {'a': (p, 8, False)}, dst=(d, size, flo), vals=vals)
        def oracle(sel_, m, dreg, case):
            v = case['vals']['c'] if cst else case['vals']['a']
            return self.loaded(m, dreg, size, flo, v, uns)
        self.go('%s LOAD%s%d%s%s' % (sel.arch, 'f' if flo else '', size, ' const address' if cst else '', ' unsigned' if uns else ''), {'c' if cst else 'a': 64}, build_, oracle, {'c': CH})
    def load_s(self, size, flo, uns):
        sel = self.sel
        def build_(I, st, vals):
            p = sel.vreg(I, st, size, flo, spill=vals['o']); d = sel.vreg(I, st, size, flo)
            sel.push(I, st, sel.ir(st, 'LOAD_S', uns, d, p))
            return dict(operands={}, dst=(d, size, flo), vals=vals)
        def oracle(sel_, m, dreg, case):
            return self.loaded(m, dreg, size, flo, add(sym('reg_' + sel.cfg.fp, 64), sext(case['vals']['o'], 32, 64), 64), uns)
        self.go('%s LOAD_S%s%d%s' % (sel.arch, 'f' if flo else '', size, ' unsigned' if uns else ''), {'o': 32}, build_, oracle, {'o': OFFH}, frame_assume, frame=True)
    def stored(self, m, size, addr, v):
        st = no_stores(m)
        if len(st) != 1: return [Fail(m.f, '%d memory writes instead of one' % len(st))]
        a, n, x = st[0]
        if n != size: return [Fail(m.f, 'writes %d bytes instead of %d' % (n, size))]
        return [Eq(m.f, a, m.f.resolve(addr, 64), 64, 'stores to the wrong address'), Eq(m.f, x, m.f.resolve(v, 8 * size), 8 * size, 'stores the wrong value')]
    def store(self, size, flo, cv, cst):
        sel = self.sel; w = 8 * size
        def build_(I, st, vals):
            p = sel.const(I, st, 8, vals['c']) if cst else sel.vreg(I, st, 8)
            cl = None
            if cv and flo: x, cl = self.fconst(I, st, size)
            else: x = sel.const(I, st, size, vals['d']) if cv else sel.vreg(I, st, size, flo)
            sel.push(I, st, sel.ir(st, 'STORE', 0, 0, x, p))
            opr = {}
            if not cst: opr['a'] = (p, 8, False)
            if not cv: opr['b'] = (x, size, flo)
            return dict(operands=opr, dst=None, vals=vals, cl=cl)
        def oracle(sel_, m, dreg, case):
            vals = case['vals']
            if cv and flo: v = mk(atom('mem', (label_addr(case['cl']), size), w).bits)
            elif flo: v = trunc(vals['b'], 64, w)
            else: v = low(vals['d'], size) if cv else self.val(vals, 'b', size)
            return self.stored(m, size, vals['c'] if cst else vals['a'], v)
        def assume(f, vals):
            if cv and not flo: return assume_const(f, vals['d'], size, sel.cfg.cranges(size, 2))
        inp = {'c' if cst else 'a': 64}
        if not (cv and flo): inp['d' if cv else 'b'] = 64
        self.go('%s STORE%s%d%s%s' % (sel.arch, 'f' if flo else '', size, ' const address' if cst else '', ' const value' if cv else ''), inp, build_, oracle, {'c': CH, 'd': CH}, assume)
    def store_s(self, size, flo):
        sel = self.sel; w = 8 * size
        def build_(I, st, vals):
            p = sel.vreg(I, st, size, flo, spill=vals['o']); x = sel.vreg(I, st, size, flo)
            sel.push(I, st, sel.ir(st, 'STORE_S', 0, 0, x, p))
            return dict(operands={'b': (x, size, flo)}, dst=None, vals=vals)
        def oracle(sel_, m, dreg, case):
            v = trunc(case['vals']['b'], 64, w) if flo else self.val(case['vals'], 'b', size)
            return self.stored(m, size, add(sym('reg_' + sel.cfg.fp, 64), sext(case['vals']['o'], 32, 64), 64), v)
        self.go('%s STORE_S%s%d' % (sel.arch, 'f' if flo else '', size), {'o': 32, 'b': 64}, build_, oracle, {'o': OFFH}, frame_assume, frame=True)
    def bofs(self):
        for p in (0, 8, -16, 4096, 40000):
            if p == 0: self.bofs1(None, 0)
            else:
                for o in (-8, -256, -2048, -4096, -40000, 16, 2040, 4088): self.bofs1(o, p)
    def bofs1(self, o, p):
        sel = self.sel
        def build_(I, st, vals):
            d = sel.vreg(I, st, 8)
            off = vals['o'] if o is None else o & 0xffffffff
            fi = st.new('fi', 8, 'zero'); I.store(st, Ptr(fi), ll.I(32), off)
            ir = sel.ir(st, 'BOFS', 0, d)
            I.store(st, Ptr(ir.obj, sel.irf['u']), ll.PTR, Ptr(fi)); I.store(st, Ptr(ir.obj, sel.irf['u'] + 8), ll.I(64), p & M64)
            sel.push(I, st, ir)
            return dict(operands={}, dst=(d, 8, False), vals=vals)
        def oracle(sel_, m, dreg, case):
            off = sext(case['vals']['o'], 32, 64) if o is None else o & M64
            want = add(sym('reg_' + sel.cfg.fp, 64), add(off, p & M64, 64), 64)
            return [Eq(m.f, m.r[dreg], m.f.resolve(want, 64), 64, 'the address of a local object is wrong')]
        self.go('%s BOFS %s%+d' % (sel.arch, 'frame' if o is None else o, p), {'o': 32} if o is None else {}, build_, oracle, {'o': OFFH}, frame_assume if o is None else None, frame=True,
                limit=4 if o is not None else None)
    def iofs(self):
        for glob_ in (0, 1): self.iofs1(glob_)
    def iofs1(self, glob_):
        sel = self.sel
        def build_(I, st, vals):
            d = sel.vreg(I, st, 8)
            ir = sel.ir(st, 'IOFS', 0, d)
            nm = sel.mkname(I, st, 'some_object')
            u = sel.irf['u']
            I.store(st, Ptr(ir.obj, u), ll.PTR, nm); I.store(st, Ptr(ir.obj, u + 8), ll.I(64), vals['p']); I.store(st, Ptr(ir.obj, u + 16), ll.I(8), glob_)
            sel.push(I, st, ir)
            return dict(operands={}, dst=(d, 8, False), vals=vals)
        def oracle(sel_, m, dreg, case):
            return [Eq(m.f, m.r[dreg], m.f.resolve(label_addr('some_object', case['vals']['p']), 64), 64, 'the address of a global object is wrong')]
        def assume(f, vals):
            v = vals['p']
            if v.__class__ is int: return signed(v, 64) in range(-(1 << 30), 1 << 30)
            f.restrict(v, 64, ((0, (1 << 30) - 1), ((1 << 64) - (1 << 30), M64)))
        self.go('%s IOFS %s' % (sel.arch, 'global' if glob_ else 'local'), {'p': 64}, build_, oracle, {'p': [0, 8, 4096, 40000, M64 - 7, 1 << 29, M64 - (1 << 20)]}, assume)
    def sofs(self):
        sel = self.sel
        def build_(I, st, vals):
            d = sel.vreg(I, st, 8); c = sel.const(I, st, 8, vals['c'])
            sel.push(I, st, sel.ir(st, 'SOFS', 0, d, c))
            return dict(operands={}, dst=(d, 8, False), vals=vals)
        def oracle(sel_, m, dreg, case):
            return [Eq(m.f, m.r[dreg], add(sym('reg_' + sel.cfg.sp, 64), case['vals']['c'], 64), 64, 'the address of a stack argument is wrong')]
        def assume(f, vals):
            v = vals['c']
            if v.__class__ is int: return v < 1 << 20
            f.restrict(v, 64, ((0, (1 << 20) - 1),))
        self.go('%s SOFS' % sel.arch, {'c': 64}, build_, oracle, {'c': [0, 8, 2040, 2048, 4088, 4096, 65536]}, assume)
    def subsp(self):
        for cst in (False, True):
            for hasd in (False, True): self.subsp1(cst, hasd)
    def subsp1(self, cst, hasd):
        sel = self.sel; sp = sel.cfg.sp
        def build_(I, st, vals):
            x = sel.const(I, st, 8, vals['c']) if cst else sel.vreg(I, st, 8)
            d = sel.vreg(I, st, 8) if hasd else 0
            sel.push(I, st, sel.ir(st, 'SUBSP', 0, d, x))
            return dict(operands={} if cst else {'a': (x, 8, False)}, dst=(d, 8, False) if hasd else None, vals=vals, clobber=[sp])
        def oracle(sel_, m, dreg, case):
            want = m.f.resolve(sub(sym('reg_' + sp, 64), case['vals']['c' if cst else 'a'], 64), 64)
            out = [Eq(m.f, m.r[sp], want, 64, 'the stack pointer is moved wrongly')]
            if hasd: out.append(Eq(m.f, m.r[dreg], want, 64, 'the new stack pointer is not delivered'))
            return out
        def assume(f, vals):
            if not cst: return
            v = vals['c']
            if v.__class__ is int: return signed(v, 64) in range(-(1 << 24), 1 << 24) and v % 16 == 0
            f.restrict(v, 64, ((0, (1 << 24) - 16), ((1 << 64) - (1 << 24), M64)))
            for i in range(4): f.assume(v.bits[i], 0)
        self.go('%s SUBSP %s%s' % (sel.arch, 'const' if cst else 'reg', ' dst' if hasd else ''), {'c' if cst else 'a': 64}, build_, oracle,
                {'c': [0, 16, 2032, 2048, 4080, 4096, 4112, 65536, 1 << 20, M64 - 15, M64 - 2047, M64 - 4095, M64 - 4111]}, assume)
    # ---- control
    def jumps(self):
        sel = self.sel
        def build_(I, st, vals):
            ir = sel.ir(st, 'JMP')
            I.store(st, Ptr(ir.obj, sel.irf['u']), ll.PTR, sel.bb2); I.store(st, Ptr(ir.obj, sel.irf['u'] + 8), ll.I(32), sel.COND['any'])
            sel.push(I, st, ir)
            return dict(operands={}, dst=None, vals=vals)
        def oracle(sel_, m, dreg, case):
            return [Ok()] if m.out == sel.lab2 else [Fail(m.f, 'an unconditional jump goes elsewhere')]
        self.go('%s JMP any' % sel.arch, {}, build_, oracle)
        for size in (4, 8): self.tjmp(size)
    def tjmp(self, size):
        sel = self.sel
        def build_(I, st, vals):
            x = sel.vreg(I, st, size)
            ir = sel.ir(st, 'TJMP', 0, 0, x)
            t = st.new('bbs', 24, 'zero')
            for i, b in enumerate(sel.bbs): I.store(st, Ptr(t, 8 * i), ll.PTR, b)
            I.store(st, Ptr(ir.obj, sel.irf['u']), ll.PTR, Ptr(t)); I.store(st, Ptr(ir.obj, sel.irf['u'] + 8), ll.I(64), 3)
            sel.push(I, st, ir)
            return dict(operands={'a': (x, size, False)}, dst=None, vals=vals)
        def oracle(sel_, m, dreg, case):
            f = m.f
            t = m.out
            if t.__class__ is not tuple: return [Fail(f, 'a table jump ends with %r' % (t,))]
            tgt = t[1]
            i = self.val(case['vals'], 'a', size)
            # the target must be the word of the table selected by the (zero-extended) index
            prog = sel.cur
            A = tgt.bits[0].a if tgt.__class__ is BV and tgt.bits[0].__class__ is Bit and tgt.bits[0].k == 'a' else None
            if A is None or A.k != 'mem' or A.args[1] != 8: return [Fail(f, 'the jump target is not read from a table')]
            addr = A.args[0]
            lab = table_label(addr)
            if lab is None and len(prog.data) == 1: lab = next(iter(prog.data))
            if lab is None or lab not in prog.data: return [Fail(f, 'the jump table is not emitted')]
            ent = [x for d, x in prog.data[lab] if d in ('.quad', '.xword', '.dword')]
            out = [Eq(f, addr, f.resolve(add(label_addr(lab), mul(zext(i, 8 * size, 64) if size < 8 else i, 8, 64), 64), 64), 64, 'the wrong table entry is read')]
            if ent != sel.labs or len(prog.data[lab]) != 3: out.append(Fail(f, 'jump table entries %s, expected %s' % (ent, sel.labs)))
            return out
        def assume(f, vals):
            v = self.val(vals, 'a', size)
            if v.__class__ is int: return v < 3
            f.restrict(v, 8 * size, ((0, 2),))
        self.go('%s TJMP%d' % (sel.arch, size), {'a': 64}, build_, oracle, {'a': [0, 1, 2, (1 << 32) + 1, (1 << 63) + 2]}, assume)
    def pushargs(self):
        sel = self.sel
        for idx in range(sel.cfg.nargs):
            for size in (1, 2, 4, 8):
                for c in (False, True): self.pusharg(idx, size, False, c)
        for idx in range(sel.cfg.nfargs):
            for size in (4, 8):
                for c in (False, True): self.pusharg(idx, size, True, c)
    def pusharg(self, idx, size, flo, c, uns=0):
        sel = self.sel; w = 8 * size
        rg = sel.cfg.argreg(idx, flo)
        def build_(I, st, vals):
            cl = None
            if not c: x = sel.vreg(I, st, size, flo)
            elif flo: x, cl = self.fconst(I, st, size)
            else: x = sel.const(I, st, size, vals['c'])
            ir = sel.ir(st, 'PUSHARG', 0, 0, x)
            I.store(st, Ptr(ir.obj, sel.irf['u']), ll.I(32), idx)
            sel.push(I, st, ir)
            return dict(operands={} if c else {'a': (x, size, flo)}, dst=None, vals=vals, cl=cl, clobber=[rg])
        def oracle(sel_, m, dreg, case):
            vals = case['vals']
            if c and flo: v = mk(atom('mem', (label_addr(case['cl']), size), w).bits)
            else: v = trunc(vals['c'], 64, w) if c else self.val(vals, 'a', size) if not flo else trunc(vals['a'], 64, w)
            return [Eq(m.f, res(sel, m, rg, size, flo), m.f.resolve(v, w), w, 'argument %d is passed wrongly' % idx)] + (sel.cfg.canonf(sel, m, rg, size) if flo else sel.cfg.canon(sel, m, rg, size, uns))
        inp = {'c': 64} if c and not flo else {} if c else {'a': 64}
        def assume(f, vals):
            if c and not flo: return assume_const(f, vals['c'], size, sel.cfg.cranges(size, 2))
        self.go('%s PUSHARG%d %s%d%s' % (sel.arch, idx, 'f' if flo else 'i', size, ' const' if c else ''), inp, build_, oracle, {'c': CH}, assume)

def cmpsame(f, want, pred, a, b, w):
    """the comparison as it reads under what the path knows of the constant"""
    w2 = ncmp(f, pred, f.resolve(a, w), f.resolve(b, w), w)
    return w2

def table_label(addr):
    if addr.__class__ is not BV: return None
    c, t = to_lin(addr, 64)
    for a, n in t.items():
        if a.k == 'lab' and n == 1: return a.args[0]
    return None
CH = [0, 1, M64, 5, M64 - 5, 127, 128, 255, M64 - 127, M64 - 128, 2047, 2048, M64 - 2047, M64 - 2048, 4095, 4096, 4097, 0xfff000, 0xffff, 0x8000, M64 - 0x7fff,
      0xffff0000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, M64 - 0x7fffffff, M64 - 0x80000000, 0x123456789abcdef0, 0x7fff000, 0x12345678, 0x8000000000000000, 0x7fffffffffffffff,
      0x123400005678, 0xffff1234ffff5678, 0xffffffff1234ffff, 0x7ffff800, 0x7ffff7ff, 0xfffffffe]
OFFH = [(1 << 32) - 8, (1 << 32) - 256, (1 << 32) - 264, (1 << 32) - 2048, (1 << 32) - 2056, (1 << 32) - 4096, (1 << 32) - 4104, (1 << 32) - 40000, 16, 2040, 2048, 4088, 40000, 33000]
def frame_assume(f, vals):
    v = vals['o']
    if v.__class__ is int: return signed(v, 32) in range(-(1 << 22), 1 << 22)
    f.restrict(v, 32, ((0, (1 << 22) - 1), ((1 << 32) - (1 << 22), (1 << 32) - 1)))

def rounding(f, got, want, w):
    """fadd(i2f(h), i2f(h)) = i2f(u) when h = (u >> 1) | (u & 1) and u has its top bit set (round to odd, then double)"""
    g = f.resolve(got, w)
    d = decomp(g) if g.__class__ is BV else None
    if d is None or d[1] != w or d[0].k != 'fadd': return got
    x, y, _ = d[0].args
    if x is not y: return got
    dx = decomp(x) if x.__class__ is BV else None
    if dx is None or dx[0].k != 'i2f' or dx[1] != w: return got
    h = dx[0].args[0]
    dw = decomp(want) if want.__class__ is BV else None
    if dw is None or dw[0].k != 'i2f': return got
    u = dw[0].args[0]
    ub = bits_of(f.resolve(u, 66), 66); ub = tuple(f.rbit(b) for b in ub)
    hb = tuple(f.rbit(b) for b in bits_of(f.resolve(h, 66), 66))
    if ub[63] is not ONE or ub[64] is not ZERO or ub[65] is not ZERO: return got
    exp = (bor(ub[0], ub[1]),) + ub[2:64] + (0,) * 3
    return want if all(x is y for x, y in zip(hb, exp)) else got
