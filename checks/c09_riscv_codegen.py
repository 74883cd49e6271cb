"""C09: the riscv64 back end turns every intermediate operation into instructions that compute it."""
from isel_ops import *
from sem_riscv import RV, XR, FR

class Cfg:
    fp = 's0'; sp = 'sp'
    constl = True
    nargs = 8; nfargs = 8
    def regs(self, sel, I, st):
        i = [XR[n] for n in sel.strs(I, st, 'kReg64s', sel.pmax)]
        f = [FR[n] for n in sel.strs(I, st, 'kFReg64s', sel.fmax)]
        if len(set(i)) != len(i) or len(set(f)) != len(f): raise Broken('register table')
        # registers the allocator never hands out may be used freely, except those with a fixed meaning
        self.scratch = {x for x in XR.values() if x not in i} - {'zero', 'ra', 'sp', 'gp', 'tp', 's0'}
        self.ipool = [i.index(x) for x in ('a0', 'a1', 'a7', 's2', 's0', 't0')]
        self.fpool = [f.index(x) for x in ('fa0', 'fa7', 'fs0', 'ft11')]
        if sel.chk.tier != 'quick': self.ipool = list(range(len(i))); self.fpool = [0, 1, 7, 8, 15, len(f) - 1]
        return i, f
    def operand(self, sel, n, size, flo, vals):
        """integers of at most 4 bytes live sign-extended from bit 31, floats NaN-boxed"""
        v = vals.get(n)
        if v is None: return zext(vals['k'], 6 if size == 8 else 5, 64)
        if flo: return v if size == 8 else mk(bits_of(trunc(v, 64, 32), 32) + (1,) * 32)
        return v if size == 8 else sext(trunc(v, 64, 32), 32, 64)
    def keepw(self, size, flo): return 64 if flo or size >= 4 else 8 * size
    def canon(self, sel, m, reg, size, uns):
        if size == 8: return []
        v = m.f.resolve(m.r[reg], 64)
        return [Eq(m.f, v, sext(trunc(v, 64, 32), 32, 64), 64, 'the result of size %d is not sign-extended in its register' % size)]
    def canonf(self, sel, m, reg, size):
        if size == 8: return []
        v = m.f.resolve(m.r[reg], 64)
        return [Eq(m.f, mk(bits_of(v, 64)[32:]), (1 << 32) - 1, 32, 'the float is not NaN-boxed in its register')]
    def cranges(self, size, uns): return None
    def retreg(self, flo): return 'fa0' if flo else 'a0'
    def argreg(self, i, flo): return ('fa%d' if flo else 'a%d') % i

def check():
    chk = Check('C09', 'abstract interpretation of tweak_irs and the emitters of the riscv64 back end on every intermediate operation with symbolic constants and '
                'many register assignments; the emitted text is given its meaning from the ISA and must equal the meaning of the operation for all operand values')
    chk.minimum = 400
    sel = Sel('riscv64', chk, RV, Cfg())
    ops = Ops(sel, chk, 10 if chk.tier == 'quick' else 60, (1, 2, 4, 8), (4, 8), (4, 8), (4, 8))
    only = [a for a in sys.argv[1:] if not a.startswith('--')]
    for n in ('binops', 'fbinops', 'unops', 'movs', 'casts', 'conds', 'mems', 'subsp', 'jumps', 'pushargs'):
        if only and n not in only: continue
        getattr(ops, n)()
    chk.parallel(ops.jobs)
    if only: chk.minimum = 0
    return chk.finish()
main(check)
