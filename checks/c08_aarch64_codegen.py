"""C08: the aarch64 back end turns every intermediate operation into instructions that compute it."""
from isel_ops import *
from sem_arm import ARM

class Cfg:
    fp = 'x29'; sp = 'sp'
    constl = True
    nargs = 8; nfargs = 8
    def regs(self, sel, I, st):
        i = ['x29' if n == 'fp' else n for n in sel.strs(I, st, 'kReg64s', sel.pmax)]
        f = ['v' + n[1:] for n in sel.strs(I, st, 'kFReg64s', sel.fmax)]
        w = sel.strs(I, st, 'kReg32s', sel.pmax); s = sel.strs(I, st, 'kFReg32s', sel.fmax)
        if len(set(i)) != len(i) or len(set(f)) != len(f): raise Broken('register table')
        # registers the allocator never hands out may be used freely, except those with a fixed meaning
        self.scratch = {'x%d' % k for k in range(31)} - set(i) - {'x18', 'x29', 'x30'}
        self.ipool = [i.index(x) for x in ('x0', 'x1', 'x7', 'x19', 'x29', 'x16')]
        self.fpool = [f.index(x) for x in ('v0', 'v7', 'v8', 'v31')]
        if sel.chk.tier != 'quick': self.ipool = list(range(len(i))); self.fpool = [0, 1, 7, 8, 15, len(f) - 1]
        return i, f
    def operand(self, sel, n, size, flo, vals):
        v = vals.get(n)
        return zext(vals['k'], 6 if size == 8 else 5, 64) if v is None else v
    def keepw(self, size, flo): return 8 * size
    def canon(self, sel, m, reg, size, uns): return []
    def canonf(self, sel, m, reg, size): return []
    def cranges(self, size, uns): return None
    def retreg(self, flo): return 'v0' if flo else 'x0'
    def argreg(self, i, flo): return ('v%d' if flo else 'x%d') % i

def check():
    chk = Check('C08', 'abstract interpretation of tweak_irs and the emitters of the aarch64 back end on every intermediate operation with symbolic constants and '
                'many register assignments; the emitted text is given its meaning from the ISA and must equal the meaning of the operation for all operand values')
    chk.minimum = 400
    sel = Sel('aarch64', chk, ARM, Cfg())
    ops = Ops(sel, chk, 10 if chk.tier == 'quick' else 60, (1, 2, 4, 8), (4, 8), (4, 8), (4, 8))
    only = [a for a in sys.argv[1:] if not a.startswith('--')]
    for n in ('binops', 'fbinops', 'unops', 'movs', 'casts', 'conds', 'mems', 'subsp', 'jumps', 'pushargs'):
        if only and n not in only: continue
        getattr(ops, n)()
    chk.parallel(ops.jobs)
    if only: chk.minimum = 0
    return chk.finish()
main(check)
