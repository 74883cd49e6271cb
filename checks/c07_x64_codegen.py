"""C07: the x64 back end turns every intermediate operation into instructions that compute it."""
from isel_ops import *
from sem_x64 import X64
import libc

class Cfg:
    fp = 'rbp'; sp = 'rsp'
    scratch = set()
    constl = True
    nargs = 6; nfargs = 8
    def regs(self, sel, I, st):
        i = [n[1:] for n in sel.strs(I, st, 'kRegSizeTable', sel.pmax, 3 * sel.pmax)]
        f = [n[1:] for n in sel.strs(I, st, 'kFReg64s', sel.fmax)]
        if set(i) != set(['rax', 'rdi', 'rsi', 'rdx', 'rcx', 'rbx', 'rbp'] + ['r%d' % k for k in range(8, 16)]): raise Broken('register table')
        self.ipool = [i.index(x) for x in ('rax', 'rdi', 'rdx', 'rcx', 'r13', 'rbp')]
        self.fpool = [f.index(x) for x in ('xmm0', 'xmm1', 'xmm9')]
        if sel.chk.tier != 'quick':
            self.ipool = list(range(len(i))); self.fpool = [0, 1, 7, 8, 15]
        return i, f
    def operand(self, sel, n, size, flo, vals):
        v = vals.get(n)
        if v is None: v = zext(vals['k'], 6 if size == 8 else 5, 64)
        return v
    def keepw(self, size, flo): return 8 * size
    def canon(self, sel, m, reg, size, uns): return []
    def canonf(self, sel, m, reg, size): return []
    def cranges(self, size, uns): return None
    def retreg(self, flo): return 'xmm0' if flo else 'rax'
    def argreg(self, i, flo): return 'xmm%d' % i if flo else ['rdi', 'rsi', 'rdx', 'rcx', 'r8', 'r9'][i]

def check():
    chk = Check('C07', 'abstract interpretation of tweak_irs and the emitters of the x64 back end on every intermediate operation with symbolic constants and '
                'many register assignments; the emitted text is given its meaning from the ISA and must equal the meaning of the operation for all operand values')
    chk.minimum = 500
    sel = Sel('x64', chk, X64, Cfg())
    ops = Ops(sel, chk, 10 if chk.tier == 'quick' else 60, (1, 2, 4, 8), (1, 2, 4, 8), (4, 8), (1, 2, 4, 8))
    only = [a for a in sys.argv[1:] if not a.startswith('--')]
    for n in ('binops', 'fbinops', 'unops', 'movs', 'casts', 'conds', 'mems', 'subsp', 'jumps', 'pushargs'):
        if only and n not in only: continue
        getattr(ops, n)()
    chk.parallel(ops.jobs)
    if only: chk.minimum = 0
    return chk.finish()
main(check)
