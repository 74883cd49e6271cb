"""Following the whole compiler on a source text in which numbers are symbolic."""
from common import *
import libc, glob
from libc import LRun

SRC = 'in.c'
def magic(k): return str(770000 + k)
def magics(k): return {10: magic(k), 16: magic(k), 8: '7700%02o' % k, 2: bin(0x3ab00 + k)[2:]}

class CcTool:
    def __init__(self, arch, chk):
        self.arch = arch; self.chk = chk
        pats = ['src/cc/*.c', 'src/cc/frontend/*.c', 'src/cc/backend/*.c', 'src/cc/arch/%s/*.c' % arch]
        srcs = sorted(os.path.relpath(p, REPO) for q in pats for p in glob.glob(os.path.join(REPO, q)))
        srcs += ['src/util/util.c', 'src/util/table.c']
        self.mods = build.compile_many([(s, 'cc', arch) for s in srcs])
        self.T = ll.Types(self.mods)
    def run(self, text, nums=(), args=(SRC,), externs=None, assume=None, budget=6000000):
        I = LRun(self.mods, externs=externs, budget=budget)
        I.magic = {}
        for i, v in enumerate(nums):
            for b, m in magics(i + 1).items(): I.magic[m if b == 10 else (b, m)] = v
        I.openfail = set()
        st = State()
        if assume:
            if assume(st.facts) is False: return I, []
        libc.put_text(st, SRC, text)
        argv = ['cc1'] + list(args)
        st.mem['argv'] = Obj('argv', 8 * (len(argv) + 1), 'zero', st.tok)
        for i, a in enumerate(argv): st.mem['argv'].cells[8 * i] = (8, libc.newstr(st, a))
        res = I.run('main', [len(argv), Ptr('argv')], st)
        self.chk.seen(I)
        out = []
        for s, v in res: out.append((s, s.facts.resolve(v, 32)))
        for s in I.exits:
            e = [x for x in s.ev if x[0] == 'exit'][-1]
            out.append((s, s.facts.resolve(e[1], 32)))
        for s, *_ in I.assert_fail: out.append((s, None))
        for s, *_ in I.aborts: out.append((s, None))
        for b in I.bad: out.append((b[2], None))
        return I, out
