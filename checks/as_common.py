"""Following the whole assembler on a source text in which numbers are symbolic."""
from common import *
from asm_common import *
import libc
from libc import LRun
from elf_common import MACH
import glob

SRC = 'in.s'; OUT = 'out.o'
def magic(k): return str(770000 + k)      # decimal text standing for symbol k

class AsTool:
    def __init__(self, arch, chk):
        self.arch = arch; self.chk = chk
        srcs = sorted(os.path.relpath(p, REPO) for p in glob.glob(os.path.join(REPO, 'src/as/*.c')) + glob.glob(os.path.join(REPO, 'src/as/arch/%s/*.c' % arch)))
        srcs += ['src/util/' + n for n in ('util.c', 'elfutil.c', 'table.c')]
        self.mods = build.compile_many([(s, 'as', arch) for s in srcs])
        self.T = ll.Types(self.mods)

    def run(self, text, nums=(), args=('-o', OUT, SRC), externs=None, assume=None, budget=3000000, openfail=()):
        """nums: values for magic(1), magic(2)...; returns I, [(state, status)] with status None for assert/abort/crash"""
        I = LRun(self.mods, externs=externs, budget=budget)
        I.magic = {magic(i + 1): v for i, v in enumerate(nums)}
        I.openfail = set(openfail)
        st = State()
        if assume:
            if assume(st.facts) is False: return I, []
        libc.put_text(st, SRC, text)
        argv = ['as'] + list(args)
        st.mem['argv'] = Obj('argv', 8 * (len(argv) + 1), 'zero', st.tok)
        for i, a in enumerate(argv): st.mem['argv'].cells[8 * i] = (8, libc.newstr(st, a))
        res = I.run('main', [len(argv), Ptr('argv')], st)
        self.chk.seen(I)
        out = []
        for s, v in res: out.append((s, s.facts.resolve(v, 32)))
        for s in I.exits:
            e = [x for x in s.ev if x[0] == 'exit'][-1]
            out.append((s, s.facts.resolve(e[1], 32)))
        for s, *_ in I.assert_fail: out.append((s, None))
        for s, *_ in I.aborts: out.append((s, None))
        for b in I.bad: out.append((b[2], None))
        return I, out

class ObjFile:
    """the object file the assembler wrote"""
    def __init__(self, I, st, path=OUT):
        self.I = I; self.st = st; self.path = path
        self.size = libc.file_size(st, path)
        if self.size is None or self.size < 64: raise ValueError('no output')
        r = self.rd
        self.ident = [r(i, 1) for i in range(8)]
        self.type = r(16, 2); self.machine = r(18, 2); self.flags = r(48, 4)
        shoff = r(40, 8); n = r(60, 2); shstr = r(62, 2)
        self.sh = []
        for i in range(n):
            b = shoff + 64 * i
            self.sh.append(dict(name=r(b, 4), type=r(b + 4, 4), flags=r(b + 8, 8), off=r(b + 24, 8), size=r(b + 32, 8),
                                link=r(b + 40, 4), info=r(b + 44, 4), align=r(b + 48, 8), entsize=r(b + 56, 8)))
        for h in self.sh: h['n'] = self.cstr(self.sh[shstr]['off'] + h['name'])
        self.symtab = next(h for h in self.sh if h['type'] == 2)
        strtab = self.sh[self.symtab['link']]
        self.syms = []
        for i in range(self.symtab['size'] // 24):
            b = self.symtab['off'] + 24 * i
            info = r(b + 4, 1)
            self.syms.append(dict(name=self.cstr(strtab['off'] + r(b, 4)), bind=info >> 4, type=info & 15, shndx=r(b + 6, 2),
                                  value=r(b + 8, 8), size=r(b + 16, 8)))
        self.rel = {}
        for h in self.sh:
            if h['type'] != 4: continue
            l = []
            for i in range(h['size'] // 24):
                b = h['off'] + 24 * i
                l.append((r(b, 8), r(b + 8, 4), r(b + 12, 4), r(b + 16, 8)))
            self.rel[self.sh[h['info']]['n']] = l
    def rd(self, off, n):
        v = self.I.load(self.st, Ptr('fs:' + self.path, off), ll.I(8 * n))
        return self.st.facts.resolve(v, 8 * n)
    def cstr(self, off):
        out = ''
        while True:
            c = self.rd(off, 1)
            if c.__class__ is not int: raise Undecided('symbolic name')
            if c == 0 or off >= self.size: return out
            out += chr(c); off += 1
    def sec(self, name):
        for i, h in enumerate(self.sh):
            if h['n'] == name: return i, h
        return None, None
    def sym(self, name):
        return [s for s in self.syms if s['name'] == name]
    def data(self, name, off, n):
        _, h = self.sec(name)
        if h is None or off + n > h['size']: raise ValueError('%s has no bytes %d..%d' % (name, off, off + n))
        return self.rd(h['off'] + off, n)
