"""Building ELF objects with symbolic fields and reading the linker's output image."""
from common import *
import libc
from libc import LRun

SHT_PROGBITS, SHT_SYMTAB, SHT_STRTAB, SHT_RELA, SHT_NOBITS, SHT_INIT, SHT_FINI = 1, 2, 3, 4, 8, 14, 15
MACH = {'x64': 62, 'aarch64': 183, 'riscv64': 243}
LOCAL, GLOBAL, WEAK = 0, 1, 2
UNDEF_SHN, COMMON_SHN = 0, 0xfff2

class Sec:
    def __init__(self, name, typ, align, size, cells=(), flags=2):
        self.name = name; self.type = typ; self.align = align; self.size = size; self.cells = list(cells); self.flags = flags
        self.relas = []
        self.file_off = 0

class ElfObjSpec:
    """sections are numbered from 1; symbols from 1+nsec (section symbols first, as the assembler writes them)"""
    def __init__(self, arch):
        self.arch = arch; self.secs = []; self.syms = []; self.extra_secsyms = True
    def sec(self, *a, **k):
        s = Sec(*a, **k); self.secs.append(s); s.index = len(self.secs); return s
    def sym(self, name, bind, typ, shndx, value, size=0):
        self.syms.append((name, bind, typ, shndx, value, size)); return len(self.syms) - 1
    def symidx(self, k): return 1 + len(self.secs) + k
    def cells(self, base=0):
        """(size, [(off,size,value)])"""
        out = []
        def put(off, size, v): out.append((base + off, size, v))
        pos = 64
        for s in self.secs:
            if s.type == SHT_NOBITS: s.file_off = pos; continue
            pos = (pos + 15) & ~15
            s.file_off = pos
            for o, sz, v in s.cells: put(pos + o, sz, v)
            pos += s.size
        rels = [s for s in self.secs if s.relas]
        for s in rels:
            pos = (pos + 7) & ~7
            s.rela_off = pos
            for off, typ, symi, add in s.relas:
                put(pos, 8, off)
                put(pos + 8, 4, typ); put(pos + 12, 4, symi)
                put(pos + 16, 8, add)
                pos += 24
        # symbols
        strtab = bytearray(b'\0'); shstr = bytearray(b'\0')
        def st_add(tab, n):
            if not n: return 0
            k = len(tab); tab.extend(n.encode() + b'\0'); return k
        pos = (pos + 7) & ~7
        symoff = pos
        def putsym(nm, info, shndx, val, size):
            nonlocal pos
            put(pos, 4, nm); put(pos + 4, 1, info); put(pos + 5, 1, 0); put(pos + 6, 2, shndx)
            put(pos + 8, 8, val); put(pos + 16, 8, size); pos += 24
        putsym(0, 0, 0, 0, 0)
        for i, s in enumerate(self.secs): putsym(0, 3, i + 1, 0, 0)
        for name, bind, typ, shndx, val, size in self.syms:
            putsym(st_add(strtab, name), bind << 4 | typ, shndx, val, size)
        nsym = 1 + len(self.secs) + len(self.syms)
        stroff = pos
        for i, c in enumerate(strtab): put(pos + i, 1, c)
        pos += len(strtab)
        shs = []
        for s in self.secs:
            shs.append((st_add(shstr, s.name), s.type, s.flags, s.file_off, s.size, 0, 0, s.align, 0))
        nsec = 1 + len(self.secs) + len(rels)
        strx = nsec; symx = nsec + 1; shx = nsec + 2
        for s in rels:
            shs.append((st_add(shstr, '.rela' + s.name), SHT_RELA, 0x40, s.rela_off, 24 * len(s.relas), symx, s.index, 8, 24))
        shs.append((st_add(shstr, '.strtab'), SHT_STRTAB, 0, stroff, len(strtab), 0, 0, 1, 0))
        shs.append((st_add(shstr, '.symtab'), SHT_SYMTAB, 0, symoff, 24 * nsym, strx, 1 + len(self.secs), 8, 24))
        nm = st_add(shstr, '.shstrtab')
        shstroff = pos
        shs.append((nm, SHT_STRTAB, 0, shstroff, len(shstr), 0, 0, 1, 0))
        for i, c in enumerate(shstr): put(pos + i, 1, c)
        pos += len(shstr)
        pos = (pos + 15) & ~15
        shoff = pos
        for h in [(0,) * 9] + shs:
            n, t, fl, off, size, link, info, al, es = h
            put(pos, 4, n); put(pos + 4, 4, t); put(pos + 8, 8, fl); put(pos + 16, 8, 0); put(pos + 24, 8, off)
            put(pos + 32, 8, size); put(pos + 40, 4, link); put(pos + 44, 4, info); put(pos + 48, 8, al); put(pos + 56, 8, es)
            pos += 64
        for i, c in enumerate(b'\x7fELF\x02\x01\x01\0'): put(i, 1, c)
        put(8, 8, 0)
        put(16, 2, 1); put(18, 2, MACH[self.arch]); put(20, 4, 1); put(24, 8, 0); put(32, 8, 0); put(40, 8, shoff)
        put(48, 4, 5 if self.arch == 'riscv64' else 0); put(52, 2, 64); put(54, 2, 0); put(56, 2, 0); put(58, 2, 64)
        put(60, 2, len(shs) + 1); put(62, 2, shx)
        return pos, out

class Linker:
    def __init__(self, arch, chk):
        import glob
        self.arch = arch; self.chk = chk
        srcs = sorted(os.path.relpath(p, REPO) for p in glob.glob(os.path.join(REPO, 'src/ld/*.c')))
        srcs += ['src/util/' + n for n in ('archive.c', 'util.c', 'elfutil.c', 'table.c')]
        self.mods = build.compile_many([(s, 'ld', arch) for s in srcs])

    def link(self, files, args, setup=None, budget=1500000, openfail=()):
        """files: {path: (size, cells)}; returns I, [(state, exit status)] — status None for assert/abort"""
        I = LRun(self.mods, budget=budget)
        I.openfail = set(openfail)
        st = State()
        for path, (size, cells) in files.items(): libc.put_file(st, path, size, cells)
        if setup: setup(st)
        argv = ['ld'] + list(args)
        st.mem['argv'] = Obj('argv', 8 * (len(argv) + 1), 'zero', st.tok)
        for i, a in enumerate(argv): st.mem['argv'].cells[8 * i] = (8, libc.newstr(st, a))
        res = I.run('main', [len(argv), Ptr('argv')], st)
        self.chk.seen(I)
        out = []
        for s, v in res: out.append((s, s.facts.resolve(v, 32)))
        for s in I.exits:
            e = [x for x in s.ev if x[0] == 'exit'][-1]
            out.append((s, s.facts.resolve(e[1], 32)))
        for s, *_ in I.assert_fail: out.append((s, None))
        for s, *_ in I.aborts: out.append((s, None))
        for b in I.bad: out.append((b[2], None if b[0] == 'null' else None))
        return I, out

class Image:
    """the linker's output file, read back"""
    def __init__(self, I, st, path):
        self.I = I; self.st = st; self.path = path
        self.size = libc.file_size(st, path)
        if self.size is None or self.size < 64: raise ValueError('no output')
        r = self.rd
        self.ident = [r(i, 1) for i in range(8)]
        self.type = r(16, 2); self.machine = r(18, 2); self.entry = r(24, 8); self.phoff = r(32, 8)
        self.flags = r(48, 4); self.phentsize = r(54, 2); self.phnum = r(56, 2)
        self.ph = []
        for i in range(self.phnum):
            b = self.phoff + 56 * i
            self.ph.append(dict(type=r(b, 4), flags=r(b + 4, 4), off=r(b + 8, 8), vaddr=r(b + 16, 8),
                                filesz=r(b + 32, 8), memsz=r(b + 40, 8), align=r(b + 48, 8)))
    def rd(self, off, n):
        v = self.I.load(self.st, Ptr('fs:' + self.path, off), ll.I(8 * n))
        return self.st.facts.resolve(v, 8 * n)
    def find(self, marker):
        """file offsets where the 8-byte symbol marker is stored"""
        o = self.st.mem['fs:' + self.path]
        out = []
        for off, (s, v) in o.cells.items():
            if v is marker or (v.__class__ is int and marker.__class__ is int and v == marker and s == 8): out.append(off)
        return out
    def seg_of_off(self, off, n):
        for p in self.ph:
            if p['type'] == 1 and p['off'].__class__ is int and p['off'] <= off and off + n <= p['off'] + p['filesz']: return p
        return None
    def seg_of_addr(self, a, n):
        for p in self.ph:
            if p['type'] == 1 and p['vaddr'] <= a and a + n <= p['vaddr'] + (p['memsz'] if p['memsz'].__class__ is int else p['filesz']): return p
        return None
    def addr_of(self, off, n=8):
        p = self.seg_of_off(off, n)
        return None if p is None else p['vaddr'] + off - p['off']
