"""C05: symbol resolution and memory image of the linker."""
from elf_common import *
import itertools

chk = Check('C05', 'abstract interpretation of the whole linker (from main) over object files and archives whose section contents, symbol '
            'values and .bss sizes are symbolic: every input section appears once, aligned, inside a PT_LOAD of the right permissions and '
            'congruent to its file offset, zero-initialised storage lies inside the segment, references are bound by the ELF precedence '
            '(strong > weak/common, first wins), and undefined or doubly defined symbols fail the link without producing an image')
chk.minimum = 40
M = (1 << 64) - 1
K64 = {'x64': 1, 'aarch64': 257, 'riscv64': 2}

def fails(rc): return not (rc.__class__ is int and rc == 0)

# ------------------------------------------------------------------ layout
SECS = [('.text', 1, 6), ('.rodata', 1, 2), ('.data', 1, 3), ('.init_array', 14, 3), ('.fini_array', 15, 3), ('.bss', 8, 3)]
ARR = ('.init_array', '.fini_array')
def content(vals, i, s, k):
    if s in ARR and k == 0: return 0x1417a77a00000000 + 16 * i + len(s) * 4096 + (s == '.fini_array')
    return vals['c%d%s%d' % (i, s, k)]
def layout_case(arch, L, name, spec, symbss=False, args=()):
    """spec: [{section: (align, size)}] per object; sizes multiple of 8, first 8 bytes are an address-unique symbol"""
    nobj = len(spec)
    inputs = {}
    for i, o in enumerate(spec):
        for s, (al, sz) in o.items():
            if s == '.bss':
                if symbss: inputs['z%d' % i] = 24
                continue
            for k in range(0, sz, 8): inputs['c%d%s%d' % (i, s, k)] = 64
    def analyse(vals):
        objs = []
        files = {}
        probes = []      # (obj index, section) in probe order
        for i, o in enumerate(spec):
            E = ElfObjSpec(arch)
            idx = {}
            for s, t, fl in SECS:
                if s not in o: continue
                al, sz = o[s]
                if t == 8 and symbss: sz = add(zext(vals['z%d' % i], 24, 64), 1, 64) if vals['z%d' % i].__class__ is BV else vals['z%d' % i] + 1
                cells = [(k, 8, content(vals, i, s, k)) for k in range(0, sz, 8)] if t != 8 else []
                idx[s] = E.sec(s, t, al, sz, cells, fl).index
            for s in idx:
                if s not in ARR: E.sym('s%d_%s' % (i, s[1:]), GLOBAL, 1, idx[s], 0)
            if i == 0: E.sym('_start', GLOBAL, 2, idx['.text'], 0)
            objs.append(E); files['o%d.o' % i] = E
        # the probe object refers to every section start
        P = ElfObjSpec(arch)
        names = ['s%d_%s' % (i, s[1:]) for i, o in enumerate(spec) for s, _, _ in SECS if s in o and s not in ARR]
        names += ['__init_array_start', '__init_array_end', '__fini_array_start', '__fini_array_end']
        pd = P.sec('.data', 1, 8, 8 + 8 * len(names), [(0, 8, 0x5ca1ab1e0ddba115)], 3)
        for k, n in enumerate(names):
            j = P.sym(n, GLOBAL, 0, 0, 0)
            pd.relas.append((8 + 8 * k, K64[arch], P.symidx(j), 0))
        files['p.o'] = P
        I, res = L.link({n: e.cells() for n, e in files.items()}, ['-o', 'out'] + list(args) + sorted(files))
        obs = []
        for st, rc in res:
            f = st.facts
            if fails(rc): obs.append(Fail(f, 'link of well-formed objects fails')); continue
            im = Image(I, st, 'out')
            def need(c, msg):
                if not c: obs.append(Fail(f, msg))
                else: obs.append(Ok())
            need(im.ident[:7] == [0x7f, 0x45, 0x4c, 0x46, 2, 1, 1] and im.type == 2 and im.machine == MACH[arch] and im.phentsize == 56, 'ELF header')
            pp = im.find(0x5ca1ab1e0ddba115)
            if len(pp) != 1: obs.append(Fail(f, 'section of the last object is missing')); continue
            adr = {n: im.rd(pp[0] + 8 + 8 * k, 8) for k, n in enumerate(names)}
            for i, o in enumerate(spec):
                for s in ARR:
                    if s in o:
                        q = im.find(content(vals, i, s, 0))
                        adr['s%d_%s' % (i, s[1:])] = (im.addr_of(q[0]) if len(q) == 1 else None) or 0
            if any(a.__class__ is not int for a in adr.values()) and not symbss:
                raise Undecided('section address')
            for p in im.ph:
                if p['type'] != 1: continue
                if p['filesz'] > 0:
                    need((p['off'] - p['vaddr']) % 0x1000 == 0, 'PT_LOAD offset and address are not congruent modulo the page size')
                    need(p['off'] + p['filesz'] <= im.size, 'PT_LOAD reaches beyond the file')
                obs.append(Ok())
            segs = sorted((p['vaddr'] // 4096, p['memsz'].__class__ is int and p['vaddr'].__class__ is int and (p['vaddr'] + p['memsz'] + 4095) // 4096) for p in im.ph if p['type'] == 1)
            for (a, b), (c, d) in zip(segs, segs[1:]):
                if b.__class__ is int: need(b <= c, 'segments share a page')
            used = []
            for i, o in enumerate(spec):
                for s, t, fl in SECS:
                    if s not in o: continue
                    al, sz = o[s]
                    a = adr['s%d_%s' % (i, s[1:])]
                    if a.__class__ is not int:
                        if t != 8: raise Undecided('section address')
                        obs.append(Eq(f, and_(a, al - 1, 64), 0, 64, '%s of object %d is not aligned' % (s, i)))
                        continue
                    need(a != 0, '%s of object %d is missing' % (s, i)); need(a % al == 0, '%s of object %d is not aligned to %d' % (s, i, al))
                    if t == 8 and symbss:
                        z = vals['z%d' % i]
                        end = add(a, add(zext(z, 24, 64) if z.__class__ is BV else z, 1, 64), 64)
                        seg = [p for p in im.ph if p['type'] == 1 and p['flags'] & 2]
                        if len(seg) != 1: obs.append(Fail(f, 'no writable segment')); continue
                        lim = add(seg[0]['vaddr'], seg[0]['memsz'], 64)
                        for g, b in splitbit(f, cmpbit(f, 'ule', end, lim, 64)):
                            if not b: obs.append(Fail(g, '.bss of object %d reaches beyond its segment' % i))
                            else: obs.append(Ok())
                        continue
                    used.append((a, a + sz, '%s of object %d' % (s, i)))
                    seg = im.seg_of_addr(a, sz)
                    if seg is None: obs.append(Fail(f, '%s of object %d lies outside every PT_LOAD' % (s, i))); continue
                    want = {6: 5, 2: 4, 3: 6}[fl]
                    need(seg['flags'] & want == want, '%s of object %d has permissions %d' % (s, i, seg['flags']))
                    need(not (fl & 1 == 0 and seg['flags'] & 2), 'read-only %s is writable' % s)
                    fo = seg['off'] + a - seg['vaddr']
                    if t == 8:
                        need(a >= seg['vaddr'] + seg['filesz'] or all(im.rd(fo + k, 1) == 0 for k in range(min(sz, seg['filesz'] - (a - seg['vaddr'])))), '.bss of object %d is not zero-initialised' % i)
                    else:
                        need(a + sz <= seg['vaddr'] + seg['filesz'], '%s of object %d not in the file image' % (s, i))
                        for k in range(0, sz, 8):
                            obs.append(Eq(f, im.rd(fo + k, 8), content(vals, i, s, k), 64, 'contents of %s of object %d at +%d' % (s, i, k)))
            used.sort()
            for x, y in zip(used, used[1:]): need(x[1] <= y[0], '%s overlaps %s' % (x[2], y[2]))
            need(im.entry == adr['s0_text'], 'entry point')
            for arr in ('init', 'fini'):
                lst = [(adr['s%d_%s_array' % (i, arr)], o['.%s_array' % arr][1]) for i, o in enumerate(spec) if '.%s_array' % arr in o]
                lo, hi = adr['__%s_array_start' % arr], adr['__%s_array_end' % arr]
                if lst:
                    need(lo == min(a for a, _ in lst) and hi == max(a + z for a, z in lst) and hi - lo == sum(z for _, z in lst), '__%s_array_start/end do not bracket the entries' % arr)
                    need([a for a, _ in lst] == sorted(a for a, _ in lst), 'entries of .%s_array are not in link order' % arr)
                else:
                    need(lo == hi, '__%s_array_start/end of an empty array differ' % arr)
        return obs
    chk.decide('%s layout %s' % (arch, name), inputs, analyse)

# ------------------------------------------------------------------ symbol resolution
def mkar(members, syms):
    """members: [(name, size, cells)]; syms: [(symbol, member index)] -> (size, cells)"""
    out = []
    def text(off, s):
        for i, c in enumerate(s.encode('latin1')): out.append((off + i, 1, c))
    text(0, '!<arch>\n')
    strtab = b''.join(s.encode() + b'\0' for s, _ in syms)
    tsz = 4 + 4 * len(syms) + len(strtab)
    pos = 8
    def hdr(off, name, size): text(off, '%-16s%-12d%-6d%-6d%-8s%-10d`\n' % (name, 0, 0, 0, '644', size))
    hdr(pos, '/', tsz)
    body = pos + 60
    pos = body + tsz + (tsz & 1)
    offs = []
    for name, size, cells in members:
        pos += pos & 1
        offs.append(pos)
        hdr(pos, name + '/', size)
        for o, s, v in cells: out.append((pos + 60 + o, s, v))
        pos += 60 + size
    b = len(syms).to_bytes(4, 'big') + b''.join(offs[m].to_bytes(4, 'big') for _, m in syms) + strtab
    for i, c in enumerate(b): out.append((body + i, 1, c))
    if tsz & 1: out.append((body + tsz, 1, 10))
    return pos, out

def res_case(arch, L, name, defs, expect, inarchive=(), calls='after'):
    """defs: list of kinds ('undef','strong','weak','common','local','none','wundef') per object; object k's own .text is marked.
    expect: index of the binding object or None (must fail) or set of indices / None"""
    n = len(defs)
    inputs = {'v%d' % i: 16 for i in range(n)}
    def analyse(vals):
        files = {}
        order = []
        objs = []
        for i, k in enumerate(defs):
            E = ElfObjSpec(arch)
            t = E.sec('.text', 1, 8, 16, [(0, 8, 0x7e47000000000000 + i), (8, 8, 0)], 6)
            d = E.sec('.data', 1, 8, 24, [(0, 8, 0xda7a000000000000 + i), (8, 8, 0), (16, 8, 0)], 3)
            b = E.sec('.bss', 8, 8, 64, [], 3)
            if i == 0: E.sym('_start', GLOBAL, 2, t.index, 0)
            E.sym('n%d' % i, LOCAL, 2, t.index, 0)
            v = zext(vals['v%d' % i], 16, 64) if vals['v%d' % i].__class__ is BV else vals['v%d' % i]
            kk = {'undef': (GLOBAL, 0, 0, 0), 'wundef': (WEAK, 0, 0, 0), 'strong': (GLOBAL, 2, t.index, v), 'weak': (WEAK, 2, t.index, v),
                  'common': (GLOBAL, 1, COMMON_SHN, v), 'local': (LOCAL, 2, t.index, v)}.get(k)
            if kk:
                j = E.sym('foo', *kk, size=8)
                d.relas.append((8, K64[arch], E.symidx(j), 0))
            d.relas.append((16, K64[arch], 3, 0))      # own .bss
            objs.append(E)
        ar = []
        for i, E in enumerate(objs):
            if i in inarchive: ar.append(i)
        ismem = []
        for i, E in enumerate(objs):
            if i in inarchive: continue
            files['o%d.o' % i] = E.cells(); order.append('o%d.o' % i)
        if ar:
            mem = []
            for i in ar:
                sz, cl = objs[i].cells()
                mem.append(('o%d.o' % i, sz, cl))
            syms = [('foo', k) for k, i in enumerate(ar) if defs[i] in ('strong', 'weak', 'common')] + [('bar%d' % i, k) for k, i in enumerate(ar)]
            files['liba.a'] = mkar(mem, syms); order.append('liba.a')
        I, res = L.link(files, ['-o', 'out'] + order)
        obs = []
        for st, rc in res:
            f = st.facts
            if fails(rc):
                if expect is not None: obs.append(Fail(f, 'link of resolvable symbols fails'))
                elif any(e[0] == 'create' and e[1] == 'out' for e in st.ev): obs.append(Fail(f, 'an image is written although the link fails'))
                else: obs.append(Ok())
                continue
            if expect is None: obs.append(Fail(f, 'link succeeds although it must fail')); continue
            im = Image(I, st, 'out')
            exp = expect if isinstance(expect, (set, frozenset)) else {expect}
            bound = set(); cand = {}
            tpos = {i: im.find(0x7e47000000000000 + i) for i in range(n)}
            dpos = {i: im.find(0xda7a000000000000 + i) for i in range(n)}
            for i in range(n):
                present = len(tpos[i]) == 1 and len(dpos[i]) == 1
                if not present and i not in inarchive: obs.append(Fail(f, 'object %d is missing from the image' % i))
                if i in inarchive and present != (i in exp): obs.append(Fail(f, 'archive member %d is %s' % (i, 'pulled in needlessly' if present else 'missing')))
                if not present: continue
                v = zext(vals['v%d' % i], 16, 64) if vals['v%d' % i].__class__ is BV else vals['v%d' % i]
                base = im.rd(dpos[i][0] + 16, 8) if defs[i] == 'common' else im.addr_of(tpos[i][0])
                cand[i] = add(base, v, 64)
            for i in range(n):
                if i not in cand or defs[i] == 'none': continue
                got = im.rd(dpos[i][0] + 8, 8)
                want = [cand[i]] if defs[i] == 'local' else [cand[j] for j in sorted(exp) if j in cand]
                if len(want) == 1: obs.append(Eq(f, got, want[0], 64, 'reference to foo in object %d binds to the wrong definition' % i))
                elif any(witness.equal(f, got, w, 64) for w in want): obs.append(Ok())
                else: obs.append(Eq(f, got, want[0], 64, 'reference to foo in object %d binds to the wrong definition' % i))
        if not res: obs.append(Fail(Facts(), 'no outcome'))
        return obs
    chk.decide('%s symbols %s' % (arch, name), inputs, analyse)

def precedence(defs):
    """expected binding of a global name over all objects on the command line, in order"""
    st = [i for i, k in enumerate(defs) if k == 'strong']
    if len(st) > 1: return None
    if st: return st[0]
    oth = [i for i, k in enumerate(defs) if k in ('weak', 'common')]
    if oth:
        ks = {defs[i] for i in oth}
        # the relative precedence of weak and common definitions is left open
        return oth[0] if len(ks) == 1 else frozenset(oth)
    if any(k == 'undef' for k in defs): return None
    return None

def main_():
    for arch in ('x64', 'aarch64', 'riscv64'):
        L = Linker(arch, chk)
        full = arch == 'x64' or chk.tier == 'thorough'
        base = {'.text': (16, 16), '.rodata': (8, 16), '.data': (8, 16), '.bss': (8, 16)}
        layout_case(arch, L, 'plain', [base, {'.text': (4, 8), '.data': (4, 8), '.bss': (16, 32)}])
        layout_case(arch, L, 'init arrays', [dict(base, **{'.init_array': (8, 16)}), {'.text': (4, 8), '.init_array': (8, 8), '.fini_array': (8, 8)}, {'.fini_array': (8, 16), '.rodata': (1, 8), '.text': (2, 8)}])
        layout_case(arch, L, 'symbolic .bss size', [{'.text': (4, 8), '.data': (8, 8), '.bss': (8, 0)}], symbss=True)
        layout_case(arch, L, 'text only', [{'.text': (4, 8)}])
        layout_case(arch, L, '.bss padding', [{'.text': (4, 8), '.bss': (1, 4081)}, {'.text': (4, 8), '.bss': (64, 4032)}])
        layout_case(arch, L, '.bss after unaligned data', [{'.text': (4, 8), '.data': (8, 8), '.bss': (256, 3840)}])
        for al in (1, 2, 8, 32, 64, 128, 256, 512, 4096, 8192) if full else (1, 64, 256, 4096, 8192):
            for s in ('.text', '.rodata', '.data', '.bss'):
                o = {'.text': (4, 8), '.data': (1, 8)}
                o[s] = (al, 16 if s != '.bss' else 48)
                layout_case(arch, L, '%s aligned to %d' % (s, al), [{'.text': (4, 8), '.rodata': (1, 8), '.data': (1, 8), '.bss': (1, 5)}, o])
                if full: layout_case(arch, L, '%s aligned to %d, first' % (s, al), [o, {'.text': (4, 8), '.data': (1, 8), '.bss': (1, 5)}])
        kinds = ['undef', 'strong', 'weak', 'common', 'wundef']
        for a, b in itertools.product(kinds, kinds):
            if a in ('undef', 'wundef') and b in ('undef', 'wundef') : 
                if a == 'wundef' or b == 'wundef': continue
            res_case(arch, L, '%s,%s' % (a, b), [a, b], precedence([a, b]))
        if full:
            for d in itertools.product(['undef', 'strong', 'weak', 'common'], repeat=3):
                res_case(arch, L, ','.join(d), list(d), precedence(d))
        res_case(arch, L, 'local,strong', ['local', 'strong'], 1)
        res_case(arch, L, 'strong,local', ['strong', 'local'], 0)
        res_case(arch, L, 'local,undef', ['local', 'undef'], None)
        res_case(arch, L, 'undef,(strong)', ['undef', 'strong'], 1, inarchive=(1,))
        res_case(arch, L, 'undef,(strong),(strong)', ['undef', 'strong', 'strong'], frozenset([1]), inarchive=(1, 2)) if False else None
        res_case(arch, L, 'strong,(strong)', ['strong', 'strong'], 0, inarchive=(1,))
        res_case(arch, L, 'undef,(none),(strong)', ['undef', 'none', 'strong'], 2, inarchive=(1, 2))
        res_case(arch, L, 'undef,(weak)', ['undef', 'weak'], 1, inarchive=(1,))
        res_case(arch, L, 'undef,(undef)', ['undef', 'none'], None, inarchive=(1,))
        nostart(arch, L); missing(arch, L); chain(arch, L)
    chk.assumptions = ['sections are those the compiler and assembler emit (.text .rodata .data .init_array .fini_array .bss)',
                       'the alignment and precedence scenarios are enumerated; contents, symbol values and .bss sizes are symbolic']
    return chk.finish()

def simple(arch, syms, i=0):
    E = ElfObjSpec(arch)
    t = E.sec('.text', 1, 8, 16, [(0, 8, 0x7e47000000000000 + i), (8, 8, 0)], 6)
    d = E.sec('.data', 1, 8, 16, [(0, 8, 0xda7a000000000000 + i), (8, 8, 0)], 3)
    for n, k in syms:
        if k == 'def': E.sym(n, GLOBAL, 2, t.index, 0)
        else:
            j = E.sym(n, GLOBAL, 0, 0, 0)
    for q, (n, k) in enumerate(syms):
        if k == 'ref': d.relas.append((8, K64[arch], E.symidx(q), 0))
    return E

def must_fail(arch, L, name, files, args, what):
    def analyse(vals):
        I, res = L.link(files, args)
        obs = []
        for st, rc in res:
            if fails(rc): obs.append(Ok())
            else: obs.append(Fail(st.facts, what))
        return obs
    chk.decide('%s %s' % (arch, name), {}, analyse)

def nostart(arch, L):
    must_fail(arch, L, 'symbols no entry', {'a.o': simple(arch, [('main', 'def')]).cells()}, ['-o', 'out', 'a.o'], 'link without the entry symbol succeeds')
    must_fail(arch, L, 'symbols -e undefined', {'a.o': simple(arch, [('_start', 'def')]).cells()}, ['-o', 'out', '-e', 'begin', 'a.o'], 'link without the entry symbol succeeds')
    def analyse(vals):
        I, res = L.link({'a.o': simple(arch, [('_start', 'def'), ('x', 'def')]).cells(), 'b.o': simple(arch, [('begin', 'def')], 1).cells()}, ['-o', 'out', '-e', 'begin', 'a.o', 'b.o'])
        obs = []
        for st, rc in res:
            if fails(rc): obs.append(Fail(st.facts, 'link with -e fails')); continue
            im = Image(I, st, 'out')
            p = im.find(0x7e47000000000001)
            obs.append(Ok() if len(p) == 1 and im.entry == im.addr_of(p[0]) else Fail(st.facts, 'entry point is not the symbol given with -e'))
        return obs
    chk.decide('%s symbols -e' % arch, {}, analyse)

def missing(arch, L):
    ok = simple(arch, [('_start', 'def')]).cells()
    must_fail(arch, L, 'inputs missing object', {'a.o': ok}, ['-o', 'out', 'a.o', 'nothere.o'], 'a missing input object is ignored')
    must_fail(arch, L, 'inputs missing object first', {'a.o': ok}, ['-o', 'out', 'nothere.o', 'a.o'], 'a missing input object is ignored')
    must_fail(arch, L, 'inputs missing archive', {'a.o': ok}, ['-o', 'out', 'a.o', 'nothere.a'], 'a missing archive is ignored')
    must_fail(arch, L, 'inputs missing library', {'a.o': ok}, ['-o', 'out', 'a.o', '-lnothere'], 'a missing library is ignored')
    must_fail(arch, L, 'inputs not ELF', {'a.o': ok, 'b.o': (64, [(i, 1, 65) for i in range(64)])}, ['-o', 'out', 'a.o', 'b.o'], 'a file that is not ELF is accepted')
    other = 'aarch64' if arch != 'aarch64' else 'x64'
    must_fail(arch, L, 'inputs wrong machine', {'a.o': ok, 'b.o': simple(other, [('z', 'def')]).cells()}, ['-o', 'out', 'a.o', 'b.o'], 'an object of another machine is accepted')
    must_fail(arch, L, 'inputs unknown suffix', {'a.o': ok, 'b.txt': (4, [])}, ['-o', 'out', 'a.o', 'b.txt'], 'an unsupported file is ignored')

def chain(arch, L):
    """archive members pulled transitively, forwards and backwards in the archive, and via -l/-L"""
    main = simple(arch, [('_start', 'def'), ('f1', 'ref')])
    m1 = simple(arch, [('f1', 'def'), ('f2', 'ref')], 1); m2 = simple(arch, [('f2', 'def'), ('f3', 'ref')], 2); m3 = simple(arch, [('f3', 'def')], 3); m4 = simple(arch, [('f4', 'def')], 4)
    for order in ((1, 2, 3, 4), (4, 3, 2, 1), (2, 4, 1, 3)):
        for lib in (False, True):
            def analyse(vals, order=order, lib=lib):
                ms = {1: m1, 2: m2, 3: m3, 4: m4}
                mem = [('m%d.o' % k,) + tuple(ms[k].cells()) for k in order]
                a = mkar(mem, [('f%d' % k, i) for i, k in enumerate(order)])
                if lib: files = {'a.o': main.cells(), 'dir/libz.a': a}; args = ['-o', 'out', 'a.o', '-Ldir', '-lz']
                else: files = {'a.o': main.cells(), 'z.a': a}; args = ['-o', 'out', 'a.o', 'z.a']
                I, res = L.link(files, args)
                obs = []
                for st, rc in res:
                    if fails(rc): obs.append(Fail(st.facts, 'link against an archive fails')); continue
                    im = Image(I, st, 'out')
                    for k in (0, 1, 2):
                        p = im.find(0xda7a000000000000 + k); q = im.find(0x7e47000000000000 + k + 1)
                        good = len(p) == 1 and len(q) == 1 and im.rd(p[0] + 8, 8) == im.addr_of(q[0])
                        obs.append(Ok() if good else Fail(st.facts, 'reference to f%d is not bound to the archive member defining it' % (k + 1)))
                    obs.append(Fail(st.facts, 'an unneeded archive member is linked') if im.find(0x7e47000000000004) else Ok())
                return obs
            chk.decide('%s archive order %s%s' % (arch, ''.join(map(str, order)), ' via -l' if lib else ''), {}, analyse)

main(main_)
