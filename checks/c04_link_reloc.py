"""C04: the linker stores at every relocation site the value the psABI prescribes, or fails the link."""
from elf_common import *

chk = Check('C04', 'abstract interpretation of the whole linker (from main) over object files whose symbol values, addends and site '
            'contents are symbolic; at every relocation site of the output image the field must equal the psABI formula of '
            'S, A and P for all values, bits outside the field must be preserved, and an unrepresentable value must fail the link')
chk.minimum = 60

M = (1 << 64) - 1
MARK = {n: 0x1122334455660000 + 0x101 * i + (i << 40) for i, n in enumerate(
    ['a.text', 'a.data', 'b.text', 'b.data', 'b.rodata', 'a.init'])}

def target_kinds(arch): return ['ext', 'extdata', 'extro', 'local', 'section', 'bss', 'self', 'weak', 'lcomm', 'common']

def build_objs(arch, kind, relas, v, sitecells, insec, pad):
    """A holds the sites; B holds the external definitions.  relas(symidx, losym) -> list for the site section"""
    A = ElfObjSpec(arch); B = ElfObjSpec(arch)
    at = A.sec('.text', SHT_PROGBITS, 16, 8 + pad + 24, [(0, 8, MARK['a.text'])], 6)
    ad = A.sec('.data', SHT_PROGBITS, 8, 8 + pad + 24, [(0, 8, MARK['a.data'])], 3)
    ab = A.sec('.bss', SHT_NOBITS, 8, 48, [], 3)
    bt = B.sec('.text', SHT_PROGBITS, 8, 24, [(0, 8, MARK['b.text'])], 6)
    br = B.sec('.rodata', SHT_PROGBITS, 32, 40, [(0, 8, MARK['b.rodata'])], 2)
    bd = B.sec('.data', SHT_PROGBITS, 16, 24, [(0, 8, MARK['b.data'])], 3)
    bb = B.sec('.bss', SHT_NOBITS, 32, 80, [], 3)
    A.sym('hi', LOCAL, 0, at.index, 8 + pad)         # label at the first site (RISC-V %pcrel_lo)
    loc = None
    if kind == 'local': loc = A.sym('lv', LOCAL, 1, ad.index, v)
    if kind == 'self': loc = A.sym('lf', LOCAL, 2, at.index, v)
    if kind == 'lcomm': loc = A.sym('lc', LOCAL, 1, ab.index, v)
    A.sym('_start', GLOBAL, 2, at.index, 0)
    if kind in ('ext', 'extdata', 'extro', 'bss', 'weak'):
        loc = A.sym('target', GLOBAL, 0, UNDEF_SHN, 0)
        B.sym('target', WEAK if kind == 'weak' else GLOBAL, 2 if kind in ('ext', 'weak') else 1,
              {'ext': bt, 'extdata': bd, 'bss': bb, 'weak': bt, 'extro': br}[kind].index, v)
    elif kind == 'common':
        loc = A.sym('target', GLOBAL, 0, UNDEF_SHN, 0)
        B.sym('target', GLOBAL, 1, COMMON_SHN, v, 8)
    else:
        B.sym('unrelated', GLOBAL, 2, bt.index, 0)
    # addresses of .bss sections, observed through probes in A.data
    K = {'x64': 1, 'aarch64': 257, 'riscv64': 2}[arch]
    if kind == 'bss': pass
    pb = A.sym('probe_b', GLOBAL, 0, UNDEF_SHN, 0)
    B.sym('probe_b', GLOBAL, 1, bb.index, 0)
    site = {'text': at, 'data': ad}[insec]
    for o, s, x in sitecells: site.cells.append((8 + pad + o, s, x))
    symi = A.symidx(loc) if loc is not None else ad.index
    site.relas += relas(symi, A.symidx(0), 8 + pad)
    # probes at the end of .data
    ad.relas.append((8 + pad + 16, K, A.symidx(pb), 0))
    ad.relas.append((8 + pad + 8, K, ab.index, 0))
    return A, B, site

def run(arch, L, name, kind, relas, inputs, sites, oracle, insec='text', order=('a.o', 'b.o'), shift=0, vbits=20, pad=0):
    """oracle(facts, T, P, vals, rd) -> obligations"""
    def analyse(vals):
        v = shl(zext(vals['val'], vbits, 64), shift, 64) if vals['val'].__class__ is BV else vals['val'] << shift
        add_ = vals['add']
        A, B, site = build_objs(arch, kind, lambda s, lo, off: relas(s, lo, off, add_), v,
                                [(o, s, vals['s%d' % o]) for o, s in sites], insec, pad)
        fa, fb = A.cells(), B.cells()
        I, res = L.link({'a.o': fa, 'b.o': fb}, ['-o', 'out'] + list(order))
        obs = []
        nok = 0
        for st, rc in res:
            f = st.facts
            if rc.__class__ is int and rc == 0:
                nok += 1
                im = Image(I, st, 'out')
                pos = {}
                for n, mk_ in MARK.items():
                    p = im.find(mk_)
                    if len(p) == 1: pos[n] = p[0]
                base = {'text': 'a.text', 'data': 'a.data'}[insec]
                if base not in pos or 'a.data' not in pos: obs.append(Fail(f, 'site section missing from the output image')); continue
                adr = {n: im.addr_of(p) for n, p in pos.items()}
                so = pos[base] + 8 + pad
                P = adr[base] + 8 + pad
                bssB = im.rd(pos['a.data'] + 8 + pad + 16, 8); bssA = im.rd(pos['a.data'] + 8 + pad + 8, 8)
                S0 = {'ext': 'b.text', 'weak': 'b.text', 'extdata': 'b.data', 'extro': 'b.rodata', 'local': 'a.data', 'section': 'a.data', 'self': 'a.text'}.get(kind)
                s0 = adr.get(S0) if S0 else (bssA if kind == 'lcomm' else bssB)
                if s0.__class__ is not int: obs.append(Fail(f, 'section of the target has no address')); continue
                T = add(add(s0, v if kind != 'section' else 0, 64), add_, 64)
                obs += oracle(f, T, P, vals, lambda o, n: im.rd(so + o, n), True)
            else:
                s0 = None
                obs += reject(f, kind, v, add_, oracle, vals, L, order, insec, pad, inputs)
        obs.append(Ok())
        return obs
    inp = dict(inputs)
    adr = layout(L, kind, order, insec, pad)
    hints = None
    if adr:
        base = adr[SEC.get(kind, 'b.bss')] - (adr['a.text' if insec == 'text' else 'a.data'] + 8 + pad)
        hs = []
        for k in (3, 8, 9, 11, 12, 13, 19, 20, 21, 27, 28, 31, 32, 33):
            for d in ((1 << k), -(1 << k), (1 << k) - 2, -(1 << k) + 2, (1 << k) - 4, -(1 << k) - 4, (1 << k) - 0x800, (1 << k) + 0x7ff, (1 << k) - 1, (1 << k) // 3 * 2, -((1 << k) // 3 * 2)):
                hs.append((d - base) & M)
        hints = {'val': [0, 0, 0, 4], 'add': hs, 's0': [0x6f, 0xef, 0x16f, 0xa001, 0xc001, 0xe001, 0xc101, 0xe181, 0xdeadbe6f, 0xfffff06f, 0xbffd]}
    chk.decide('%s %s %s%s' % (arch, name, kind, '' if insec == 'text' else ' in ' + insec), inp, analyse, hints)

SEC = {'ext': 'b.text', 'weak': 'b.text', 'extdata': 'b.data', 'extro': 'b.rodata', 'local': 'a.data', 'section': 'a.data', 'self': 'a.text', 'lcomm': 'a.bss'}
# fixed layout of the scenario is learnt from a reference run so that rejections can be judged
LAY = {}
def layout(L, kind, order, insec, pad):
    key = (L.arch, order, insec, pad)
    if key in LAY: return LAY[key]
    A, B, site = build_objs(L.arch, 'section', lambda s, lo, off: [], 0, [], insec, pad)
    I, res = L.link({'a.o': A.cells(), 'b.o': B.cells()}, ['-o', 'out'] + list(order))
    ok = [s for s, rc in res if rc == 0]
    if not ok: LAY[key] = None; return None
    im = Image(I, ok[0], 'out')
    adr = {n: im.addr_of(im.find(m)[0]) for n, m in MARK.items() if len(im.find(m)) == 1}
    adr['b.bss'] = im.rd(im.find(MARK['a.data'])[0] + 8 + pad + 16, 8)
    adr['a.bss'] = im.rd(im.find(MARK['a.data'])[0] + 8 + pad + 8, 8)
    LAY[key] = adr
    return adr

def reject(f, kind, v, add_, oracle, vals, L, order, insec, pad, inputs):
    adr = layout(L, kind, order, insec, pad)
    if adr is None: return [Fail(f, 'a plain link of two objects fails')]
    S0 = {'ext': 'b.text', 'weak': 'b.text', 'extdata': 'b.data', 'extro': 'b.rodata', 'local': 'a.data', 'section': 'a.data', 'self': 'a.text',
          'lcomm': 'a.bss'}.get(kind, 'b.bss')
    P = adr['a.text' if insec == 'text' else 'a.data'] + 8 + pad
    T = add(add(adr[S0], v if kind != 'section' else 0, 64), add_, 64)
    # a symbol whose address is all ones is the linker's "no address"; not a real address
    S = add(adr[S0], v if kind != 'section' else 0, 64)
    out = []
    for g, eq in spliteq(f, S, M, 64):
        if not eq: out += oracle(g, T, P, vals, None, False)
    return out

# ------------------------------------------------------------------ oracles
def in_range(f, D, lo, hi):
    """[(facts, bool)] whether signed 64-bit D is in [lo, hi]"""
    out = []
    for g, b in splitbit(f, cmpbit(f, 'sge', D, lo & M, 64)):
        if not b: out.append((g, False)); continue
        for h, c in splitbit(g, cmpbit(g, 'sle', D, hi & M, 64)): out.append((h, c))
    return out

def bits(v, hi, lo, w=64):
    if v.__class__ is int: return (v >> lo) & ((1 << (hi - lo + 1)) - 1)
    return mk(v.bits[lo:hi + 1])

def catb(*parts):
    """parts: (value, width) from most to least significant"""
    bs = []
    for v, w in reversed(parts):
        bs.extend(bits_of(v, w))
    return mk(tuple(bs))

def ranged(lo, hi, accept=None):
    """wrap: build(f, D/T.., ) -> obligations for in-range values"""
    def deco(fn, val):
        def orc(f, T, P, vals, rd, ok):
            D = val(T, P)
            obs = []
            for g, inr in in_range(f, D, lo, hi):
                if ok and not inr: obs.append(Fail(g, 'value out of the field\'s range is stored silently'))
                elif ok: obs += fn(g, T, P, vals, rd)
                elif inr:
                    if accept is None: obs.append(Fail(g, 'representable value is rejected'))
                    else:
                        for h, a in in_range(g, D, *accept):
                            if a: obs.append(Fail(h, 'representable value is rejected'))
            return obs
        return orc
    return deco

def resolve(f, v, w): return f.resolve(v, w) if v.__class__ is BV else v
def pcrel(T, P): return sub(T, P, 64)

def orc_abs64(f, T, P, vals, rd, ok):
    if not ok: return [Fail(f, 'link rejected')]
    return [Eq(f, rd(0, 8), T, 64, '64-bit absolute field')]

def main_():
    for arch in ('x64', 'aarch64', 'riscv64'):
        L = Linker(arch, chk)
        kinds = target_kinds(arch)
        K64 = {'x64': 1, 'aarch64': 257, 'riscv64': 2}[arch]
        base = {'val': 20, 'add': 64}
        for kind in kinds:
            for insec in ('text', 'data'):
                run(arch, L, 'ABS64', kind, lambda s, lo, off, a: [(off, K64, s, a)], dict(base, s0=64), [(0, 8)], orc_abs64, insec)
            run(arch, L, 'ABS64', kind + '', lambda s, lo, off, a: [(off, K64, s, a)], dict(base, s0=64), [(0, 8)], orc_abs64, 'data', order=('b.o', 'a.o'))
        if arch == 'x64':
            f32 = ranged(-(1 << 31), (1 << 31) - 1)(
                lambda f, T, P, vals, rd: [Eq(f, rd(0, 4), bits(pcrel(T, P), 31, 0), 32, '32-bit PC-relative field'),
                                           Eq(f, rd(4, 4), vals['s4'], 32, 'bytes after the field')], pcrel)
            for kind in kinds:
                for t, n in ((2, 'PC32'), (4, 'PLT32')):
                    for pad in ((0,) if chk.tier == 'quick' else (0, 16)):
                        run(arch, L, n, kind, lambda s, lo, off, a: [(off, t, s, a)], dict(base, s0=32, s4=32), [(0, 4), (4, 4)], f32, pad=pad)
        elif arch == 'aarch64':
            def adr(f, T, P, vals, rd):
                D = sub(lshr(T, 12, 64), P >> 12, 64)
                w = vals['s0']
                return [Eq(f, rd(0, 4), catb((bits(w, 31, 31, 32), 1), (bits(D, 1, 0), 2), (bits(w, 28, 24, 32), 5), (bits(D, 20, 2), 19), (bits(w, 4, 0, 32), 5)), 32, 'adrp field')]
            def add12(f, T, P, vals, rd, ok):
                if not ok: return [Fail(f, 'link rejected')]
                w = vals['s0']
                return [Eq(f, rd(0, 4), catb((bits(w, 31, 22, 32), 10), (bits(T, 11, 0), 12), (bits(w, 9, 0, 32), 10)), 32, 'add :lo12: field')]
            def call(f, T, P, vals, rd):
                D = pcrel(T, P); w = vals['s0']
                return [Eq(f, rd(0, 4), catb((bits(w, 31, 26, 32), 6), (bits(D, 27, 2), 26)), 32, 'bl field')]
            oadr = ranged(-(1 << 20), (1 << 20) - 1)(adr, lambda T, P: sub(lshr(T, 12, 64), P >> 12, 64))
            ocall = ranged(-(1 << 27), (1 << 27) - 4)(call, pcrel)
            for kind in kinds:
                run(arch, L, 'ADR_PREL_PG_HI21', kind, lambda s, lo, off, a: [(off, 275, s, a)], dict(base, s0=32), [(0, 4)], oadr)
                run(arch, L, 'ADD_ABS_LO12_NC', kind, lambda s, lo, off, a: [(off, 277, s, a)], dict(base, s0=32), [(0, 4)], add12)
                # branch targets are multiples of 4
                run(arch, L, 'CALL26', kind, lambda s, lo, off, a: [(off, 283, s, a)], dict(base, s0=32), [(0, 4)],
                    aligned(ocall, 4), shift=2)
        else:
            def hi20(pc):
                def fn(f, T, P, vals, rd):
                    D = pcrel(T, P) if pc else T
                    H = add(D, 0x800, 64)
                    return [Eq(f, rd(0, 4), catb((bits(H, 31, 12), 20), (bits(vals['s0'], 11, 0, 32), 12)), 32, 'hi20 field'),
                            Eq(f, rd(4, 4), catb((bits(D, 11, 0), 12), (bits(vals['s4'], 19, 0, 32), 20)), 32, 'lo12 field')]
                return ranged(-(1 << 31) - 0x800, (1 << 31) - 0x801, accept=(-(1 << 31) + 0x1000, (1 << 31) - 0x1001))(fn, (lambda T, P: pcrel(T, P)) if pc else (lambda T, P: T))
            def jal(f, T, P, vals, rd):
                D = pcrel(T, P); w = vals['s0']
                # the linker only accepts the field in a jal instruction
                return [Eq(f, rd(0, 4), catb((bits(D, 20, 20), 1), (bits(D, 10, 1), 10), (bits(D, 11, 11), 1), (bits(D, 19, 12), 8), (bits(w, 11, 7, 32), 5), (0x6f, 7)), 32, 'jal field')]
            def call(f, T, P, vals, rd):
                D = pcrel(T, P)
                w0 = resolve(f, rd(0, 4), 32); w1 = resolve(f, rd(4, 4), 32)
                op = bits(w0, 11, 0, 32)
                if op.__class__ is int and op == 0x97:      # auipc ra / jalr ra, ra
                    H = add(D, 0x800, 64)
                    return [Eq(f, w0, catb((bits(H, 31, 12), 20), (0x97, 12)), 32, 'auipc of a call'),
                            Eq(f, w1, catb((bits(D, 11, 0), 12), (0x080e7, 20)), 32, 'jalr of a call')]
                return [Eq(f, w0, catb((bits(D, 20, 20), 1), (bits(D, 10, 1), 10), (bits(D, 11, 11), 1), (bits(D, 19, 12), 8), (0xef, 12)), 32, 'relaxed call (jal ra)'),
                        Eq(f, w1, 0x13, 32, 'second half of a relaxed call must be a nop')]
            def branch(f, T, P, vals, rd):
                D = pcrel(T, P); w = vals['s0']
                return [Eq(f, rd(0, 4), catb((bits(D, 12, 12), 1), (bits(D, 10, 5), 6), (bits(w, 24, 12, 32), 13), (bits(D, 4, 1), 4), (bits(D, 11, 11), 1), (bits(w, 6, 0, 32), 7)), 32, 'branch field')]
            def cj(f, T, P, vals, rd):
                D = pcrel(T, P); b = lambda i: (bits(D, i, i), 1)
                return [Eq(f, rd(0, 2), catb((0b101, 3), b(11), b(4), b(9), b(8), b(10), b(6), b(7), b(3), b(2), b(1), b(5), (1, 2)), 16, 'c.j field'),
                        Eq(f, rd(2, 2), vals['s2'], 16, 'bytes after the field')]
            def cb(f, T, P, vals, rd):
                D = pcrel(T, P); b = lambda i: (bits(D, i, i), 1); w = resolve(f, vals['s0'], 16)
                return [Eq(f, rd(0, 2), catb((bits(w, 15, 13, 16), 3), b(8), b(4), b(3), (bits(w, 9, 7, 16), 3), b(7), b(6), b(2), b(1), b(5), (bits(w, 1, 0, 16), 2)), 16, 'c.beqz/c.bnez field'),
                        Eq(f, rd(2, 2), vals['s2'], 16, 'bytes after the field')]
            ojal = ranged(-(1 << 20), (1 << 20) - 2, accept=(-(1 << 19), (1 << 19) - 2))(jal, pcrel)
            ocall = ranged(-(1 << 31) - 0x800, (1 << 31) - 0x801, accept=(-(1 << 19), (1 << 19) - 2))(call, pcrel)
            obr = ranged(-(1 << 12), (1 << 12) - 2)(branch, pcrel)
            ocj = ranged(-(1 << 11), (1 << 11) - 2)(cj, pcrel)
            ocb = ranged(-(1 << 8), (1 << 8) - 2)(cb, pcrel)
            for kind in kinds:
                two = dict(base, s0=32, s4=32)
                run(arch, L, 'PCREL_HI20/LO12_I', kind, lambda s, lo, off, a: [(off, 23, s, a), (off, 51, 0, 0), (off + 4, 24, lo, 0), (off + 4, 51, 0, 0)], two, [(0, 4), (4, 4)], hi20(True))
                run(arch, L, 'HI20/LO12_I', kind, lambda s, lo, off, a: [(off, 26, s, a), (off, 51, 0, 0), (off + 4, 27, s, a), (off + 4, 51, 0, 0)], two, [(0, 4), (4, 4)], hi20(False))
                run(arch, L, 'CALL+RELAX', kind, lambda s, lo, off, a: [(off, 18, s, a), (off, 51, 0, 0)], two, [(0, 4), (4, 4)], aligned(ocall, 2), shift=1)
                run(arch, L, 'JAL', kind, lambda s, lo, off, a: [(off, 17, s, a)], dict(base, s0=32), [(0, 4)], aligned(insn(ojal, 's0', 32, 0x7f, [0x6f]), 2), shift=1)
                run(arch, L, 'BRANCH', kind, lambda s, lo, off, a: [(off, 16, s, a)], dict(base, s0=32), [(0, 4)], aligned(obr, 2), shift=1)
                half = dict(base, s0=16, s2=16)
                run(arch, L, 'RVC_JUMP', kind, lambda s, lo, off, a: [(off, 45, s, a)], half, [(0, 2), (2, 2)], aligned(insn(ocj, 's0', 16, 0xe003, [0xa001]), 2), shift=1)
                run(arch, L, 'RVC_BRANCH', kind, lambda s, lo, off, a: [(off, 44, s, a)], half, [(0, 2), (2, 2)], aligned(insn(ocb, 's0', 16, 0xe003, [0xc001, 0xe001]), 2), shift=1)
    chk.assumptions = ['objects are laid out as this repository\'s assembler writes them (section symbols first, one .bss per object)',
                       'section sizes in the scenarios are fixed; symbol values, addends and site contents are unconstrained',
                       'an aborted link (assert or error exit) counts as a diagnosed failure']
    return chk.finish()

def aligned(orc, n):
    """targets that are not instruction-aligned are outside the property"""
    def o(f, T, P, vals, rd, ok):
        out = []
        for g, c in spliteq(f, bits(sub(T, P, 64), n.bit_length() - 2, 0), 0, n.bit_length() - 1):
            if c: out += orc(g, T, P, vals, rd, ok)
        return out
    return o
def insn(orc, nm, w, mask, pats):
    """the site holds one of the instructions the relocation applies to"""
    def o(f, T, P, vals, rd, ok):
        out = []
        for p in pats:
            for g, c in spliteq(f, and_(vals[nm], mask, w), p, w):
                if c: out += orc(g, T, P, vals, rd, ok)
        return out
    return o

main(main_)
