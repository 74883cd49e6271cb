"""C06: references, expressions and directives in the assembler: what the object
file says about a label or an expression is what the source says."""
from as_common import *
A1, A2, A3 = magic(1), magic(2), magic(3)
S64 = sym('a', 64)
M64 = (1 << 64) - 1

RULE = ('For every way an instruction or directive can mention a label (defined before or after it in the same section, '
        'defined in another section, global, or not defined in the file) the assembler is followed from source text to object '
        'file with the addend and the distances as unknowns; each reference must come out either as a displacement that '
        'reaches the label, or as a relocation of a type, place and addend that makes the linker produce that address; '
        'numeric expressions and data directives must produce the bytes of their value; symbols the binding, type, size and place '
        'their directives ask for.')

# ------------------------------------------------------------------ part 1
# (instruction with label operand, kind, addend possible)
JCC = ['jo', 'jno', 'jb', 'jae', 'je', 'jne', 'jbe', 'ja', 'js', 'jns', 'jp', 'jnp', 'jl', 'jge', 'jle', 'jg']
BCC_ARM = ['beq', 'bne', 'bhs', 'blo', 'bmi', 'bpl', 'bvs', 'bvc', 'bhi', 'bls', 'bge', 'blt', 'bgt', 'ble', 'bal', 'bnv']
# must: instruction forms every C program needs (cc1 writes them); the others may be refused but not mis-assembled
REFS = {
    'x64': [('jmp {}', 'x86rel', 1)] + [(j + ' {}', 'x86rel', 1) for j in JCC] +
           [('call {}', 'x86rel', 1), ('lea {}(%rip), %rax', 'x86rip', 1), ('lea {}(%rip), %r10', 'x86rip', 1),
            ('mov {}(%rip), %rax', 'x86rip', 0), ('mov {}(%rip), %r9', 'x86rip', 0), ('mov {}(%rip), %ecx', 'x86rip', 0),
            ('mov %rax, {}(%rip)', 'x86rip', 0), ('movsd {}(%rip), %xmm0', 'x86rip', 0), ('add {}(%rip), %rax', 'x86rip', 0),
            ('mov {}, %rax', 'none', 0), ('mov %rax, {}', 'none', 0), ('movl $1, {}', 'none', 0), ('movb $1, {}', 'none', 0),
            ('lea {}(%rax), %rcx', 'none', 0), ('mov {}(%rax), %rcx', 'none', 0), ('mov {}(%rax,%rcx,8), %rdx', 'none', 0),
            ('movl $1, {}(%rip)', 'none', 0), ('incl {}(%rip)', 'none', 0), ('addq $1, {}(%rip)', 'none', 0), ('jmp *{}(%rax)', 'none', 0)],
    'riscv64': [('j {}', 'rvj', 1)] + [('%s a0, a1, {}' % b, 'rvb', 1) for b in ('beq', 'bne', 'blt', 'bge', 'bltu', 'bgeu')] +
               [('%s a5, zero, {}' % b, 'rvb', 1) for b in ('beq', 'bne', 'blt', 'bge', 'bltu', 'bgeu')] +
               [('beq t3, zero, {}', 'rvb', 1), ('call {}', 'rvcall', 1), ('la a0, {}', 'rvla', 1), ('la s11, {}', 'rvla', 1),
                ('li a0, {}', 'none', 0), ('addi a0, a0, {}', 'none', 0), ('addiw a0, a0, {}', 'none', 0), ('ld a0, {}(a1)', 'none', 0),
                ('sd a0, {}(a1)', 'none', 0), ('slli a0, a0, {}', 'none', 0), ('fld fa0, {}(a0)', 'none', 0)],
    'aarch64': [('b {}', 'armb', 0)] + [(b + ' {}', 'armbcc', 0) for b in BCC_ARM] +
               [('bl {}', 'armbl', 1), ('adrp x0, {}', 'armadrp', 1), ('adrp x21, :got:{}', 'armgotp', 1), ('add x0, x0, :lo12:{}', 'armlo', 1),
                ('add x7, x7, #:lo12:{}', 'armlo', 1), ('ldr x0, [x0,#:got_lo12:{}]', 'armgotlo', 1),
                ('ldr x0, [x0,#:lo12:{}]', 'none', 0), ('str x0, [x0,#:lo12:{}]', 'none', 0), ('ldrb w0, [x0,#:lo12:{}]', 'none', 0),
                ('strh w0, [x0,#:lo12:{}]', 'none', 0), ('ldr w0, [x0,#:lo12:{}]', 'none', 0),
                ('sub x0, x0, :lo12:{}', 'none', 0), ('add x0, x0, {}', 'none', 0), ('sub x0, x0, {}', 'none', 0), ('cmp x0, {}', 'none', 0),
                ('ldr x0, [x0,#{}]', 'none', 0), ('mov x0, {}', 'none', 0), ('ldr d0, [x0,#:lo12:{}]', 'none', 0), ('lsl x0, x0, {}', 'none', 0)],
}
MUST_UNDEF_OK = {'x86rel', 'x86rip', 'rvj', 'rvb', 'rvcall', 'rvla', 'armbl', 'armadrp', 'armgotp', 'armlo', 'armgotlo'}
# instructions the compiler writes: these must be accepted
MUST = {'x64': ('jmp', 'call', 'lea {}(%rip)') + tuple(JCC), 'riscv64': ('j ', 'b', 'call', 'la '), 'aarch64': ('b', 'adrp', 'add x0, x0, :lo12', 'ldr x0, [x0,#:got_lo12')}
OPC = {'jmp': (0xeb, [0xe9])}
for i, j in enumerate(JCC): OPC[j] = (0x70 + i, [0x0f, 0x80 + i])

REL = {
    'x86rel': {2: 4, 4: 4}, 'x86rip': {2: 4},
    'rvj4': {17}, 'rvj2': {45}, 'rvb4': {16}, 'rvb2': {44},
    'rvcall': {18, 19},
    'armb': {282, 283}, 'armbl': {282, 283}, 'armbcc': {280}, 'armadrp': {275}, 'armgotp': {311}, 'armlo': {277}, 'armgotlo': {312},
}

def place(o, rel):
    """(kind, x, addend) a relocation refers to: ('at', section, offset) or ('und', name, addend)"""
    off, typ, si, add = rel
    if not (si < len(o.syms)): return ('bad', 'symbol index %r' % si, 0)
    s = o.syms[si]
    if s['shndx'] == 0: return ('und', s['name'], add)
    return ('at', s['shndx'], dom.add(s['value'], add, 64))

def sx(v, w): return sext(v, w, 64)

def ref_obligations(o, s, kind, sec, off, n, want, ins, dataoff=None):
    """obligations that the instruction of n bytes at sec:off refers to `want` = place() form"""
    f = s.facts
    rels = [r for r in o.rel.get(sec, []) if r[0].__class__ is int and off <= r[0] < off + n and r[1] != 51]
    b = [o.data(sec, off + i, 1) for i in range(n)]
    secidx, _ = o.sec(sec)
    def tgt(rel, bias, msg):
        k, x, v = place(o, rel)
        if k == 'bad': return [Fail(f, '%s: relocation with bad %s' % (ins, x))]
        if k == 'und' and want[0] == 'at' and any(q['name'] == x and q['shndx'] for q in o.syms): pass
        if k != want[0] or x != want[1]:
            return [Fail(f, '%s: relocation refers to %s %s, not %s %s' % (ins, k, x, want[0], want[1]))]
        return [Eq(f, dom.add(v, bias, 64), want[2], 64, '%s: %s' % (ins, msg))]
    def only(types, at=0):
        """exactly one relocation of the given types at off+at"""
        if len(rels) != 1: return 'expected one relocation, found %d' % len(rels)
        if rels[0][1] not in types: return 'relocation type %d not one of %s' % (rels[0][1], sorted(types))
        if rels[0][0] != off + at: return 'relocation at byte %d of the instruction, the field is at byte %d' % (rels[0][0] - off, at)
        return None
    def le(bs):
        v = 0
        for i, x in enumerate(bs): v = or_(v, shl(zext(x, 8, 64), 8 * i, 64), 64)
        return v
    def resolved(disp, base, msg):
        if want[0] != 'at' or want[1] != secidx:
            return [Fail(f, '%s: no relocation although the label is not in this section' % ins)]
        return [Eq(f, dom.add(disp, base, 64), want[2], 64, '%s: %s' % (ins, msg))]
    if kind in ('x86rel', 'x86rip'):
        mn = ins.split()[0]
        if rels:
            e = only(REL[kind], n - 4)
            if e: return [Fail(f, '%s: %s' % (ins, e))]
            if mn in OPC and b[:n - 4] != OPC[mn][1]: return [Fail(f, '%s: opcode bytes %s' % (ins, b[:n - 4]))]
            return tgt(rels[0], 4, 'relocated target')
        if n == 2 and mn in OPC:
            if b[0] != OPC[mn][0]: return [Fail(f, '%s: opcode %r' % (ins, b[0]))]
            return resolved(sx(b[1], 8), off + n, 'displacement reaches the label')
        if mn in OPC and b[:n - 4] != OPC[mn][1]: return [Fail(f, '%s: opcode bytes %s' % (ins, b[:n - 4]))]
        return resolved(sx(trunc(le(b[n - 4:]), 64, 32), 32), off + n, 'displacement reaches the label')
    if kind in ('rvj', 'rvb'):
        if n not in (2, 4): return [Fail(f, '%s: assembled to %d bytes' % (ins, n))]
        if n == 2 and want[0] == 'und': return [Fail(f, '%s: compressed form for a label outside the file cannot reach it' % ins)]
        e = only(REL[kind + str(n)])
        if e: return [Fail(f, '%s (%d bytes): %s' % (ins, n, e))]
        op = b[0]
        if n == 4 and op.__class__ is int and (op & 0x7f) != (0x6f if kind == 'rvj' else 0x63): return [Fail(f, '%s: opcode %#x' % (ins, op))]
        return tgt(rels[0], 0, 'relocated target')
    if kind == 'rvcall':
        e = only(REL[kind])
        if e: return [Fail(f, '%s: %s' % (ins, e))]
        return tgt(rels[0], 0, 'relocated target')
    if kind == 'rvla':
        if [(r[0] - off, r[1]) for r in rels] != [(0, 23), (4, 24)]:
            return [Fail(f, '%s: relocations %s' % (ins, [(r[0] - off, r[1]) for r in rels]))]
        out = tgt(rels[0], 0, 'relocated target')
        k, x, v = place(o, rels[1])
        if k != 'at' or x != secidx: out.append(Fail(f, '%s: low-part relocation refers to %s %s' % (ins, k, x)))
        else: out.append(Eq(f, v, off, 64, '%s: low part refers to the auipc' % ins))
        return out
    if kind.startswith('arm'):
        if not rels and kind in ('armb', 'armbcc'):
            w = le(b)
            if kind == 'armb': d = shl(sext(trunc(w, 64, 26), 26, 64), 2, 64)
            else: d = shl(sext(trunc(lshr(w, 5, 64), 64, 19), 19, 64), 2, 64)
            return resolved(d, off, 'displacement reaches the label')
        e = only(REL[kind])
        if e: return [Fail(f, '%s: %s' % (ins, e))]
        return tgt(rels[0], 0, 'relocated target')
    if kind == 'none':
        # a form the assembler has no relocation for: accepting it silently loses the label
        if not rels: return [Fail(f, '%s: accepted, but the label is neither resolved nor relocated' % ins)]
        return [Ok()]
    raise KeyError(kind)

CONFIGS = {
    # name: (before, after, data)   L at a known place
    'back': ('L:\n\t.zero 16\n', '', ''),
    'forward': ('', '\t.zero 16\nL:\n\t.zero 16\n', ''),
    'global': ('\t.globl L\n', '\t.zero 16\nL:\n\t.zero 16\n', ''),
    'data': ('', '', '\t.data\n\t.zero 24\nL:\n\t.zero 16\n'),
    'dataglobal': ('', '', '\t.data\n\t.globl L\n\t.zero 24\nL:\n\t.zero 16\n'),
    'bss': ('', '', '\t.comm L, 24, 8\n'),
    'weak': ('\t.weak L\n', '\t.zero 16\nL:\n\t.zero 16\n', ''),
    'undef': ('', '', ''),
    'undefglobl': ('\t.globl L\n', '', ''),
    'nolabel': ('', '', ''),          # no label precedes the instruction
    'second': ('', '', ''),           # not the first instruction after a label
}

QUICK_SKIP = {j + ' {}' for j in JCC[:4] + JCC[5:]} | {b + ' {}' for b in BCC_ARM[2:]} | {'%s a5, zero, {}' % b for b in ('blt', 'bge', 'bltu', 'bgeu')} | {'%s a0, a1, {}' % b for b in ('bge', 'bltu', 'bgeu')}

def part1(chk, arch, A):
    for ins, kind, addend in REFS[arch]:
        for cfg, (pre, post, data) in CONFIGS.items():
            for add in ((None, '+') if addend else (None,)):
                if chk.tier == 'quick' and ins[:2] not in ('je', 'jm') and ins in QUICK_SKIP and cfg not in ('forward', 'undef'): continue
                if chk.tier == 'quick' and add and cfg not in ('forward', 'data', 'undef', 'back'): continue
                if add and kind == 'rvb' and cfg in ('back', 'forward'): continue     # may become a longer sequence: part 2
                if cfg in ('nolabel', 'second') and not ins.startswith('la '): continue
                key = '%s: %s (%s%s)' % (arch, ins.format('L' + (' + a' if add else '')), cfg, '')
                lab = 'L' + (' + ' + A1 if add else '')
                text = '\t.text\n' + ('' if cfg == 'nolabel' else 'main:\n') + pre
                npad = {'back': 0}.get(cfg, 0)
                if cfg == 'second': text += '\tret\n'
                if cfg == 'nolabel': text += ''
                text += '\t' + ins.format(lab) + '\n' + post + data
                def analyse(v, text=text, cfg=cfg, add=add, kind=kind, ins=ins):
                    a = v.get('a', 0)
                    def assume(f):
                        if add:  # addends are 31-bit offsets here; wider ones in part 3
                            x = f.assume(icmp('ult', dom.add(a, 1 << 20, 64), 1 << 21, 64), 1) if a.__class__ is not int else True
                            return x
                    I, res = A.run(text, [a], assume=assume)
                    out = []
                    must = ins.startswith(MUST[arch]) and kind != 'none'
                    und = cfg in ('undef', 'undefglobl')
                    for s, rc in res:
                        if rc != 0:
                            if must and kind in MUST_UNDEF_OK | ({kind} if cfg in ('back', 'forward', 'global') else set()):
                                if not range_excuse(arch, kind, s, a, add):
                                    out.append(Fail(s.facts, '%s: refused' % ins))
                                else: out.append(Ok())
                            else: out.append(Ok())
                            continue
                        try: o = ObjFile(I, s)
                        except ValueError as e:
                            out.append(Fail(s.facts, 'object file: %s' % e)); continue
                        ti, th = o.sec('.text')
                        tsz = th['size'] if th else 0
                        pn = {'back': 16, 'second': None}.get(cfg, 0)
                        if cfg == 'second': pn = 2 if arch == 'riscv64' else (1 if arch == 'x64' else 4)
                        n = tsz - pn - {'forward': 32, 'global': 32, 'weak': 32}.get(cfg, 0)
                        if n <= 0:
                            out.append(Fail(s.facts, '%s: accepted without producing code' % ins)); continue
                        if und: want = ('und', 'L', a if add else 0)
                        else:
                            if cfg in ('data', 'dataglobal'): wi, wo = o.sec('.data')[0], 24
                            elif cfg == 'bss': wi, wo = o.sec('.bss')[0], 0
                            elif cfg == 'back': wi, wo = ti, 0
                            elif cfg in ('nolabel', 'second'): want = ('und', 'L', a if add else 0); wi = None
                            else: wi, wo = ti, tsz - 16
                            if wi is not None: want = ('at', wi, dom.add(wo, a, 64) if add else wo)
                        out += ref_obligations(o, s, kind, '.text', pn, n, want, ins.format('L'))
                    return out
                chk.decide(key, {'a': 64} if add else {}, analyse)

def range_excuse(arch, kind, s, a, add):
    """a refusal is fine where the target cannot be reached or is misaligned: only checked without addend"""
    return bool(add)

# ------------------------------------------------------------------ part 2: symbolic distances
def part2(chk, arch, A):
    T = A.T
    X = {'x64': [('jmp L', 'x86rel')] + [(j + ' L', 'x86rel') for j in JCC],
         'riscv64': [('j L', 'rvj')] + [('%s %s, L' % (b, r), 'rvb') for b in ('beq', 'bne', 'blt', 'bge', 'bltu', 'bgeu') for r in ('a0, a1', 'a4, zero', 't1, zero')],
         'aarch64': [('b L', 'armb')] + [(b + ' L', 'armbcc') for b in BCC_ARM]}[arch]
    for ins, kind in X:
        for cfg in ('forward', 'backward', 'two'):
            pad = {'forward': '\t%s\n\t.zero %s\nL:\n\tret\n', 'backward': 'L:\n\t.zero %s\n\t%s\n\tret\n',
                   # two branches over each other: growing one moves the other's label
                   'two': 'M:\n\t%s\n\t.zero %s\n\t%s\nL:\n\tret\n'}[cfg]
            def analyse(v, cfg=cfg, ins=ins, pad=pad, kind=kind):
                g = v['g']
                other = ins.replace('L', 'M')
                text = '\t.text\nmain:\n' + pad % {'forward': (ins, A1), 'backward': (A1, ins), 'two': (ins, A1, other)}[cfg]
                cap = []
                def grab(I, st, a, ia):
                    cap.append((st, a)); return [(st, 0)]
                lim = {'x86rel': 1 << 40, 'rvj': 1 << 22, 'rvb': 1 << 22, 'armb': 1 << 29, 'armbcc': 1 << 23}[kind]
                def assume(f):
                    al = {'x64': 0, 'riscv64': 1, 'aarch64': 3}[arch]      # code addresses are aligned
                    if g.__class__ is int: return g < lim and not g & al
                    return f.assume(icmp('ult', g, lim, 64), 1) and (not al or f.assume(icmp('eq', and_(g, al, 64), 0, 64), 1))
                I, res = A.run(text, [g], assume=assume, externs={'emit_irs': lambda I, st, a, i: [(st, None)], 'emit_elf_obj': grab})
                out = []
                for s, rc in res:
                    c = [x for x in cap if x[0] is s]
                    if rc != 0 or not c:
                        # refused: the distance must be out of the instruction's reach
                        r = {'x86rel': (1 << 31) - 64, 'rvj': (1 << 20) - 64, 'rvb': (1 << 20) - 64, 'armb': (1 << 27) - 64, 'armbcc': (1 << 20) - 64}[kind]
                        bit = icmp('ult', g, r, 64)
                        al = 0 if kind == 'x86rel' else (1 if kind[0] == 'r' else 3)
                        f = s.facts.copy()
                        ok = (bool(bit) if bit.__class__ is int else f.assume(bit, 1))
                        if ok and al:
                            m = icmp('eq', and_(g, al, 64), 0, 64)
                            ok = bool(m) if m.__class__ is int else f.assume(m, 1)
                        if ok: out.append(Fail(f, '%s: refused although the label is in reach' % ins))
                        else: out.append(Ok())
                        continue
                    out += irs_obligations(A, I, s, c[0][1], arch, kind, ins, cfg, g)
                return out
            b = {'x86rel': [100, 110, 113, 120, 122, 124, 126, 127, 128, 130, 200, (1 << 31) - 1, 1 << 31], 'rvj': [2030, 2040, 2042, 2044, 2046, 2048, 2050, 1 << 20],
                 'rvb': [240, 250, 252, 254, 256, 258, 4080, 4090, 4092, 4094, 4096, 4098], 'armb': [(1 << 27) - 8, (1 << 27) - 4, 1 << 27], 'armbcc': [(1 << 20) - 8, (1 << 20) - 4, 1 << 20]}[kind]
            chk.decide('%s: %s over a gap of g bytes (%s)' % (arch, ins, cfg), {'g': 64}, analyse, hints={'g': b})

def irs_obligations(A, I, s, args, arch, kind, ins, cfg, g):
    """the instructions held for the text section just before they are written"""
    T = A.T
    f = s.facts
    def ld(obj, path, st, w=None):
        o, sz, _ = T.field(st, path)
        return I.load(s, Ptr(obj.obj, obj.off + o), ll.PTR if w == 'p' else ll.I(8 * sz))
    def vec(p):
        n = ld(p, 'len', 'Vector'); n = f.resolve(n, 32)
        d = ld(p, 'data', 'Vector', 'p')
        return [I.load(s, Ptr(d.obj, d.off + 8 * i), ll.PTR) for i in range(n)] if n else []
    secs = vec(args[1]); unres = vec(args[3])
    text = None
    for sp in secs:
        nm = ld(sp, 'name', 'SectionInfo', 'p')
        cp = ld(nm, 'chars', 'Name', 'p'); n = f.resolve(ld(nm, 'bytes', 'Name'), 32)
        if bytes(I.load(s, Ptr(cp.obj, cp.off + i), ll.I(8)) for i in range(n)) == b'.text': text = sp
    irs = vec(ld(text, 'irs', 'SectionInfo', 'p'))
    E = T.enums
    pos = 0; labels = {}; codes = []
    for p in irs:
        k = f.resolve(ld(p, 'kind', 'IR'), 32)
        if k == E['IR_LABEL']:
            nm = ld(p, 'label', 'IR', 'p'); cp = ld(nm, 'chars', 'Name', 'p'); n = f.resolve(ld(nm, 'bytes', 'Name'), 32)
            labels[bytes(I.load(s, Ptr(cp.obj, cp.off + i), ll.I(8)) for i in range(n)).decode()] = pos
        elif k == E['IR_CODE']:
            n = f.resolve(ld(p, 'code.len', 'IR'), 8)
            bo = p.off + T.field('IR', 'code.buf')[0]
            codes.append((pos, [f.resolve(I.load(s, Ptr(p.obj, bo + i), ll.I(8)), 8) for i in range(n)]))
            pos = dom.add(pos, n, 64)
        elif k == E['IR_ZERO']: pos = dom.add(pos, ld(p, 'zero', 'IR'), 64)
        else: raise Undecided('unexpected item %r' % k)
    rel = []
    for u in unres:
        nm = ld(u, 'label', 'UnresolvedInfo', 'p'); cp = ld(nm, 'chars', 'Name', 'p'); n = f.resolve(ld(nm, 'bytes', 'Name'), 32)
        name = bytes(I.load(s, Ptr(cp.obj, cp.off + i), ll.I(8)) for i in range(n)).decode()
        rel.append((ld(u, 'offset', 'UnresolvedInfo'), f.resolve(ld(u, 'kind', 'UnresolvedInfo'), 32), name, ld(u, 'add', 'UnresolvedInfo')))
    out = []
    code = [c for c in codes]
    # last instruction is `ret`
    code = code[:-1]
    def word(bs):
        v = 0
        for i, x in enumerate(bs): v = or_(v, shl(zext(x, 8, 64), 8 * i, 64), 64)
        return v
    def within(v, lo, hi, msg):
        """obligation lo <= v <= hi (signed)"""
        b1 = icmp('slt', v, lo & M64, 64); b2 = icmp('sgt', v, hi & M64, 64)
        o = []
        for b in (b1, b2):
            if b.__class__ is int:
                o.append(Fail(f, msg) if b else Ok())
            else:
                ff = f.copy()
                if ff.assume(b, 1): o.append(Fail(ff, msg))
                else: o.append(Ok())
        return o
    if cfg == 'two':
        split = None
        for i, (p, _) in enumerate(code):
            if p.__class__ is not int or i and dom.sub(p, code[i - 1][0], 64) is not len(code[i - 1][1]) and dom.sub(p, code[i - 1][0], 64) != len(code[i - 1][1]): split = i; break
        if split is None: split = len(code) // 2
        groups = [(code[:split], 'L', ins), (code[split:], 'M', ins.replace('L', 'M'))]
    else: groups = [(code, 'L', ins)]
    for grp, lab, txt in groups:
        target = labels[lab]
        mn = txt.split()[0]
        cur = grp
        if arch == 'riscv64' and kind == 'rvb':
            if len(cur) == 2:
                # inverted branch over a jump
                (p0, b0), (p1, b1) = cur
                inv = {'beq': 'bne', 'bne': 'beq', 'blt': 'bge', 'bge': 'blt', 'bltu': 'bgeu', 'bgeu': 'bltu'}[mn]
                out += rv_branch(f, p0, b0, inv, txt, None, dom.add(p1, len(b1), 64), within, word)
                out += rv_jump(A, f, p1, b1, rel, lab, target, txt, within, word)
                continue
        if len(cur) != 1:
            out.append(Fail(f, '%s: became %d instructions' % (txt, len(cur)))); continue
        p, b = cur[0]
        n = len(b)
        dist = dom.sub(target, p, 64)
        if arch == 'x64':
            if n == 2:
                if b[0] != OPC[mn][0]: out.append(Fail(f, '%s: short opcode %r' % (txt, b[0]))); continue
                d = b[1]; w = 8
            else:
                if b[:n - 4] != OPC[mn][1]: out.append(Fail(f, '%s: opcode bytes %r' % (txt, b[:n - 4]))); continue
                d = word(b[n - 4:]); w = 32
            e = sub(dist, n, 64)
            out += within(e, -(1 << (w - 1)), (1 << (w - 1)) - 1, '%s: the label is out of reach of the displacement' % txt)
            out.append(Eq(f, trunc(d, 64, w) if w > 8 else d, trunc(e, 64, w), w, '%s: displacement' % txt))
        elif arch == 'aarch64':
            w = word(b)
            if kind == 'armb': d = and_(w, (1 << 26) - 1, 64); k = 26; op = (lshr(w, 26, 64), 5)
            else: d = and_(lshr(w, 5, 64), (1 << 19) - 1, 64); k = 19; op = (or_(and_(lshr(w, 20, 64), 0xff0, 64), and_(w, 0x1f, 64), 64), 0x540 | BCC_CODE[mn])
            out.append(Eq(f, op[0], op[1], 64, '%s: opcode' % txt))
            out += within(dist, -(1 << (k + 1)), (1 << (k + 1)) - 4, '%s: the label is out of reach of the displacement' % txt)
            out.append(Eq(f, d, and_(lshr(dist, 2, 64), (1 << k) - 1, 64), 64, '%s: displacement' % txt))
            out.append(Eq(f, and_(dist, 3, 64), 0, 64, '%s: misaligned target' % txt))
        elif kind == 'rvj': out += rv_jump(A, f, p, b, rel, lab, target, txt, within, word)
        else: out += rv_branch(f, p, b, mn, txt, (A, rel, lab), target, within, word)
    return out

BCC_CODE = dict(zip(BCC_ARM, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]))

def find_rel(f, rel, p):
    out = []
    for r in rel:
        if r[0] is p or (r[0].__class__ is int and p.__class__ is int and r[0] == p) or witness.equal(f, r[0], p, 64): out.append(r)
    return out

def rv_jump(A, f, p, b, rel, lab, target, txt, within, word):
    E = A.T.enums
    dist = dom.sub(target, p, 64)
    rs = find_rel(f, rel, p)
    if len(rs) != 1: return [Fail(f, '%s: %d relocations for the jump' % (txt, len(rs)))]
    k = E['UNRES_RISCV_RVC_JUMP'] if len(b) == 2 else E['UNRES_RISCV_JAL']
    out = []
    if rs[0][1] != k or rs[0][2] != lab: out.append(Fail(f, '%s: %d-byte jump has relocation kind %r to %s' % (txt, len(b), rs[0][1], rs[0][2])))
    out.append(Eq(f, rs[0][3], 0, 32 if False else 64, '%s: addend' % txt) if rs[0][3].__class__ is not int else (Ok() if rs[0][3] == 0 else Fail(f, '%s: addend %r' % (txt, rs[0][3]))))
    w = word(b)
    if len(b) == 2:
        out.append(Eq(f, and_(w, 0xe003, 64), 0xa001, 64, '%s: c.j opcode' % txt))
        out += within(dist, -2048, 2046, '%s: compressed jump cannot reach the label' % txt)
    else:
        out.append(Eq(f, and_(w, 0xfff, 64), 0x6f, 64, '%s: jal opcode and link register' % txt))
        out += within(dist, -(1 << 20), (1 << 20) - 2, '%s: jump cannot reach the label' % txt)
    return out

def rv_branch(f, p, b, mn, txt, reloc, target, within, word):
    F3 = {'beq': 0, 'bne': 1, 'blt': 4, 'bge': 5, 'bltu': 6, 'bgeu': 7}
    dist = dom.sub(target, p, 64)
    regs = [x.strip(',') for x in txt.split()[1:3]]
    NUM = {'a0': 10, 'a1': 11, 'a4': 14, 'zero': 0, 't1': 6}
    r1, r2 = NUM[regs[0]], NUM[regs[1]]
    w = word(b)
    out = []
    if len(b) == 2:
        base = {'beq': 0xc001, 'bne': 0xe001}.get(mn)
        if base is None or r2 or not 8 <= r1 < 16: return [Fail(f, '%s: assembled as compressed branch' % txt)]
        out.append(Eq(f, and_(w, 0xe383, 64), base | (r1 - 8) << 7, 64, '%s: compressed opcode and register' % txt))
        out += within(dist, -256, 254, '%s: compressed branch cannot reach the label' % txt)
    else:
        out.append(Eq(f, and_(w, 0x01fff07f, 64), 0x63 | F3[mn] << 12 | r1 << 15 | r2 << 20, 64, '%s: opcode and registers' % txt))
        out += within(dist, -4096, 4094, '%s: branch cannot reach the label' % txt)
    if reloc is None:
        # must be complete in place
        if len(b) == 2:
            d = rvc_b(w)
        else:
            d = rv_b(w)
        out.append(Eq(f, d, dist, 64, '%s: displacement of the inverted branch' % txt))
    else:
        A, rel, lab = reloc
        E = A.T.enums
        rs = find_rel(f, rel, p)
        k = E['UNRES_RISCV_RVC_BRANCH'] if len(b) == 2 else E['UNRES_RISCV_BRANCH']
        if len(rs) != 1: out.append(Fail(f, '%s: %d relocations' % (txt, len(rs))))
        elif rs[0][1] != k or rs[0][2] != lab: out.append(Fail(f, '%s: %d-byte branch has relocation kind %r to %s' % (txt, len(b), rs[0][1], rs[0][2])))
        else: out.append(Ok())
    return out

def fld(w, hi, lo, at): return shl(and_(lshr(w, lo, 64), (1 << (hi - lo + 1)) - 1, 64), at, 64)
def orr(*a):
    v = 0
    for x in a: v = or_(v, x, 64)
    return v
def rv_b(w): return sext(trunc(orr(fld(w, 31, 31, 12), fld(w, 7, 7, 11), fld(w, 30, 25, 5), fld(w, 11, 8, 1)), 64, 13), 13, 64)
def rvc_b(w): return sext(trunc(orr(fld(w, 12, 12, 8), fld(w, 11, 10, 3), fld(w, 6, 5, 6), fld(w, 4, 3, 1), fld(w, 2, 2, 5)), 64, 9), 9, 64)

# ------------------------------------------------------------------ part 3: expressions and data
def part3(chk, arch, A):
    x = lambda a, b, op: op(a, b)
    EX = [  # text, value function of (a, b), extra assumption on b
        ('{a}', lambda a, b: a), ('-{a}', lambda a, b: neg(a, 64)), ('+{a}', lambda a, b: a), ('- -{a}', lambda a, b: a), ('-+{a}', lambda a, b: neg(a, 64)),
        ('{a} + {b}', lambda a, b: dom.add(a, b, 64)), ('{a} - {b}', lambda a, b: sub(a, b, 64)), ('{a}-{b}', lambda a, b: sub(a, b, 64)),
        ('{a} * {b}', lambda a, b: mul(a, b, 64)), ('{a} / {b}', lambda a, b: sdiv(a, b, 64)),
        ('{a} + {b} * 3', lambda a, b: dom.add(a, mul(b, 3, 64), 64)), ('{a} * 3 + {b}', lambda a, b: dom.add(mul(a, 3, 64), b, 64)),
        ('{a} - {b} - 5', lambda a, b: sub(sub(a, b, 64), 5, 64)), ('{a} - {b} + 5', lambda a, b: dom.add(sub(a, b, 64), 5, 64)),
        ('{a} + {b} - 7', lambda a, b: sub(dom.add(a, b, 64), 7, 64)),
        ('-{a} + {b}', lambda a, b: sub(b, a, 64)), ('{a} + -{b}', lambda a, b: sub(a, b, 64)), ('{a} - -{b}', lambda a, b: dom.add(a, b, 64)),
        ('5 - {a}', lambda a, b: sub(5, a, 64)), ('100 / 7 * {a}', lambda a, b: mul(14, a, 64)), ('{a} * 100 / 7', lambda a, b: sdiv(mul(a, 100, 64), 7, 64)),
        ('{a} - {b} * 2 + 1', lambda a, b: dom.add(sub(a, mul(b, 2, 64), 64), 1, 64)),
        ('0x10 + {a}', lambda a, b: dom.add(a, 16, 64)), ('0xffffffffffffffff', lambda a, b: M64), ('0x7fffffffffffffff', lambda a, b: (1 << 63) - 1),
        ('0X1aB', lambda a, b: 0x1ab), ('12345678901234567890', lambda a, b: 12345678901234567890), ('-9223372036854775808', lambda a, b: 1 << 63),
    ]
    for dirn, size in (('.byte', 1), ('.short', 2), ('.long', 4), ('.quad', 8)):
        for txt, fn in EX:
            if size in (1, 2) and chk.tier == 'quick' and txt not in ('{a}', '-{a}', '{a} - {b}'): continue
            def analyse(v, dirn=dirn, size=size, txt=txt, fn=fn):
                a, b = v['a'], v['b']
                def assume(f):
                    if '/ {b}' in txt and b.__class__ is not int: return f.assume(icmp('eq', b, 0, 64), 0)
                I, res = A.run('\t.data\n\t.byte 1\n\t%s %s\n\t.byte 2\n' % (dirn, txt.format(a=A1, b=A2)), [a, b], assume=assume)
                out = []
                for s, rc in res:
                    if '/ {b}' in txt and b == 0: continue
                    if rc != 0:
                        out.append(Fail(s.facts, 'refused %s %s' % (dirn, txt))); continue
                    o = ObjFile(I, s)
                    _, h = o.sec('.data')
                    if h is None or h['size'] != size + 2 or o.data('.data', 0, 1) != 1 or o.data('.data', 1 + size, 1) != 2:
                        out.append(Fail(s.facts, '%s %s: wrong size or neighbouring bytes disturbed' % (dirn, txt))); continue
                    out.append(Eq(s.facts, o.data('.data', 1, size), trunc(fn(a, b), 64, 8 * size) if size < 8 else fn(a, b), 8 * size, '%s %s: value' % (dirn, txt)))
                return out
            chk.decide('%s: %s %s' % (arch, dirn, txt.format(a='a', b='b')), {'a': 64, 'b': 64}, analyse, hints={'a': [0, 1, M64, 1 << 63, 100], 'b': [1, 2, M64, 7]})
    # labels in data
    LEX = [('L', lambda a: 0), ('L + {a}', lambda a: a), ('{a} + L', lambda a: a), ('L - {a}', lambda a: neg(a, 64)), ('L + 4 + {a}', lambda a: dom.add(a, 4, 64)),
           ('L - 4 - {a}', lambda a: sub(M64 - 3, a, 64)), ('L + {a} * 2', lambda a: mul(a, 2, 64))]
    for dirn, size in (('.quad', 8), ('.long', 4), ('.short', 2), ('.byte', 1)):
        for cfg in ('local', 'same', 'global', 'weak', 'undef', 'bss', 'referred'):
            for txt, fn in LEX:
                if size < 8 and (txt != 'L' or cfg not in ('local', 'undef')): continue
                if chk.tier == 'quick' and cfg in ('referred', 'bss') and txt not in ('L', 'L + {a}'): continue
                def analyse(v, dirn=dirn, size=size, cfg=cfg, txt=txt, fn=fn):
                    a = v['a']
                    pre = {'local': '\t.section .rodata\n\t.zero 8\nL:\n\t.zero 8\n', 'global': '\t.section .rodata\n\t.globl L\n\t.zero 8\nL:\n\t.zero 8\n',
                           'weak': '\t.section .rodata\n\t.weak L\n\t.zero 8\nL:\n\t.zero 8\n', 'bss': '\t.comm pad, 8, 8\n\t.comm L, 8, 8\n',
                           'referred': '\t.section .rodata\n\t.zero 8\nL:\n\t.zero 8\n\t.text\n\t%s\n' % {'x64': 'call L', 'riscv64': 'call L', 'aarch64': 'bl L'}[arch]}.get(cfg, '')
                    if cfg == 'same': pre = '\t.data\n\t.zero 8\nL:\n\t.zero 8\n'
                    dpos = 16 if cfg == 'same' else 0
                    I, res = A.run(pre + '\t.data\n\t%s %s\n\t.quad 0x1122334455667788\n' % (dirn, txt.format(a=A1)), [a])
                    out = []
                    for s, rc in res:
                        if rc != 0:
                            if size < 8: out.append(Ok())
                            elif txt in ('L', 'L + {a}', '{a} + L', 'L - {a}'): out.append(Fail(s.facts, 'refused %s %s' % (dirn, txt)))
                            else: out.append(Ok())
                            continue
                        o = ObjFile(I, s)
                        rels = o.rel.get('.data', [])
                        okt = {8: {'x64': 1, 'riscv64': 2, 'aarch64': 257}, 4: {'x64': 10, 'riscv64': 1, 'aarch64': 258}, 2: {'x64': 12, 'aarch64': 259}, 1: {'x64': 14}}[size].get(arch)
                        if o.sec('.data')[1]['size'] != dpos + size + 8: out.append(Fail(s.facts, '%s %s: section size' % (dirn, txt))); continue
                        if len(rels) != 1 or rels[0][0] != dpos or rels[0][1] not in (okt, 11 if (arch, size) == ('x64', 4) else okt):
                            out.append(Fail(s.facts, '%s %s (%s): relocations %s cannot hold a %d-byte address' % (dirn, txt, cfg, [r[:2] for r in rels], size))); continue
                        k, x, val = place(o, rels[0])
                        if cfg == 'undef': want = ('und', 'L')
                        else:
                            sname = {'bss': '.bss', 'same': '.data'}.get(cfg, '.rodata')
                            want = ('at', o.sec(sname)[0])
                        if (k, x) != want: out.append(Fail(s.facts, '%s %s (%s): relocation refers to %s %s, not %s %s' % (dirn, txt, cfg, k, x, want[0], want[1]))); continue
                        if cfg == 'global' and o.syms[rels[0][2]]['name'] != 'L': out.append(Fail(s.facts, '%s %s: reference to a global symbol bypasses the symbol' % (dirn, txt)))
                        base = 0 if cfg == 'undef' else 8
                        out.append(Eq(s.facts, val, dom.add(base, fn(a), 64), 64, '%s %s (%s): addend' % (dirn, txt, cfg)))
                    return out
                chk.decide('%s: %s %s (%s)' % (arch, dirn, txt.format(a='a'), cfg), {'a': 64}, analyse, hints={'a': [0, 8, 0x7fffffff, 0x80000000, 0x123456789, M64]})

# ------------------------------------------------------------------ part 4: directives
def fixed(chk, arch, A, key, text, test):
    def analyse(v):
        I, res = A.run(text, [])
        out = []
        for s, rc in res:
            if rc != 0: out.append(Fail(s.facts, 'refused')); continue
            try: o = ObjFile(I, s)
            except ValueError as e: out.append(Fail(s.facts, str(e))); continue
            try: msgs = test(o)
            except (ValueError, KeyError, TypeError, IndexError) as e: msgs = ['object file unreadable: %s' % e]
            if msgs: out += [Fail(s.facts, m) for m in msgs]
            else: out.append(Ok())
        return out
    chk.decide('%s: %s' % (arch, key), {}, analyse)

def part4(chk, arch, A):
    # strings
    ESC = [('\\n', 10), ('\\t', 9), ('\\r', 13), ('\\a', 7), ('\\b', 8), ('\\f', 12), ('\\v', 11), ('\\0', 0), ('\\\\', 92), ('\\"', 34), ("\\'", 39),
           ('\\x41', 0x41), ('\\xff', 255), ('\\x00', 0), ('\\x7f', 127), ('\\xA5', 0xa5)]
    ESC += [(chr(c), c) for c in range(32, 127) if chr(c) not in '"\\']
    step = 8
    for d in ('.ascii', '.string'):
        for i in range(0, len(ESC), step):
            part = ESC[i:i + step]
            body = ''.join(e for e, _ in part) + 'Z' + ''.join(e for e, _ in part)
            want = [c for _, c in part] + [90] + [c for _, c in part] + ([0] if d == '.string' else [])
            def test(o, want=want):
                n = o.sec('.data')[1]['size']
                got = [o.data('.data', k, 1) for k in range(n)]
                return [] if got == want else ['bytes %s, expected %s' % (got, want)]
            fixed(chk, arch, A, '%s "%s"' % (d, ''.join(e for e, _ in part)), '\t.data\n\t%s "%s"\n' % (d, body), test)
    # alignment: label after .align at every offset
    for n in (1, 2, 4, 8, 16, 32, 64, 4096):
        for pre in (0, 1, 3, 7, 8, 15, 17):
            for dr, arg in (('.align', n), ('.p2align', n.bit_length() - 1)):
                for sec in ('.data', '.bss'):
                    if chk.tier == 'quick' and (sec == '.bss' and dr == '.p2align'): continue
                    def test(o, n=n, pre=pre, sec=sec):
                        i, h = o.sec(sec)
                        at = (pre + n - 1) & -n
                        m = []
                        if h['align'] < n or h['align'] % n: m.append('section alignment %d for .align %d' % (h['align'], n))
                        y = o.sym('L')
                        if len(y) != 1 or y[0]['value'] != at or y[0]['shndx'] != i: m.append('label after .align %d at %s, expected %d' % (n, y, at))
                        if h['size'] != at + 4: m.append('section size %d, expected %d' % (h['size'], at + 4))
                        return m
                    text = '\t%s\n\t.globl L\n' % sec + ('\t.zero %d\n' % pre if pre else '') + '\t%s %d\nL:\n\t.zero 4\n' % (dr, arg)
                    fixed(chk, arch, A, '%s: .zero %d, %s %d' % (sec, pre, dr, arg), text, test)
    # sections
    for line, name, typ, flags in (('.text', '.text', 1, 6), ('.data', '.data', 1, 3), ('.section .rodata', '.rodata', 1, 2), ('.section .mine, "aw"', '.mine', 1, 3),
                                   ('.section .code2, "ax"', '.code2', 1, 6), ('.section .ro2, "a"', '.ro2', 1, 2), ('.section .init_array', '.init_array', 14, 2),
                                   ('.section .fini_array', '.fini_array', 15, 2)):
        def test(o, name=name, typ=typ, flags=flags):
            i, h = o.sec(name)
            if h is None: return ['no section %s' % name]
            m = []
            if h['type'] != typ: m.append('%s has type %d, not %d' % (name, h['type'], typ))
            if (h['flags'] & 7) != flags and name not in ('.init_array', '.fini_array'): m.append('%s has flags %d, not %d' % (name, h['flags'], flags))
            if h['size'] != 8 or o.data(name, 0, 8) != 0x123: m.append('contents')
            return m
        fixed(chk, arch, A, line, '\t%s\n\t.quad 0x123\n' % line, test)
    def bss(o):
        i, h = o.sec('.bss')
        return [] if h and h['type'] == 8 and h['flags'] & 7 == 3 and h['size'] == 24 else ['.bss is %s' % h]
    fixed(chk, arch, A, '.bss', '\t.bss\n\t.zero 24\n', bss)
    # switching back and forth keeps what was there
    def back(o):
        g = [o.data('.data', k, 1) for k in range(o.sec('.data')[1]['size'])]
        t = [o.data('.rodata', k, 1) for k in range(o.sec('.rodata')[1]['size'])]
        return [] if (g, t) == ([1, 3, 5], [2, 4]) else ['%s %s' % (g, t)]
    fixed(chk, arch, A, 'switching sections', '\t.data\n\t.byte 1\n\t.section .rodata\n\t.byte 2\n\t.data\n\t.byte 3\n\t.section .rodata\n\t.byte 4\n\t.data\n\t.byte 5\n', back)
    # symbols
    def want(name, bind, typ, sec, value=None, size=None):
        def t(o):
            y = o.sym(name)
            if len(y) != 1: return ['%d symbols %s' % (len(y), name)]
            y = y[0]; m = []
            if bind is not None and y['bind'] != bind: m.append('%s has binding %d, not %d' % (name, y['bind'], bind))
            if typ is not None and y['type'] != typ: m.append('%s has type %d, not %d' % (name, y['type'], typ))
            si = {None: y['shndx'], 'und': 0, 'com': 0xfff2}.get(sec, None)
            if si is None: si = o.sec(sec)[0]
            if y['shndx'] != si: m.append('%s is in section %d, not %s' % (name, y['shndx'], sec))
            if value is not None and y['value'] != value: m.append('%s has value %r, not %r' % (name, y['value'], value))
            if size is not None and y['size'] != size: m.append('%s has size %r, not %r' % (name, y['size'], size))
            li = [i for i, q in enumerate(o.syms) if q['bind'] == 0]
            if li and (max(li) + 1 != o.symtab['info'] or any(q['bind'] == 0 for q in o.syms[o.symtab['info']:])): m.append('local symbols are not exactly the first %d' % o.symtab['info'])
            return m
        return t
    ret = '\tret\n'
    call = {'x64': '\tcall %s\n', 'riscv64': '\tcall %s\n', 'aarch64': '\tbl %s\n'}[arch]
    S = [
        ('.globl before', '\t.text\n\t.globl f\n' + ret + 'f:\n' + ret, want('f', 1, 0, '.text', {'x64': 1, 'riscv64': 2, 'aarch64': 4}[arch])),
        ('.globl after', '\t.text\n' + ret + 'f:\n' + ret + '\t.globl f\n', want('f', 1, 0, '.text', {'x64': 1, 'riscv64': 2, 'aarch64': 4}[arch])),
        ('.globl function', '\t.text\n\t.globl f\n\t.type f, @function\nf:\n' + ret, want('f', 1, 2, '.text', 0)),
        ('.globl object', '\t.data\n\t.globl v\n\t.type v, @object\n\t.zero 8\nv:\n\t.quad 1\n', want('v', 1, 1, '.data', 8)),
        ('.local function', '\t.text\n\t.local f\n\t.type f, @function\nf:\n' + ret, want('f', 0, 2, '.text', 0)),
        ('.weak', '\t.text\n\t.weak f\n' + ret + 'f:\n' + ret, want('f', 2, 0, '.text', {'x64': 1, 'riscv64': 2, 'aarch64': 4}[arch])),
        ('.globl and .weak', '\t.text\n\t.globl f\n\t.weak f\nf:\n' + ret, want('f', 2, 0, '.text', 0)),
        ('.globl undefined, called', '\t.text\n\t.globl g\nf:\n' + call % 'g', want('g', 1, 0, 'und', 0)),
        ('.globl undefined in another section', '\t.data\n\t.quad 0\n\t.globl g\n\t.text\nf:\n' + call % 'g', want('g', 1, 0, 'und', 0)),
        ('.weak undefined', '\t.text\n\t.weak g\nf:\n' + call % 'g', want('g', 2, 0, 'und', 0)),
        ('.type undefined', '\t.text\n\t.type g, @function\nf:\n' + call % 'g', want('g', 1, None, 'und', 0)),
        ('called local', '\t.text\nf:\n' + call % 'h' + 'h:\n' + ret, want('h', 0, 0, '.text', {'x64': 5, 'riscv64': 8, 'aarch64': 4}[arch])),
        ('undefined', '\t.text\nf:\n' + call % 'g', want('g', 1, 0, 'und', 0)),
        ('.comm local size', '\t.comm x, 24, 8\n\t.local x\n\t.data\n\t.globl p\np:\n\t.quad x\n', want('p', 1, 0, '.data', 0)),
        ('.comm global', '\t.globl x\n\t.comm x, 24, 8\n', want('x', 1, 0, 'com', 0, 24)),
        ('.comm global second', '\t.globl w\n\t.comm w, 3, 1\n\t.globl x\n\t.comm x, 24, 16\n', want('x', 1, 0, 'com', 16, 24)),
        ('.comm global object', '\t.globl x\n\t.type x, @object\n\t.comm x, 40, 32\n', want('x', 1, 1, 'com', 0, 40)),
        ('quoted name', '\t.data\n\t.globl "a b"\n\t.zero 2\n"a b":\n\t.byte 1\n', want('a b', 1, 0, '.data', 2)),
        ('underscore and digits', '\t.data\n\t.globl _a9.b\n\t.zero 2\n_a9.b:\n\t.byte 1\n', want('_a9.b', 1, 0, '.data', 2)),
    ]
    for key, text, t in S: fixed(chk, arch, A, key, text, t)
    # many symbols: order, names, no loss
    def many(o):
        m = []
        for i in range(40):
            y = o.sym('s%d' % i)
            if len(y) != 1 or y[0]['value'] != 3 * i or y[0]['bind'] != (1 if i % 3 else 0): m.append('s%d: %s' % (i, y))
        li = [i for i, q in enumerate(o.syms) if q['bind'] == 0]
        if max(li) + 1 != o.symtab['info']: m.append('locals are not first')
        return m[:3]
    fixed(chk, arch, A, '40 symbols', '\t.data\n' + ''.join('%ss%d:\n\t.zero 3\n' % ('\t.globl s%d\n' % i if i % 3 else '\t.type s%d, @function\n' % i, i) for i in range(40)), many)
    # header
    def header(o):
        m = []
        if o.ident[:7] != [127, 69, 76, 70, 2, 1, 1]: m.append('ELF identification %s' % o.ident)
        if o.type != 1: m.append('file type %d is not relocatable' % o.type)
        if o.machine != MACH[arch]: m.append('machine %d' % o.machine)
        if arch == 'riscv64' and o.flags != 5: m.append('flags %#x do not announce compressed code and double float ABI' % o.flags)
        for h in o.sh:
            if h['type'] not in (0, 8) and h['off'] + h['size'] > o.size: m.append('section %s lies outside the file' % h['n'])
            if h['type'] == 4 and (h['off'] % 8 or h['entsize'] != 24): m.append('relocation section %s misaligned' % h['n'])
        rs = sorted((h['off'], h['off'] + h['size'], h['n']) for h in o.sh if h['type'] not in (0, 8) and h['size'])
        for (a, b, n), (c, d, n2) in zip(rs, rs[1:]):
            if c < b: m.append('sections %s and %s overlap in the file' % (n, n2))
        return m
    fixed(chk, arch, A, 'file header and section table', '\t.text\n\t.globl f\nf:\n' + call % 'g' + ret + '\t.data\n\t.byte 1\n\t.quad f\n\t.section .rodata\n\t.byte 2\n\t.comm z, 100, 8\n\t.section .init_array\n\t.quad f\n', header)
    # duplicate definitions and bad lines are refused
    BAD = [('defined twice', '\t.text\nf:\n' + ret + 'f:\n' + ret), ('unknown mnemonic', '\t.text\n\tfrobnicate\n'), ('unknown directive', '\t.frob 3\n'),
           ('.quad without value', '\t.data\n\t.quad\n'), ('junk after instruction', '\t.text\n\tret zzz\n'), ('unterminated string', '\t.data\n\t.string "abc\n'),
           ('.comm without size', '\t.comm x\n'), ('.comm with size 0', '\t.comm x, 0\n'), ('.globl without name', '\t.globl\n'), ('.align without number', '\t.align\n'),
           ('.zero without number', '\t.zero\n'), ('bad .type', '\t.type f, @frob\n'), ('unknown escape', '\t.data\n\t.string "\\q"\n'), ('L1 * 2', '\t.data\nL:\n\t.quad L * 2\n'),
           ('-L', '\t.data\nL:\n\t.quad -L\n'), ('L + L', '\t.data\nL:\n\t.quad L + L\n')]
    BAD += {'x64': [('mov of a bare number into nothing', '\tmov $1\n'), ('missing operand', '\tadd %rax\n'), ('mismatched sizes', '\tmov %eax, %rbx\n')],
            'riscv64': [('missing operand', '\tadd a0, a1\n'), ('bad register', '\tadd a0, a1, q7\n'), ('j to a number', '\tj 16\n'), ('branch to a number', '\tbeq a0, a1, 16\n')],
            'aarch64': [('missing operand', '\tadd x0, x1\n'), ('bad register', '\tadd x0, x1, q77z\n'), ('mismatched sizes', '\tadd x0, w1, x2\n')]}[arch]
    for key, text in BAD:
        def analyse(v, text=text, key=key):
            I, res = A.run(text, [])
            out = []
            for s, rc in res:
                if rc == 0:
                    try:
                        o = ObjFile(I, s)
                        # a correct non-empty translation is fine too (branch to a number)
                        if key in ('j to a number', 'branch to a number') and o.sec('.text')[1] and o.sec('.text')[1]['size']: out.append(Ok()); continue
                    except ValueError: pass
                    out.append(Fail(s.facts, 'accepted with exit status 0'))
                else:
                    if rc is not None and not any(e[0] == 'diag' for e in s.ev): out.append(Fail(s.facts, 'fails without a diagnostic'))
                    else: out.append(Ok())
            return out
        chk.decide('%s: refuses: %s' % (arch, key), {}, analyse)

def main_():
    chk = Check('C06', RULE)
    for arch in ('x64', 'riscv64', 'aarch64'):
        A = AsTool(arch, chk)
        part1(chk, arch, A); part2(chk, arch, A); part3(chk, arch, A); part4(chk, arch, A)
    chk.minimum = 600
    chk.sample('x64: jmp L over a gap of g bytes: displacement equals distance for every g, short form only when it fits')
    return chk.finish()
if __name__ == '__main__': main(main_)
