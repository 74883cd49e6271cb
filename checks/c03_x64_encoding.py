"""C03: x86-64 assembler: every accepted instruction is encoded as itself."""
from asm_common import *
import isa_x86 as X
from isa_x86 import Ins
import itertools

R8, R16, R32, R64, R8CL, IMM, EXP, IND, IIND, DER, DEI, DEII, XMM, SEG = (1 << i for i in range(14))
SZ = {R8: 8, R16: 16, R32: 32, R64: 64}
FNAME = {R8: 'r8', R16: 'r16', R32: 'r32', R64: 'r64', R8CL: 'cl', IMM: '$imm', EXP: 'label', IND: 'mem', IIND: 'mem+index', DER: '*reg', DEI: '*mem',
         DEII: '*mem+index', XMM: 'xmm', SEG: 'seg'}
M64 = (1 << 64) - 1

def variants(flag):
    """operand variants: (name, {inputs}, build(setf, fix, lab, st, prefix, v) -> operand description)"""
    out = []
    if flag in (R16, R32, R64):
        out.append((FNAME[flag], 'reg', (SZ[flag], 4, None)))
    elif flag == R8:
        out.append(('r8(al..bl)', 'reg', (8, 2, 0)))
        out.append(('r8(ah..bh)', 'reg', (8, 2, 'h')))
        out.append(('r8(spl..dil)', 'reg', (8, 2, 2)))
        out.append(('r8(r8b..)', 'reg', (8, 3, 1)))
    elif flag == R8CL: out.append(('cl', 'cl', None))
    elif flag == IMM: out.append(('$imm', 'imm', None))
    elif flag == EXP: out.append(('label', 'exp', 'lab')); out.append(('number', 'exp', 'fix'))
    elif flag in (IND, DEI):
        n = '*' if flag == DEI else ''
        out.append((n + 'disp(base)', 'ind', ('fix', False)))
        out.append((n + 'label(base)', 'ind', ('lab', False)))
        if flag == DEI: out.append((n + '(base)', 'ind', (None, False)))
        if flag == IND:
            out.append((n + 'label(rip)', 'ind', ('lab', True)))
            out.append((n + 'disp(rip)', 'ind', ('fix', True)))
    elif flag in (IIND, DEII):
        n = '*' if flag == DEII else ''
        for o in ('fix',) + ((None,) if flag == DEII else ()) + ('lab',):
            for s in (True, False):
                out.append((n + {'fix': 'disp', None: '', 'lab': 'label'}[o] + '(base,index%s)' % (',scale' if s else ''), 'iind', (o, s)))
    elif flag == DER: out.append(('*r64', 'reg', (64, 4, None)))
    elif flag == XMM: out.append(('xmm', 'xmm', None))
    elif flag == SEG: out.append(('fs:disp', 'seg', 'fix')); out.append(('fs:0', 'seg', None)); out.append(('gs:disp', 'seg', 'gs'))
    return out

def inputs_of(j, kind, arg):
    if kind == 'reg': return {'r%d' % j: arg[1]}
    if kind == 'imm': return {'imm': 64}
    if kind == 'exp': return {'addr': 64} if arg == 'fix' else {}
    if kind == 'ind':
        d = {} if arg[1] else {'base': 4}
        if arg[0] == 'fix': d['disp'] = 64
        return d
    if kind == 'iind':
        d = {'base': 4, 'index': 4}
        if arg[0] == 'fix': d['disp'] = 64
        if arg[1]: d['scale'] = 64
        return d
    if kind == 'xmm': return {'x%d' % j: 4}
    if kind == 'seg': return {'disp': 64} if arg else {}
    return {}

def setup_operand(A, j, flag, kind, arg, v, setf, fix, lab, st):
    T = A.T; p = 'opr[%d].' % j; E = T.enums
    szenum = {8: 'REG8', 16: 'REG16', 32: 'REG32', 64: 'REG64'}
    if kind == 'reg':
        size, w, x = arg
        r = v['r%d' % j]
        setf(p + 'type', E['DEREF_REG'] if flag == DER else E['REG'])
        setf(p + 'reg.size', E[szenum[size]])
        if size == 8:
            if x == 0: no, ex, num, hi = zext(r, 2, 8), 0, zext(r, 2, 4), False
            elif x == 'h': no, ex, num, hi = or_(zext(r, 2, 8), 4, 8), 0, zext(r, 2, 4), True
            elif x == 2: no, ex, num, hi = or_(zext(r, 2, 8), 4, 8), 2, or_(zext(r, 2, 4), 4, 4), False
            else: no, ex, num, hi = zext(r, 3, 8), 1, or_(zext(r, 3, 4), 8, 4), False
        else:
            no = zext(X.low(r, 3), 3, 8); ex = zext(X.low(r, 1, 3), 1, 8); num = r; hi = False
        setf(p + 'reg.no', no); setf(p + 'reg.x', ex)
        return ('r', size, num, hi)
    if kind == 'cl':
        setf(p + 'type', E['REG']); setf(p + 'reg.size', E['REG8']); setf(p + 'reg.no', 1); setf(p + 'reg.x', 0)
        return ('r', 8, 1, False)
    if kind == 'imm':
        setf(p + 'type', E['IMMEDIATE']); setf(p + 'immediate', v['imm'])
        return ('i', v['imm'])
    if kind == 'exp':
        setf(p + 'type', E['DIRECT']); setf(p + 'direct.expr', fix('d', v['addr']) if arg == 'fix' else lab('l'))
        return ('abs', v['addr'] if arg == 'fix' else 'label')
    def off(path, o):
        if o == 'fix': setf(path, fix('o', v['disp'])); return v['disp']
        if o == 'lab': setf(path, lab('l')); return 'label'
        setf(path, 0); return 0
    if kind == 'ind':
        setf(p + 'type', E['DEREF_INDIRECT'] if flag == DEI else E['INDIRECT'])
        setf(p + 'indirect.reg.size', E['REG64'])
        if arg[1]:
            b = 'rip'; setf(p + 'indirect.reg.no', E['RIP'] & 0xff); setf(p + 'indirect.reg.x', 0)
        else:
            b = v['base']; setf(p + 'indirect.reg.no', zext(X.low(b, 3), 3, 8)); setf(p + 'indirect.reg.x', zext(X.low(b, 1, 3), 1, 8))
        return ('m', b, None, 1, off(p + 'indirect.offset.expr', arg[0]), '')
    if kind == 'iind':
        setf(p + 'type', E['DEREF_INDIRECT_WITH_INDEX'] if flag == DEII else E['INDIRECT_WITH_INDEX'])
        q = p + 'indirect_with_index.'
        for nm in ('base', 'index'):
            b = v[nm]
            setf(q + nm + '_reg.size', E['REG64']); setf(q + nm + '_reg.no', zext(X.low(b, 3), 3, 8)); setf(q + nm + '_reg.x', zext(X.low(b, 1, 3), 1, 8))
        if v['index'].__class__ is BV:
            st.facts.assume(icmp('eq', v['index'], 4, 4), 0)     # rsp is not an index register; the parser rejects it
        elif v['index'] == 4: raise Undecided('index rsp')
        if arg[1]: setf(q + 'scale', fix('s', v['scale'])); sc = v['scale']
        else: setf(q + 'scale', 0); sc = 1
        return ('m', v['base'], v['index'], sc, off(q + 'offset', arg[0]), '')
    if kind == 'xmm':
        setf(p + 'type', E['REG_XMM']); setf(p + 'regxmm', zext(v['x%d' % j], 4, 32))
        return ('x', v['x%d' % j])
    if kind == 'seg':
        setf(p + 'type', E['SEGMENT_OFFSET']); setf(p + 'segment.reg', E['GS' if arg == 'gs' else 'FS'])
        if arg: setf(p + 'segment.offset', fix('o', v['disp'])); dsp = v['disp']
        else: setf(p + 'segment.offset', 0); dsp = 0
        return ('m', None, None, 1, dsp, 'gs' if arg == 'gs' else 'fs')
    raise Undecided('operand kind ' + kind)

BASE = {'movb': ('mov', 8), 'movw': ('mov', 16), 'movl': ('mov', 32), 'movq': ('mov', 64), 'addq': ('add', 64), 'subq': ('sub', 64),
        'incb': ('inc', 8), 'incw': ('inc', 16), 'incl': ('inc', 32), 'incq': ('inc', 64),
        'decb': ('dec', 8), 'decw': ('dec', 16), 'decl': ('dec', 32), 'decq': ('dec', 64)}
KNOWN_MN = set('mov movsx movzx lea add sub mul div idiv neg not inc dec and or xor shl shr sar cmp test cwtl cltd cqto jmp call ret push pop int syscall '
               'movsd movss addsd subsd mulsd divsd addss subss mulss divss xorpd xorps comisd ucomisd comiss ucomiss cvtsi2sd cvtsi2ss cvttsd2si '
               'cvttss2si cvtsd2ss cvtss2sd sqrtsd endbr64'.split()) | set(BASE) | {'set' + c for c in X.CC} | {'j' + c for c in X.CC}

def want_of(mn, ops):
    """(Ins, legality bits [(value, lo, hi)], set of operand problems that must be diagnosed)"""
    m, size = BASE.get(mn, (mn, 0))
    legal = []; must_reject = []
    o2 = []
    for o in ops:
        if o[0] == 'r' and not size and m not in ('jmp', 'call', 'push', 'pop'): pass
        if o[0] == 'm':
            d = o[4]
            if d == 'label':
                if o[1] == 'rip' : d = 0
                else: must_reject.append('symbolic displacement'); d = 0
            elif o[1] == 'rip': must_reject.append('numeric displacement with rip')
            else: legal.append((d, -(1 << 31), (1 << 31) - 1, 'disp'))
            o = o[:4] + (d,) + o[5:]
        if o[0] == 'abs':
            if m in ('jmp', 'call') or m[0] == 'j': o = ('rel',)
            elif o[1] == 'label': must_reject.append('symbolic address'); o = ('m', None, None, 1, 0, '')
            else:
                legal.append((o[1], -(1 << 31), (1 << 31) - 1, 'disp')); o = ('m', None, None, 1, o[1], '')
        o2.append(o)
    regs = [o for o in o2 if o[0] == 'r']
    if not size:
        if m in ('movsx', 'movzx', 'lea'): size = o2[-1][1]
        elif m in ('cvtsi2sd', 'cvtsi2ss', 'cvttsd2si', 'cvttss2si'): size = regs[0][1]
        elif m in ('shl', 'shr', 'sar'): size = o2[-1][1]
        elif regs: size = regs[0][1]
    if m in ('push', 'pop'): size = 64
    if m in ('jmp', 'call') and o2 and o2[0][0] != 'rel': size = 64
    out = []
    for o in o2:
        if o[0] == 'i':
            if m in ('shl', 'shr', 'sar', 'int'):
                out.append(('i', o[1], 8)); legal.append((o[1], 0, 255, 'imm'))
            elif m == 'push': out.append(('i', o[1], 64)); legal.append((o[1], -(1 << 31), (1 << 31) - 1, 'imm'))
            elif m == 'mov' and size == 64 and o2[-1][0] == 'r': out.append(('i', o[1], 64))
            elif size == 64: out.append(('i', o[1], 64)); legal.append((o[1], -(1 << 31), (1 << 31) - 1, 'imm'))
            else: out.append(('i', o[1], size)); legal.append((o[1], -(1 << (size - 1)), (1 << min(size, 31)) - 1, 'trunc'))
        else: out.append(o)
    # ah..bh cannot be combined with a REX prefix
    return Ins(m, size, *out), legal, must_reject

def may_reject(mn, w):
    """forms of the ISA the assembler documents by its diagnostics as not implemented: refusing them is fine, encoding them wrongly is not"""
    for o in w.ops:
        if o[0] == 'm':
            if o[1] == 'rip' and not (mn == 'lea' or (mn == 'mov' and w.size == 64 and w.ops[0] is o)): return True
            if o[5] == 'gs': return True
            if o[2] is not None and mn in ('add', 'sub') and o[4] != 0: return True
    return mn == 'movzx' and w.ops[0][1] == 32

def run():
    chk = Check('C03', 'Abstract interpretation of the x86-64 encoder (assemble_inst and everything it calls, LLVM IR of the working tree) on every '
                'row of the instruction tables, every operand-size choice and addressing form, with abstract register numbers, displacements, scales and '
                'immediates; every resulting byte sequence is decoded with an independent x86-64 decoder and compared with the written instruction.')
    chk.minimum = 150
    A = Asm('x64', chk)
    rows = A.rows()
    unknown = []
    only = os.environ.get('ONLY')
    for mn, op, fl in rows:
        fl = [f for f in fl if f]
        if only and mn != only: continue
        if mn not in KNOWN_MN: unknown.append(mn); continue
        choices = []
        for f in fl:
            c = []
            for b in (R8, R16, R32, R64, R8CL, IMM, EXP, IND, IIND, DER, DEI, DEII, XMM, SEG):
                if f & b: c += [(b,) + x for x in variants(b)]
            choices.append(c)
        for combo in itertools.product(*choices):
            key = 'x64 %s %s' % (mn, ','.join(c[1] for c in combo))
            inputs = {}
            for j, c in enumerate(combo): inputs.update(inputs_of(j, c[2], c[3]))
            def analyse(v, combo=combo, op=op, mn=mn, key=key):
                ops = []
                def setup(setf, fix, lab, st):
                    for j, (flag, nm, kind, arg) in enumerate(combo):
                        ops.append(setup_operand(A, j, flag, kind, arg, v, setf, fix, lab, st))
                I, res = A.encode(op, setup)
                want, legal, reject = want_of(mn, ops)
                obs = []
                rejected = [(st.facts, None, 'assertion %s at %s' % (txt, loc)) for st, loc, txt in I.assert_fail]
                for b in I.bad: obs.append(Fail(b[2].facts, '%s access at %s' % (b[0], b[1])))
                for facts, bs, why in [(s.facts, b, 'diagnosed') for s, b in res] + rejected:
                    parts = [(facts, set(reject))]
                    for val, lo, hi, what in legal:
                        nx = []
                        for g, bad in parts:
                            for g2, ge in splitbit(g, cmpbit(g, 'sge', val, lo & M64, 64)):
                                for g3, le in splitbit(g2, cmpbit(g2, 'sle', val, hi & M64, 64)):
                                    nx.append((g3, bad if ge and le else bad | {what}))
                        parts = nx
                    # scale
                    mem = [o for o in want.ops if o[0] == 'm' and o[2] is not None]
                    parts = [(g, bad, None) for g, bad in parts]
                    if mem and mem[0][3].__class__ is not int or (mem and 'scale' in v):
                        sc = mem[0][3]; nx = []
                        for g, bad, _ in parts:
                            rest = [g]
                            for k in (1, 2, 4, 8):
                                r2 = []
                                for g2 in rest:
                                    for g3, eq in spliteq(g2, sc, k, 64):
                                        if eq: nx.append((g3, bad, k))
                                        else: r2.append(g3)
                                rest = r2
                            for g2 in rest: nx.append((g2, bad | {'scale'}, 1))
                        parts = nx
                    for g, bad, k in parts:
                        w = want
                        if k is not None:
                            w = Ins(want.m, want.size, *[o[:3] + (k,) + o[4:] if o[0] == 'm' else o for o in want.ops])
                        hi = any(o[0] == 'r' and o[3] for o in w.ops)
                        if hi and (any(o[0] == 'r' and (o[1] == 64 or (o[1] == 8 and not o[3] and combo[j][3] and combo[j][3][2] in (1, 2))) for j, o in enumerate(ops))):
                            bad = bad | {'high byte register with REX'}
                        if hi and not bad:
                            # an extended register elsewhere also needs REX
                            exts = []
                            for o in w.ops:
                                if o[0] == 'r' and o[1] != 8: exts.append(o[2])
                                if o[0] == 'm': exts += [r for r in o[1:3] if r is not None and r != 'rip']
                            gs = [(g, False)]
                            for r in exts:
                                gs = [(g3, x or big) for g2, x in gs for g3, big in splitbit(g2, bits_of(r, 4)[3])]
                        else: gs = [(g, False)]
                        for g2, needrex in gs:
                            b2 = bad | ({'high byte register with REX'} if needrex else set())
                            if bs is None:
                                if b2 or may_reject(mn, w): obs.append(Ok())
                                else: obs.append(Fail(g2, '%s: legal operands are rejected (%s)' % (mn, why)))
                                continue
                            if b2 - {'trunc'}:
                                for g3, got in X.decode(g2, bs):
                                    obs.append(Fail(g3, '%s: operands that cannot be encoded (%s) are accepted and encode %s' % (mn, ', '.join(sorted(b2)), got)))
                                continue
                            for g3, got in X.decode(g2, bs):
                                obs += X.compare(g3, got, w, mn)
                return obs
            hints = {'scale': [1, 2, 4, 8, 3, 0, 16], 'disp': [0, 1, -1, 127, 128, -128, -129, (1 << 31) - 1, 1 << 31, -(1 << 31), -(1 << 31) - 1],
                     'imm': [0, 1, -1, 127, 128, -128, -129, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, -(1 << 31), (1 << 32) - 1, 1 << 32],
                     'base': [4, 5, 12, 13, 0, 8], 'index': [5, 12, 13, 0, 8]}
            chk.decide(key, inputs, analyse, hints=hints)
    chk.notes['rows'] = len(rows)
    chk.notes['mnemonics_without_model'] = unknown
    if not only: names(chk, A)
    return chk.finish()

def names(chk, A):
    base = 'ax cx dx bx sp bp si di'.split()
    regs = []
    for i, b in enumerate(base):
        regs += [('r' + b, 64, i, 0), ('e' + b, 32, i, 0), (b, 16, i, 0)]
    for i in range(8):
        regs += [('r%d' % (8 + i), 64, i, 1), ('r%dd' % (8 + i), 32, i, 1), ('r%dw' % (8 + i), 16, i, 1), ('r%db' % (8 + i), 8, i, 1)]
    for i, n in enumerate('al cl dl bl ah ch dh bh'.split()): regs.append((n, 8, i, 0))
    for i, n in enumerate('spl bpl sil dil'.split()): regs.append((n, 8, 4 + i, 2))
    SE = {8: 'REG8', 16: 'REG16', 32: 'REG32', 64: 'REG64'}
    def one(key, text, flags, expect):
        chk.instances += 1
        try: res = A.parse_text(text, flags)
        except Undecided as e: chk.undecide(key, str(e)); return
        for st, r, rd, p, I in res:
            chk.obl += 1
            err = any(e[0] == 'error' for e in st.ev)
            why = expect(r, rd, p, err, I, st)
            if why: chk.violation(key, why)
            else: chk.proved += 1
    allr = R8 | R16 | R32 | R64
    for n, size, no, x in regs:
        def ex(r, rd, p, err, I, st):
            w = {8: R8, 16: R16, 32: R32, 64: R64}[size] | (R8CL if n == 'cl' else 0)
            if err or r != w or rd('reg.no') != no or rd('reg.x') != x or rd('reg.size') != A.T.enums[SE[size]] or p.off != len(n) + 1:
                return '%%%s is parsed as size %s number %s.%s (flags %s)' % (n, rd('reg.size'), rd('reg.x'), rd('reg.no'), r)
        one('x64 operand %' + n, '%' + n + ', x', allr, ex)
        one('x64 operand %' + n.upper(), '%' + n.upper() + ', x', allr, ex)
        if size == 64:
            def exd(r, rd, p, err, I, st):
                if err or r != DER or rd('reg.no') != no or rd('reg.x') != x: return '*%%%s is parsed as number %s.%s' % (n, rd('reg.x'), rd('reg.no'))
            one('x64 operand *%' + n, '*%' + n, DER | DEI | EXP, exd)
            for text, kind in (('8(%%%s)' % n, IND), ('*8(%%%s)' % n, DEI)):
                def exi(r, rd, p, err, I, st):
                    if err or r != kind or rd('indirect.reg.no') != no or rd('indirect.reg.x') != x: return '%s is parsed as base %s.%s' % (text, rd('indirect.reg.x'), rd('indirect.reg.no'))
                    e = rd('indirect.offset.expr')
                    if I.load(st, Ptr(e.obj, A.T.field('Expr', 'fixnum')[0]), ll.I(64)) != 8: return 'displacement of %s' % text
                one('x64 operand ' + text, text, kind | allr, exi)
            for text, kind in (('-16(%%rbx,%%%s,4)' % n, IIND), ('*-16(%%rbx,%%%s,4)' % n, DEII)):
                def exx(r, rd, p, err, I, st):
                    if n == 'rsp': return None if err else '%s is accepted (rsp cannot be an index)' % text
                    q = 'indirect_with_index.'
                    if err or r != kind or rd(q + 'index_reg.no') != no or rd(q + 'index_reg.x') != x or rd(q + 'base_reg.no') != 3 or rd(q + 'base_reg.x') != 0:
                        return '%s is parsed as base %s.%s index %s.%s' % (text, rd(q + 'base_reg.x'), rd(q + 'base_reg.no'), rd(q + 'index_reg.x'), rd(q + 'index_reg.no'))
                    e = rd(q + 'offset'); s = rd(q + 'scale')
                    fx = A.T.field('Expr', 'fixnum')[0]
                    if signed(I.load(st, Ptr(e.obj, fx), ll.I(64)), 64) != -16 or I.load(st, Ptr(s.obj, fx), ll.I(64)) != 4: return 'displacement or scale of %s' % text
                one('x64 operand ' + text, text, kind | DEI | allr, exx)
            text = '(%%%s,%%rbx)' % n
            def exb(r, rd, p, err, I, st):
                q = 'indirect_with_index.'
                if err or r != IIND or rd(q + 'base_reg.no') != no or rd(q + 'base_reg.x') != x or rd(q + 'index_reg.no') != 3: return '%s is parsed as base %s.%s' % (text, rd(q + 'base_reg.x'), rd(q + 'base_reg.no'))
            one('x64 operand ' + text, text, IIND | allr, exb)
    for i in range(16):
        def ex(r, rd, p, err, I, st):
            if err or r != XMM or rd('regxmm') != i: return '%%xmm%d is parsed as %s' % (i, rd('regxmm'))
        one('x64 operand %%xmm%d' % i, '%%xmm%d' % i, XMM, ex)

if __name__ == '__main__': main(run)
