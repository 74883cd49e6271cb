"""C01: RISC-V assembler: every accepted instruction is encoded as itself."""
from asm_common import *
import isa_riscv as V
from isa_riscv import In

R64, F64, IMM, IND, EXP, RND = 1, 2, 4, 8, 16, 1024
XN = {'x%d' % i: i for i in range(32)}
XN.update(dict(zip('zero ra sp gp tp t0 t1 t2 s0 s1 a0 a1 a2 a3 a4 a5 a6 a7 s2 s3 s4 s5 s6 s7 s8 s9 s10 s11 t3 t4 t5 t6'.split(), range(32))))
XN['fp'] = 8
FN = {'f%d' % i: i for i in range(32)}
FN.update(dict(zip(('ft0 ft1 ft2 ft3 ft4 ft5 ft6 ft7 fs0 fs1 fa0 fa1 fa2 fa3 fa4 fa5 fa6 fa7 fs2 fs3 fs4 fs5 fs6 fs7 fs8 fs9 fs10 fs11 '
                    'ft8 ft9 ft10 ft11').split(), range(32))))
RN = {'rne': 0, 'rtz': 1, 'rdn': 2, 'rup': 3, 'rmm': 4}

I12 = (-2048, 2047)
def spec(mn, o):
    """(canonical instruction sequence, legality [(value, lo, hi)]) for a mnemonic and operands"""
    def X(m, **k): return [In(m, **k)]
    n = len(o)
    three = {'add', 'addw', 'sub', 'subw', 'mul', 'mulw', 'div', 'divu', 'divw', 'divuw', 'rem', 'remu', 'remw', 'remuw', 'and', 'or', 'xor',
             'sll', 'sllw', 'srl', 'srlw', 'sra', 'sraw', 'slt', 'sltu'}
    if mn in three: return X(mn, rd=o[0], rs1=o[1], rs2=o[2]), []
    if mn in ('addi', 'addiw', 'andi', 'ori', 'xori', 'slti', 'sltiu'): return X(mn, rd=o[0], rs1=o[1], imm=o[2]), [(o[2],) + I12]
    if mn in ('slli', 'srli', 'srai'): return X(mn, rd=o[0], rs1=o[1], imm=o[2]), [(o[2], 0, 63)]
    if mn in ('slliw', 'srliw', 'sraiw'): return X(mn, rd=o[0], rs1=o[1], imm=o[2]), [(o[2], 0, 31)]
    if mn == 'mv': return X('addi', rd=o[0], rs1=o[1], imm=0), []
    if mn == 'li': return X('li', rd=o[0], imm=o[1]), []
    if mn == 'neg': return X('sub', rd=o[0], rs1=0, rs2=o[1]), []
    if mn == 'not': return X('xori', rd=o[0], rs1=o[1], imm=V.M64), []
    if mn[:5] in ('sext.', 'zext.'): return X(mn, rd=o[0], rs1=o[1]), []
    if mn == 'seqz': return X('sltiu', rd=o[0], rs1=o[1], imm=1), []
    if mn == 'snez': return X('sltu', rd=o[0], rs1=0, rs2=o[1]), []
    if mn == 'sltz': return X('slt', rd=o[0], rs1=o[1], rs2=0), []
    if mn == 'sgtz': return X('slt', rd=o[0], rs1=0, rs2=o[1]), []
    if mn in ('lb', 'lh', 'lw', 'ld', 'lbu', 'lhu', 'lwu', 'fld', 'flw'):
        return X(mn, rd=o[0], rs1=o[1][1], imm=o[1][0]), [(o[1][0],) + I12]
    if mn in ('sb', 'sh', 'sw', 'sd', 'fsd', 'fsw'):
        return X(mn, rs2=o[0], rs1=o[1][1], imm=o[1][0]), [(o[1][0],) + I12]
    if mn == 'la': return X('auipc', rd=o[0], imm=0) + X('addi', rd=o[0], rs1=o[0], imm=0), []
    if mn == 'j': return X('jal', rd=0, imm=0), []
    if mn == 'jr': return X('jalr', rd=0, rs1=o[0], imm=0), []
    if mn == 'jalr': return X('jalr', rd=1, rs1=o[0], imm=0), []
    if mn in ('beq', 'bne', 'blt', 'bge', 'bltu', 'bgeu'): return X(mn, rs1=o[0], rs2=o[1], imm=0), []
    if mn == 'call': return X('auipc', rd=1, imm=0) + X('jalr', rd=1, rs1=1, imm=0), []
    if mn == 'ret': return X('jalr', rd=0, rs1=1, imm=0), []
    if mn == 'ecall': return X('ecall'), []
    if mn in V.FP.values(): return X(mn, rd=o[0], rs1=o[1], rs2=o[2], rm=7), []
    if mn in V.FSG.values() or mn in V.FCMP.values(): return X(mn, rd=o[0], rs1=o[1], rs2=o[2]), []
    if mn in V.FCVT.values(): return X(mn, rd=o[0], rs1=o[1], rm=o[2] if n > 2 else 7), []
    if mn in V.FMV.values(): return X(mn, rd=o[0], rs1=o[1]), []
    if mn in ('fmv.d', 'fmv.s'): return X('fsgnj' + mn[3:], rd=o[0], rs1=o[1], rs2=o[1]), []
    if mn in ('fneg.d', 'fneg.s'): return X('fsgnjn' + mn[4:], rd=o[0], rs1=o[1], rs2=o[1]), []
    return None, None

# pseudo instructions whose effect is a single value
_step = V.step
def step(ms, i):
    if i.m == 'li':
        out = []
        for m in ms: out += V.wr_x(m, i.f['rd'], i.f['imm'])
        return out
    if i.m[:5] in ('sext.', 'zext.'):
        w = {'b': 8, 'h': 16, 'w': 32}[i.m[5]]
        out = []
        for m, v in V.rd_x(ms, i.f['rs1']):
            t = trunc(m.facts.resolve(v, 64), 64, w)
            out += V.wr_x(m, i.f['rd'], (sext if i.m[0] == 's' else zext)(t, w, 64))
        return out
    return _step(ms, i)
V.step = step

def run():
    chk = Check('C01', 'Abstract interpretation of the RISC-V encoder (assemble_inst and everything it calls, LLVM IR of the working tree) on every '
                'row of the instruction tables with abstract register numbers and immediates; every resulting byte sequence is decoded with an '
                'independent RV64GC model and its effect on registers, memory and control is compared with the mnemonic\'s; rejected operand '
                'ranges are compared with the architectural immediate ranges; operand names are parsed abstractly and compared with the psABI names.')
    chk.minimum = 120
    A = Asm('riscv64', chk)
    rows = A.rows()
    unknown = []
    for mn, op, fl in rows:
        fl = [f for f in fl if f]
        key = 'riscv64 ' + mn + ' ' + ','.join(fname(f) for f in fl)
        inputs = {}
        kinds = []
        for j, f in enumerate(fl):
            if f in (R64, F64): inputs['r%d' % j] = 5
            elif f == IMM: inputs['imm'] = 64
            elif f == IND: inputs['r%d' % j] = 5; inputs['ofs'] = 64
            elif f == RND: inputs['rm'] = 3
        if spec(mn, [0 if f != IND else (0, 0) for f in fl] + ([0] * (4 - len(fl))))[0] is None:
            unknown.append(mn); continue
        for variant in (('',) if IND not in fl else ('', 'no-offset')):
            def analyse(v, op=op, fl=fl, mn=mn, variant=variant, key=key):
                ops = []
                def setup(setf, fix, lab, st):
                    for j, f in enumerate(fl):
                        p = 'opr[%d].' % j
                        r = v.get('r%d' % j)
                        if f == R64:
                            setf(p + 'type', A.T.enums['REG']); setf(p + 'reg.no', zext(r, 5, 8)); ops.append(r)
                        elif f == F64:
                            setf(p + 'type', A.T.enums['FREG']); setf(p + 'freg', zext(r, 5, 32)); ops.append(r)
                        elif f == IMM:
                            setf(p + 'type', A.T.enums['IMMEDIATE']); setf(p + 'immediate', v['imm']); ops.append(v['imm'])
                        elif f == IND:
                            setf(p + 'type', A.T.enums['INDIRECT']); setf(p + 'indirect.reg.no', zext(r, 5, 8))
                            if variant: ops.append((0, r)); setf(p + 'indirect.offset', 0)
                            else: ops.append((v['ofs'], r)); setf(p + 'indirect.offset', fix('o', v['ofs']))
                        elif f == EXP:
                            setf(p + 'type', A.T.enums['DIRECT']); setf(p + 'direct.expr', lab('l')); ops.append(None)
                        elif f == RND:
                            setf(p + 'type', A.T.enums['ROUNDMODE']); ops.append(v['rm'])
                            setf(p + 'roundmode', zext(v['rm'], 3, 32))
                            if v['rm'].__class__ is BV: st.facts.restrict(v['rm'], 3, ((0, 4),))
                        else: raise Undecided('operand flags %#x' % f)
                I, res = A.encode(op, setup)
                want, legal = spec(mn, ops)
                obs = []
                for st, loc, txt in I.assert_fail: obs.append(Fail(st.facts, 'assertion %s fails at %s' % (txt, loc)))
                for b in I.bad: obs.append(Fail(b[2].facts, '%s access at %s' % (b[0], b[1])))
                for st, bs in res:
                    f = st.facts
                    parts = [(f, True)]
                    for val, lo, hi in legal:
                        nx = []
                        for g, okk in parts:
                            for g2, ge in splitbit(g, cmpbit(g, 'sge', val, lo & V.M64, 64)):
                                for g3, le in splitbit(g2, cmpbit(g2, 'sle', val, hi, 64)):
                                    nx.append((g3, okk and ge and le))
                        parts = nx
                    for g, okk in parts:
                        if bs is None:
                            if okk: obs.append(Fail(g, 'legal operands are rejected'))
                            else: obs.append(Ok())
                            continue
                        for g2, ins in V.decode(g, bs):
                            if not okk:
                                obs.append(Fail(g2, 'operands outside the architectural range are accepted and encode %s' % V.ins_str(g2, ins)))
                                continue
                            obs += V.compare(g2, ins, want, mn)
                return obs
            chk.decide(key + (' (' + variant + ')' if variant else ''), inputs, analyse)
    chk.notes['rows'] = len(rows)
    chk.notes['mnemonics_without_model'] = unknown
    # operand names
    for names, flag, path in ((XN, R64, 'reg.no'), (FN, F64, 'freg'), (RN, RND, 'roundmode')):
        for n, want in sorted(names.items()):
            for text in (n, n.upper()):
                chk.instances += 1
                try:
                    res = A.parse_text(text + ', x', flag)
                except Undecided as e:
                    chk.undecide('operand ' + text, str(e)); continue
                for st, r, rd, p, I in res:
                    chk.obl += 1
                    if r != flag or rd(path) != want or p.off != len(n):
                        chk.violation('riscv64 operand name ' + n, 'parsed as register %s (flag %s), expected number %d' % (rd(path), r, want))
                    else: chk.proved += 1
    return chk.finish()

def fname(f):
    return {R64: 'R', F64: 'F', IMM: 'I', IND: 'M', EXP: 'L', RND: 'RM'}.get(f, hex(f))
if __name__ == '__main__': main(run)
