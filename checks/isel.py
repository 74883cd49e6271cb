"""Analysis of an instruction selector: every IR operation is pushed through the
architecture's tweak_irs and emitter with symbolic constants; the emitted text
is given its machine meaning over the abstract domain and compared with the
meaning of the IR operation, for all operand values, for many register assignments
the register allocator may choose."""
from sem_common import *
import libc, glob, itertools, random
from libc import LRun

OUT = 'emit.s'
VSZ = {1: 0, 2: 1, 4: 2, 8: 3}
F_CONST, F_FLO, F_SPILL, F_UNS = 1, 2, 32, 1

def cc_sources(arch):
    s = []
    for d in ('src/cc/frontend', 'src/cc/backend', 'src/cc/arch/' + arch, 'src/cc'):
        s += sorted(os.path.relpath(p, REPO) for p in glob.glob(os.path.join(REPO, d, '*.c')))
    return s + ['src/util/util.c', 'src/util/table.c']

class Sel:
    def __init__(self, arch, chk, isa, cfg):
        self.arch = arch; self.chk = chk; self.isa = isa; self.cfg = cfg
        self.mods = build.compile_many([(s, 'cc', arch) for s in cc_sources(arch)])
        self.T = ll.Types(self.mods)
        T = self.T
        self.irf = {n: T.field('IR', n)[0] for n in ('kind', 'flag', 'dst', 'opr1', 'opr2')}
        self.irf.update({'u': T.field('IR', 'opr2')[0] + 8})
        self.irsz = T.size('IR')
        self.vrf = {n: T.field('VReg', n)[0] for n in ('vsize', 'flag', 'virt', 'phys', 'fixnum')}
        self.K = {n[3:]: v for n, v in T.enums.items() if n.startswith('IR_')}
        self.KN = {v: n for n, v in self.K.items()}
        self.COND = {n[5:].lower(): v for n, v in T.enums.items() if n.startswith('COND_')}
        self.vdata = T.field('Vector', 'data')[0]; self.vlen = T.field('Vector', 'len')[0]
        self.mod = next(m for m in self.mods if 'kEmitIrFuncTable' in m.globals and not m.globals['kEmitIrFuncTable'].external)
        self.baseocc = 0
        self.prepare()

    def I(self):
        I = LRun(self.mods, budget=400000)
        self.chk_I = I
        return I
    def one(self, res):
        if len(res) != 1: raise Undecided('%d results' % len(res))
        return res[0]
    def prepare(self):
        I = self.I(); st = State()
        fp = Ptr(libc.mkfile(st, 'FILE:emit', OUT))
        st, _ = self.one(I.run('init_emit', [fp], st))
        st, ra = self.one(I.run('new_reg_alloc', [I.global_ptr(st, self.mod, 'kArchRegAllocSettings')], st))
        g = I.global_ptr(st, self.mods[0], 'curra') if any('curra' in m.globals for m in self.mods) else None
        I.store(st, self.gp(I, st, 'curra'), ll.PTR, ra)
        self.ra = ra
        st, bbcon = self.one(I.run('new_func_blocks', [], st))
        st, bb = self.one(I.run('new_bb', [], st))
        st, bb2 = self.one(I.run('new_bb', [], st))
        self.bb = bb; self.bb2 = bb2; self.bbs = []
        for i in range(3):
            st, b = self.one(I.run('new_bb', [], st)); self.bbs.append(b)
        st, _ = self.one(I.run('vec_push', [bbcon, bb], st))
        fb = st.new('fnbe', self.T.size('FuncBackend'), 'zero')
        I.store(st, Ptr(fb, self.T.field('FuncBackend', 'ra')[0]), ll.PTR, ra)
        I.store(st, Ptr(fb, self.T.field('FuncBackend', 'bbcon')[0]), ll.PTR, bbcon)
        self.fnbe = Ptr(fb)
        self.irs = I.load(st, Ptr(bb.obj, bb.off + self.T.field('BB', 'irs')[0]), ll.PTR)
        self.lab2 = self.label(I, st, bb2); self.labs = [self.label(I, st, b) for b in self.bbs]
        s = self.T.field('RegAllocSettings', 'phys_max'); 
        self.occfn = I.load(st, Ptr(I.global_ptr(st, self.mod, 'kArchRegAllocSettings').obj, self.T.field('RegAllocSettings', 'detect_extra_occupied')[0]), ll.PTR)
        self.pmax = I.load(st, Ptr(I.global_ptr(st, self.mod, 'kArchRegAllocSettings').obj, s[0]), ll.I(32))
        self.ptmp = I.load(st, Ptr(I.global_ptr(st, self.mod, 'kArchRegAllocSettings').obj, self.T.field('RegAllocSettings', 'phys_temporary_count')[0]), ll.I(32))
        self.fmax = I.load(st, Ptr(I.global_ptr(st, self.mod, 'kArchRegAllocSettings').obj, self.T.field('RegAllocSettings', 'fphys_max')[0]), ll.I(32))
        self.ftmp = I.load(st, Ptr(I.global_ptr(st, self.mod, 'kArchRegAllocSettings').obj, self.T.field('RegAllocSettings', 'fphys_temporary_count')[0]), ll.I(32))
        self.ireg, self.freg = self.cfg.regs(self, I, st)
        if len(self.ireg) < self.pmax or len(self.freg) < self.fmax: raise Broken('register tables')
        self.base = st
        self.table = I.global_ptr(st, self.mod, 'kEmitIrFuncTable')
        self.chk.seen(I)
    def gp(self, I, st, name):
        for m in self.mods:
            g = m.globals.get(name)
            if g is not None and not g.external: return I.global_ptr(st, m, name)
        raise Broken('no variable %s' % name)
    def strs(self, I, st, name, n, off=0):
        p = self.gp(I, st, name)
        out = []
        for i in range(n): out.append(I.cstr(st, I.load(st, Ptr(p.obj, p.off + 8 * (off + i)), ll.PTR)))
        return out
    def label(self, I, st, bb):
        nm = I.load(st, Ptr(bb.obj, bb.off + self.T.field('BB', 'label')[0]), ll.PTR)
        return self.name(I, st, nm)
    def name(self, I, st, nm):
        c = I.load(st, Ptr(nm.obj, nm.off + self.T.field('Name', 'chars')[0]), ll.PTR)
        n = I.load(st, Ptr(nm.obj, nm.off + self.T.field('Name', 'bytes')[0]), ll.I(32))
        return libc.lenstr(I, st, c, n)
    def mkname(self, I, st, s):
        p = libc.newstr(st, s)
        return self.call(I, st, 'alloc_name', [p, Ptr(p.obj, len(s)), 0])

    # ---- building
    def vreg(self, I, st, size, flo=False, spill=None):
        v = self.call(I, st, 'reg_alloc_spawn', [self.ra, VSZ[size], F_FLO if flo else 0])
        if spill is not None:
            o = self.vrf['flag']
            I.store(st, Ptr(v.obj, v.off + o), ll.I(32), (F_FLO if flo else 0) | F_SPILL)
            I.store(st, Ptr(v.obj, v.off + self.T.field('VReg', 'frame')[0]), ll.I(32), spill)
        return v
    def const(self, I, st, size, val):
        o = st.new('cvreg', self.T.size('VReg'), 'zero')
        c = st.mem[o].cells
        c[self.vrf['vsize']] = (4, VSZ[size]); c[self.vrf['flag']] = (4, F_CONST); c[self.vrf['fixnum']] = (8, val)
        return Ptr(o)
    def call(self, I, st, fn, args):
        """call with a single outcome, in place"""
        s2, v = self.one(I.run(fn, args, st))
        if s2 is not st:
            for k in State.__slots__ if hasattr(State, '__slots__') else list(s2.__dict__): setattr(st, k, getattr(s2, k))
        return v
    def ir(self, st, kind, flag=0, dst=0, opr1=0, opr2=0):
        o = st.new('ir', self.irsz, 'zero')
        c = st.mem[o].cells
        c[self.irf['kind']] = (4, self.K[kind]); c[self.irf['flag']] = (4, flag)
        for n, v in (('dst', dst), ('opr1', opr1), ('opr2', opr2)): c[self.irf[n]] = (8, v)
        return Ptr(o)
    def push(self, I, st, ir): self.call(I, st, 'vec_push', [self.irs, ir])
    def ld(self, I, st, p, off, w):
        v = I.load(st, Ptr(p.obj, p.off + off), ll.I(w) if w != 'p' else ll.PTR)
        return st.facts.resolve(v, w) if w != 'p' else v

    def list(self, I, st):
        n = self.ld(I, st, self.irs, self.vlen, 32)
        d = self.ld(I, st, self.irs, self.vdata, 'p')
        out = []
        for i in range(n):
            p = self.ld(I, st, d, 8 * i, 'p')
            out.append((p, self.KN[self.ld(I, st, p, self.irf['kind'], 32)]) + tuple(self.ld(I, st, p, self.irf[k], 'p') for k in ('dst', 'opr1', 'opr2')))
        return out

    # ---- register assignment
    def assignments(self, I, st, irs, liveout, limit, rnd, fixed=None, livein=None, frame=False):
        """all the ways (or a sample) physical registers may be given to the virtual registers"""
        V = {}
        occ = []
        for n, (p, kind, dst, o1, o2) in enumerate(irs):
            for v in (o1, o2, dst):
                if v.__class__ is not Ptr: continue
                fl = self.ld(I, st, v, self.vrf['flag'], 32)
                if fl & (F_CONST | F_SPILL): continue
                key = (v.obj, v.off)
                if key not in V:
                    V[key] = [-1 if livein and key in livein else n, n, bool(fl & F_FLO), v]
                V[key][1] = n
            m = 0
            if self.occfn.__class__ is Ptr:
                rr = libc.callfp(I, st, self.occfn, [self.ra, p])
                if len(rr) != 1: raise Undecided('occupied registers fork')
                m = st.facts.resolve(rr[0][1], 64)
            occ.append(m)
        for k in liveout:
            if k in V: V[k][1] = 10 ** 6
        if self.occfn.__class__ is Ptr:      # whatever comes next
            rr = libc.callfp(I, st, self.occfn, [self.ra, self.ir(st, 'KEEP')])
            if len(rr) == 1: occ.append(st.facts.resolve(rr[0][1], 64))
            self.baseocc = occ[-1]
        keys = sorted(V, key=lambda k: (V[k][0], k))
        forb = {}
        for k in keys:
            s, e, fl, _ = V[k]
            b = 0
            if not fl:
                for n, m in enumerate(occ):
                    if s < n <= e: b |= m
            forb[k] = b
        def clash(a, b):
            sa, ea, fa, _ = V[a]; sb, eb, fb, _ = V[b]
            return fa == fb and sa < eb and sb < ea or (fa == fb and sa == sb)
        pools = {}
        for k in keys:
            pool = self.cfg.fpool if V[k][2] else self.cfg.ipool
            pool = [r for r in pool if not forb[k] >> r & 1]
            if fixed and k in fixed: pool = [fixed[k]]
            pools[k] = pool
        out = []
        def rec(i, cur):
            if len(out) > 4000: return
            if i == len(keys): out.append(dict(cur)); return
            k = keys[i]
            for r in pools[k]:
                if any(clash(k, j) and cur[j] == r for j in keys[:i]): continue
                cur[k] = r
                rec(i + 1, cur)
                del cur[k]
        rec(0, {})
        if limit and len(out) > limit:
            # cover every (register, vreg) and every sharing pair first
            rnd.shuffle(out)
            seen = set(); sel = []; rest = []
            for a in out:
                f = {(k, r) for k, r in a.items()} | {(k, j) for k in a for j in a if k < j and a[k] == a[j] and V[k][2] == V[j][2]}
                if f - seen: seen |= f; sel.append(a)
                else: rest.append(a)
            out = (sel + rest)[:max(limit, len(sel))]
        occall = 0
        return out, V, occ

    def emit(self, I, st, irs, asg, V):
        """[(state, Prog)] after emitting the list with the given registers; failures are (state, message)"""
        for k, r in asg.items():
            I.store(st, Ptr(k[0], k[1] + self.vrf['phys']), ll.I(32), r)
        pos = libc.file_size(st, OUT) or 0
        work = [st]
        out = []
        for (p, kind, *_rest) in irs:
            nxt = []
            for s in work:
                fp = I.load(s, Ptr(self.table.obj, self.table.off + 8 * self.K[kind]), ll.PTR)
                if fp.__class__ is not Ptr: out.append((s, 'no emitter for IR_%s' % kind)); continue
                na = len(I.assert_fail); nb = len(I.aborts); nz = len(I.bad); nx = len(I.exits)
                for s2, _ in libc.callfp(I, s, fp, [p]): nxt.append(s2)
                for e in I.assert_fail[na:]: out.append((e[0], 'assertion fails in the emitter of IR_%s' % kind))
                for e in I.aborts[nb:]: out.append((e[0], 'abort in the emitter of IR_%s' % kind))
                for e in I.exits[nx:]: out.append((e, 'exit in the emitter of IR_%s' % kind))
                for e in I.bad[nz:]: out.append((e[2], 'invalid access in the emitter of IR_%s' % kind))
            work = nxt
        for s in work:
            t = libc.file_text(I, s, OUT)[pos:]
            out.append((s, t))
        return out

    def tweak(self, I, st):
        r = I.run('tweak_irs', [self.fnbe], st)
        bad = [(e[0], 'assertion fails while preparing the operation') for e in I.assert_fail] + [(e[0], 'abort while preparing the operation') for e in I.aborts] \
            + [(e[2], 'invalid access while preparing the operation') for e in I.bad]
        return [s for s, _ in r], bad

    # ---- driving one operation
    def run(self, vals, build_, oracle, limit, seed=1, frame=False, assume=None):
        """build_(I, st, vals) -> dict(liveout=[vreg ptr], operands={name: (vreg, size, flo)}, dst=(vreg,size,flo) or None)
        oracle(m, case, val) -> obligations on a final machine state"""
        I = self.I()
        st = self.base.fork()
        if frame:
            I.store(st, Ptr(self.ra.obj, self.ra.off + self.T.field('RegAlloc', 'flag')[0]), ll.I(32), 1)
        if assume and assume(st.facts, vals) is False: return []
        case = build_(I, st, vals)
        obs = []
        sts, bad = self.tweak(I, st)
        for s, msg in bad: obs.append(Fail(s.facts, msg))
        key = lambda v: (v.obj, v.off)
        livein = {key(v) for v, *_ in case['operands'].values() if v is not None}
        opkeys = livein
        for s in sts:
            irs = self.list(I, s)
            liveout = set(livein)
            if case.get('dst') is not None: liveout.add(key(case['dst'][0]))
            rnd = random.Random(seed)
            asgs, V, occ = self.assignments(I, s, irs, liveout, limit, rnd, case.get('fixed'), livein, frame)
            # also let operands end at their last use
            asgs2, V2, occ2 = self.assignments(I, s, irs, {key(case['dst'][0])} if case.get('dst') is not None else set(), limit, rnd, case.get('fixed'), livein, frame)
            for live, (A, VV, OO) in ((True, (asgs, V, occ)), (False, (asgs2, V2, occ2))):
                for asg in A:
                    s2 = s.fork()
                    for s3, text in self.emit(I, s2, irs, asg, VV):
                        if not text.startswith('\t') and '\n' not in text and text != '':
                            obs.append(Fail(s3.facts, '%s [%s]' % (text, self.show(asg, VV, case)))); continue
                        obs += self.meaning(I, s3, text, asg, VV, OO, case, oracle, live, vals)
        self.chk.seen(I)
        return obs

    def rn(self, r, fl): return (self.freg if fl else self.ireg)[r]
    def show(self, asg, V, case):
        nm = {}
        for n, x in list(case['operands'].items()) + ([('dst', case['dst'])] if case.get('dst') else []):
            if x[0] is not None: nm.setdefault((x[0].obj, x[0].off), n)
        return ' '.join('%s=%s' % (nm.get(k, 'tmp'), self.rn(r, V[k][2])) for k, r in asg.items())
    def meaning(self, I, st, text, asg, V, occ, case, oracle, live, vals):
        where = ' [%s] `%s`' % (self.show(asg, V, case), '; '.join(self.plain(l.strip(), I) for l in text.split('\n') if l.strip()))
        try:
            prog = Prog(text, I.tokens); self.cur = prog
            isa = self.isa(prog)
            m = isa.machine(st.facts)
            for n, (v, size, flo) in case['operands'].items():
                if v is None: continue
                k = (v.obj, v.off)
                if k in asg: m.r[self.rn(asg[k], flo)] = self.cfg.operand(self, n, size, flo, vals)
            init = dict(m.r)
            fin = execute(isa.step, prog, m, None)
        except Reject as e:
            return [Fail(st.facts, 'emits an invalid instruction: %s%s' % (e, where))]
        obs = []
        written = set()
        for k, r in asg.items():
            pass
        occall = 0
        for o in occ: occall |= o
        occall &= ~self.baseocc
        free = set()
        tmps = {self.rn(r, V[k][2]) for k, r in asg.items()}
        opers = {}
        for n, (v, size, flo) in case['operands'].items():
            if v is not None and (v.obj, v.off) in asg: opers[self.rn(asg[(v.obj, v.off)], flo)] = (n, size, flo)
        dreg = None
        if case.get('dst') is not None:
            d = case['dst']; dreg = self.rn(asg[(d[0].obj, d[0].off)], d[2])
        clobber = set(case.get('clobber', ()))
        for r in range(self.pmax):
            if occall >> r & 1: clobber.add(self.ireg[r])
        for fm in fin:
            try: obs += [self.addw(o, where) for o in oracle(self, fm, dreg, case)]
            except Reject as e: obs.append(Fail(fm.f, '%s%s' % (e, where)))
            for r, v0 in init.items():
                if r == dreg or r in clobber: continue
                v1 = fm.r[r]
                if v1 is v0: continue
                if r in opers:
                    if not live and True: continue
                    n, size, flo = opers[r]
                    w = self.cfg.keepw(size, flo)
                    obs.append(Eq(fm.f, trunc(v1, 64, w), trunc(v0, 64, w), w, 'operand register %s is changed%s' % (r, where)))
                    if not flo: obs += [self.addw(o, where) for o in self.cfg.canon(self, fm, r, size, 0)]
                elif r in tmps: continue
                elif r in self.cfg.scratch: continue
                else:
                    obs.append(Eq(fm.f, v1, v0, 64, 'register %s, which holds another value, is changed%s' % (r, where)))
        return obs
    def addw(self, o, where):
        if o.__class__ in (Fail, Eq): o.msg += where
        return o
    def plain(self, s, I):
        return re.sub('\x01(\\d+)\x02', lambda m: '<value>', s)

# ------------------------------------------------------------------ meaning of the operations
def res(sel, m, reg, size, flo):
    return m.f.resolve(trunc(m.r[reg], 64, 8 * size), 8 * size)

def no_stores(m, extra=0):
    """stores other than below the stack pointer"""
    return [s for s in m.stores if not is_stack(s[0])]
def is_stack(addr):
    if addr.__class__ is not BV: return False
    c, t = to_lin(addr, 64)
    return len(t) == 1 and next(iter(t)).k == 'sym' and next(iter(t)).args[0] in ('reg_rsp', 'reg_sp') and list(t.values()) == [1]
