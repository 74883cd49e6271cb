"""C14: calling conventions, frames and register allocation keep every value."""
from cstmt import *
import random

def V(n, t=I32): return Var(n, t)
def L(n, t=I32): return Lit('%d%s' % (n, {'int': '', 'unsigned': 'U', 'long': 'L', 'unsigned long': 'UL'}[t.n]), t, n)
def B(op, a, b): return Bin(op, a if isinstance(a, X) else L(a), b if isinstance(b, X) else L(b))
a, b, c = V('a'), V('b'), V('c')
TY = {'i': I32, 'l': I64, 'c': I8, 'C': U8, 's': I16, 'S': U16, 'u': U32, 'U': U64, 'b': BOOL, 'f': FLT, 'd': DBL, 'p': Pt(I64)}
SIGS = ['i', 'iiiiii', 'iiiiiii', 'iiiiiiii', 'iiiiiiiii', 'iiiiiiiiiiii', 'cCsSiuUl', 'cCsScCsScCsSiu', 'llllllllllcs', 'd', 'dddddddd', 'ddddddddd', 'dddddddddddd', 'ffffffffff', 'fdfdfdfdfdfdf',
        'idididididididid', 'ididididididididididid', 'ddddddddddiiiiiiiiii', 'iiiiiiiiiidddddddddd', 'ffffffffffcccccccccc', 'pipdpfps', 'lflflflflflflflflfl', 'bcbcbcbcbcbc', 'iiiiiiiif', 'iiiiiiiid', 'ddddddddi', 'ddddddddfc', 'iiiiiiifdf',
        'ddddddddiiiiiiidff', 'sSsSsSsSsSsSs', 'uUuUuUuUuUuU']
def sig(s): return [(TY[x], 'p%d' % k) for k, x in enumerate(s)]
def vs(s): return [V('p%d' % k, TY[x]) for k, x in enumerate(s)]
EXT = Proto('ext', I32, [I32]); FEXT = Proto('fext', DBL, [DBL]); LEXT = Proto('lext', I64, [I64]); NOP = Proto('nop', None, [])
class Obj(St):
    """declaration of a local object"""
    def __init__(s, x): s.x = x; s.s = '%s;' % dname(x.t, x.s)
    def run(s, st): return [(st, None)]
def plan():
    ts = []
    def fn(name, params, ss, ret=None, **kw): ts.append(Prg(name, ret, params, ss, **kw))
    allg = ''.join('%s g%s;\n' % (t.n, k) for k, t in TY.items())
    for s in SIGS:
        ps = vs(s)
        pre = ''.join('%s g%d;\n' % (TY[x].n, k) for k, x in enumerate(s))
        fn('store ' + s, sig(s), [Set(Glob('g%d' % k, p.t), p) for k, p in enumerate(ps)], pre=pre)
        for k, p in enumerate(ps):
            if k >= len(ps) - 3 or k == 0: fn('param %d of %s' % (k, s), sig(s), [Ret(p)], p.t)
        # to a function of the same, the rotated and the reversed signature
        if 'p' in s: continue
        same = Proto('ext', None, [p.t for p in ps]); rot = Proto('ext', None, [p.t for p in ps[1:] + ps[:1]]); rev = Proto('ext', None, [p.t for p in ps[::-1]])
        fn('pass on ' + s, sig(s), [Call(None, same, ps)], protos=[same], rets=[None])
        fn('rotate ' + s, sig(s), [Call(None, rot, ps[1:] + ps[:1])], protos=[rot], rets=[None])
        fn('reverse ' + s, sig(s), [Call(None, rev, ps[::-1])], protos=[rev], rets=[None])
        fn('swap in ' + s, sig(s), [Call(None, same, [q for z in range(0, len(ps), 2) for q in [x if x.t is y.t else Cast(y.t, x) if True else None for x, y in zip(ps[z:z + 2][::-1], ps[z:z + 2])]])], protos=[same], rets=[None]) if not ('f' in s or 'd' in s) else None
        if len(s) > 1:
            last = Proto('ext', None, [p.t for p in ps])
            fn('last everywhere ' + s, sig(s), [Call(None, last, [ps[-1] if p.t is ps[-1].t else L(3) for p in ps])], protos=[last], rets=[None])
        fn('consts ' + s, [], [Call(None, same, [L(100 + k) for k in range(len(ps))])], protos=[same], rets=[None])
        fn('twice ' + s, sig(s), [Call(None, same, ps), Call(None, same, ps)], protos=[same], rets=[None, None])
        fn('after ' + s, sig(s), [Call(None, NOP, [])] + [Set(Glob('g%d' % k, p.t), p) for k, p in enumerate(ps)], pre=pre, protos=[NOP], rets=[None])
        if all(x not in 'fdb' for x in s): fn('exprs ' + s, sig(s), [Call(None, same, [Bin('+', p, L(k)) for k, p in enumerate(ps)])], protos=[same], rets=[None])
        # variadic calls and definitions
        for nf in (1, 2):
            if len(s) <= nf or nf == 2 and len(s) > 12: continue
            va = Proto('vext', I32, [p.t for p in ps[:nf]], va=True)
            fn('variadic call %d %s' % (nf, s), sig(s), [Decl(I32, 'r', L(0)), Call(V('r'), va, ps), Ret(V('r'))], I32, protos=[va], rets=[I32])
            if any(x in 'fcCsSb' for x in s[nf:]) or s[nf - 1] in 'fcCsSb': continue
            if len(s) > (9 if nf == 2 else 13): continue
            body = 'va_list ap; va_start(ap, p%d); ' % (nf - 1) + ' '.join('g%d = va_arg(ap, %s);' % (k, p.t) for k, p in enumerate(ps) if k >= nf) + ' va_end(ap);'
            fn('variadic %d %s' % (nf, s), sig(s), [Raw(body, [Set(Glob('g%d' % k, p.t), p) for k, p in enumerate(ps) if k >= nf])], pre=pre, nfix=nf, std=True)
            if len(s) > 8: continue
            body = 'va_list ap, aq; va_start(ap, p%d); va_copy(aq, ap); ' % (nf - 1) + ' '.join('g%d = va_arg(aq, %s);' % (k, p.t) for k, p in enumerate(ps) if k >= nf) + ' nop();' + ' '.join('g%d = va_arg(ap, %s);' % (k, p.t) for k, p in enumerate(ps) if k >= nf) + ' va_end(aq); va_end(ap); return p0;'
            st = [Set(Glob('g%d' % k, p.t), p) for k, p in enumerate(ps) if k >= nf]
            fn('va_copy %d %s' % (nf, s), sig(s), [Raw(body, st + [Call(None, NOP, [])] + st + [Ret(ps[0])])], ps[0].t, pre=pre, nfix=nf, std=True, protos=[NOP], rets=[None])
    # results
    for k, t in TY.items():
        if k == 'p': continue
        R = Proto('res', t, [I32]); x = V('x', t)
        fn('result %s' % t, [(I32, 'a')], [Decl(t, 'x', L(0)), Call(x, R, [a]), Ret(x)], t, protos=[R], rets=[t])
        fn('result stored %s' % t, [(I32, 'a')], [Call(Glob('g', t), R, [a])], pre='%s g;' % t, protos=[R], rets=[t])
        fn('result live %s' % t, [(I32, 'a')], [Decl(t, 'x', L(0)), Call(x, R, [a]), Decl(t, 'y', L(0)), Call(V('y', t), R, [B('+', a, 1)]), Set(Glob('g', t), x), Set(Glob('h', t), V('y', t)), Ret(a)], I32, pre='%s g, h;' % t, protos=[R], rets=[t, t])
        fn('result passed %s' % t, [(I32, 'a')], [Decl(t, 'x', L(0)), Call(x, R, [a]), Raw('act(x);', [Call(None, Proto('act', None, [t]), [x])])], protos=[R, Proto('act', None, [t])], rets=[t, None])
        fn('result used %s' % t, [(I32, 'a')], [Decl(t, 'x', L(0)), Raw('if (res(a)) act(x);', [Call(x, R, [a]), If(x, [Call(None, Proto('act', None, [t]), [L(0)])])])], protos=[R, Proto('act', None, [t])], rets=[t, None])
        fn('param live %s' % t, [(t, 'x'), (I32, 'a')], [Call(None, NOP, []), Set(Glob('g', t), x), Call(None, NOP, []), Set(Glob('g', t), x), Ret(a)], I32, pre='%s g;' % t, protos=[NOP], rets=[None, None])
    # pointers to functions
    FP = Proto('*', I32, [I32, I32])
    for q in range(1, 9):
        names = ['a', 'b'] + ['z%d' % k for k in range(6)]
        order = [(I32, n) for n in names]; fp = (Pt('void'), 'fp')
        prm = order[:q] + [fp] + order[q:]
        fn('indirect %d' % q, prm, [Decl(I32, 'r', L(0)), IndCall(V('r'), FP, [b, a], V('fp', Pt('void'))), Ret(B('+', V('r'), a))], I32, protos=[FP], rets=[I32]) if q > 1 else None
    fn('indirect global', [(I32, 'a'), (I32, 'b')], [Decl(I32, 'r', L(0)), Raw('r = gfp(b, a);', [Call(V('r'), FP, [b, a], fn=Glob('gfp', Pt('void')))]), Ret(V('r'))], I32, protos=[FP], rets=[I32], pre='int (*gfp)(int, int);')
    # frames
    for n in (1, 8, 16, 40, 120, 240, 248, 256, 496, 504, 512, 1000, 1990, 2000, 2008, 2016, 2024, 2032, 2040, 2048, 2056, 2064, 2080, 3000, 4060, 4072, 4080, 4088, 4096, 4104, 4112, 4200, 8192, 32760, 32768, 33000, 65536, 70000, 1000000):
        la = Loc('la', Arr(CH, n)); pa = Pt(CH); US = Proto('use', I32, [pa], writes=()); l0 = Loc('la', Arr(CH, n))
        body = [Obj(la), Set(Index(la, L(0)), a), Set(Index(la, L(n - 1)), b)]
        fn('frame %d' % n, [(I32, 'a'), (I32, 'b')], body + [Ret(B('+', Index(la, L(0)), Index(la, L(n - 1))))], I32)
        fn('frame call %d' % n, [(I32, 'a'), (I32, 'b')], body + [Call(None, NOP, []), Ret(B('-', Index(la, L(n - 1)), B('*', a, 3)))], I32, protos=[NOP], rets=[None])
        fn('frame stack params %d' % n, sig('iiiiiiiiii'), [Obj(la), Set(Index(la, L(0)), V('p8')), Call(None, NOP, []), Ret(B('-', Index(la, L(0)), B('*', V('p9'), 3)))], I32, protos=[NOP], rets=[None])
        st = Proto('ext', None, [I32] * 10)
        fn('frame stack args %d' % n, [(I32, 'a'), (I32, 'b')], body + [Call(None, st, [B('+', a, k) for k in range(10)]), Ret(B('-', Index(la, L(n - 1)), B('*', a, 3)))], I32, protos=[st], rets=[None])
        fd = Proto('fext', DBL, [DBL])
        fn('frame floats %d' % n, [(DBL, 'd'), (I32, 'a'), (DBL, 'e')], [Obj(la), Set(Index(la, L(0)), a), Decl(DBL, 'x', L(0)), Call(V('x', DBL), fd, [V('e', DBL)]), Ret(Bin('-', Bin('+', V('d', DBL), V('x', DBL)), Index(la, L(0))))], DBL, protos=[fd], rets=[DBL])
        fn('frame params %d' % n, sig('ildfcCsSd'), [Obj(la), Set(Index(la, L(0)), V('p0'))] + [Raw('%s *w%d = &p%d; *w%d = *w%d;' % (TY[x], k, k, k, k), []) for k, x in enumerate('ildfcCsSd')] + [Call(None, NOP, [])] + [Set(Glob('g%d' % k, TY[x]), V('p%d' % k, TY[x])) for k, x in enumerate('ildfcCsSd')],
           pre=''.join('%s g%d;\n' % (TY[x].n, k) for k, x in enumerate('ildfcCsSd')), protos=[NOP], rets=[None]) if n < 200 or n % 16 == 0 else None
        fn('frame variadic %d' % n, sig('iildp'), [Obj(la), Set(Index(la, L(0)), V('p0')), Raw('va_list ap; va_start(ap, p0); g1 = va_arg(ap, int); g2 = va_arg(ap, long); g3 = va_arg(ap, double); va_end(ap); return la[0];', [Set(Glob('g%d' % k, TY[x]), V('p%d' % k, TY[x])) for k, x in ((1, 'i'), (2, 'l'), (3, 'd'))] + [Ret(Index(la, L(0)))])], I32,
           pre='int g1; long g2; double g3;\n', nfix=1, std=True)
    # many values alive at a time
    for n in (6, 10, 14, 18, 24, 40):
        for t in (I32, I64, DBL, FLT):
            x = [V('x%d' % k, t) for k in range(n)]
            E = {I32: EXT, I64: LEXT, DBL: FEXT, FLT: FEXT}[t]
            mk1 = [Decl(t, 'x%d' % k, Bin('+', V('a', t), Bin('*', V('b', t), L(k + 1)))) for k in range(n)]
            out = [Set(Glob('g', Arr(t, n)) if False else Index(Glob('g', Arr(t, n)), L(k)), x[(k * 7 + 3) % n] if n % 7 else x[n - 1 - k]) for k in range(n)]
            pre = '%s g[%d];' % (t, n)
            fn('live %d %s' % (n, t), [(t, 'a'), (t, 'b')], mk1 + out, pre=pre)
            fn('live call %d %s' % (n, t), [(t, 'a'), (t, 'b')], mk1 + [Call(None, NOP, [])] + out, pre=pre, protos=[NOP], rets=[None])
            fn('live calls %d %s' % (n, t), [(t, 'a'), (t, 'b')], mk1 + [Call(x[0], E, [x[n - 1]]), Call(x[n // 2], E, [x[1]])] + out, pre=pre, protos=[E], rets=[E.ret] * 2)
            if n <= 18: fn('live branch %d %s' % (n, t), [(t, 'a'), (t, 'b')], mk1 + [If(Bin('<', x[0], x[n - 1]), [Set(x[1], x[2]), Set(x[n - 2], x[0])], [Call(None, NOP, [])])] + out, pre=pre, protos=[NOP], rets=[None])
            if n <= 14 and t.k != 'flo': fn('live loop %d %s' % (n, t), [(t, 'a'), (t, 'b')], mk1 + [For(Decl(I32, 'i', L(0)), B('<', V('i'), 2), Inc(V('i')), [Decl(t, 'h', x[0])] + [Set(x[k], x[k + 1]) for k in range(n - 1)] + [Set(x[n - 1], V('h', t))])] + out, pre=pre)
        mix = [(I32, I64, DBL, U8, FLT, I16)[k % 6] for k in range(n)]
        x = [V('x%d' % k, t) for k, t in enumerate(mix)]
        mk1 = [Decl(t, 'x%d' % k, Bin('+', V('a', t), V('b')) if t.k == 'flo' else B('+', a, B('*', b, k))) for k, t in enumerate(mix)]
        pre = ''.join('%s g%d;' % (t, k) for k, t in enumerate(mix))
        out = [Set(Glob('g%d' % k, x[k].t), x[k]) for k in reversed(range(n))]
        prm = [(I32, 'a'), (I32, 'b')]
        mk1 = [Decl(t, 'x%d' % k, Cast(t, B('+', a, B('*', b, k + 1)))) for k, t in enumerate(mix)]
        fn('live mix %d' % n, prm, mk1 + out, pre=pre); fn('live mix call %d' % n, prm, mk1 + [Call(None, NOP, [])] + out, pre=pre, protos=[NOP], rets=[None])
        many = Proto('many', I32, mix)
        fn('live mix args %d' % n, prm, mk1 + [Call(x[0], many, x), Call(x[0], many, x)] + out, pre=pre, protos=[many], rets=[I32] * 2)
    # shifts and divisions under pressure (they take fixed registers on x86-64)
    for n in (4, 8, 12, 16):
        for op in ('<<', '>>', '/', '%', '*'):
            for t in (I32, U64, U8):
                x = [V('x%d' % k, t) for k in range(n)]
                mk1 = [Decl(t, 'x%d' % k, Bin('+', V('a', t), L(k))) for k in range(n)]
                d = Bin('|', Bin('&', V('b', t), L(7)), L(1))
                fn('%s among %d %s' % (op, n, t), [(t, 'a'), (t, 'b')], mk1 + [Decl(t, 'd', d), Set(x[0], Bin(op, x[1], V('d', t))), Set(x[2], Bin(op, x[n - 1], V('d', t)))] + [Set(Index(Glob('g', Arr(t, n)), L(k)), x[k]) for k in range(n)] + [Ret(V('d', t))], t, pre='%s g[%d];' % (t, n))
                fn('%s params %d %s' % (op, n, t), [(t, 'p%d' % k) for k in range(n)], [Decl(t, 'd', Bin('|', Bin('&', V('p3', t), L(7)), L(1))), Decl(t, 'r', Bin(op, V('p2', t), V('d', t)))] + [Set(Index(Glob('g', Arr(t, n)), L(k)), V('p%d' % k, t)) for k in range(n)] + [Ret(V('r', t))], t, pre='%s g[%d];' % (t, n))
    # structures by value
    S = {}
    for nm, fields in (('A', [('x', I32)]), ('B', [('x', I64), ('y', I64)]), ('C', [('x', CH), ('y', I16), ('z', I32)]), ('D', [('x', DBL), ('y', DBL)]), ('E', [('x', FLT), ('y', I32), ('z', DBL)]), ('F', [('x', I64), ('y', I32), ('z', DBL), ('w', I16)]), ('G', [('x', U8), ('y', U8), ('z', U8)]), ('H', [('v', Arr(I32, 9))])):
        S[nm] = st = Struct('T' + nm, fields); d = st.decl; sn = st.n
        fl = [(n, t) for n, t in fields if t.k != 'arr'] or [('v[2]', I32), ('v[8]', I32)]
        prm = [(t, 'm%d' % k) for k, (n, t) in enumerate(fl)]
        g = ''.join('%s g%d;\n' % (t, k) for k, (n, t) in enumerate(fl))
        fillr = ' '.join('s.%s = m%d;' % (n, k) for k, (n, t) in enumerate(fl)); tog = ' '.join('g%d = s.%s;' % (k, n) for k, (n, t) in enumerate(fl))
        eff = [Set(Glob('g%d' % k, t), V('m%d' % k, t)) for k, (n, t) in enumerate(fl)]
        fn('struct param %s' % nm, prm, [Raw('%s s; %s take(s);' % (sn, fillr), eff)], pre=d + g + 'void take(%s s) { %s }\n' % (sn, tog))
        fn('struct params %s' % nm, prm + [(I32, 'k'), (DBL, 'e')], [Raw('%s s; %s take(k, s, e, s, k);' % (sn, fillr), eff + [Set(Glob('gk', I32), B('*', V('k'), 2)), Set(Glob('ge', DBL), V('e', DBL))])], pre=d + g + 'int gk; double ge; void take(int a, %s s, double e, %s t, int b) { %s gk = a + b; ge = e; }\n' % (sn, sn, tog))
        fn('struct result %s' % nm, prm, [Raw('%s s = make(%s); %s' % (sn, ', '.join(n for _, n in prm), tog), eff)], pre=d + g + '%s make(%s) { %s s; %s return s; }\n' % (sn, ', '.join(decl(t, n) for t, n in prm), sn, fillr))
        fn('struct through %s' % nm, prm, [Raw('%s s; %s s = ident(s); %s' % (sn, fillr, tog), eff)], pre=d + g + '%s ident(%s s) { return s; }\n' % (sn, sn))
        fn('struct copy param %s' % nm, prm, [Raw('%s s; %s wreck(s); %s' % (sn, fillr, tog), eff)], pre=d + g + 'void wreck(%s s) { %s }\n' % (sn, ' '.join('s.%s = 0;' % n for n, _ in fl)))
        fn('struct after many %s' % nm, prm, [Raw('%s s; %s take(1, 2, 3, 4, 5, 6, 7, s, 9);' % (sn, fillr), eff + [Set(Glob('gk', I32), L(16))])], pre=d + g + 'int gk; void take(int a, int b, int c, int d, int e, int f, int g, %s s, int i) { %s gk = g + i; }\n' % (sn, tog))
        fn('struct member of result %s' % nm, prm, [Raw('g0 = make(%s).%s;' % (', '.join(n for _, n in prm), fl[0][0]), eff[:1])], pre=d + g + '%s make(%s) { %s s; %s return s; }\n' % (sn, ', '.join(decl(t, n) for t, n in prm), sn, fillr))
        if nm in 'ABCDEF':
            fn('struct variadic %s' % nm, prm + [(I32, 'k')], [Raw('%s s; %s take(k, s, k);' % (sn, fillr), eff + [Set(Glob('gk', I32), B('*', V('k'), 2))])], std=True, pre=d + g + 'int gk; void take(int a, ...) { va_list ap; va_start(ap, a); %s s = va_arg(ap, %s); gk = a + va_arg(ap, int); va_end(ap); %s }\n' % (sn, sn, tog)) if False else None
    # functions of the same file with all kinds of arguments
    for s in SIGS:
        if 'p' in s: continue
        g = ''.join('%s g%d;\n' % (TY[x].n, k) for k, x in enumerate(s)); ps = vs(s)
        fn('own ' + s, sig(s), [Raw('take(%s);' % ', '.join(p.s for p in ps), [Set(Glob('g%d' % k, p.t), p) for k, p in enumerate(ps)])], pre=g + 'void take(%s) { %s }\n' % (', '.join(decl(t, n) for t, n in sig(s)), ' '.join('g%d = p%d;' % (k, k) for k in range(len(s)))))
    fn('recursive', [(I32, 'n'), (I32, 'a')], [Raw('return rec(n & 3, a);', [Decl(I32, 'r', L(0)), For(Decl(I32, 'i', B('&', V('n'), 3)), B('>', V('i'), 0), Inc(V('i'), '--'), [Set(V('r'), B('*', a, 3) if False else V('i'), '+')]), Ret(B('+', V('r'), a))])], I32, pre='int rec(int n, int a) { if (n <= 0) return a; return n + rec(n - 1, a); }\n')
    # variable length arrays and alloca move the stack pointer
    return [t for t in ts if t is not None]
class IndCall(Call):
    """call through a parameter declared void *"""
    def __init__(s, lv, proto, args, fn):
        Call.__init__(s, lv, proto, args, fn)
        s.s = '%s = ((%s (*)(%s))%s)(%s);' % (lv.s, proto.ret, ', '.join(str(t) for t in proto.params), fn.s, ', '.join(x.s for x in args))
def keep(t, arch, args):
    """quick tier: the instances that take longest are thinned out further"""
    h = zlib.crc32(t.name.encode()) >> 8
    if t.std and arch != 'riscv64': return h % (6 if t.name.startswith('frame') else 3 if args else 2) == 0
    if re.match(r'live.* (24|40)\b', t.name) or re.match(r'\S+ (among|params) ', t.name): return not args and arch == 'x64' or h % 3 == 0
    return True
def check():
    chk = Check('C14', 'abstract interpretation of the whole compiler on functions with many parameters, arguments, live values and large frames, and of the assembly it emits, under the calling convention of the platform',
                'arguments, results, values live across calls and callee-saved registers arrive where the calling convention and the program put them; stores stay inside the frame')
    jobs = []
    only = [x for x in sys.argv[1:] if not x.startswith('-')]
    ts = plan()
    for arch in only[:1] or ('x64', 'riscv64', 'aarch64'):
        for args in ((), ('--apply-ssa',)):
            F = Fns(arch, chk, args); F.add([t for t in F.sample(ts) if chk.tier != 'quick' or keep(t, arch, args)]); jobs += F.jobs
    if 'riscv64' in (only[:1] or ['riscv64']):
        F = Fns('riscv64', chk, (), AbiRVStd()); F.add([t for t in ts if t.name in ('consts ddddddddd', 'after ddddddddd')]); jobs += F.jobs
    chk.parallel(jobs)
    chk.minimum = 700 if not only else 0
    return chk.finish()
if __name__ == '__main__': main(check)
