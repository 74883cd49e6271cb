"""C13: loads, stores and copies of objects touch exactly the bytes C says."""
from cstmt import *

def V(n, t=I32): return Var(n, t)
def L(n, t=I32): return Lit('%d%s' % (n, {'int': '', 'unsigned': 'U', 'long': 'L', 'unsigned long': 'UL'}[t.n]), t, n)
def B(op, a, b): return Bin(op, a if isinstance(a, X) else L(a), b if isinstance(b, X) else L(b))
def fld(s, *path):
    """p->a.b[i]..."""
    for m in path:
        if m.__class__ is str: s = Mem(s, m, s.t.k == 'ptr')
        else: s = Index(s, m if isinstance(m, X) else L(m))
    return s
class Copy(St):
    """assignment of whole structures"""
    def __init__(s, a, b): s.a = a; s.b = b; s.s = '%s = %s;' % (a.s, b.s)
    def run(s, st):
        e = st.env(); src = s.b.addr(e); dst = s.a.addr(e); n = s.a.t.size
        by = sorted(valbytes(s.a.t))
        vs = [st.mem.load(st.f.resolve(add(src, i, 64), 64), 1) for i in by]
        for i, v in zip(by, vs): st.mem.store(st.f.resolve(add(dst, i, 64), 64), 1, v)
        st.mem.touched.append((st.f.resolve(dst, 64), n))
        return [(st, None)]
class Init(St):
    """declaration of a local object with an initialiser: (offset, expression) in order; the rest is zero"""
    def __init__(s, x, txt, items): s.x = x; s.items = items; s.s = '%s = %s;' % (dname(x.t, x.s), txt)
    def run(s, st):
        e = st.env(); a = s.x.addr(e)
        vs = [(asgn(st, x, t), t) for _, t, x in s.items]
        for i in range(s.x.t.size): st.mem.store(add(a, i, 64), 1, 0)
        for (off, t, _), (v, _) in zip(s.items, vs): st.mem.store(st.f.resolve(add(a, off, 64), 64), t.size, v)
        return [(st, None)]
class DeclObj(St):
    """declaration of a local object without initialiser: its contents are unspecified"""
    def __init__(s, x): s.x = x; s.s = '%s;' % dname(x.t, x.s)
    def run(s, st): return [(st, None)]
def dname2(t, nm): return dname(t, nm)
S1 = Struct('S1', [('c', CH), ('s', I16), ('i', I32), ('l', I64), ('u', U8)])
S2 = Struct('S2', [('a', U8), ('in', S1), ('v', Arr(I16, 5)), ('d', DBL), ('f', FLT), ('b', BOOL), ('z', U32)])
S3 = Struct('S3', [('x', I32), ('next', Pt('struct S3')), ('y', U16)]); S3.members['next'][1].to = S3
UN = Struct('UN', [('i', I32), ('l', U64), ('h', Arr(U16, 3)), ('c', I8), ('s', S1)], union=True)
S4 = Struct('S4', [('k', I8), ('u', UN), ('t', I8)])
BF = Struct('BF', [('a', I32, 3), ('b', U32, 5), ('c', I32, 8), ('d', U32, 1), ('e', I32, 15)])
BL = Struct('BL', [('p', I32), ('q', U64, 33), ('r', I64, 20), ('s', U64, 11), ('t', I32)])
BC = Struct('BC', [('a', U8, 3), ('b', I8, 5), ('c', U16, 9), ('d', I16, 7), ('e', U32, 32)])
BB = Struct('BB', [('f', BOOL, 1), ('g', BOOL, 1), ('h', U32, 6)])
BW = Struct('BW', [('q', I64, 64), ('k', I8, 5), ('r', U64, 64)])
ALLS = (S1, S2, S3, UN, S4, BF, BL, BC, BB, BW)
DECLS = ''.join(s.decl for s in ALLS)
def prelude(): return DECLS
SC = (I8, U8, I16, U16, I32, U32, I64, U64, BOOL, FLT, DBL)
a, i, j, v = V('a'), V('i'), V('j'), V('v')
IN = {'i': (I32, 'i'), 'j': (I32, 'j')}
def pp(to, n='p'): return Var(n, Pt(to))
def plan():
    ts = []
    def fn(name, params, ss, ret=None, **kw):
        kw.setdefault('pre', prelude())
        ts.append(Prg(name, ret, params, ss, **kw))
    def P(*vs): return [(x.t, x.s) for x in vs]
    # pointers and arrays of every type
    for t in SC:
        p, q, x = pp(t), pp(t, 'q'), V('x', t)
        n = str(t)
        fn('*p ' + n, P(p), [Ret(Deref(p))], t)
        fn('*p= ' + n, P(p, x), [Set(Deref(p), x)])
        fn('*p=i ' + n, P(p, i), [Set(Deref(p), i)]) if t.k != 'flo' else None
        fn('*p=const ' + n, P(p), [Set(Deref(p), L(77))])
        for it in (I32, I8, U8, U32, I64, U64, I16):
            k = V('k', it)
            if it not in (I32, U8, I64) and t not in (I32, I8): continue
            fn('p[%s] %s' % (it, n), P(p, k), [Ret(Index(p, k))], t)
            fn('p[%s]= %s' % (it, n), P(p, k, x), [Set(Index(p, k), x)])
        for c in (0, 1, -1, 7, 1000, -3000, 100000):
            fn('p[%d] %s' % (c, n), P(p), [Ret(Index(p, L(c)))], t)
            fn('p[%d]= %s' % (c, n), P(p, x), [Set(Index(p, L(c)), x)])
        for s in (I64, I32):
            fn('p[n] %s %s' % (n, s), P(p), [Ret(Index(p, Num(1, s)))], t, lits=1, hints=None) if t in (I8, I32, U64, DBL) else None
        fn('*(p+i) ' + n, P(p, i), [Ret(Deref(Bin('+', p, i)))], t)
        fn('*(p-i)= ' + n, P(p, i, x), [Set(Deref(Bin('-', p, i)), x)])
        fn('*(p+i+3) ' + n, P(p, i), [Ret(Deref(Bin('+', Bin('+', p, i), L(3))))], t)
        fn('p[i+1] ' + n, P(p, i), [Ret(Index(p, B('+', i, 1)))], t)
        fn('p[i]=p[j] ' + n, P(p, i, j), [Set(Index(p, i), Index(p, j))])
        fn('*p=*q ' + n, P(p, q), [Set(Deref(p), Deref(q))])
        fn('alias ' + n, P(p, q, x), [Set(Deref(p), x), Set(Deref(q), Index(q, L(1))), Ret(Deref(p))], t, place={'q': label_addr('arg p')})
        fn('p++ ' + n, P(p, x), [Set(Deref(p), x), Inc(p), Set(Deref(p), x), Inc(p, '++', False), Ret(Deref(p))], t)
        fn('p+= ' + n, P(p, i), [Set(p, L(5), '+'), Set(p, i, '-'), Ret(Deref(p))], t)
        fn('*p++ ' + n, P(p, q), [Raw('*p++ = *q++; *p++ = *q++; return *q;', [Set(Deref(p), Deref(q)), Inc(p), Inc(q), Set(Deref(p), Deref(q)), Inc(p), Inc(q), Ret(Deref(q))])], t)
        fn('*--p ' + n, P(p, x), [Raw('*--p = x; return p[1];', [Inc(p, '--'), Set(Deref(p), x), Ret(Index(p, L(1)))])], t)
        if t.k != 'bool': fn('++*p ' + n, P(p), [Inc(Deref(p), '++', False)])
        fn('(*p)-- ' + n, P(p), [Decl(t, 'x', L(0)), Inc(Deref(p), '--', True, x) if t.k != 'bool' else Set(Deref(p), L(1)), Ret(x)], t)
        for op in ('+', '-', '*') + (() if t.k == 'flo' else ('&', '|', '^')):
            if t.k == 'bool': continue
            fn('*p %s= %s' % (op, n), P(p, x), [Set(Deref(p), x, op)])
            fn('p[i] %s= %s' % (op, n), P(p, i, x), [Set(Index(p, i), x, op)])
        fn('chain ' + n, P(p, q, x), [Chain(Deref(p), Deref(q), x)])
        fn('*(t*)v ' + n, [(Pt('void'), 'w')] + P(x), [Raw('*(%s *)w = x;' % n, [Set(Deref(Var('w', Pt(t))), x)])])
        fn('p==q ' + n, P(p, q), [Ret(Bin('==', p, q))], I32)
        fn('&p[i] ' + n, P(p, i), [Ret(AddrOf(Index(p, i)))], Pt(t))
        # globals
        g = Glob('g', t); ga = Glob('ga', Arr(t, 9)); gp = Glob('gp', Pt(t))
        gd = prelude() + '%s g; %s ga[9]; %s *gp; extern %s ge; static %s gs = 3; \n' % (n, n, n, n, n)
        fn('g ' + n, [], [Ret(g)], t, pre=gd); fn('g= ' + n, P(x), [Set(g, x)], pre=gd)
        fn('ge ' + n, [], [Ret(Glob('ge', t))], t, pre=gd); fn('ge= ' + n, P(x), [Set(Glob('ge', t), x)], pre=gd)
        fn('gs ' + n, P(x), [Decl(t, 'y', Glob('gs', t)), Set(Glob('gs', t), x), Ret(V('y', t))], t, pre=gd)
        fn('ga[i] ' + n, P(i), [Ret(Index(ga, i))], t, pre=gd); fn('ga[i]= ' + n, P(i, x), [Set(Index(ga, i), x)], pre=gd)
        fn('ga[5] ' + n, [], [Ret(Index(ga, L(5)))], t, pre=gd); fn('ga[7]= ' + n, P(x), [Set(Index(ga, L(7)), x)], pre=gd)
        fn('*gp ' + n, [], [Ret(Deref(gp))], t, pre=gd); fn('gp[i]= ' + n, P(i, x), [Set(Index(gp, i), x)], pre=gd); fn('gp=&ga[i] ' + n, P(i), [Set(gp, AddrOf(Index(ga, i)))], pre=gd)
        fn('g+= ' + n, P(x), [Set(g, x, '+')], pre=gd) if t.k != 'bool' else None
        fn('g++ ' + n, P(x), [Inc(g), Inc(g, '++', False), Inc(Index(ga, L(2)), '--')], pre=gd) if t.k != 'bool' else None
        # locals with addresses
        la = Loc('la', Arr(t, 6)); lx = Loc('lx', t)
        fn('&local ' + n, P(x), [Raw('%s lx = x; %s *w = &lx; *w = *w; return lx;' % (n, n), [Set(lx, x), Ret(lx)])], t)
        fn('&param ' + n, P(p, x), [Raw('%s *w = &x; *w = *p; return x;' % n, [Ret(Deref(p))])], t)
        fn('local array ' + n, P(x, V('y', t)), [DeclObj(la), Set(Index(la, L(0)), x), Set(Index(la, L(5)), V('y', t)), Set(Index(la, L(3)), Index(la, L(0))), Set(Index(la, L(0)), Index(la, L(5))), Ret(Index(la, L(3)))], t)
        if t.k != 'bool':
            fn('array init ' + n, P(x, V('y', t)), [Init(la, '{1, x, 0, y}', [(0, t, L(1)), (t.size, t, x), (3 * t.size, t, V('y', t))]), Ret(Bin('+', Bin('+', Index(la, L(0)), Index(la, L(1))), Bin('+', Index(la, L(3)), Bin('+', Index(la, L(4)), Index(la, L(5))))))], usual(t, t))
            fn('array designated ' + n, P(x), [Init(la, '{[2] = x, 4, [0] = 7}', [(2 * t.size, t, x), (3 * t.size, t, L(4)), (0, t, L(7))]), Ret(Bin('-', Bin('-', Index(la, L(0)), Index(la, L(1))), Bin('-', Index(la, L(2)), Bin('-', Index(la, L(3)), Index(la, L(5))))))], usual(t, t))
    # structures
    p1, p2, p3, pu, p4 = pp(S1), pp(S2), pp(S3), pp(UN), pp(S4)
    def acc(name, base, lv, pre=None):
        t = lv.t; x = V('x', t); kw = {} if pre is None else {'pre': pre}
        base = [(b.t, b.s) for b in base if b.__class__ is Var]
        fn('get ' + name, base, [Ret(lv)], t, **kw); fn('set ' + name, base + [(t, 'x')], [Set(lv, x)], **kw)
        if t.k == 'ptr': return
        if t.k != 'bool':
            fn('inc ' + name, base, [Inc(lv)], **kw); fn('add ' + name, base + [(t, 'x')], [Set(lv, x, '+')], **kw)
            fn('post ' + name, base, [Decl(t, 'x', L(0)), Inc(lv, '--', True, x), Ret(x)], t, **kw)
    for m in S1.members: acc('S1.' + m, [p1], fld(p1, m))
    for m in ('a', 'd', 'f', 'b', 'z'): acc('S2.' + m, [p2], fld(p2, m))
    for m in S1.members: acc('S2.in.' + m, [p2], fld(p2, 'in', m))
    for k in (0, 4): acc('S2.v[%d]' % k, [p2], fld(p2, 'v', k))
    acc('S2.v[i]', [p2, i], fld(p2, 'v', i))
    for m in ('x', 'next', 'y'): acc('S3.' + m, [p3], fld(p3, m)); acc('S3.next.' + m, [p3], fld(p3, 'next', m)); acc('S3.next.next.' + m, [p3], fld(p3, 'next', 'next', m))
    for m in ('i', 'l', 'c'): acc('UN.' + m, [pu], fld(pu, m)); acc('S4.u.' + m, [p4], fld(p4, 'u', m))
    acc('UN.h[i]', [pu, i], fld(pu, 'h', i)); acc('UN.s.l', [pu], fld(pu, 's', 'l')); acc('S4.t', [p4], fld(p4, 't')); acc('S4.u.s.s', [p4], fld(p4, 'u', 's', 's'))
    for s, m in ((S1, 'i'), (S1, 'u'), (S2, 'd'), (S2, 'z'), (S3, 'y')):
        p = pp(s); acc('p[i].%s %s' % (m, s.n), [p, i], Mem(Index(p, i), m)); acc('p[3].%s %s' % (m, s.n), [p], Mem(Index(p, L(3)), m)); acc('(*p).%s %s' % (m, s.n), [p], Mem(Deref(p), m))
        g = Glob('gst', s); ga = Glob('gsa', Arr(s, 4)); pre = prelude() + '%s gst; %s gsa[4];\n' % (s.n, s.n)
        acc('g.%s %s' % (m, s.n), [], Mem(g, m), pre); acc('ga[i].%s %s' % (m, s.n), [i], Mem(Index(ga, i), m), pre); acc('ga[2].%s %s' % (m, s.n), [], Mem(Index(ga, L(2)), m), pre)
        fn('&p->%s %s' % (m, s.n), P(p), [Ret(AddrOf(Mem(p, m, True)))], Pt(s.members[m][1]))
    fn('union punning', P(pu, V('x', U64)), [Set(fld(pu, 'l'), V('x', U64)), Ret(fld(pu, 'h', 2))], U16)
    fn('union partial', P(pu, V('x', I8)), [Set(fld(pu, 'c'), V('x', I8)), Ret(fld(pu, 'l'))], U64)
    fn('rewrite', P(p1, i), [Set(fld(p1, 'i'), i), Set(fld(p1, 'i'), B('+', fld(p1, 'i'), 1)), Set(fld(p1, 'c'), i), Ret(fld(p1, 'i'))], I32)
    # copies
    for n in list(range(1, 20)) + [24, 31, 32, 33, 40, 48, 63, 64, 65, 72, 100, 128]:
        s = Struct('C%d' % n, [('b', Arr(CH, n))]); p, q = pp(s), pp(s, 'q'); pre = s.decl; x = Loc('x', s); g = Glob('gc', s)
        fn('copy %d' % n, P(p, q), [Copy(Deref(p), Deref(q))], pre=pre)
        if n <= 33 or n == 72:
            fn('copy local %d' % n, P(p, q), [Raw('%s x = *q; *p = x;' % s.n, [Copy(x, Deref(q)), Copy(Deref(p), x)])], pre=pre)
            fn('copy global %d' % n, P(p), [Copy(g, Deref(p))], pre=pre + '%s gc;' % s.n)
            fn('copy element %d' % n, P(p, i), [Copy(Index(p, i), Index(p, L(2)))], pre=pre)
    for s in (S1, S2, S3, UN, S4):
        p, q, x = pp(s), pp(s, 'q'), Loc('x', s)
        fn('copy %s' % s.n, P(p, q), [Copy(Deref(p), Deref(q))])
        fn('swap %s' % s.n, P(p, q), [Raw('%s x = *p; *p = *q; *q = x;' % s.n, [Copy(x, Deref(p)), Copy(Deref(p), Deref(q)), Copy(Deref(q), x)])])
        fn('self %s' % s.n, P(p), [Copy(Deref(p), Deref(p))])
    fn('copy member', [(Pt(S1), 'p'), (Pt(S2), 'q')], [Copy(fld(pp(S2, 'q'), 'in'), Deref(pp(S1)))])
    fn('copy from member', [(Pt(S1), 'p'), (Pt(S2), 'q')], [Copy(Deref(pp(S1)), fld(pp(S2, 'q'), 'in'))])
    fn('copy from list', P(p3), [Copy(Deref(p3), Deref(fld(p3, 'next')))])
    # initialisers of local structures
    x1, x2, x3 = Loc('x1', S1), Loc('x2', S2), Loc('x3', S3); m1 = S1.members; m2 = S2.members
    cp = lambda x, s: [Raw('*p = %s;' % x.s, [Copy(Deref(pp(s)), x)])]
    def members(x, *paths):
        """stores of members of a local to an array of long"""
        return [Set(Index(Var('o', Pt(I64)), L(k)), fld(x, *pth)) for k, pth in enumerate(paths)]
    O = [(Pt(I64), 'o')]
    fn('init all', O + P(i, V('l', I64)), [Init(x1, '{i, 2, i, l, 5}', [(m1['c'][0], CH, i), (m1['s'][0], I16, L(2)), (m1['i'][0], I32, i), (m1['l'][0], I64, V('l', I64)), (m1['u'][0], U8, L(5))])] + members(x1, ('c',), ('s',), ('i',), ('l',), ('u',)))
    fn('init part', O + P(i), [Init(x1, '{7, i}', [(m1['c'][0], CH, L(7)), (m1['s'][0], I16, i)])] + members(x1, ('c',), ('s',), ('i',), ('l',), ('u',)))
    fn('init none', O, [Init(x1, '{0}', [])] + members(x1, ('c',), ('s',), ('i',), ('l',), ('u',)))
    fn('init designated', O + P(i), [Init(x1, '{.l = i, .c = 3, .i = i}', [(m1['l'][0], I64, i), (m1['c'][0], CH, L(3)), (m1['i'][0], I32, i)])] + members(x1, ('c',), ('s',), ('i',), ('l',), ('u',)))
    o2 = m2['in'][0]
    fn('init nested', O + P(i), [Init(x2, '{1, {i, 2, .u = 9}, {4, i}, .z = i}', [(0, U8, L(1)), (o2, CH, i), (o2 + m1['s'][0], I16, L(2)), (o2 + m1['u'][0], U8, L(9)), (m2['v'][0], I16, L(4)), (m2['v'][0] + 2, I16, i), (m2['z'][0], U32, i)])] +
       members(x2, ('a',), ('in', 'c'), ('in', 's'), ('in', 'i'), ('in', 'l'), ('in', 'u'), ('v', 0), ('v', 1), ('v', 2), ('v', 4), ('z',)))
    fn('init flat', O + P(i), [Init(x2, '{1, i, 2, 3, 4, 5, 6, i}', [(0, U8, L(1)), (o2, CH, i), (o2 + m1['s'][0], I16, L(2)), (o2 + m1['i'][0], I32, L(3)), (o2 + m1['l'][0], I64, L(4)), (o2 + m1['u'][0], U8, L(5)), (m2['v'][0], I16, L(6)), (m2['v'][0] + 2, I16, i)])] +
       members(x2, ('a',), ('in', 'c'), ('in', 's'), ('in', 'i'), ('in', 'l'), ('in', 'u'), ('v', 0), ('v', 1), ('v', 2), ('v', 4), ('z',)))
    fn('assign all', O + P(i), [DeclObj(x1)] + [Set(fld(x1, m), B('+', i, k)) for k, m in enumerate(m1)] + members(x1, ('c',), ('s',), ('i',), ('l',), ('u',)))
    st = Loc('cs', Arr(CH, 12))
    fn('char array', O, [Init(st, '"abc\\n"', [(k, CH, L(c)) for k, c in enumerate(b'abc\n')])] + members(st, (0,), (1,), (2,), (3,), (4,), (11,)))
    fn('string[i]', P(V('i', U32)), [Raw('return "hello"[i & 3];', [Ret(Cond(B('==', B('&', V('i', U32), 3), 0), L(104), Cond(B('==', B('&', V('i', U32), 3), 1), L(101), L(108))))])], I32)
    mt = Glob('mt', Arr(Arr(I32, 5), 4)); mpre = prelude() + 'int mt[4][5]; unsigned short mu[3][2][6];\n'; mu = Glob('mu', Arr(Arr(Arr(U16, 6), 2), 3))
    fn('m[i][j]', P(i, j), [Ret(Index(Index(mt, i), j))], I32, pre=mpre); fn('m[i][j]=', P(i, j, v), [Set(Index(Index(mt, i), j), v)], pre=mpre)
    fn('m[2][j]', P(j), [Ret(Index(Index(mt, L(2)), j))], I32, pre=mpre); fn('m[i][3]=', P(i, v), [Set(Index(Index(mt, i), L(3)), v)], pre=mpre)
    fn('m[i][j][k]', P(i, j), [Ret(Index(Index(Index(mu, i), L(1)), j))], U16, pre=mpre); fn('m[][][]=', P(i, j, v), [Set(Index(Index(Index(mu, j), i), B('&', v, 3)), v)], pre=mpre)
    # bit-fields
    for s in (BF, BL, BC, BB, BW):
        p = pp(s)
        for m in s.members:
            lv = fld(p, m); t = lv.t; wt = promote(t)
            fn('get %s.%s' % (s.n, m), P(p), [Ret(lv)], t)
            for u in (I32, I64, U8): fn('set %s.%s %s' % (s.n, m, u), P(p, V('x', u)), [Set(lv, V('x', u))])
            fn('set const %s.%s' % (s.n, m), P(p), [Set(lv, L(5))]); fn('set -1 %s.%s' % (s.n, m), P(p), [Set(lv, L(-1))])
            fn('value %s.%s' % (s.n, m), P(p, i), [Decl(I64, 'r', L(0, I64)), Chain(V('r', I64), lv, i), Ret(V('r', I64))], I64)
            for op in ('++', '--'):
                fn('%s %s.%s' % (op, s.n, m), P(p), [Decl(I64, 'r', L(0, I64)), Inc(lv, op, False, V('r', I64)), Ret(V('r', I64))], I64)
                fn('post %s %s.%s' % (op, s.n, m), P(p), [Decl(I64, 'r', L(0, I64)), Inc(lv, op, True, V('r', I64)), Ret(V('r', I64))], I64)
            for op in ('+', '-', '|', '&', '^', '*'): fn('%s= %s.%s' % (op, s.n, m), P(p, i), [Set(lv, i, op)])
            fn('opval %s.%s' % (s.n, m), P(p, i), [Decl(I64, 'r', L(0, I64)), Raw('r = %s += i;' % lv.s, [Set(lv, i, '+'), Set(V('r', I64), lv)]), Ret(V('r', I64))], I64)
            if t.w > 8 and t is not BOOL: fn('float %s.%s' % (s.n, m), P(p, V('d', DBL)), [Raw('%s = d;' % lv.s, [Set(lv, Cast(I64, V('d', DBL)))])], needs=[Cast(I8, V('d', DBL)), Cast(U8, V('d', DBL))])
            fn('two %s.%s' % (s.n, m), P(p, i, j), [Set(lv, i)] + [Set(fld(p, m2_), j) for m2_ in list(s.members)[:2]] + [Ret(lv)], t)
            fn('test %s.%s' % (s.n, m), P(p, i), [If(B('==', lv, B('&', i, 3)), [Ret(L(1))]), Ret(L(0))], I32)
            fn('elem %s.%s' % (s.n, m), P(p, i), [Set(Mem(Index(p, i), m), B('+', Mem(Index(p, L(1)), m), 1))])
        lx = Loc('lx', s)
        fn('local %s' % s.n, P(p, i), [Init(lx, '{0}', [])] + [Set(fld(lx, m), B('+', i, k)) for k, m in enumerate(s.members)] + [Copy(Deref(p), lx)])
    return [t for t in ts if t is not None]
def check():
    chk = Check('C13', 'abstract interpretation of the whole compiler on functions that access memory, and of the assembly it emits: bytes loaded, stored and left alone, for all operand values and memory contents',
                'loads return and stores change exactly the bytes of the object designated')
    jobs = []
    only = [a for a in sys.argv[1:] if not a.startswith('-')]
    ts = plan()
    for arch in only[:1] or ('x64', 'riscv64', 'aarch64'):
        for args in ((), ('--apply-ssa',)):
            F = Fns(arch, chk, args); F.add(F.sample(ts)); jobs += F.jobs
    chk.parallel(jobs)
    chk.minimum = 1000 if not only else 0
    return chk.finish()
if __name__ == '__main__': main(check)
