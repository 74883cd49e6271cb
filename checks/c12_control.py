"""C12: control flow of compiled functions follows the C standard."""
from cstmt import *
import random, itertools

def V(n, t=I32): return Var(n, t)
def L(n, t=I32): return Lit('%d%s' % (n, {'int': '', 'unsigned': 'U', 'long': 'L', 'unsigned long': 'UL'}[t.n]), t, n)
def B(op, a, b): return Bin(op, a if isinstance(a, X) else L(a), b if isinstance(b, X) else L(b))
a, b, c, n = V('a'), V('b'), V('c'), V('n')
r, i, j, k = V('r'), V('i'), V('j'), V('k')
EXT = Proto('ext', I32, [I32]); EXT2 = Proto('act', None, [I32, I32])
P1 = [(I32, 'a')]; P2 = [(I32, 'a'), (I32, 'b')]; P3 = P2 + [(I32, 'c')]
def hand():
    ts = []
    def fn(name, params, ss, ret=I32, **kw): ts.append(Prg(name, ret, params, ss, **kw))
    ret = Ret(r)
    D = lambda nm, x=L(0), t=I32: Decl(t, nm, x)
    # selection
    for op in ('<', '>', '<=', '>=', '==', '!='):
        for t in (I32, U32, I64, U64, I8, U8):
            x, y = V('a', t), V('b', t)
            fn('if %s %s' % (t, op), [(t, 'a'), (t, 'b')], [D('r'), If(Bin(op, x, y), [Set(r, L(5))]), ret])
            fn('if else %s %s' % (t, op), [(t, 'a'), (t, 'b')], [If(Bin(op, x, y), [Ret(L(3))], [Ret(L(-9))])])
            fn('if %s %s 7' % (t, op), [(t, 'a')], [D('r'), If(Bin(op, x, L(7)), [Set(r, L(5))], [Set(r, L(2), '+')]), ret])
            fn('if %s -1 %s' % (t, op), [(t, 'a')], [D('r'), If(Bin(op, L(-1), x), [Set(r, L(5))], [Set(r, L(2), '+')]), ret])
            if t.w >= 32: fn('if %s %s n' % (t, op), [(t, 'a')], [D('r'), If(Bin(op, x, Num(1, t)), [Set(r, L(5))], [Set(r, L(2), '+')]), ret], lits=1)
    for t in (I32, U8, I64, DBL, FLT):
        x = V('a', t)
        fn('if (a) %s' % t, [(t, 'a')], [D('r'), If(x, [Set(r, L(5))]), ret])
        fn('if (!a) %s' % t, [(t, 'a')], [D('r'), If(Un('!', x), [Set(r, L(5))]), ret])
        fn('if (!!a) %s' % t, [(t, 'a')], [D('r'), If(Un('!', Un('!', x)), [Set(r, L(5))], [Set(r, L(1))]), ret])
    for op in ('<', '>=', '==', '!='):
        for t in (DBL, FLT):
            x, y = V('a', t), V('b', t)
            fn('if %s %s' % (t, op), [(t, 'a'), (t, 'b')], [D('r'), If(Bin(op, x, y), [Set(r, L(5))], [Set(r, L(9))]), ret])
            fn('if ! %s %s' % (t, op), [(t, 'a'), (t, 'b')], [D('r'), If(Un('!', Bin(op, x, y)), [Set(r, L(5))], [Set(r, L(9))]), ret])
    # connectives
    ab = B('<', a, b); bc = B('!=', b, c); ca = B('>=', c, a)
    for nm, x in (('&&', Bin('&&', ab, bc)), ('||', Bin('||', ab, bc)), ('!&&', Un('!', Bin('&&', ab, bc))), ('!||', Un('!', Bin('||', ab, bc))),
                  ('&&&', Bin('&&', Bin('&&', ab, bc), ca)), ('||&', Bin('&&', Bin('||', ab, bc), ca)), ('&||', Bin('||', Bin('&&', ab, bc), ca)), ('|&', Bin('||', ab, Bin('&&', bc, ca))),
                  ('&|', Bin('&&', ab, Bin('||', bc, ca))), ('!&|', Bin('&&', Un('!', ab), Un('!', Bin('||', bc, ca)))), ('a&&b', Bin('&&', a, b)), ('a||b&&c', Bin('||', a, Bin('&&', b, c))),
                  ('const&&', Bin('&&', L(1), ab)), ('const||', Bin('||', L(0), ab)), ('&&const', Bin('&&', ab, L(1))), ('&&0', Bin('&&', ab, L(0))), ('||1', Bin('||', ab, L(1))), ('0&&', Bin('&&', L(0), ab)), ('1||', Bin('||', L(1), ab))):
        fn('if ' + nm, P3, [D('r'), If(x, [Set(r, L(5))], [Set(r, L(8))]), ret])
        fn('while ' + nm, P3, [D('r'), While(x, [Inc(r), Set(a, L(1), '|'), If(B('>', r, 2), [Break()])]), Ret(B('+', r, a))])
        fn('do ' + nm, P3, [D('r'), Do([Inc(r), Set(b, L(1), '+'), If(B('>=', r, 2), [Break()])], x), Ret(B('^', r, b))])
        fn('ret ' + nm, P3, [Ret(x)])
        fn('cond ' + nm, P3, [Ret(Cond(x, B('+', a, 1), B('-', b, 2)))])
        fn('set ' + nm, P3, [D('r', x), Set(r, B('*', x, 4), '+'), ret])
    # short circuits with effects
    class Ef(X):
        """an expression statement with side effects, given by statements"""
    fn('&& effects', P2, [D('r'), Raw('if (a > 3 && (r = ext(b)) != 0) r += 2;', [If(B('>', a, 3), [Call(r, EXT, [b]), If(r, [Set(r, L(2), '+')])])]), ret], rets=[I32], protos=[EXT])
    fn('|| effects', P2, [D('r'), Raw('if (a > 3 || (r = ext(b)) != 0) r += 2;', [If(B('>', a, 3), [Set(r, L(2), '+')], [Call(r, EXT, [b]), If(r, [Set(r, L(2), '+')])])]), ret], rets=[I32], protos=[EXT])
    fn('?: effects', P2, [D('r'), Raw('r = a < b ? ext(a) : ext(b);', [If(ab, [Call(r, EXT, [a])], [Call(r, EXT, [b])])]), ret], rets=[I32], protos=[EXT])
    fn('&& value', P2, [D('r'), D('k'), Raw('r = a && ext(b);', [If(a, [Call(k, EXT, [b]), Set(r, B('!=', k, 0))], [Set(r, L(0))])]), ret], rets=[I32], protos=[EXT])
    fn('|| value', P2, [D('r'), D('k'), Raw('r = a || ext(b);', [If(a, [Set(r, L(1))], [Call(k, EXT, [b]), Set(r, B('!=', k, 0))])]), ret], rets=[I32], protos=[EXT])
    fn('&& && calls', P3, [D('r'), D('k'), Raw('r = ext(a) && ext(b) && c;', [Call(k, EXT, [a]), If(k, [Call(k, EXT, [b]), If(k, [Set(r, B('!=', c, 0))], [Set(r, L(0))])], [Set(r, L(0))])]), ret], rets=[I32] * 2, protos=[EXT])
    fn('comma', P2, [D('r'), Raw('r = (a += 2, b -= a, a * b);', [Set(a, L(2), '+'), Set(b, a, '-'), Set(r, B('*', a, b))]), ret])
    fn('comma cond', P2, [D('r'), Raw('while (a = a & 1, a) { a = 4; ++r; }', [Set(a, L(1), '&'), If(a, [Inc(r), Set(a, L(0))])]), ret])
    fn('nested ?:', P3, [Ret(Cond(ab, Cond(bc, L(1), L(2)), Cond(ca, L(3), Cond(a, L(4), L(5)))))])
    fn('if chain', P3, [If(B('<', a, 0), [Ret(L(1))], [If(B('<', a, 10), [Ret(b)], [If(B('==', a, 10), [Ret(c)], [Ret(B('-', b, c))])])])])
    fn('if join', P3, [D('r'), D('k'), If(ab, [Set(r, a), If(bc, [Set(k, b)])], [Set(r, b), If(ca, [Set(k, c)], [Set(r, L(1), '+')])]), Ret(B('-', B('*', r, 3), k))])
    fn('swap', P2, [D('r'), If(ab, [Set(r, a), Set(a, b), Set(b, r)]), Ret(B('-', a, b))])
    fn('three rotate', P3, [D('r'), D('i'), For(Set(i, L(0)), B('<', i, B('&', c, 3)), Inc(i), [Set(r, a), Set(a, b), Set(b, r)]), Ret(B('-', B('*', a, 2), b))])
    fn('phi swap', P3, [D('i'), While(B('<', i, B('&', c, 3)), [D('j', a), Set(a, b), Set(b, j), Inc(i)]), Ret(B('+', B('*', a, 5), b))])
    fn('phi rotate', P3, [D('i'), D('k', L(7)), While(B('<', i, B('&', c, 3)), [D('j', a), Set(a, b), Set(b, k), Set(k, j), Inc(i)]), Ret(B('+', B('-', B('*', a, 5), b), B('*', k, 11)))])
    # loops
    lim = B('&', n, 3); PN = [(I32, 'n'), (I32, 'a')]
    fn('for', PN, [D('r'), Decl(I32, 'i'), For(Set(i, L(0)), B('<', i, lim), Inc(i), [Set(r, B('+', a, i), '+')]), ret])
    fn('for decl', PN, [D('r'), For(D('i', L(1)), B('<=', i, lim), Inc(i, '++', False), [Set(r, B('*', a, i), '+')]), ret])
    fn('for down', PN, [D('r'), For(D('i', lim), B('>=', i, 0), Inc(i, '--'), [Set(r, B('*', r, 3)), Set(r, B('+', a, i), '+')]), ret])
    fn('for unsigned', PN, [D('r'), For(D('i', lim, U32), Bin('!=', V('i', U32), L(0, U32)), Inc(V('i', U32), '--'), [Set(r, B('^', B('*', r, 3), a))]), ret])
    fn('for empty cond', PN, [D('r'), D('i', lim), For(Set(r, L(1)), None, Inc(r), [If(B('>', r, i), [Break()])]), Ret(B('+', r, a))])
    fn('while', PN, [D('r'), D('i', lim), While(i, [Set(r, B('+', a, i), '^'), Inc(i, '--')]), ret])
    fn('while break', PN, [D('r'), D('i', lim), While(L(1), [If(B('==', i, 0), [Break()]), Set(r, B('-', a, r)), Inc(i, '--')]), ret])
    fn('while continue', PN, [D('r'), D('i', lim), While(B('>', i, 0), [Inc(i, '--'), If(B('&', i, 1), [Continue()]), Set(r, B('+', a, i), '+')]), ret])
    fn('for continue', PN, [D('r'), For(D('i'), B('<', i, lim), Inc(i), [If(B('==', i, 1), [Continue()]), Set(r, B('+', a, i), '+')]), ret])
    fn('for break', PN, [D('r'), D('i'), For(Set(i, L(0)), B('<', i, lim), Inc(i), [If(B('<', B('+', a, i), 0), [Break()]), Set(r, a, '+')]), Ret(B('+', B('*', r, 4), i))])
    fn('do', PN, [D('r'), D('i', lim), Do([Set(r, B('+', a, i), '+'), Inc(i, '--')], B('>=', i, 0)), ret])
    fn('do continue', PN, [D('r'), D('i', lim), Do([If(B('==', i, 2), [Set(i, L(0)), Continue()]), Set(r, B('+', a, i), '+'), Inc(i, '--')], B('>', i, 0)), Ret(B('+', r, i))])
    fn('do break', PN, [D('r'), D('i', lim), Do([If(B('==', i, 2), [Break()]), Set(r, B('+', a, i), '+'), Inc(i)], B('<', i, 4)), Ret(B('+', r, i))])
    fn('do once', PN, [D('r'), Do([Set(r, a, '+'), If(B('>', a, 3), [Break()]), Set(r, L(1), '+')], L(0)), ret])
    fn('nested for', PN, [D('r'), For(D('i'), B('<', i, lim), Inc(i), [For(D('j'), B('<', j, i), Inc(j), [Set(r, B('+', B('*', r, 2), B('^', a, j)))])]), ret])
    fn('nested break', PN, [D('r'), For(D('i'), B('<', i, lim), Inc(i), [For(D('j'), B('<', j, 3), Inc(j), [If(B('==', j, i), [Break()]), Set(r, B('+', B('*', r, 2), a))]), Set(r, i, '-')]), ret])
    fn('nested continue', PN, [D('r'), For(D('i'), B('<', i, lim), Inc(i), [D('j', i), While(B('<', j, 3), [Inc(j), If(B('==', j, 2), [Continue()]), Set(r, a, '+')]), If(B('==', i, 1), [Continue()]), Set(r, L(7), '^')]), ret])
    fn('loop switch', PN, [D('r'), For(D('i'), B('<', i, lim), Inc(i), [Switch(i, [(L(0), [Set(r, L(1), '+'), Break()]), (L(1), [Continue()]), (None, [Set(r, a, '^')])]), Set(r, L(10), '+')]), ret])
    fn('post test', PN, [D('r'), D('i', lim), Raw('while (i--) r = r * 2 + a;', [While(B('!=', i, 0), [Inc(i, '--'), Set(r, B('+', B('*', r, 2), a))])]), ret])
    fn('pre test', PN, [D('r'), D('i', lim), Raw('while (--i >= 0) r = r * 2 + a;', [Inc(i, '--'), While(B('>=', i, 0), [Set(r, B('+', B('*', r, 2), a)), Inc(i, '--')])]), ret])
    fn('empty loop', PN, [D('i'), Raw('for (i = 0; i < (n & 3); ++i) ;', [For(Set(i, L(0)), B('<', i, lim), Inc(i), [])]), Ret(B('-', i, a))])
    fn('loop 64', [(I64, 'n'), (I64, 'a')], [D('r', L(0, I64), I64), For(D('i', L(0, I64), I64), Bin('<', V('i', I64), Bin('&', V('n', I64), L(3))), Inc(V('i', I64)), [Set(V('r', I64), Bin('*', V('a', I64), V('i', I64)), '+')]), Ret(V('r', I64))], I64)
    fn('loop uchar', [(U8, 'n'), (U8, 'a')], [D('r', L(0), U8), For(D('i', L(254), U8), Bin('!=', V('i', U8), L(1)), Inc(V('i', U8)), [Set(V('r', U8), V('a', U8), '+')]), Ret(V('r', U8))], U8)
    # goto
    fn('goto fwd', P2, [If(ab, [Goto('L1')]), Set(a, L(1), '+'), Label('L1'), Set(a, b, '^'), Ret(a)])
    fn('goto back', PN, [D('r'), D('i', lim), Label('top'), If(B('<=', i, 0), [Goto('end')]), Set(r, B('+', B('*', r, 2), a)), Inc(i, '--'), Goto('top'), Label('end'), ret])
    fn('goto out', PN, [D('r'), For(D('i'), B('<', i, 3), Inc(i), [For(D('j'), B('<', j, 2), Inc(j), [If(B('==', B('+', i, j), lim), [Goto('out')]), Set(r, a, '+')])]), Set(r, L(100), '+'), Label('out'), ret])
    fn('goto chain', P3, [If(a, [Goto('L1')]), Goto('L2'), Label('L1'), Set(b, L(1), '+'), Goto('L3'), Label('L2'), Set(b, L(2), '-'), Label('L3'), If(c, [Ret(b)]), Ret(B('-', L(0), b))])
    fn('goto dead', P2, [Goto('L1'), Set(a, L(9)), Label('L1'), Ret(B('+', a, b))])
    fn('two tops', P2, [D('r'), Label('L1'), Inc(r), If(B('<', r, B('&', a, 1)), [Goto('L1')]), Label('L2'), Inc(r), If(B('<', r, B('&', b, 3)), [Goto('L2')]), ret])
    # switch
    def cases(vals, dflt=None, at=None, fall=(), t=I32):
        out = []
        for q, v in enumerate(vals):
            out.append((L(v, t) if v.__class__ is int else v, [Set(r, L(11 * q + 5), '+' if fall else '')] + ([] if q in fall else [Break()])))
        if dflt: out.insert(len(out) if at is None else at, (None, [Set(r, L(-1))] + ([Break()] if at is not None and at not in fall else [])))
        return out
    for nm, vals in (('none', []), ('one', [4]), ('two', [4, 9]), ('three', [1, 2, 3]), ('dense', [0, 1, 2, 3, 4, 5]), ('dense off', [10, 11, 12, 13, 14]), ('negative', [-3, -2, -1, 0, 1]), ('gap', [0, 1, 3, 4, 6]), ('sparse', [1, 100, 10000, 1000000, -5]),
                     ('reverse', [5, 4, 3, 2, 1]), ('shuffled', [3, 0, 4, 1, 2]), ('edges', [-2147483647 - 1, 2147483647, 0]), ('edge dense', [2147483643, 2147483644, 2147483645, 2147483646, 2147483647]), ('min dense', [-2147483648, -2147483647, -2147483646, -2147483645, -2147483644]),
                     ('two runs', [0, 1, 2, 3, 1000, 1001, 1002, 1003]), ('eight', list(range(8)))):
        for d, at in ((False, None), (True, None), (True, 0), (True, 1)):
            if at is not None and not vals: continue
            fn('switch %s%s' % (nm, '' if not d else ' default' if at is None else ' default at %d' % at), P1, [D('r'), Switch(a, cases(vals, d, at)), ret])
        if vals: fn('switch %s fall' % nm, P1, [D('r'), Switch(a, cases(vals, True, len(vals) // 2, fall=set(range(0, len(vals), 2)))), ret])
        fn('switch %s ret' % nm, P2, [Switch(a, [(L(v), [Ret(B('+', b, q))]) for q, v in enumerate(vals)]), Ret(L(-7))])
    for t in (I8, U8, I16, U16, U32, I64, U64):
        for nm, vals in (('dense', [0, 1, 2, 3, 4]), ('off', [100, 101, 102, 103, 104]), ('two', [3, 77]), ('wide', [1, 127, 60])):
            fn('switch %s %s' % (t, nm), [(t, 'a')], [D('r'), Switch(V('a', t), cases(vals, True)), ret])
        if t.s: fn('switch %s neg' % t, [(t, 'a')], [D('r'), Switch(V('a', t), cases([-3, -2, -1, 0, 1])), ret])
    fn('switch u32 high', [(U32, 'a')], [D('r'), Switch(V('a', U32), cases([Lit('%dU' % x, U32, x) for x in (4294967290, 4294967291, 4294967292, 4294967293)], True)), ret])
    fn('switch i64 high', [(I64, 'a')], [D('r'), Switch(V('a', I64), cases([Lit('%dL' % x, I64, x) for x in (0x100000000, 0x100000001, 0x100000002, 0x100000003)], True)), ret])
    fn('switch i64 sparse', [(I64, 'a')], [D('r'), Switch(V('a', I64), cases([Lit('%dL' % x, I64, x) for x in (5, 0x100000005, -0x7000000000)], True)), ret])
    fn('switch u64 high', [(U64, 'a')], [D('r'), Switch(V('a', U64), cases([Lit('0x%xUL' % x, U64, x) for x in (1 << 63, (1 << 63) + 1, (1 << 63) + 2, (1 << 63) + 3)], True)), ret])
    for t, sfx, vs in ((U32, 'U', (5, 0x90000000, 0x7fffffff, 0x80000000, 0xffffffff, 70, 1000)), (U64, 'UL', (5, 9 << 60, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 70, 1 << 40)),
                       (I64, 'L', (5, -(7 << 60), (1 << 63) - 1, -1 << 40, -1, 70, 1 << 40)), (I32, '', (5, -0x70000000, 0x7fffffff, -40000, -1, 70, 1 << 20)),
                       (U16, '', (5, 0x9000, 0x7fff, 0x8000, 0xffff, 70, 1000)), (U8, '', (5, 0x90, 0x7f, 0x80, 0xff, 70, 100)), (I8, '', (5, -0x70, 0x7f, -4, -1, 70, 20))):
        lt = I32 if t.w < 32 else t
        for cnt in (3, 4, 5, 7):
            fn('switch %s sparse %d' % (t, cnt), [(t, 'a')], [D('r'), Switch(V('a', t), cases([Lit('%d%s' % (x, sfx) if x >= 0 else '(%d%s)' % (x, sfx), lt, x) for x in vs[:cnt]], cnt & 1)), ret])
    for t in (I32, I64, U32):
        fn('switch %s n' % t, [(t, 'a')], [D('r'), Switch(V('a', t), [(Num(1, t), [Set(r, L(3)), Break()])]), ret], lits=1)
    fn('switch expr', P2, [D('r'), Switch(B('+', a, b), cases([0, 1, 2, 3, 4], True)), ret])
    fn('switch masked', P1, [D('r'), Switch(B('&', a, 7), cases([0, 1, 2, 3, 4, 5, 6, 7])), ret])
    fn('switch nested', P2, [D('r'), Switch(a, [(L(0), [Switch(b, cases([1, 2, 3, 4, 5])), Break()]), (L(1), [Set(r, L(77)), Break()]), (None, [Switch(b, [(L(4), [Set(r, b)]), (None, [Set(r, a)])])])]), ret])
    fn('switch modify', P1, [D('r'), Switch(a, [(L(0), [Set(a, L(5), '+')]), (L(1), [Set(a, L(7), '^'), Break()]), (L(2), [Set(a, L(3), '*')]), (L(3), []), (L(4), [Set(r, a), Break()])]), Ret(B('+', B('*', r, 2), a))])
    # scopes
    fn('shadow', P2, [D('r', a), Blk([D('r', b), Set(r, L(1), '+'), Set(a, r)]), Ret(B('-', B('*', a, 3), r))])
    fn('shadow loop', PN, [D('r'), D('i', a), For(D('i'), B('<', i, lim), Inc(i), [D('a', i), Set(r, B('+', a, 1), '+')]), Ret(B('+', B('*', r, 3), B('^', i, a)))])
    fn('shadow param', P2, [Blk([D('a', b), Inc(a), Set(b, a)]), Ret(B('-', B('*', a, 3), b))])
    fn('void', P2, [If(ab, [Call(None, EXT2, [a, b]), Ret()]), Call(None, EXT2, [b, a])], None, rets=[None] * 2, protos=[EXT2])
    fn('calls order', P2, [Call(None, EXT2, [a, b]), If(B('==', a, b), [Call(None, EXT2, [L(1), L(2)])]), Call(None, EXT2, [b, a]), Ret(B('-', a, b))], rets=[None] * 3, protos=[EXT2])
    fn('loop calls', PN, [D('r'), D('k'),
        For(D('i'), B('<', i, B('&', n, 1)), Inc(i), [Call(k, EXT, [B('+', a, i)]), Set(r, k, '+')]), Call(k, EXT, [r]), Ret(B('+', k, a))], rets=[I32] * 3, protos=[EXT])
    # functions of the same file (some are expanded in place)
    inl = 'static inline int tw(int x) { return x * 2 + 1; }\nstatic inline int mx(int p, int q) { if (p > q) return p; return q; }\nstatic inline int cl(int x) { int k; for (k = 0; x > 3 && k < 2; ++k) x -= 3; return x; }\nstatic inline void st(int *p, int v) { *p = v; }\n'
    fn('inline 1', P2, [D('r'), Raw('r = tw(a) - tw(b);', [Set(r, B('-', B('+', B('*', a, 2), 1), B('+', B('*', b, 2), 1)))]), ret], pre=inl)
    fn('inline 2', P2, [D('r'), Raw('r = mx(a, b) - mx(b, 5);', [If(B('>', a, b), [Set(r, a)], [Set(r, b)]), If(B('>', b, 5), [Set(r, b, '-')], [Set(r, L(5), '-')])]), ret], pre=inl)
    fn('inline 3', P1, [D('r'), D('j'), Raw('r = cl(a) + a;', [Set(j, a), For(D('k'), Bin('&&', B('>', j, 3), B('<', k, 2)), Inc(k), [Set(j, L(3), '-')]), Set(r, B('+', j, a))]), ret], pre=inl)
    fn('inline nest', P2, [D('r'), D('k'), Raw('r = mx(tw(a), mx(b, a));', [If(B('>', b, a), [Set(k, b)], [Set(k, a)]), D('j', B('+', B('*', a, 2), 1)), If(B('>', j, k), [Set(r, j)], [Set(r, k)])]), ret], pre=inl)
    fn('inline loop', PN, [D('r'), For(D('i'), B('<', i, lim), Inc(i), [D('k'), Raw('k = mx(a, i);', [If(B('>', a, i), [Set(k, a)], [Set(k, i)])]), Set(r, k, '+')]), ret], pre=inl)
    fn('inline effect', P2, [D('r'), Raw('r = tw(a); a++; r += a;', [Set(r, B('+', B('*', a, 2), 1)), Inc(a), Set(r, a, '+')]), ret], pre=inl)
    return [t for t in ts if t is not None]

# ---- generated programs
class Gen:
    TY = [I32, I32, I32, U32, I64, U64, I8, U8, I16, U16]
    def __init__(s, seed):
        s.g = random.Random(seed); s.seed = seed
    def prog(s):
        g = s.g
        s.vars = []; s.nv = 0; s.loops = 0; s.budget = g.randint(3, 7); s.depth = 0; s.inloop = 0; s.forks = 0; s.ro = set()
        params = []
        for q in range(g.randint(2, 4)):
            t = g.choice(s.TY); nm = 'p%d' % q; params.append((t, nm)); s.vars.append(V(nm, t))
        ss = []
        for q in range(g.randint(1, 3)): ss.append(s.decl())
        ss += s.stmts(g.randint(2, 5))
        t = g.choice([I32, U32, I64, I8, U16])
        ss.append(Ret(Cast(t, s.expr(2))))
        return Prg('program %d' % s.seed, t, params, ss)
    def decl(s):
        t = s.g.choice(s.TY); nm = 'v%d' % s.nv; s.nv += 1
        d = Decl(t, nm, s.expr(2)); s.vars.append(V(nm, t)); return d
    def lit(s):
        g = s.g; t = g.choice([I32, I32, I32, I64, U32])
        v = g.choice([0, 1, 2, 3, 7, 8, 15, 100, 255, 256, 1000, 65535, 2047, 2048, 4095, 4096, -1, -2, -128, 0x7fffffff])
        if t is U32: v = abs(v)
        if v < 0: return Lit('(%d%s)' % (v, 'L' if t is I64 else ''), t, v)
        return L(v, t)
    def leaf(s):
        return s.g.choice(s.vars) if s.g.random() < .7 else s.lit()
    def expr(s, d):
        g = s.g
        if d == 0 or g.random() < .2: return s.leaf()
        q = g.random()
        if q < .55: return Bin(g.choice(['+', '-', '+', '-', '&', '|', '^']), s.expr(d - 1), s.expr(d - 1))
        if q < .62: return Bin('*', s.expr(d - 1), L(g.choice([2, 3, 4, 5, 8, 10, 16])))
        if q < .70: return Bin(g.choice(['<<', '>>']), s.expr(d - 1), L(g.choice([1, 2, 3, 4, 7])))
        if q < .80: return Un(g.choice(['-', '~', '!']), s.expr(d - 1))
        if q < .88: return Cast(g.choice(s.TY), s.expr(d - 1))
        if q < .94: return s.cond(0)
        return s.leaf()
    def cond(s, d=1):
        g = s.g
        if d and g.random() < .3: return Bin(g.choice(['&&', '||']), s.cond(d - 1), s.cond(d - 1))
        if g.random() < .15: return Un('!', s.leaf())
        return Bin(g.choice(['<', '>', '<=', '>=', '==', '!=']), s.expr(1), s.leaf())
    def target(s):
        c = [v for v in s.vars if v.s not in s.ro]
        return s.g.choice(c)
    def stmts(s, n):
        out = []
        mark = len(s.vars)
        for _ in range(n): out.append(s.stmt())
        return out
    def block(s, n):
        mark = len(s.vars)
        out = s.stmts(n)
        del s.vars[mark:]
        return out
    def stmt(s):
        g = s.g; s.budget -= 1
        q = g.random()
        if s.budget <= 0 or q < .4 or s.depth > 2: return s.simple()
        s.depth += 1
        try:
            if q < .65 and s.forks < 4:
                s.forks += 1
                c = s.cond(1)
                a = s.block(g.randint(1, 2))
                if s.inloop and g.random() < .3: a.append(g.choice([Break(), Continue()]) if s.inloop == 1 else Break())
                return If(c, a, s.block(g.randint(1, 2)) if g.random() < .5 else None)
            if q < .82 and s.loops < 2:
                s.loops += 1
                nm = 'v%d' % s.nv; s.nv += 1; i = V(nm); s.ro.add(nm)
                k = g.choice([1, 1, 3]) if s.inloop == 0 else 1
                lim = B('&', g.choice([v for v in s.vars if v.t.w >= 8]), k) if g.random() < .7 else L(2)
                inl = s.inloop; s.inloop = 1
                s.vars.append(i)
                # the bound must not change in the loop: copy it
                body = s.block(g.randint(1, 3))
                s.vars.pop()
                s.inloop = inl
                mn = 'v%d' % s.nv; s.nv += 1
                f = For(Decl(I32, nm, L(0)), B('<', i, V(mn)), Inc(i, '++', g.random() < .5), body)
                return Raw('int %s = %s; %s' % (mn, lim.s, f.s), [Decl(I32, mn, lim), f])
            if q < .95 and s.forks < 3:
                s.forks += 2
                v = g.choice(s.vars)
                vals = g.choice([[0, 1, 2, 3, 4], [1, 5], [3, 4, 5, 6, 7], [0, 2, 3, 5], [1, 60, 100]])
                vals = vals[:]; g.shuffle(vals)
                inl = s.inloop; s.inloop = 2 if inl else 2
                cs = []
                for q2 in vals: cs.append((L(q2), [s.simple()] + ([Break()] if g.random() < .7 else [])))
                if g.random() < .6: cs.insert(g.randint(0, len(cs)), (None, [s.simple()] + ([Break()] if g.random() < .7 else [])))
                s.inloop = inl
                return Switch(v, cs)
            return s.simple()
        finally: s.depth -= 1
    def simple(s):
        g = s.g; v = s.target(); q = g.random()
        if q < .5: return Set(v, s.expr(2))
        if q < .8: return Set(v, s.expr(1), g.choice(['+', '-', '^', '|', '&']))
        if q < .9: return Inc(v, g.choice(['++', '--']), g.random() < .5)
        return Set(v, L(g.choice([1, 2, 3, 5])), g.choice(['<<', '>>', '*']))

def moves(tier):
    """loops that assign several variables at a time, every variable from any other: the moves which replace phis"""
    out = []; g = random.Random(5)
    maps = [m for n in (2, 3) for m in itertools.product(range(n), repeat=n)]
    for n, k in ((4, 24), (5, 24), (6, 24), (8, 12)) if tier == 'quick' else ((4, 250), (5, 200), (6, 200), (8, 100)):
        for _ in range(k):
            m = list(range(n)); g.shuffle(m)
            if g.random() < .6:
                for _ in range(g.randint(1, 2)): m[g.randrange(n)] = g.randrange(n)
            maps.append(tuple(m))
    for m in dict.fromkeys(maps):
        n = len(m); x = [V('x%d' % q) for q in range(n)]; res = x[0]
        for q in range(1, n): res = Bin('^', B('*', res, 5), x[q])
        prm = [(I32, 'x%d' % q) for q in range(n)] + [(I32, 'k')]
        body = [Decl(I32, 't%d' % q, x[m[q]]) for q in range(n)] + [Set(x[q], V('t%d' % q)) for q in g.sample(range(n), n)]
        nm = ''.join(map(str, m))
        out.append(Prg('moves ' + nm, I32, prm, [For(Decl(I32, 'i', L(0)), B('<', V('i'), B('&', V('k'), 3)), Inc(V('i')), body), Ret(res)]))
        out.append(Prg('moves while ' + nm, I32, prm, [Decl(I32, 'i', L(2)), While(Inc(V('i'), '--', True), body) if False else For(Decl(I32, 'j', L(2)), B('>', V('j'), 0), Inc(V('j'), '--'), body + [If(B('&', V('k'), 1), [Continue()]), Set(V('k'), L(1), '>>')]), Ret(Bin('+', res, V('k')))]))
    return out

def check():
    chk = Check('C12', 'abstract interpretation of the whole compiler on functions of statements, and of the assembly it emits, compared path by path with an interpreter of C statements over the same domain',
                'every path of the emitted code returns the value, makes the calls and leaves the memory that the C standard gives the path of the program with the same conditions, for all argument values')
    jobs = []
    only = [a for a in sys.argv[1:] if not a.startswith('-')]
    mv = moves(chk.tier); hs = hand(); n = 60 if chk.tier == 'quick' else 1500
    for arch in only[:1] or ('x64', 'riscv64', 'aarch64'):
        for args in ((), ('--apply-ssa',)):
            F = Fns(arch, chk, args)
            F.add(F.sample(hs))
            if args: F.add([t for q, t in enumerate(mv) if arch == 'x64' or chk.tier != 'quick' or q % 3 == 0])
            F.add([Gen(q + 1000 * len(args) + 10000 * ('x64', 'riscv64', 'aarch64').index(arch)).prog() for q in range(n)], per=4)
            jobs += F.jobs
    chk.parallel(jobs)
    chk.minimum = 800 if not only else 0
    return chk.finish()
if __name__ == '__main__': main(check)
