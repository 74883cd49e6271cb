"""C11: expressions over variables have the value C gives them."""
from fn_common import *

def V(n, t): return Var(n, t)
ALL = INTS + [BOOL]
NUM = INTS + [BOOL, FLT, DBL]
class Assigned(X):
    """the value of the variable of type t after assigning x"""
    def __init__(s, t, x): s.t = t; s.x = x; s.s = x.s
    def subs(s): return (s.x,)
    def v(s, e): return conv(e.f, s.x.v(e), s.x.t, s.t)
    def needs(s, e, out): s.x.needs(e, out); fneed(e, s.x, s.t, out)
def plan(tier, ssa, arch='x64'):
    quick = tier == 'quick'
    ts = []
    def fn(x, params, ret, lits=0, body=None, name=None):
        sig = ', '.join('%s %s' % (t, n) for t, n in params)
        need = Assigned(ret, x)
        ts.append(T(name or '%s f(%s): %s' % (ret, sig, body or x.s), ret, params, body or 'return %s;' % x.s, need, lits, needs=[need]))
    one = Lit('1', I32, 1)
    BINOPS = ('+', '-', '*', '&', '|', '^', '/', '%', '<', '>', '<=', '>=', '==', '!=', '<<', '>>')
    # two variables
    A = (I8, U16, I32, U32, I64, U64) if quick else ALL
    B = (U8, I16, I32, U32, I64) if quick else ALL
    for op in BINOPS:
        for a in A:
            for b in B:
                x = Bin(op, V('a', a), V('b', b)); fn(x, [(a, 'a'), (b, 'b')], x.t)
    # variable and literal
    for op in BINOPS:
        for a in ((I32, U32, I64, U64) if quick else INTS):
            for b in ((I32, I64) if quick else (I8, U8, I32, U32, I64, U64)):
                if quick and ssa and b is I64: continue
                if quick and a.size == 8 and b is I32 and op in ('/', '%'): continue
                x = Bin(op, V('a', a), Num(1, b)); fn(x, [(a, 'a')], x.t, 1)
                if op in ('-', '<<', '>>', '/', '%', '<', '>=') and not (quick and b is I64):
                    x = Bin(op, Num(1, b), V('a', a)); fn(x, [(a, 'a')], x.t, 1)
    # one variable
    for a in NUM:
        for op in ('-', '~', '!', '+'):
            if a.k == 'flo' and op == '~': continue
            x = Un(op, V('a', a)); fn(x, [(a, 'a')], x.t)
        for b in NUM:
            if a is not b:
                fn(Cast(b, V('a', a)), [(a, 'a')], b)
                fn(V('a', a), [(a, 'a')], b, body='return a;')
                if a.k != 'flo' or b.k == 'flo': fn(Cast(I64, Cast(b, V('a', a))), [(a, 'a')], I64) if b.k != 'flo' else None
        fn(V('a', a), [(a, 'a')], a)
    # floating point
    for t in (FLT, DBL):
        for u in (FLT, DBL, I32, U32, I64, U64, I8) if quick else NUM:
            for op in ('+', '-', '*', '/', '<', '>', '<=', '>=', '==', '!='):
                for p, q in ((t, u), (u, t)):
                    x = Bin(op, V('a', p), V('b', q)); fn(x, [(p, 'a'), (q, 'b')], x.t)
                    if t is u: break
            x = Bin('&&', V('a', t), V('b', u)); fn(x, [(t, 'a'), (u, 'b')], I32)
        for op in ('+', '*', '<', '=='):
            x = Bin(op, V('a', t), Flo('0.1', DBL)); fn(x, [(t, 'a')], x.t)
            x = Bin(op, Flo('2.5f', FLT), V('a', t)); fn(x, [(t, 'a')], x.t)
            x = Bin(op, V('a', t), Num(1, I32)); fn(x, [(t, 'a')], x.t, 1)
    # assignments and increments of variables
    AS = ('+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>')
    for a in NUM:
        for b in ((I32, U8, I64) if quick else NUM):
            if quick and ssa and b is not I32: continue
            for op in AS:
                if (a.k == 'flo' or b.k == 'flo') and op not in '+-*/': continue
                if a.k == 'bool' and op in ('<<',): continue
                x = Assigned(a, Bin(op, V('a', a), V('b', b)))
                fn(x, [(a, 'a'), (b, 'b')], a, body='a %s= b; return a;' % op)
                if b is I32: fn(x, [(a, 'a'), (b, 'b')], a, body='return a %s= b;' % op) if op in ('+', '>>', '/') else None
        for op in ('+', '-'):
            x = Assigned(a, Bin(op, V('a', a), one))
            fn(x, [(a, 'a')], a, body='%s%sa; return a;' % (op, op)); fn(x, [(a, 'a')], a, body='a%s%s; return a;' % (op, op))
            w = usual(a, I64) if a.k != 'flo' else a
            fn(x, [(a, 'a')], w, body='return %s%sa;' % (op, op)); fn(V('a', a), [(a, 'a')], w, body='return a%s%s;' % (op, op))
            y = Bin('+', Cast(w, x), Cast(w, V('a', a))) if a.k != 'flo' else Bin('+', V('a', a), x)
            fn(y, [(a, 'a')], w, body='%s r = a%s%s; return %s;' % (w, op, op, 'r + a' if a.k == 'flo' else '(%s)a + r' % w))
    # conditions and nesting
    for a in (I32, U8, I64, DBL):
        for b in (U32, I16, FLT):
            for op in ('&&', '||'):
                x = Bin(op, V('a', a), V('b', b)); fn(x, [(a, 'a'), (b, 'b')], I32)
                fn(Un('!', x), [(a, 'a'), (b, 'b')], I32)
            x = Cond(V('c', I32), V('a', a), V('b', b)); fn(x, [(I32, 'c'), (a, 'a'), (b, 'b')], x.t)
    cmps = ('<', '>=', '==', '!=') if quick else ('<', '>', '<=', '>=', '==', '!=')
    for t in (I32, U32, I64, U8, DBL):
        for c in cmps:
            cond = Bin(c, V('a', t), V('b', t)); P = [(t, 'a'), (t, 'b'), (I32, 'x'), (I32, 'y')]
            fn(Cond(cond, V('x', I32), V('y', I32)), P, I32)
            fn(Cond(Un('!', cond), V('x', I32), V('y', I32)), P, I32)
            for d in ('<', '!='):
                e2 = Bin(d, V('x', I32), V('y', I32))
                fn(Bin('&&', cond, e2), P, I32); fn(Bin('||', cond, e2), P, I32); fn(Un('!', Bin('&&', Un('!', cond), e2)), P, I32)
            fn(Bin('+', cond, V('x', I32)), P, I32)
            fn(Bin('==', cond, Lit('0', I32, 0)), P, I32); fn(Bin('!=', cond, Lit('1', I32, 1)), P, I32)
    N = [('+', '-'), ('*', '+'), ('-', '*'), ('&', '|'), ('^', '<<'), ('>>', '&'), ('/', '+'), ('%', '-'), ('<', '+'), ('+', '<'), ('-', '>>'), ('+', '/')]
    for o1, o2 in N:
        for t, u, w in ((I32, I32, I32), (U32, I32, I64), (I16, U8, I32), (U64, I32, I8), (I64, U32, I16)):
            a, b, c = V('a', t), V('b', u), V('c', w); P = [(t, 'a'), (u, 'b'), (w, 'c')]
            x = Bin(o2, Bin(o1, a, b), c); fn(x, P, x.t)
            x = Bin(o1, a, Bin(o2, b, c)); fn(x, P, x.t)
    # constants that reach the operation through variables
    for op in BINOPS:
        for t, u in ((I32, I32), (U32, I32), (I64, I64), (U64, I64), (I8, U8), (U16, I32), (I64, U32)) if quick else [(t, u) for t in INTS for u in INTS]:
            if quick and not ssa and (t, u) not in ((I32, I32), (U64, I64)): continue
            x = Bin(op, Num(1, t), Num(2, u))
            fn(x, [], x.t, 2, body='%s x = %s; %s y = %s; return x %s y;' % (t, Num(1, t).s, u, Num(2, u).s, op))
            if quick and arch == 'aarch64' and t.w == 64 and u.w == 64 and op not in REL: continue
            if op in REL: fn(Cond(x, Lit('11', I32, 11), Lit('22', I32, 22)), [], I32, 2, body='%s x = %s; %s y = %s; if (x %s y) return 11; return 22;' % (t, Num(1, t).s, u, Num(2, u).s, op))
            x = Bin(op, Num(1, t), V('a', u)); fn(x, [(u, 'a')], x.t, 1, body='%s x = %s; return x %s a;' % (t, Num(1, t).s, op))
    for t in INTS:
        for op in ('-', '~', '!'):
            x = Un(op, Num(1, t)); fn(x, [], x.t, 1, body='%s x = %s; return %sx;' % (t, Num(1, t).s, op))
        for u in NUM:
            if t is not u: fn(Assigned(u, Num(1, t)), [], u, 1, body='%s x = %s; return x;' % (t, Num(1, t).s))
    for t in (I32, U32, I64, U64, I8):
        if quick and arch == 'aarch64' and t.w == 64: continue
        for o1 in '+-':
            for o2 in '+-':
                x = Bin(o2, Bin(o1, V('a', t), Num(1, t)), Num(2, t)); fn(x, [(t, 'a')], x.t, 2)
                x = Bin(o2, Num(1, t), Bin(o1, V('a', t), Num(2, t))); fn(x, [(t, 'a')], x.t, 2)
    for t, c in ((FLT, '16777216.0f'), (FLT, '0.1f'), (DBL, '9007199254740992.0'), (DBL, '0.1'), (DBL, '3000000000.7'), (FLT, '3000000000.0f')):
        f1 = Flo(c, t); d = Flo('1.0', DBL) if t is DBL else Flo('1.0f', FLT); k = Flo('3.0', DBL) if t is DBL else Flo('3.0f', FLT)
        for o1 in '+-*/':
            y = Bin(o1, f1, k if o1 in '*/' else d)
            for o2 in '+-*':
                fn(Bin(o2, y, f1), [], t, body='%s x = %s; %s y = x %s %s; return y %s x;' % (t, c, t, o1, y.b.s, o2))
            fn(Bin('==', y, f1), [], I32, body='%s x = %s; %s y = x %s %s; return y == x;' % (t, c, t, o1, y.b.s))
            fn(Bin('-', y, f1), [], DBL, body='%s x = %s; %s y = x %s %s; double z = y; double w = x; return z - w;' % (t, c, t, o1, y.b.s)) if t is DBL else fn(Bin('-', Cast(DBL, y), Cast(DBL, f1)), [], DBL, body='%s x = %s; %s y = x %s %s; double z = y; double w = x; return z - w;' % (t, c, t, o1, y.b.s))
        for u in (U32, I64, U64): fn(Assigned(u, f1), [], u, body='%s x = %s; return x;' % (t, c))
        fn(Assigned(FLT, f1), [], FLT, body='%s x = %s; return x;' % (t, c))
        fn(Un('-', f1), [], t, body='%s x = %s; return -x;' % (t, c)); fn(Un('!', f1), [], I32, body='%s x = %s; return !x;' % (t, c))
    # values passing through narrower variables
    for a in (I64, I32, U32) if quick else INTS:
        for b in (I8, U8, I16, U16, I32, U32, BOOL):
            x = Assigned(b, V('a', a))
            fn(Bin('+', x, Lit('1', I64, 1)), [(a, 'a')], I64, body='%s b = a; return b + 1L;' % b)
            fn(Bin('>>', Assigned(b, Bin('+', V('a', a), V('b', a))), one), [(a, 'a'), (a, 'b')], promote(b), body='%s t = a + b; return t >> 1;' % b)
            fn(Bin('<', x, V('b', I32)), [(a, 'a'), (I32, 'b')], I32, body='%s t = a; return t < b;' % b)
    return ts
def check():
    chk = Check('C11', 'abstract interpretation of the whole compiler on small functions, and of the assembly it emits under the calling convention; the returned value must be the value '
                'the C standard gives the expression, for all operand values')
    chk.minimum = 3000
    jobs = []
    only = [a for a in sys.argv[1:] if not a.startswith('--')]
    for arch in only[:1] or ('x64', 'riscv64', 'aarch64'):
        for args in ((), ('--apply-ssa',)):
            F = Fns(arch, chk, args); F.add(F.sample(plan(chk.tier, bool(args), arch))); jobs += F.jobs
    chk.parallel(jobs)
    if only: chk.minimum = 0
    return chk.finish()
main(check)
