"""The meaning of C expressions (C11 6.3, 6.4.4, 6.5), over the abstract domain.
An expression node knows its C text, its type and its value for given operands;
written from the standard, independently of the compiler."""
from sem_common import *

class Ty:
    def __init__(s, name, size, signed, rank, kind='int'):
        s.n = name; s.size = size; s.w = 8 * size; s.s = signed; s.rank = rank; s.k = kind
    def __repr__(s): return s.n
I8 = Ty('signed char', 1, True, 1); CH = Ty('char', 1, True, 1); U8 = Ty('unsigned char', 1, False, 1)
I16 = Ty('short', 2, True, 2); U16 = Ty('unsigned short', 2, False, 2)
I32 = Ty('int', 4, True, 3); U32 = Ty('unsigned', 4, False, 3)
I64 = Ty('long', 8, True, 4); U64 = Ty('unsigned long', 8, False, 4)
LL = Ty('long long', 8, True, 5); ULL = Ty('unsigned long long', 8, False, 5)
BOOL = Ty('_Bool', 4, False, 0, 'bool'); ENUM = Ty('enum E', 4, True, 3, 'enum')
FLT = Ty('float', 4, True, 10, 'flo'); DBL = Ty('double', 8, True, 11, 'flo')
INTS = [I8, U8, I16, U16, I32, U32, I64, U64]
PRE = 'enum E { EZ, EA = 5, EN = -3 };\n'
class Pt:
    k = 'ptr'; size = 8; w = 64; s = False
    def __init__(s, to): s.to = to; s.n = (to.n if not isinstance(to, str) else to) + ' *'
    def __repr__(s): return s.n

def promote(t):
    if t.k in ('bool', 'enum') or (t.k == 'int' and t.rank < 3): return I32
    return t
def usual(a, b):
    if a.k == 'flo' or b.k == 'flo':
        if a.k != 'flo': return b
        if b.k != 'flo': return a
        return a if a.rank >= b.rank else b
    a = promote(a); b = promote(b)
    if a is b: return a
    if a.s == b.s: return a if a.rank >= b.rank else b
    u, s = (b, a) if a.s else (a, b)
    if u.rank >= s.rank: return u
    if s.size > u.size: return s
    return {4: U64, 5: ULL}[s.rank]

def isz(f, v, w):
    return f.rbit(icmp('eq', f.resolve(v, w), 0, w))
def b2v(b, w): return mk((b,) + (0,) * (w - 1)) if b.__class__ is not int else b
def truth(f, v, t):
    if t.k == 'flo': return fcond(f, 'ne', v, 0, t.w)
    v = f.resolve(v, t.w)
    if v.__class__ is BV and all(x is ZERO for x in bits_of(v, t.w)[1:]): return f.rbit(bits_of(v, t.w)[0])
    return bnot(isz(f, v, t.w))
def conv(f, v, a, b):
    """conversion of the value v of type a to type b"""
    if a is b: return v
    if b.k == 'bool': return b2v(truth(f, v, a), b.w)
    v = f.resolve(v, a.w)
    if a.k == 'flo':
        if b.k == 'flo': return f2f(v, a.w, b.w) if a.w != b.w else v
        return f.resolve(trunc(f2i(v, a.w), 66, b.w), b.w)
    if b.k == 'flo': return i2fx(f, v, a.w, a.s, b.w)
    if b.w <= a.w: return trunc(v, a.w, b.w)
    return (sext if a.s else zext)(v, a.w, b.w)

class Env:
    """facts and the value of every variable; pre collects what the language requires of operands"""
    def __init__(self, f, vals): self.f = f; self.vals = vals; self.req = []
class X:
    def v(self, e): raise NotImplementedError
    def needs(self, e, out):
        """(value, width, ranges) the language requires"""
        for x in self.subs(): x.needs(e, out)
    def subs(self): return ()
class Var(X):
    def __init__(s, name, t): s.s = name; s.t = t
    def v(s, e): return e.f.resolve(e.vals[s.s], s.t.w)
def numtext(k, base=10):
    return {10: '77%04d' % k, 16: '0x77%04d' % k, 8: '07700%02o' % k, 2: bin(0x3ab00 + k).replace('0b', '0b')}[base]
class Num(X):
    """the k-th symbolic literal, written as a constant of type t through a cast"""
    def __init__(s, k, t):
        s.k = k; s.t = t
        s.s = '(%s)%sUL' % (t.n, numtext(k))
    def v(s, e): return conv(e.f, e.vals['n%d' % s.k], U64, s.t)
class DLit(X):
    """the k-th symbolic literal itself, restricted to the values for which its type is t"""
    def __init__(s, k, base, suffix, t, lo, hi):
        s.k = k; s.t = t; s.lo = lo; s.hi = hi
        s.s = numtext(k, base) + suffix
    def v(s, e): return e.f.resolve(trunc(e.vals['n%d' % s.k], 64, s.t.w), s.t.w)
    def needs(s, e, out): out.append((e.vals['n%d' % s.k], 64, ((s.lo, s.hi),)))
def literal_types(base, suffix):
    """C11 6.4.4.1p5: [(type, lo, hi)]"""
    l = suffix.lower()
    u = 'u' in l; n = l.count('l')
    c = [I32, U32, I64, U64] if n == 0 else [I64, U64] if n == 1 else [LL, ULL]
    if u: c = [t for t in c if not t.s]
    elif base == 10: c = [t for t in c if t.s]
    out = []; lo = 0
    for t in c:
        hi = (1 << (t.w - (1 if t.s else 0))) - 1
        out.append((t, lo, hi)); lo = hi + 1
    return out
class Sizeof(X):
    def __init__(s, x): s.x = x; s.t = U64; s.s = 'sizeof(%s)' % x.s
    def subs(s): return (s.x,)
    def v(s, e): return s.x.t.size
class Lit(X):
    def __init__(s, text, t, val): s.s = text; s.t = t; s.val = val
    def v(s, e): return s.val & ((1 << s.t.w) - 1)
class Flo(X):
    def __init__(s, text, t):
        s.s = text; s.t = t
        x = text.rstrip('fF') if not text.startswith('0x') else text
        s.val = fp.fr2f(Fraction(x) if not x.startswith('0x') else Fraction(float.fromhex(x)), t.w)
    def v(s, e): return s.val
def par(x): return x.s if re.match(r'^[\w.]+$', x.s) else '(%s)' % x.s
class Cast(X):
    def __init__(s, t, x): s.t = t; s.x = x; s.s = '(%s)%s' % (t.n, par(x))
    def subs(s): return (s.x,)
    def v(s, e): return conv(e.f, s.x.v(e), s.x.t, s.t)
    def needs(s, e, out):
        s.x.needs(e, out)
        fneed(e, s.x, s.t, out)
def fneed(e, x, t, out):
    if x.t.k == 'flo' and t.k != 'flo' and t.k != 'bool':
        lo, hi = (-(1 << (t.w - 1)), (1 << (t.w - 1)) - 1) if t.s else (0, (1 << t.w) - 1)
        B = 1 << 66
        xv = e.f.resolve(x.v(e), x.t.w)
        if xv.__class__ is int and (isnan(xv, x.t.w) or abs(fp.d2f(xv, x.t.w)) >= 2.0 ** 65): out.append((0, 66, ((1, 1),))); return      # undefined
        out.append((f2i(e.f.resolve(x.v(e), x.t.w), x.t.w), 66, ((0, hi), (B + lo, B - 1)) if lo < 0 else ((0, hi),)))
class Un(X):
    def __init__(s, op, x):
        s.op = op; s.x = x; s.s = op + par(x)
        s.t = I32 if op == '!' else promote(x.t)
    def subs(s): return (s.x,)
    def v(s, e):
        f = e.f; a = s.x.v(e)
        if s.op == '!': return b2v(bnot(truth(f, a, s.x.t)), 32)
        a = conv(f, a, s.x.t, s.t); w = s.t.w
        if s.op == '+': return a
        if s.op == '~': return not_(a, w)
        if s.t.k == 'flo': return xor_(a, 1 << (w - 1), w)
        return bneg(f, a, w)
REL = {'==': 'eq', '!=': 'ne', '<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge'}
ARI = {'+': add, '-': sub, '*': mul, '&': and_, '|': or_, '^': xor_}
class Bin(X):
    def __init__(s, op, a, b):
        s.op = op; s.a = a; s.b = b
        s.s = '%s %s %s' % (par(a), op, par(b))
        if op in ('<<', '>>'): s.t = promote(a.t); s.ct = s.t
        elif op in ('&&', '||'): s.t = I32; s.ct = None
        elif op == ',': s.t = b.t
        elif a.t.k == 'ptr' or b.t.k == 'ptr':
            if op in REL: s.t = I32; s.ct = U64
            elif op == '-' and b.t.k == 'ptr': s.t = I64; s.ct = I64
            else: s.t = a.t if a.t.k == 'ptr' else b.t; s.ct = s.t
        else:
            s.ct = usual(a.t, b.t)
            s.t = I32 if op in REL else s.ct
    def subs(s): return (s.a, s.b)
    def needs(s, e, out):
        s.a.needs(e, out); s.b.needs(e, out)
        if s.op in ('/', '%') and s.ct.k != 'flo':
            w = s.ct.w
            out.append((conv(e.f, s.b.v(e), s.b.t, s.ct), w, ((1, (1 << w) - 1),)))
            if s.ct.s: out.append(('ovf', conv(e.f, s.a.v(e), s.a.t, s.ct), conv(e.f, s.b.v(e), s.b.t, s.ct), w))
        if s.op in ('<<', '>>'):
            out.append((s.b.v(e), s.b.t.w, ((0, min(s.t.w - 1, (1 << (s.b.t.w - 1)) - 1)),)))
    def v(s, e):
        f = e.f; op = s.op
        if op in ('&&', '||'):
            x = truth(f, s.a.v(e), s.a.t); y = truth(f, s.b.v(e), s.b.t)
            return b2v(f.rbit((band if op == '&&' else bor)(x, y)), 32)
        if op == ',': s.a.v(e); return s.b.v(e)
        if op in ('<<', '>>'):
            a = conv(f, s.a.v(e), s.a.t, s.t); k = f.resolve(s.b.v(e), s.b.t.w); w = s.t.w
            kw = 6 if w == 64 else 5
            k = f.resolve(trunc(k, s.b.t.w, kw), kw)
            return vshift(f, 'shl' if op == '<<' else 'ashr' if s.t.s else 'lshr', a, k, w, kw)
        if s.a.t.k == 'ptr' or s.b.t.k == 'ptr':
            a = s.a.v(e); b = s.b.v(e)
            if op in REL:
                if s.a.t.k != 'ptr': a = conv(f, a, s.a.t, U64)
                if s.b.t.k != 'ptr': b = conv(f, b, s.b.t, U64)
                return b2v(ncmp(f, {'lt': 'ult', 'le': 'ule', 'gt': 'ugt', 'ge': 'uge'}.get(REL[op], REL[op]), f.resolve(a, 64), f.resolve(b, 64), 64), 32)
            sz = (s.a.t if s.a.t.k == 'ptr' else s.b.t).to.size
            if s.b.t.k == 'ptr' and op == '-': return sdiv(sub(a, b, 64), sz, 64)
            if s.a.t.k != 'ptr': a, b, at, bt = b, a, s.b.t, s.a.t
            else: at, bt = s.a.t, s.b.t
            b = mul(conv(f, b, bt, I64), sz, 64)
            return (add if op == '+' else sub)(a, b, 64)
        t = s.ct; w = t.w
        a = f.resolve(conv(f, s.a.v(e), s.a.t, t), w); b = f.resolve(conv(f, s.b.v(e), s.b.t, t), w)
        if t.k == 'flo':
            if op in REL: return b2v(fcond(f, REL[op], a, b, w), 32)
            return fbin({'+': 'fadd', '-': 'fsub', '*': 'fmul', '/': 'fdiv'}[op], a, b, w)
        if op in REL:
            c = REL[op]
            if c not in ('eq', 'ne'): c = ('s' if t.s else 'u') + c
            return b2v(ncmp(f, c, a, b, w), 32)
        if op in ARI: return ARI[op](a, b, w)
        if op == '/': return (sdiv if t.s else udiv)(a, b, w)
        if op == '%': return (srem if t.s else urem)(a, b, w)
class Cond(X):
    def __init__(s, c, a, b):
        s.c = c; s.a = a; s.b = b
        s.s = '%s ? %s : %s' % (par(c), par(a), par(b))
        s.t = usual(a.t, b.t) if a.t.k != 'ptr' else a.t
    def subs(s): return (s.c, s.a, s.b)
    def v(s, e):
        f = e.f
        c = truth(f, s.c.v(e), s.c.t)
        a = conv(f, s.a.v(e), s.a.t, s.t) if s.t.k != 'ptr' else s.a.v(e)
        b = conv(f, s.b.v(e), s.b.t, s.t) if s.t.k != 'ptr' else s.b.v(e)
        return ite(f, c, a, b, s.t.w)
def ite(f, c, a, b, w):
    c = f.rbit(c) if c.__class__ is Bit else c
    if c is ONE: return f.resolve(a, w)
    if c is ZERO: return f.resolve(b, w)
    x = bits_of(f.resolve(a, w), w); y = bits_of(f.resolve(b, w), w)
    return mk(tuple(f.rbit(bite(c, p, q)) for p, q in zip(x, y)))

def require(f, needs):
    """adds what the language requires to the facts; False when it cannot hold"""
    for n in needs:
        if n[0] == 'ovf':
            a, b, w = f.resolve(n[1], n[3]), f.resolve(n[2], n[3]), n[3]
            if a.__class__ is int and b.__class__ is int:
                if a == 1 << (w - 1) and b == (1 << w) - 1: return False
            elif b.__class__ is int:
                if b == (1 << w) - 1 and f.restrict(a, w, ((0, (1 << (w - 1)) - 1), ((1 << (w - 1)) + 1, (1 << w) - 1))) is False: return False
            elif a.__class__ is int:
                if a == 1 << (w - 1) and f.restrict(b, w, ((0, (1 << w) - 2),)) is False: return False
            continue
        v, w, rs = n
        v = f.resolve(v, w)
        if v.__class__ is int:
            if not any(lo <= v <= hi for lo, hi in rs): return False
        elif f.restrict(v, w, rs) is False: return False
        if v.__class__ is BV: fixbits(f, v, w, rs)
    return f.consistent()
def fixbits(f, v, w, rs):
    """ranges that bound the value also fix its top bits"""
    hi = max(h for _, h in rs)
    b = bits_of(v, w)
    for i in range(hi.bit_length(), w):
        if b[i].__class__ is Bit: f.assume(b[i], 0, True)

# ---- a common form for terms computed at different widths
def nf(f, v, w):
    v = f.resolve(v, w)
    if v.__class__ is int: return v
    return f.resolve(nfv(f, v, w, {}), w)
def nfv(f, v, w, memo):
    if v.__class__ is int: return v
    top = {}
    bs = bits_of(v, w)
    for b in bs: topbits(b, top, set())
    bm = {}
    return mk(tuple(nfb(f, x, bm, top, memo) for x in bs))
def topbits(b, top, seen):
    """the highest bit used of every sum or product"""
    if b.__class__ is int or b.id in seen: return
    seen.add(b.id)
    if b.k == 'a':
        if b.a.k in ('lin', 'mul') or b.a.k == 'shl' and b.a.args[2] == 64: top[b.a.id] = max(top.get(b.a.id, 0), b.b)
    elif b.k == 'n': topbits(b.a, top, seen)
    else: topbits(b.a, top, seen); topbits(b.b, top, seen)
def nfb(f, b, bm, top, memo):
    if b.__class__ is int: return b
    r = bm.get(b.id)
    if r is not None: return r
    if b.k == 'n': r = bnot(nfb(f, b.a, bm, top, memo))
    elif b.k == '&': r = band(nfb(f, b.a, bm, top, memo), nfb(f, b.b, bm, top, memo))
    elif b.k == '^': r = bxor(nfb(f, b.a, bm, top, memo), nfb(f, b.b, bm, top, memo))
    elif b.a.id in top: r = bits_of(nflin(f, b.a, top[b.a.id] + 1, memo), top[b.a.id] + 1)[b.b]
    else: r = nfatom(f, b.a, b.b, b, memo)
    if r.__class__ is Bit: r = f.rbit(r)
    bm[b.id] = r
    return r
def nflin(f, A, n, memo):
    """a sum or product modulo 2**n"""
    key = (A.k, A.id, n)
    r = memo.get(key)
    if r is not None: return r
    def term(t):
        if t.__class__ is int: return t & ((1 << n) - 1)
        if t.k in ('lin', 'mul'): return nflin(f, t, n, memo)
        b = t.bits[:n]; b = b + (0,) * (n - len(b))
        return nfv(f, f.resolve(mk(b), n), n, memo)
    if A.k == 'shl':
        x, y, w = A.args
        x = f.resolve(nfv(f, x, w, memo), w); y = f.resolve(nfv(f, y, w, memo), w)
        if y.__class__ is not int and n <= 32 and f.range(y, w)[-1][1] < 32:
            r = trunc(shl(f.resolve(trunc(x, w, 32), 32), f.resolve(trunc(y, w, 32), 32), 32), 32, n)
        else: r = trunc(nfshift(f, 'shl', x, y, w), w, n)
    elif A.k == 'mul':
        x, y = A.args
        r = mul(f.resolve(term(x), n), f.resolve(term(y), n), n)
    else:
        c, ts = A.args
        if len(ts) == 1 and c == 0:
            t, co = ts[0]
            x = term(t)
            bs = bits_of(x, n)
            if all(q is ZERO for q in bs[1:]) and co in (1, -1):     # +-(a truth value)
                r = mk((bs[0],) * n) if co == -1 else x
        if r is None:
            r = c & ((1 << n) - 1)
            for t, co in ts: r = add(r, mul(term(t), co & ((1 << n) - 1), n), n)
    r = f.resolve(r, n)
    memo[key] = r
    return r
def nfatom(f, A, i, b, memo):
    if A.k == 'icmp':
        p, x, y, w = A.args
        return ncmp(f, p, nfv(f, x, w, memo), nfv(f, y, w, memo), w)
    if A.k in ('udiv', 'urem', 'sdiv', 'srem'):
        x, y, w = A.args
        key = ('div', A.id)
        if key not in memo: memo[key] = nfdiv(f, A.k, nfv(f, x, w, memo), nfv(f, y, w, memo), w)
        v = memo[key]
        return bits_of(v, w)[i]
    if A.k in ('lshr', 'ashr', 'shl') and A.args[0].__class__ in (int, BV):
        x, y, w = A.args
        key = ('sh', A.id)
        if key not in memo:
            x = f.resolve(nfv(f, x, w, memo), w); y = f.resolve(nfv(f, y, w, memo), w)
            memo[key] = nfshift(f, A.k, x, y, w)
        return bits_of(memo[key], w)[i]
    return b
def ext_of(f, v, w):
    b = bits_of(v, w)
    ks = w
    while ks > 1 and b[ks-2] is b[ks-1]: ks -= 1
    kz = w
    while kz > 1 and b[kz-1] is ZERO: kz -= 1
    return ks, kz
def std(k):
    for n in (8, 16, 32, 64):
        if k <= n: return n
    return 64
def nfdiv(f, k, x, y, w):
    x = f.resolve(x, w); y = f.resolve(y, w)
    if y.__class__ is int and y == 1: return x if k[1:] == 'div' else 0
    if y.__class__ is int and y == (1 << w) - 1 and k[0] == 's': return neg(x, w) if k == 'sdiv' else 0
    if x.__class__ is int and y.__class__ is int: return {'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem}[k](x, y, w)
    sx, zx = ext_of(f, x, w); sy, zy = ext_of(f, y, w)
    if k[0] == 's' and zx < w and zy < w: k = 'u' + k[1:]       # both non-negative
    if k[0] == 'u':
        n = std(max(zx, zy))
        if n < w: return zext({'udiv': udiv, 'urem': urem}[k](trunc(x, w, n), trunc(y, w, n), n), n, w)
    else:
        n = std(max(sx, sy))
        # (the quotient of the most negative number by -1 does not fit n bits; the standard excludes it)
        if n < w: return sext({'sdiv': sdiv, 'srem': srem}[k](trunc(x, w, n), trunc(y, w, n), n), n, w)
    return {'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem}[k](x, y, w)
def nfshift(f, k, x, y, w):
    if y.__class__ is int: return {'shl': shl, 'lshr': lshr, 'ashr': ashr}[k](x, y, w)
    sx, zx = ext_of(f, x, w) if x.__class__ is BV else (w, w)
    if x.__class__ is int:
        s = signed(x, w); n = 8
        while not (-(1 << (n - 1)) <= s < (1 << (n - 1)) if k == 'ashr' else x < (1 << n)): n *= 2
        sx = zx = n
    kw = 5
    if k == 'ashr' and zx < w: k = 'lshr'
    if w == 64 and f.range(y, w)[-1][1] < 32:
        ty = trunc(y, w, 32)
        if k == 'ashr' and sx <= 32: return sext(ashr(trunc(x, w, 32), ty, 32), 32, w)
        if k == 'lshr' and zx <= 32: return zext(lshr(trunc(x, w, 32), ty, 32), 32, w)
    return {'shl': shl, 'lshr': lshr, 'ashr': ashr}[k](x, y, w)
class NEq(Eq):
    """equality of terms computed at possibly different widths"""
    def __init__(s, f, a, b, w, msg):
        try: a2 = nf(f, a, w); b2 = nf(f, b, w)
        except Undecided: a2, b2 = a, b
        Eq.__init__(s, f, a2, b2, w, msg)
class FEq(NEq):
    """equality of floating values: every NaN is alike"""
    def same(s, x, y): return x == y or (isnan(x, s.w) and isnan(y, s.w))
def isnan(x, w):
    if x.__class__ is not int: return False
    e, m = (0x7ff << 52, (1 << 52) - 1) if w == 64 else (0xff << 23, (1 << 23) - 1)
    return x & e == e and x & m != 0
