"""Floating point: float and double values are the terms of their bits, their
operations opaque functions evaluated when the operands are known; long double
(80 bits) values are known numbers, exact images of doubles or of integers."""
import struct, math
from fractions import Fraction
import dom, witness
from dom import *

M64 = (1 << 64) - 1
class NoFP(Exception): pass
def fbits(k, args, w):
    if all(a.__class__ is int for a in args):
        r = ev_float(CONC, atom(k, args, w))
        if r is not None: return r & ((1 << w) - 1)
    return mk(atom(k, args, w).bits)
class Conc:
    def val(self, v): return v
CONC = Conc()
def fbin(op, a, b, w):
    """op in fadd fsub fmul fdiv"""
    if op in ('fadd', 'fmul'):
        ka, kb = _k(a), _k(b)
        if ka > kb: a, b = b, a
    return fbits(op, (a, b, w), w)
def _k(v): return (0, v) if v.__class__ is int else (1, v.id)
def top_atom(v):
    if v.__class__ is BV:
        b = v.bits[0]
        if b.__class__ is Bit and b.k == 'a' and v.bits == b.a.bits: return b.a
    return None
def f2f(a, w, w2):
    A = top_atom(a) if (w, w2) == (64, 32) else None
    if A is not None:
        if A.k == 'f2f': return A.args[0]
        if A.k in ('fadd', 'fsub', 'fmul', 'fdiv'):
            # computing in double and rounding to float equals computing in float (53 >= 2 * 24 + 2)
            x, y = narrow(A.args[0]), narrow(A.args[1])
            if x is not None and y is not None: return fbin(A.k, x, y, 32)
        if A.k == 'i2f' and fits(A.args[0], 53): return i2f(A.args[0], 32)
    return fbits('f2f', (a, w, w2), w2)
def fits(v, n):
    """is the 66-bit number at most n bits wide"""
    b = bits_of(v, 66)
    return all(x is b[65] for x in b[n:])
def i2f(v66, w): return fbits('i2f', (v66, w), w)
def f2i(a, w):
    """the integer a float truncates to, as a 66-bit number (meaningful when finite and small)"""
    A = top_atom(a)
    if A is not None:
        if A.k == 'f2f' and A.args[1:] == (32, 64): return f2i(A.args[0], 32)
        if A.k == 'i2f' and fits(A.args[0], 53 if w == 64 else 24): return A.args[0]
    return fbits('f2i', (a, w), 66)
def narrow(v):
    """the float a double is the exact image of"""
    if v.__class__ is int:
        try: x = f2d(d2f(v, 64), 32)
        except (OverflowError, ValueError): return None
        return x if d2f(x, 32) == d2f(v, 64) else None
    b = v.bits[0]
    if b.__class__ is Bit and b.k == 'a' and b.a.k == 'f2f' and b.a.args[1:] == (32, 64) and v.bits == b.a.bits: return b.a.args[0]
    return None
def frel(a, b, w):
    """(r0, r1): 00 equal, 10 less, 01 greater, 11 unordered"""
    if a.__class__ is int and b.__class__ is int: return bits_of(fbits('frel', (a, b, w), 2), 2)
    if w == 64:
        x, y = narrow(a), narrow(b)
        if x is not None and y is not None: return frel(x, y, 32)
    if a is b:
        n = atom('fnan', (a, w), 1).bits[0]
        return n, n
    if _k(a) <= _k(b):
        bs = atom('frel', (a, b, w), 2).bits
        return bs[0], bs[1]
    bs = atom('frel', (b, a, w), 2).bits
    return bs[1], bs[0]
def fcond(f, cond, a, b, w):
    """C's relation on floating operands, cond in eq ne lt le gt ge"""
    a = f.resolve(a, w); b = f.resolve(b, w)
    r0, r1 = frel(a, b, w)
    r0 = f.rbit(r0); r1 = f.rbit(r1)
    n0, n1 = bnot(r0), bnot(r1)
    eq = band(n0, n1); lt = band(r0, n1); gt = band(n0, r1)
    return {'eq': eq, 'ne': bnot(eq), 'lt': lt, 'gt': gt, 'le': n1, 'ge': n0}[cond]
def fcmp(f, pred, a, b, w):
    """the bit of an LLVM comparison"""
    if pred in ('true', 'false'): return ONE if pred == 'true' else ZERO
    r0, r1 = frel(f.resolve(a, w), f.resolve(b, w), w)
    r0 = f.rbit(r0); r1 = f.rbit(r1)
    uno = band(r0, r1)
    if pred == 'uno': return uno
    if pred == 'ord': return bnot(uno)
    x = {'eq': band(bnot(r0), bnot(r1)), 'lt': band(r0, bnot(r1)), 'gt': band(bnot(r0), r1), 'le': bnot(r1), 'ge': bnot(r0), 'ne': bxor(r0, r1)}[pred[1:]]
    # ordered forms of le/ge/ne exclude unordered; the unordered forms include it
    if pred[0] == 'o': return x if pred[1:] in ('eq', 'lt', 'gt', 'ne') else band(x, bnot(uno))
    if pred[1:] in ('le', 'ge'): return x
    return bor(x, uno)

# ---- concrete evaluation of the opaque operations
def d2f(x, w): return struct.unpack('<d', struct.pack('<Q', x & M64))[0] if w == 64 else struct.unpack('<f', struct.pack('<I', x & 0xffffffff))[0]
def f2d(v, w):
    if w == 64: return struct.unpack('<Q', struct.pack('<d', v))[0]
    try: return struct.unpack('<I', struct.pack('<f', v))[0]
    except OverflowError: return 0x7f800000 if v > 0 else 0xff800000
def int2float(n, w):
    """correctly rounded, ties to even"""
    p = 53 if w == 64 else 24
    s = n < 0; m = abs(n)
    if m.bit_length() > p:
        sh = m.bit_length() - p
        q, r = m >> sh, m & ((1 << sh) - 1)
        half = 1 << (sh - 1)
        if r > half or (r == half and q & 1): q += 1
        m = q << sh
    return f2d(float(-m if s else m), w)
def fr2f(x, w):
    """a rational number correctly rounded to w bits"""
    if x.__class__ is float: return f2d(x, w)
    if x == 0: return 0
    if w == 64:
        try: return f2d(float(x), 64)
        except OverflowError: return 0x7ff0 << 48 if x > 0 else 0xfff0 << 48
    s = x < 0; m = abs(x)
    e = 0
    while m >= 2: m /= 2; e += 1
    while m < 1: m *= 2; e -= 1
    p = 23 if e >= -126 else 23 - (-126 - e)
    q = round(m * 2 ** p) if p >= 0 else round(m / 2 ** -p)     # (round() is to even)
    y = Fraction(q) * Fraction(2) ** (e - p)
    if y >= Fraction(2) ** 128: return (0xff800000 if s else 0x7f800000)
    return f2d(float(-y if s else y), 32)
def ev_float(ev, A):
    k = A.k
    if k == 'i2f': return int2float(signed(ev.val(A.args[0]), 66), A.args[1])
    if k == 'f2f':
        a, w, w2 = A.args
        return f2d(d2f(ev.val(a), w), w2)
    if k in ('fadd', 'fsub', 'fmul', 'fdiv'):
        a, b, w = A.args
        x, y = d2f(ev.val(a), w), d2f(ev.val(b), w)
        try: r = x + y if k == 'fadd' else x - y if k == 'fsub' else x * y if k == 'fmul' else x / y
        except ZeroDivisionError:
            neg = (ev.val(a) ^ ev.val(b)) >> (w - 1) & 1
            r = math.nan if x != x or x == 0 else -math.inf if neg else math.inf
        except OverflowError: return None
        if r != r: return 0x7ff8000000000000 if w == 64 else 0x7fc00000
        return f2d(r, w)
    if k == 'f2i':
        x = d2f(ev.val(A.args[0]), A.args[1])
        if x != x or abs(x) >= 2.0 ** 65: return None
        return int(x) & ((1 << 66) - 1)
    if k == 'frel':
        x = d2f(ev.val(A.args[0]), A.args[2]); y = d2f(ev.val(A.args[1]), A.args[2])
        return 3 if x != x or y != y else 0 if x == y else 1 if x < y else 2
    if k == 'fnan':
        x = d2f(ev.val(A.args[0]), A.args[1])
        return int(x != x)
    return None
witness.EVAL.update({k: ev_float for k in ('i2f', 'f2f', 'fadd', 'fsub', 'fmul', 'fdiv', 'f2i', 'frel', 'fnan')})

# ---- long double: FT('const', number), FT('ext', bits, w), FT('int', v66)
def x80(n):
    if n.__class__ is float:
        if n != n or n in (float('inf'), float('-inf')) or (n == 0 and str(n)[0] == '-'): return ft('const', repr(n))
        n = Fraction(n)
    return ft('const', str(Fraction(n)))
def num80(v):
    s = v.args[0]
    return float(s) if s in ('nan', 'inf', '-inf', '-0.0') else Fraction(s)
def round80(x):
    """nearest number with a 64-bit significand"""
    if x == 0: return x
    s = x < 0; m = abs(x); e = 0
    n, d = m.numerator, m.denominator
    e = n.bit_length() - d.bit_length()
    if Fraction(n, d) < Fraction(2) ** e: e -= 1
    q = round(m / Fraction(2) ** (e - 63))
    y = Fraction(q) * Fraction(2) ** (e - 63)
    return -y if s else y
def to80(v, w): return x80(d2f(v, w)) if v.__class__ is int else ft('ext', v, w)
def from80(f, v, w):
    if v.k == 'const': return fr2f(num80(v), w)
    if v.k == 'ext':
        a, w1 = v.args; a = f.resolve(a, w1)
        return a if w1 == w else f2f(a, w1, w)
    return i2f(f.resolve(v.args[0], 66), w)
def int80(f, v, n):
    if v.k == 'const':
        x = num80(v)
        if x.__class__ is float: raise NoFP()
        return int(x) & ((1 << n) - 1)
    if v.k == 'ext': return f.resolve(trunc(f2i(f.resolve(v.args[0], v.args[1]), v.args[1]), 66, n), n)
    return f.resolve(trunc(f.resolve(v.args[0], 66), 66, n), n)
def exact(x, w): return x.__class__ is float or Fraction(d2f(fr2f(x, w), w)) == x if not (x.__class__ is not float and abs(d2f(fr2f(x, w), w)) == float('inf')) else False
def cmp80(f, pred, a, b):
    if a.k == 'const' and b.k == 'const':
        x, y = num80(a), num80(b)
        r = 3 if x != x or y != y else 0 if x == y else 1 if x < y else 2
        lt, gt, eq, un = r == 1, r == 2, r == 0, r == 3
        if pred in ('true', 'false'): return ONE if pred == 'true' else ZERO
        if pred == 'uno': return ONE if un else ZERO
        if pred == 'ord': return ZERO if un else ONE
        c = {'eq': eq, 'lt': lt, 'gt': gt, 'le': lt or eq, 'ge': gt or eq, 'ne': lt or gt}[pred[1:]]
        return ONE if c or (un and pred[0] == 'u') else ZERO
    for w in (32, 64):
        def im(v):
            if v.k == 'ext' and v.args[1] <= w: return v.args[0] if v.args[1] == w else f2f(v.args[0], v.args[1], w)
            if v.k == 'const' and exact(num80(v), w): return fr2f(num80(v), w)
            return None
        x, y = im(a), im(b)
        if x is not None and y is not None: return fcmp(f, pred, x, y, w)
    sw = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}
    if a.k == 'const' and b.k == 'ext' and pred[1:] in sw: a, b, pred = b, a, pred[0] + sw[pred[1:]]
    if a.k == 'ext' and b.k == 'const' and pred[1:] in sw and a.args[1] == 64:
        # the bound lies between two doubles
        c = num80(b); d = d2f(fr2f(c, 64), 64)
        up, dn = (d, math.nextafter(d, -math.inf)) if Fraction(d) > c else (math.nextafter(d, math.inf), d)
        if pred[1:] in ('ge', 'gt'): return fcmp(f, pred[0] + 'ge', a.args[0], f2d(up, 64), 64)
        return fcmp(f, pred[0] + 'le', a.args[0], f2d(dn, 64), 64)
    def iv(v):
        if v.k == 'int': return v.args[0]
        if v.k == 'const':
            x = num80(v)
            if x.__class__ is not float and x.denominator == 1 and abs(x) < 2 ** 65: return int(x) & ((1 << 66) - 1)
        return None
    x, y = iv(a), iv(b)
    if x is None or y is None: raise NoFP()
    if pred in ('true', 'false', 'uno', 'ord'): return ONE if pred in ('true', 'ord') else ZERO
    p = pred[1:]
    return f.rbit(icmp(p if p in ('eq', 'ne') else 's' + p, f.resolve(x, 66), f.resolve(y, 66), 66))
def bin80(op, a, b):
    if a.k != 'const' or b.k != 'const': raise NoFP()
    x, y = num80(a), num80(b)
    if x.__class__ is float or y.__class__ is float: raise NoFP()
    if op == 'fdiv' and y == 0 or op not in ('fadd', 'fsub', 'fmul', 'fdiv'): raise NoFP()
    return ft('const', str(round80(x + y if op == 'fadd' else x - y if op == 'fsub' else x * y if op == 'fmul' else x / y)))
def neg80(f, a):
    if a.k == 'const':
        x = num80(a)
        return x80(-x if x.__class__ is float else -0.0 if x == 0 else -x)
    if a.k == 'ext': return ft('ext', xor_(a.args[0], 1 << (a.args[1] - 1), a.args[1]), a.args[1])
    raise NoFP()
def ext66(f, v, w, sgn):
    v = f.resolve(v, w)
    b = tuple(f.rbit(x) for x in bits_of(v, w))
    top = b[-1] if sgn else 0
    return mk(b + (top,) * (66 - w))
def parse80(text):
    """strtold on a complete decimal or hexadecimal number: exact value rounded to 64 bits"""
    t = text.lower()
    if t.startswith('0x'):
        m, _, e = t[2:].partition('p')
        i, _, fr = m.partition('.')
        x = Fraction(int((i + fr) or '0', 16)) / 16 ** len(fr) * Fraction(2) ** int(e or '0')
    else: x = Fraction(t)
    return ft('const', str(round80(x)))
