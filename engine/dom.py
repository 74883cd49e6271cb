"""Abstract domain: bit-provenance vectors over linear/opaque atoms, plus facts
(known bits, bit equalities, value ranges) that refine them.

A w-bit integer is either a Python int (constant) or a BV whose bits are 0, 1
or boolean nodes over "atoms".  An atom is an input symbol, a linear
combination (mod 2^64, only low bits are ever used), or an uninterpreted
operation.  No decision procedure is involved: transfer functions are
syntactic normalisations, refinement is interval/bit propagation.
"""

ZERO = 0
ONE = 1

class Bit:
    __slots__ = ('k', 'a', 'b', 'id')
    def __repr__(self):
        if self.k == 'a': return '%r[%d]' % (self.a, self.b)
        if self.k == 'n': return '!' + repr(self.a)
        return '(%r %s %r)' % (self.a, self.k, self.b)

_bits = {}
_bcount = [0]
def _mkb(k, a, b):
    key = (k, a if k == 'a' else a.id, b if k in 'an' else b.id) if k != 'n' else ('n', a.id, 0)
    if k == 'a': key = ('a', a.id, b)
    x = _bits.get(key)
    if x is None:
        x = Bit(); x.k = k; x.a = a; x.b = b
        _bcount[0] += 1
        x.id = _bcount[0]
        _bits[key] = x
    return x

def bnot(a):
    if a is ZERO or a is ONE: return 1 - a
    if a.k == 'n': return a.a
    return _mkb('n', a, 0)

def band(a, b):
    if a is ZERO or b is ZERO: return 0
    if a is ONE: return b
    if b is ONE: return a
    if a is b: return a
    if (a.k == 'n' and a.a is b) or (b.k == 'n' and b.a is a): return 0
    if a.id > b.id: a, b = b, a
    return _mkb('&', a, b)

def bor(a, b):
    if a is ONE or b is ONE: return 1
    if a is ZERO: return b
    if b is ZERO: return a
    if a is b: return a
    return bnot(band(bnot(a), bnot(b)))

def bxor(a, b):
    if a is ZERO: return b
    if b is ZERO: return a
    if a is ONE: return bnot(b)
    if b is ONE: return bnot(a)
    if a is b: return 0
    neg = 0
    if a.k == 'n': a = a.a; neg ^= 1
    if b.k == 'n': b = b.a; neg ^= 1
    if a is b: return neg
    if a.id > b.id: a, b = b, a
    x = _mkb('^', a, b)
    return bnot(x) if neg else x

def bite(c, a, b):
    if c is ONE: return a
    if c is ZERO: return b
    if a is b: return a
    return bor(band(c, a), band(bnot(c), b))


class Atom:
    __slots__ = ('k', 'args', 'w', 'id', '_bits', 'deps')
    def __repr__(self):
        if self.k == 'sym': return self.args[0]
        if self.k == 'lin':
            c, ts = self.args
            s = '+'.join(('%r' % (a,)) if n == 1 else '%d*%r' % (n, a) for a, n in ts)
            return '(%s%+d)' % (s, c) if c else '(%s)' % s
        if self.k == 'bv': return 'bv' + repr(BVs(self.args[0]))
        return '%s%r' % (self.k, self.args)
    @property
    def bits(self):
        b = self._bits
        if b is None:
            n = self.w
            low = None
            k = 0
            if self.k == 'lin':
                c, ts = self.args
                odd = [a for a, co in ts if co & 1]
                if len(odd) == 1 and dict((a.id, co) for a, co in ts)[odd[0].id] == 1:
                    k = tz(c)
                    for a, co in ts:
                        if a is not odd[0]: k = min(k, tz(co))
                    low = odd[0].bits
                    k = min(k, len(low), n)
                elif not odd:
                    k = min([n] + [tz(co) for a, co in ts]); low = [(c >> i) & 1 for i in range(k)]
            elif self.k == 'bv':
                bs, top = self.args
                b = tuple(bs) + (top,) * (64 - len(bs))
                self._bits = b
                return b
            b = tuple((low[i] if i < k else _mkb('a', self, i)) for i in range(n))
            self._bits = b
        return b

def tz(c):
    if c == 0: return 64
    n = 0
    while not c & 1:
        c >>= 1; n += 1
    return min(n, 64)

class BVs:
    def __init__(self, b): self.b = b
    def __repr__(self): return fmt_bits(self.b)

def fmt_bits(b):
    """compact rendering, msb first"""
    out = []
    i = len(b) - 1
    while i >= 0:
        x = b[i]
        if x is ZERO or x is ONE:
            out.append(str(x)); i -= 1; continue
        if x.k == 'a':
            j = i
            while j > 0 and not isinstance(b[j-1], int) and b[j-1].k == 'a' and b[j-1].a is x.a and b[j-1].b == b[j].b - 1:
                j -= 1
            out.append(' %r[%d:%d] ' % (x.a, x.b, b[j].b) if j != i else ' %r[%d] ' % (x.a, x.b))
            i = j - 1
            continue
        out.append(' %r ' % x); i -= 1
    return '<' + ''.join(out).replace('  ', ' ').strip() + '>'

_atoms = {}
def keyof(x):
    if isinstance(x, (Atom, Bit)): return ('#', x.id, type(x).__name__)
    if isinstance(x, BV): return ('v', x.id)
    if isinstance(x, FT): return ('f', x.id)
    if isinstance(x, Ptr): return ('p', x.obj, keyof(x.off))
    if isinstance(x, tuple): return tuple(keyof(y) for y in x)
    return x
_acount = [0]
def atom(k, args, w):
    key = (k, keyof(args), w)
    a = _atoms.get(key)
    if a is None:
        a = Atom(); a.k = k; a.args = args; a.w = w; a._bits = None; a.deps = None
        _acount[0] += 1
        a.id = _acount[0]
        _atoms[key] = a
    return a

class BV:
    __slots__ = ('bits', 'id', '_dec')
    def __repr__(self): return fmt_bits(self.bits)
_bvs = {}
def mk(bits):
    """BV or int from a bit tuple"""
    for b in bits:
        if b.__class__ is Bit:
            break
    else:
        v = 0
        for i, b in enumerate(bits):
            if b: v |= 1 << i
        return v
    x = _bvs.get(bits)
    if x is None:
        x = BV(); x.bits = bits; x.id = len(_bvs); x._dec = None
        _bvs[bits] = x
    return x

_constbits = {}
def bits_of(v, w):
    if v.__class__ is int:
        k = (v, w)
        b = _constbits.get(k)
        if b is None:
            b = tuple((v >> i) & 1 for i in range(w))
            if len(_constbits) < 200000: _constbits[k] = b
        return b
    return v.bits

def sym(name, w):
    return mk(atom('sym', (name,), w).bits)

class FT:
    """floating-point term"""
    __slots__ = ('k', 'args', 'id')
    def __repr__(self): return '%s%r' % (self.k, self.args)
_fts = {}
def ft(k, *args):
    key = (k, keyof(args))
    x = _fts.get(key)
    if x is None:
        x = FT(); x.k = k; x.args = args; x.id = len(_fts)
        _fts[key] = x
    return x

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off=0):
        self.obj = obj; self.off = off
    def __repr__(self): return '&%s+%r' % (self.obj, self.off)
    def __eq__(self, o):
        return o.__class__ is Ptr and self.obj == o.obj and (self.off == o.off if self.off.__class__ is int else self.off is o.off)
    def __hash__(self): return hash((self.obj, self.off if self.off.__class__ is int else id(self.off)))

class Undef:
    def __repr__(self): return 'undef'
UNDEF = Undef()

def signed(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v

# ------------------------------------------------------------ linear forms
def trim_bv(bits, w):
    """canonical (bits, top): strip repeated extension bits"""
    bits = list(bits)
    top = bits[-1]
    if top is ONE or (top is not ZERO and len(bits) == w and (len(bits) < 2 or bits[-2] is not top)):
        # not an extension: treat as zero-topped (only low w bits are ever used)
        return tuple(bits), 0
    while len(bits) > 1 and bits[-1] is top and bits[-2] is top:
        bits.pop()
    if top is ZERO:
        while bits and bits[-1] is ZERO: bits.pop()
    return tuple(bits), top

def to_lin(v, w):
    if v.__class__ is int:
        return signed(v, w), {}
    bits = v.bits
    if bits[0] is not ZERO and bits[0] is not ONE:
        # fast path: atom prefix
        d = decomp(v)
        if d is not None and d[1] == w:
            A = d[0]
            if A.k == 'lin':
                return A.args[0], dict(A.args[1])
            return 0, {A: 1}
        # negated atom: ~x = -x-1
        if bits[0].k == 'n' and all(b.__class__ is Bit and b.k == 'n' for b in bits):
            c, ts = to_lin(mk(tuple(b.a for b in bits)), w)
            return -c - 1, {a: -n for a, n in ts.items()}
    # the tail of a linear atom over known low bits (alignment)
    top = bits[-1]
    if top.__class__ is Bit and top.k == 'a' and top.b < w and top.a.k == 'lin' and (bits[0] is ZERO or bits[0] is ONE):
        h = w - 1 - top.b; ab = top.a.bits; k = 0; d = 0
        while k < w and bits[k].__class__ is not Bit and (k < h or ab[k - h].__class__ is not Bit):
            d += (bits[k] - (ab[k - h] if k >= h else 0)) << k; k += 1
        if k >= h and bits[k:] == ab[k - h:w - h]: return (top.a.args[0] << h) + d, {a: n << h for a, n in top.a.args[1]}
    # shifted
    k = 0
    while k < w and bits[k] is ZERO: k += 1
    if 0 < k < w:
        hi = mk(bits[k:])
        if hi.__class__ is int:
            return signed(hi << k, w), {}
        d = decomp(hi)
        if d is not None and d[1] == w - k:
            A = d[0]
            if A.k == 'lin':
                return A.args[0] << k, {a: n << k for a, n in A.args[1]}
            return 0, {A: 1 << k}
    # constant ones split off
    c = 0
    rest = list(bits)
    if any(b is ONE for b in bits):
        for i, b in enumerate(rest):
            if b is ONE:
                c |= 1 << i
                rest[i] = 0
        c2, ts = to_lin(mk(tuple(rest)), w)
        return signed(c + c2, w), ts
    if k:
        A = bv_atom(bits[k:], w - k)
        return 0, {A: 1 << k}
    return 0, {bv_atom(bits, w): 1}

def bv_atom(bits, w):
    return atom('bv', trim_bv(bits, w), 64)

def from_lin(c, ts, w):
    ts = {a: signed(n, w) for a, n in ts.items()}
    ts = {a: n for a, n in ts.items() if n != 0}
    c = signed(c, w)
    if not ts: return c & ((1 << w) - 1)
    t = tz(c)
    for n in ts.values(): t = min(t, tz(n))
    if t >= w: return 0
    if t:
        ts = {a: n >> t for a, n in ts.items()}
        c >>= t
    if len(ts) == 1 and c == 0:
        (a, n), = ts.items()
        if n == 1:
            b = a.bits[:w - t]
            if len(b) < w - t:
                b = b + (0,) * (w - t - len(b))
            return mk((0,) * t + b)
    if len(ts) == 1 and c == -1:
        (a, n), = ts.items()
        if n == -1 and a.k == 'bv' :
            b = a.bits[:w - t]
            return mk((0,) * t + tuple(bnot(x) for x in b))
    L = atom('lin', (c, tuple(sorted(ts.items(), key=lambda x: x[0].id))), 64)
    return mk((0,) * t + L.bits[:w - t])

def decomp(v):
    """v == ext(atom prefix): (Atom, nbits, ext) with ext '' | 'z' | 's' or None"""
    d = v._dec
    if d is not None:
        return d if d is not ZERO else None
    bits = v.bits
    w = len(bits)
    n = w
    top = bits[-1]
    ext = ''
    if top is ZERO:
        while n and bits[n-1] is ZERO: n -= 1
        ext = 'z'
    elif top.__class__ is Bit and w > 1 and bits[-2] is top:
        while n > 1 and bits[n-2] is top: n -= 1
        ext = 's'
    r = 0
    if n > 0:
        b = bits[n-1]
        if b.__class__ is Bit and b.k == 'a':
            A = b.a
            if b.b == n - 1 and A.bits[:n] == bits[:n]:
                r = (A, n, ext)
    v._dec = r
    return r if r is not ZERO else None

# ------------------------------------------------------------ arithmetic
def add(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return (a + b) & ((1 << w) - 1)
    if a == 0 and a.__class__ is int: return b
    if b == 0 and b.__class__ is int: return a
    ab = bits_of(a, w); bb = bits_of(b, w)
    if all(x is ZERO or y is ZERO for x, y in zip(ab, bb)):
        return mk(tuple(y if x is ZERO else x for x, y in zip(ab, bb)))
    c1, t1 = to_lin(a, w); c2, t2 = to_lin(b, w)
    t = dict(t1)
    for k, n in t2.items(): t[k] = t.get(k, 0) + n
    if any(k.k == 'bv' for k in t) and len(t) > 0:
        # pass through low bits that cannot carry
        k = 0
        while k < w and (ab[k] is ZERO or bb[k] is ZERO): k += 1
        if 0 < k < w and not (len(t1) + len(t2) != len(t)):
            lo = tuple(y if x is ZERO else x for x, y in zip(ab[:k], bb[:k]))
            hi = add(mk(ab[k:]), mk(bb[k:]), w - k)
            return mk(lo + bits_of(hi, w - k))
    return from_lin(c1 + c2, t, w)

def neg(a, w):
    if a.__class__ is int: return (-a) & ((1 << w) - 1)
    c, t = to_lin(a, w)
    return from_lin(-c, {k: -n for k, n in t.items()}, w)

def sub(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return (a - b) & ((1 << w) - 1)
    if b.__class__ is int and b == 0: return a
    if a is b: return 0
    c1, t1 = to_lin(a, w); c2, t2 = to_lin(b, w)
    t = dict(t1)
    for k, n in t2.items(): t[k] = t.get(k, 0) - n
    return from_lin(c1 - c2, t, w)

def atomize(v, w):
    """single atom whose low w bits are v"""
    c, t = to_lin(v, w)
    if len(t) == 1 and c == 0:
        (a, n), = t.items()
        if n == 1: return a
    if not t: return c
    return atom('lin', (c, tuple(sorted(t.items(), key=lambda x: x[0].id))), 64)

def mul(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return (a * b) & ((1 << w) - 1)
    if a.__class__ is int: a, b = b, a
    if b.__class__ is int:
        c, t = to_lin(a, w)
        s = signed(b, w)
        if s > 0 and s & (s - 1) == 0:
            return shl(a, s.bit_length() - 1, w)
        return from_lin(c * s, {k: n * s for k, n in t.items()}, w)
    x = atomize(a, w); y = atomize(b, w)
    if x.id > y.id: x, y = y, x
    return mk(atom('mul', (x, y), 64).bits[:w])

def _opq(k, a, b, w):
    return mk(atom(k, (a, b, w), w).bits)

def udiv(a, b, w):
    if a.__class__ is int and b.__class__ is int and b: return a // b
    if b.__class__ is int and b and b & (b - 1) == 0: return lshr(a, b.bit_length() - 1, w)
    return _opq('udiv', a, b, w)
def urem(a, b, w):
    if a.__class__ is int and b.__class__ is int and b: return a % b
    if b.__class__ is int and b and b & (b - 1) == 0: return and_(a, b - 1, w)
    return _opq('urem', a, b, w)
def sdiv(a, b, w):
    if a.__class__ is int and b.__class__ is int and b:
        x = signed(a, w); y = signed(b, w)
        q = abs(x) // abs(y)
        return (-q if (x < 0) != (y < 0) else q) & ((1 << w) - 1)
    if b.__class__ is int and b == 1: return a
    return _opq('sdiv', a, b, w)
def srem(a, b, w):
    if a.__class__ is int and b.__class__ is int and b:
        x = signed(a, w); y = signed(b, w)
        q = abs(x) % abs(y)
        return (-q if x < 0 else q) & ((1 << w) - 1)
    return _opq('srem', a, b, w)

def and_(a, b, w):
    if a.__class__ is int and b.__class__ is int: return a & b
    return mk(tuple(map(band, bits_of(a, w), bits_of(b, w))))
def or_(a, b, w):
    if a.__class__ is int and b.__class__ is int: return a | b
    return mk(tuple(map(bor, bits_of(a, w), bits_of(b, w))))
def xor_(a, b, w):
    if a.__class__ is int and b.__class__ is int: return a ^ b
    return mk(tuple(map(bxor, bits_of(a, w), bits_of(b, w))))
def not_(a, w):
    return xor_(a, (1 << w) - 1, w)
def shl(a, n, w):
    if n.__class__ is int:
        if n >= w: return 0
        if a.__class__ is int: return (a << n) & ((1 << w) - 1)
        return mk((0,) * n + a.bits[:w - n])
    if n.__class__ is BV:
        dn = decomp(n)
        return _opq('shl', a, n, w)
    return _opq('shl', a, n, w)
def lshr(a, n, w):
    if n.__class__ is int:
        if n >= w: return 0
        if a.__class__ is int: return a >> n
        return mk(a.bits[n:] + (0,) * n)
    return _opq('lshr', a, n, w)
def ashr(a, n, w):
    if n.__class__ is int:
        n = min(n, w - 1)
        if a.__class__ is int: return (signed(a, w) >> n) & ((1 << w) - 1)
        return mk(a.bits[n:] + (a.bits[-1],) * n)
    return _opq('ashr', a, n, w)
def trunc(a, w, w2):
    if a.__class__ is int: return a & ((1 << w2) - 1)
    return mk(a.bits[:w2])
def zext(a, w, w2):
    if a.__class__ is int: return a
    return mk(a.bits + (0,) * (w2 - w))
def sext(a, w, w2):
    if a.__class__ is int: return signed(a, w) & ((1 << w2) - 1)
    return mk(a.bits + (a.bits[-1],) * (w2 - w))

def icmp(pred, a, b, w):
    """returns 0/1 or Bit"""
    if pred == 'ne': return bnot(icmp('eq', a, b, w))
    if pred == 'ugt': return icmp('ult', b, a, w)
    if pred == 'uge': return bnot(icmp('ult', a, b, w))
    if pred == 'ule': return bnot(icmp('ult', b, a, w))
    if pred == 'sgt': return icmp('slt', b, a, w)
    if pred == 'sge': return bnot(icmp('slt', a, b, w))
    if pred == 'sle': return bnot(icmp('slt', b, a, w))
    if a.__class__ is int and b.__class__ is int:
        if pred == 'eq': return int(a == b)
        if pred == 'ult': return int(a < b)
        return int(signed(a, w) < signed(b, w))
    if a is b: return 1 if pred == 'eq' else 0
    if pred == 'eq':
        if a.__class__ is int: a, b = b, a
        ab = bits_of(a, w); bb = bits_of(b, w)
        unk = []
        for x, y in zip(ab, bb):
            if x is y: continue
            if x.__class__ is int and y.__class__ is int: return 0
            z = bxor(x, y)
            if z is ONE: return 0
            if z not in unk: unk.append(z)
        if len(unk) == 0: return 1
        if len(unk) == 1: return bnot(unk[0])
        if w > 1:
            c1, t1 = to_lin(a, w)
            if b.__class__ is int:
                if c1:
                    a2 = from_lin(0, t1, w); b2 = (b - c1) & ((1 << w) - 1)
                    if a2.__class__ is int: return int(a2 == b2)
                    if a2 is not a and bits_known(a2) >= bits_known(a):
                        return icmp('eq', a2, b2, w) if to_lin(a2, w)[0] == 0 else _cmpatom('eq', a2, b2, w)
            else:
                c2, t2 = to_lin(b, w)
                t = dict(t1)
                for k, n in t2.items(): t[k] = t.get(k, 0) - n
                t = {k: signed(n, w) for k, n in t.items()}
                t = {k: n for k, n in t.items() if n}
                if not t: return int((c1 - c2) % (1 << w) == 0)
                if a.id > b.id: a, b = b, a
        return _cmpatom('eq', a, b, w)
    if pred == 'ult':
        if b.__class__ is int:
            if b == 0: return 0
            if b & (b - 1) == 0:
                k = b.bit_length() - 1
                r = 0
                hi = []
                for x in bits_of(a, w)[k:]:
                    if x is ZERO: continue
                    if x is ONE: return 0
                    if x not in hi: hi.append(x)
                if not hi: return 1
                if len(hi) == 1: return bnot(hi[0])
        elif a.__class__ is int:
            if (a & (a + 1)) == 0:
                # a = 2^k-1 < b  <=> some high bit of b set
                k = a.bit_length()
                hi = []
                for x in b.bits[k:]:
                    if x is ZERO: continue
                    if x is ONE: return 1
                    if x not in hi: hi.append(x)
                if not hi: return 0
                if len(hi) == 1: return hi[0]
        return _cmpatom('ult', a, b, w)
    # slt
    if b.__class__ is int and b == 0: return bits_of(a, w)[-1]
    if a.__class__ is int and a == (1 << w) - 1: return bnot(bits_of(b, w)[-1])
    ab = bits_of(a, w); bb = bits_of(b, w)
    if ab[-1] is ZERO and bb[-1] is ZERO: return icmp('ult', a, b, w)
    if ab[-1] is ZERO and bb[-1] is ONE: return 0
    if ab[-1] is ONE and bb[-1] is ZERO: return 1
    return _cmpatom('slt', a, b, w)

def bits_known(v):
    if v.__class__ is int: return 999
    return sum(1 for b in v.bits if b.__class__ is int)

def _cmpatom(pred, a, b, w):
    return atom('icmp', (pred, a, b, w), 1).bits[0]

# ------------------------------------------------------------ range sets
def r_full(w): return ((0, (1 << w) - 1),)
def r_inter(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0]); hi = min(a[i][1], b[j][1])
        if lo <= hi: out.append((lo, hi))
        if a[i][1] < b[j][1]: i += 1
        else: j += 1
    return tuple(out)
def r_norm(l):
    l = sorted(l)
    out = []
    for lo, hi in l:
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]: out[-1] = (out[-1][0], hi)
        else: out.append((lo, hi))
    if len(out) > 300:
        out = [(out[0][0], out[-1][1])]
    return tuple(out)
def r_union(a, b): return r_norm(list(a) + list(b))
def r_compl(a, w):
    out = []
    p = 0
    for lo, hi in a:
        if lo > p: out.append((p, lo - 1))
        p = hi + 1
    if p < (1 << w): out.append((p, (1 << w) - 1))
    return tuple(out)
def r_rot(a, c, w):
    """{x + c}"""
    M = 1 << w
    c %= M
    if c == 0: return a
    out = []
    for lo, hi in a:
        lo += c; hi += c
        if lo >= M: out.append((lo - M, hi - M))
        elif hi >= M:
            out.append((lo, M - 1)); out.append((0, hi - M))
        else: out.append((lo, hi))
    return r_norm(out)
def r_neg(a, w):
    M = 1 << w
    out = []
    for lo, hi in a:
        if lo == 0:
            out.append((0, 0))
            lo = 1
            if lo > hi: continue
        out.append((M - hi, M - lo))
    return r_norm(out)
def r_count(a): return sum(hi - lo + 1 for lo, hi in a)
def r_signed_bounds(a, w):
    """(min,max) signed"""
    H = 1 << (w - 1)
    neg_ = [(lo, hi) for lo, hi in a if hi >= H]
    pos = [(lo, hi) for lo, hi in a if lo < H]
    mx = max((min(hi, H - 1) for lo, hi in pos), default=None)
    if mx is None: mx = max(hi for lo, hi in neg_) - (1 << w)
    mn = min((max(lo, H) for lo, hi in neg_), default=None)
    if mn is None: mn = min(lo for lo, hi in pos)
    else: mn -= 1 << w
    return mn, mx
def r_from_signed(lo, hi, w):
    """signed interval -> unsigned ranges"""
    M = 1 << w
    if lo >= 0: return ((lo, hi),) if lo <= hi else ()
    if hi < 0: return ((lo + M, hi + M),) if lo <= hi else ()
    return r_norm([(0, hi), (lo + M, M - 1)])


def occurs(x, y):
    """bit x inside bit y?"""
    seen = set(); st = [y]
    n = 0
    while st:
        b = st.pop()
        if b.__class__ is int or b.id in seen: continue
        if b is x: return True
        seen.add(b.id)
        n += 1
        if n > 3000: return True
        if b.k == 'n': st.append(b.a)
        elif b.k in '&^': st.append(b.a); st.append(b.b)
        elif b.k == 'a' and b.a.k != 'sym':
            _occ_atom(b.a, st, seen)
    return False
def _occ_atom(A, st, seen):
    if ('A', A.id) in seen: return
    seen.add(('A', A.id))
    for v in A.args:
        _occ_val(v, st, seen)
def _occ_val(v, st, seen):
    c = v.__class__
    if c is Bit: st.append(v)
    elif c is BV: st.extend(v.bits)
    elif c is Atom:
        if v.k == 'sym': st.extend(v.bits)
        else: _occ_atom(v, st, seen)
    elif c is tuple:
        for y in v: _occ_val(y, st, seen)

def shiftview(v):
    """v = A[k..m-1] extended: (A, k, m, 's'|'z'|'') or None"""
    b0 = v.bits[0]
    if b0.__class__ is not Bit or b0.k != 'a' or b0.b == 0: return None
    A = b0.a; k = b0.b
    if A.k == 'icmp': return None
    bits = v.bits; n = len(bits)
    i = 1
    while i < n and bits[i].__class__ is Bit and bits[i].k == 'a' and bits[i].a is A and bits[i].b == k + i: i += 1
    m = k + i
    if i == n: return (A, k, m, '')
    if all(x is bits[i - 1] for x in bits[i:]): return (A, k, m, 's')
    if all(x is ZERO for x in bits[i:]): return (A, k, m, 'z')
    return None

class Facts:
    __slots__ = ('sub', 'rng', '_memo', '_amemo')
    def __init__(self, sub=None, rng=None):
        self.sub = sub if sub is not None else {}
        self.rng = rng if rng is not None else {}
        self._memo = {}
        self._amemo = {}
    def copy(self):
        f = Facts(dict(self.sub), dict(self.rng))
        f._memo = dict(self._memo) if len(self._memo) < 2000 else {}
        f._amemo = dict(self._amemo) if len(self._amemo) < 2000 else {}
        return f
    def _dirty(self):
        self._memo = {}; self._amemo = {}

    # -------------------------------------------------- resolution
    def rbit(self, b):
        if b.__class__ is int: return b
        m = self._memo.get(b)
        if m is not None: return m
        s = self.sub.get(b)
        if s is not None:
            r = self.rbit(s) if s is not b else b
        elif b.k == 'n': r = bnot(self.rbit(b.a))
        elif b.k == '&': r = band(self.rbit(b.a), self.rbit(b.b))
        elif b.k == '^': r = bxor(self.rbit(b.a), self.rbit(b.b))
        else:
            A2 = self.ratom(b.a)
            if A2 is b.a: r = b
            else:
                r = bits_of(A2, b.a.w)[b.b]
                if r.__class__ is Bit and r is not b:
                    s = self.sub.get(r)
                    if s is not None: r = self.rbit(s)
        self._memo[b] = r
        return r

    def ratom(self, A):
        """A itself if unaffected by facts, else the rebuilt value of width A.w"""
        k = A.k
        if k == 'sym' or not (self.sub or self.rng): return A
        m = self._amemo.get(A)
        if m is not None: return m
        self._amemo[A] = A  # cycle guard
        r = A
        if k == 'lin':
            c, ts = A.args
            ch = False
            acc = None
            vals = []
            for a, n in ts:
                v0 = mk(a.bits[:64] if len(a.bits) >= 64 else a.bits + (0,) * (64 - len(a.bits)))
                v1 = self.full(v0)
                if v1 is not v0: ch = True
                vals.append((v1, n))
            if ch:
                acc = c & ((1 << 64) - 1)
                for v, n in vals:
                    acc = add(acc, mul(v, n & ((1 << 64) - 1), 64), 64)
                r = acc
        elif k == 'mul':
            x, y = A.args
            vx = mk(x.bits); vy = mk(y.bits)
            rx = self.resolve(vx, 64); ry = self.resolve(vy, 64)
            if rx is not vx or ry is not vy: r = mul(rx, ry, 64)
        elif k in OPS:
            a, b, w = A.args
            ra = self.resolve(a, w); rb = self.resolve(b, w)
            if ra is not a or rb is not b:
                r = OPS[k](ra, rb, w)
        elif k == 'icmp':
            p, a, b, w = A.args
            if not (a.__class__ is Ptr or b.__class__ is Ptr):
                ra = self.resolve(a, w); rb = self.resolve(b, w)
                t = icmp(p, ra, rb, w) if (ra is not a or rb is not b) else None
                if t is None or t.__class__ is Bit:
                    d = self._decide(p, ra, rb, w)
                    if d is not None: t = d
                if t is not None: r = mk((t,))
        self._amemo[A] = r
        return r

    def _decide(self, p, a, b, w):
        ra = self.range(a, w); rb = self.range(b, w)
        if not ra or not rb: return None
        if p == 'eq':
            if not r_inter(ra, rb): return 0
            if r_count(ra) == 1 and ra == rb: return 1
            return None
        if p == 'ult':
            if ra[-1][1] < rb[0][0]: return 1
            if ra[0][0] >= rb[-1][1]: return 0
            return None
        la, ha = r_signed_bounds(ra, w); lb, hb = r_signed_bounds(rb, w)
        if ha < lb: return 1
        if la >= hb: return 0
        return None

    def full(self, v):
        """substitute every known bit (loses the atom view)"""
        if v.__class__ is not BV or not (self.sub or self.rng): return v
        rb = self.rbit
        nb = tuple([b if b.__class__ is int else rb(b) for b in v.bits])
        return v if nb == v.bits else mk(nb)

    def resolve(self, v, w=None):
        if v.__class__ is not BV: return v
        if not self.sub and not self.rng: return v
        rb = self.rbit
        nb = tuple([b if b.__class__ is int else rb(b) for b in v.bits])
        if nb == v.bits:
            r = v
        else:
            r = mk(nb)
            dv = decomp(v)
            dr = decomp(r) if r.__class__ is BV and dv is not None else None
            if r.__class__ is BV and dv is not None and (dr is None or (dr[0] is dv[0] and dr[1] < dv[1])):
                # keep the atom view (ranges are attached to it); the known
                # bits are still used by range() and by bit extraction
                r = v
        if r.__class__ is BV:
            # sext/zext of truncation that loses nothing
            d = decomp(r)
            if d is not None and d[2] and d[0].w >= len(r.bits):
                A, n, ext = d
                W = len(r.bits)
                full = self.rng.get((A, W))
                if full is None and W != 64: full = None
                if full:
                    if ext == 's':
                        lo, hi = r_signed_bounds(full, W)
                        if lo >= -(1 << (n - 1)) and hi < (1 << (n - 1)):
                            r = mk(A.bits[:W])
                    else:
                        if full[-1][1] < (1 << n):
                            pass
        return r

    # -------------------------------------------------- ranges
    def arange(self, A, k):
        r = self.rng.get((A, k))
        if r is None: r = r_full(k)
        for kk in (64, 32, 16, 8):
            if kk > k:
                q = self.rng.get((A, kk))
                if q is not None:
                    if q and q[-1][1] < (1 << k): r = r_inter(r, q)
                    elif q:
                        lo, hi = r_signed_bounds(q, kk)
                        if lo >= -(1 << (k - 1)) and hi < (1 << (k - 1)):
                            r = r_inter(r, r_from_signed(lo, hi, k))
        if A.k == 'lin':
            c, ts = A.args
            if len(ts) == 1:
                a, n = ts[0]
                if n in (1, -1) :
                    v = mk(a.bits[:k] if len(a.bits) >= k else a.bits + (0,) * (k - len(a.bits)))
                    if v is not None:
                        q = self.range(v, k, noatom=None)
                        if n == -1: q = r_neg(q, k)
                        r = r_inter(r, r_rot(q, c, k))
            if len(ts) > 1 or ts[0][1] not in (1, -1):
                # interval sum when it cannot wrap
                lo = hi = c
                for a, n in ts:
                    v = mk(a.bits[:k] if len(a.bits) >= k else a.bits + (0,) * (k - len(a.bits)))
                    q = self.range(v, k)
                    if not q: return ()
                    l, h = r_signed_bounds(q, k)
                    if n >= 0: lo += l * n; hi += h * n
                    else: lo += h * n; hi += l * n
                H = 1 << (k - 1)
                if lo >= -H and hi < H:
                    r = r_inter(r, r_from_signed(lo, hi, k))
        elif A.k == 'urem' and A.args[1].__class__ is int and A.args[1] > 0 and k == A.w:
            r = r_inter(r, ((0, A.args[1] - 1),))
        elif A.k == 'udiv' and A.args[1].__class__ is int and A.args[1] > 0 and k == A.w:
            q = self.range(A.args[0], k)
            if q: r = r_inter(r, ((q[0][0] // A.args[1], q[-1][1] // A.args[1]),))
        elif A.k == 'lshr' and k == A.w:
            q = self.range(A.args[0], k)
            if q: r = r_inter(r, ((0, q[-1][1]),))
        return r

    def range(self, v, w, noatom=None):
        if v.__class__ is int: return ((v, v),)
        if v.__class__ is not BV: return r_full(w)
        v = self.resolve(v, w)
        if v.__class__ is int: return ((v, v),)
        bits = tuple([b if b.__class__ is int else self.rbit(b) for b in v.bits]) if self.sub else v.bits
        top = bits[-1]
        if top.__class__ is Bit:
            res = []
            for tv in (0, 1):
                lo = hi = 0
                ok = True
                for i, b in enumerate(bits):
                    if b is top: x = tv
                    elif b.__class__ is Bit and b.k == 'n' and b.a is top: x = 1 - tv
                    elif b.__class__ is Bit and top.k == 'n' and top.a is b: x = 1 - tv
                    else: x = b
                    if x is ONE: lo |= 1 << i; hi |= 1 << i
                    elif x is not ZERO: hi |= 1 << i
                res.append((lo, hi))
            r = r_norm(res)
        else:
            lo = hi = 0
            for i, b in enumerate(bits):
                if b is ONE: lo |= 1 << i; hi |= 1 << i
                elif b is not ZERO: hi |= 1 << i
            r = ((lo, hi),)
        d = decomp(v)
        if d is not None:
            A, n, ext = d
            q = self.arange(A, n)
            if ext == 's':
                H = 1 << (n - 1)
                out = []
                for lo, hi in q:
                    if lo < H: out.append((lo, min(hi, H - 1)))
                    if hi >= H: out.append((max(lo, H) + (1 << w) - (1 << n), hi + (1 << w) - (1 << n)))
                q = r_norm(out)
            r = r_inter(r, q)
        else:
            # sum of known-lower-zero shifted atom
            k = 0
            bits = v.bits
            while bits[k] is ZERO: k += 1
            if k:
                h = mk(bits[k:])
                if h.__class__ is BV and decomp(h) is not None:
                    q = self.range(h, w - k)
                    r = r_inter(r, tuple((lo << k, hi << k) for lo, hi in q))
            kk = self.rng.get((('v', v.id), w))
            if kk is not None: r = r_inter(r, kk)
            if self.rng and len(r_norm(r)) and bits[0].__class__ is Bit and bits[0].k == 'a' and bits[0].b == 0:
                # an atom some bits of which are known
                A = bits[0].a
                kk = self.rng.get((A, w))
                if kk is not None and len(A.bits) >= w and all(b is x if b.__class__ is Bit else self.rbit(x) is b for b, x in zip(bits, A.bits)): r = r_inter(r, kk)
            sv = shiftview(v)
            if sv is not None and sv[3]:
                A, k, m, ext = sv
                q = self.arange(A, m)
                if not q: return ()
                if ext == 's':
                    lo, hi = r_signed_bounds(q, m)
                    r = r_inter(r, r_from_signed(lo >> k, hi >> k, w))
                else:
                    r = r_inter(r, ((q[0][0] >> k, q[-1][1] >> k),))
        return r

    def restrict(self, v, w, ranges):
        """assume v in ranges; False if impossible"""
        v = self.resolve(v, w)
        if v.__class__ is int:
            return any(lo <= v <= hi for lo, hi in ranges)
        cur = self.range(v, w)
        new = r_inter(cur, ranges)
        if not new: return False
        if new == cur: return True
        if r_count(new) == 1:
            return self._eqconst(v, new[0][0], w)
        d = decomp(v)
        if d is not None:
            A, n, ext = d
            q = new
            if ext == 'z' : pass
            elif ext == 's':
                H = 1 << (n - 1)
                out = []
                for lo, hi in new:
                    if lo < (1 << (w - 1)): out.append((lo, min(hi, H - 1)))
                    if hi >= (1 << (w - 1)):
                        lo2 = max(lo, (1 << w) - H)
                        out.append((lo2 & ((1 << n) - 1), hi & ((1 << n) - 1)))
                q = r_norm(out)
            if not self._rset(A, n, q): return False
        else:
            self.rng[(('v', v.id), w)] = new
            self._dirty()
            sv = shiftview(v)
            if sv is not None and sv[3]:
                A, k, m, ext = sv
                if ext == 's':
                    lo, hi = r_signed_bounds(new, w)
                    q = r_from_signed(lo << k, (hi << k) | ((1 << k) - 1), m)
                else:
                    q = ((new[0][0] << k, (new[-1][1] << k) | ((1 << k) - 1)),)
                if not self.restrict(mk(A.bits[:m]), m, q): return False
            k = 0
            while v.bits[k] is ZERO: k += 1
            if k:
                h = mk(v.bits[k:])
                if h.__class__ is BV:
                    q = []
                    for lo, hi in new:
                        l2 = (lo + (1 << k) - 1) >> k; h2 = hi >> k
                        if l2 <= h2: q.append((l2, h2))
                    if not q or not self.restrict(h, w - k, r_norm(q)): return False
        return self._prefix(v, w, self.range(v, w))

    def _prefix(self, v, w, new):
        # common prefix bits
        if not new: return False
        v = self.resolve(v, w)
        if v.__class__ is int: return any(lo <= v <= hi for lo, hi in new)
        lo, hi = new[0][0], new[-1][1]
        x = lo ^ hi
        kb = x.bit_length()
        if kb < w:
            vb = v.bits
            for i in range(w - 1, kb - 1, -1):
                b = self.rbit(vb[i])
                if b.__class__ is Bit:
                    if not self.assume(b, (lo >> i) & 1, light=True): return False
                elif b != ((lo >> i) & 1): return False
        return True

    def _rset(self, A, n, q):
        old = self.rng.get((A, n))
        if old is not None:
            q = r_inter(old, q)
        if not q: return False
        if old == q: return True
        self.rng[(A, n)] = q
        self._dirty()
        if A.k == 'lin':
            c, ts = A.args
            if len(ts) == 1 and ts[0][1] in (1, -1):
                a, co = ts[0]
                r2 = r_rot(q, -c, n)
                if co == -1: r2 = r_neg(r2, n)
                if not self.restrict(mk(a.bits[:n] if len(a.bits) >= n else a.bits + (0,) * (n - len(a.bits))), n, r2): return False
        # propagate to a wider known-fitting view
        W = self.rng.get((A, 64))
        if W is not None and n < 64 and A.w >= 64:
            if W[-1][1] < (1 << n):
                return self._rset(A, 64, q)
            lo, hi = r_signed_bounds(W, 64)
            if lo >= -(1 << (n - 1)) and hi < (1 << (n - 1)):
                H = 1 << (n - 1)
                out = []
                for l, h in q:
                    if l < H: out.append((l, min(h, H - 1)))
                    if h >= H: out.append((max(l, H) + (1 << 64) - (1 << n), h + (1 << 64) - (1 << n)))
                return self._rset(A, 64, r_norm(out))
        return True

    def _eqconst(self, v, c, w):
        for i, b in enumerate(v.bits):
            x = (c >> i) & 1
            if b.__class__ is int:
                if b != x: return False
            elif not self.assume(b, x, light=True): return False
        d = decomp(v)
        if d is not None:
            A, n, ext = d
            cc = c & ((1 << n) - 1)
            if A.k == 'lin': 
                return self._rset(A, n, ((cc, cc),))
            old = self.rng.get((A, n))
            if old is not None and not any(lo <= cc <= hi for lo, hi in old): return False
            self.rng[(A, n)] = ((cc, cc),)
            self._dirty()
        return True

    # -------------------------------------------------- assumptions
    def assume(self, b, val, light=False):
        b = self.rbit(b)
        if b.__class__ is int: return b == val
        k = b.k
        if k == 'n': return self.assume(b.a, 1 - val, light)
        if k == '&':
            if val: return self.assume(b.a, 1, light) and self.assume(b.b, 1, light)
            ra = self.rbit(b.a); rb = self.rbit(b.b)
            if ra is ONE: return self.assume(rb, 0, light)
            if rb is ONE: return self.assume(ra, 0, light)
            self.sub[b] = 0; self._dirty()
            return True
        if k == '^':
            # a = b ^ val
            x, y = b.a, b.b
            if x.k == 'a' and x.a.k not in ('icmp',) and not occurs(x, y):
                self.sub[x] = bnot(y) if val else y
            elif y.k == 'a' and y.a.k not in ('icmp',) and not occurs(y, x):
                self.sub[y] = bnot(x) if val else x
            else:
                self.sub[b] = val
            self._dirty()
            return True
        A = b.a
        self.sub[b] = val
        self._dirty()
        if A.k == 'icmp':
            return self._icmp(A.args, val)
        if A.k == 'sym' and (A, A.w) in self.rng:
            v = mk(A.bits)
            r = self.range(v, A.w)
            if not r: return False
            if r != self.rng[(A, A.w)] and not self._prefix(v, A.w, r): return False
        if not light:
            # check consistency with ranges of the atom
            for n in (A.w, 64, 32, 16, 8):
                q = self.rng.get((A, n))
                if q is not None and b.b < n:
                    v = mk(A.bits[:n])
                    r = self.range(v, n)
                    if not r: return False
        return True

    def consistent(self):
        """False when a composite condition assumed earlier has become false"""
        for b, v in list(self.sub.items()):
            if b.k == '&':
                x, y = self.rbit(b.a), self.rbit(b.b)
                z = band(x, y)
                if z.__class__ is int and v.__class__ is int and z != v: return False
            elif b.k == '^':
                z = bxor(self.rbit(b.a), self.rbit(b.b))
                if z.__class__ is int and v.__class__ is int and z != v: return False
        return True

    def _icmp(self, args, val):
        p, a, b, w = args
        if a.__class__ is Ptr or b.__class__ is Ptr: return True
        a = self.resolve(a, w); b = self.resolve(b, w)
        if p == 'eq':
            if a.__class__ is int: a, b = b, a
            if a.__class__ is int: return (a == b) == bool(val)
            if b.__class__ is int:
                if val:
                    r = self.range(a, w)
                    if not any(lo <= b <= hi for lo, hi in r): return False
                    return self._eqconst(a, b, w)
                r = r_inter(self.range(a, w), r_compl(((b, b),), w))
                return self.restrict(a, w, r) if r else False
            if val:
                ra = self.range(a, w); rb = self.range(b, w)
                ri = r_inter(ra, rb)
                if not ri: return False
                for x, y in zip(bits_of(a, w), bits_of(b, w)):
                    x = self.rbit(x); y = self.rbit(y)
                    if x is y: continue
                    if x.__class__ is int and y.__class__ is int: return False
                    if x.__class__ is int:
                        if not self.assume(y, x, True): return False
                    elif y.__class__ is int:
                        if not self.assume(x, y, True): return False
                    elif x.k == 'a' and x.a.k == 'sym' and (y.k != 'a' or y.a.k != 'sym' or y.id < x.id) and not occurs(x, y):
                        self.sub[x] = y; self._dirty()
                    elif y.k == 'a' and y.a.k == 'sym' and not occurs(y, x):
                        self.sub[y] = x; self._dirty()
                    elif x.k == 'a' and x.a.k != 'icmp' and not occurs(x, y):
                        self.sub[x] = y; self._dirty()
                a2 = self.resolve(a, w)
                if ri != r_full(w) and a2.__class__ is BV:
                    return self.restrict(a2, w, ri)
            return True
        M = (1 << w) - 1
        if p == 'ult':
            if not val: # a >= b
                ra = self.range(a, w); rb = self.range(b, w)
                if not ra or not rb: return False
                if rb[0][0] > ra[-1][1]: return False
                if not self.restrict(a, w, ((rb[0][0], M),)): return False
                return self.restrict(b, w, ((0, ra[-1][1]),))
            ra = self.range(a, w); rb = self.range(b, w)
            if not ra or not rb or rb[-1][1] == 0: return False
            if not self.restrict(a, w, ((0, rb[-1][1] - 1),)): return False
            if ra[0][0] == M: return False
            return self.restrict(b, w, ((ra[0][0] + 1, M),))
        ra = self.range(a, w); rb = self.range(b, w)
        if not ra or not rb: return False
        la, ha = r_signed_bounds(ra, w); lb, hb = r_signed_bounds(rb, w)
        H = 1 << (w - 1)
        if val:
            if hb == -H or la == H - 1: return False
            return self.restrict(a, w, r_from_signed(-H, hb - 1, w)) and self.restrict(b, w, r_from_signed(la + 1, H - 1, w))
        if lb > ha: return False
        return self.restrict(a, w, r_from_signed(lb, H - 1, w)) and self.restrict(b, w, r_from_signed(-H, ha, w))

    @staticmethod
    def join(f, g):
        sub = {k: v for k, v in f.sub.items() if g.sub.get(k) is v or (v.__class__ is int and g.sub.get(k) == v)}
        rng = {}
        for k, r in f.rng.items():
            q = g.rng.get(k)
            if q is not None: rng[k] = r_union(r, q)
        return Facts(sub, rng)

OPS = {'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem, 'shl': shl, 'lshr': lshr, 'ashr': ashr}
