"""Machine-independent part of the instruction-set models used to give a
meaning to emitted assembly text: values are 64-bit terms of the abstract
domain, floating-point operations are uninterpreted functions with the
identities listed here, memory is a log of stores over uninterpreted cells."""
from common import *
import re, struct
import fp
from fp import fbits, fbin, f2f, i2f, f2i, frel, fcond, d2f, f2d, int2float, ev_float
from fractions import Fraction

M64 = (1 << 64) - 1
class Reject(Exception):
    """the emitted text is not a valid instruction sequence"""

def narrow(f, a, b, w):
    """smallest k such that a and b are both sign (zero) extensions of k bits: (ks, kz)"""
    ab = tuple(f.rbit(x) for x in bits_of(f.resolve(a, w), w)); bb = tuple(f.rbit(x) for x in bits_of(f.resolve(b, w), w))
    ks = w
    while ks > 1 and ab[ks-2] is ab[ks-1] and bb[ks-2] is bb[ks-1]: ks -= 1
    kz = w
    while kz > 1 and ab[kz-1] is ZERO and bb[kz-1] is ZERO: kz -= 1
    return ab, bb, ks, kz

def ncmp(f, pred, a, b, w):
    """icmp with common extensions stripped"""
    a = f.resolve(a, w); b = f.resolve(b, w)
    if a.__class__ is int and b.__class__ is int: return f.rbit(icmp(pred, a, b, w))
    ab, bb, ks, kz = narrow(f, a, b, w)
    if kz < w and kz <= ks:
        k = kz
        if pred[0] == 's': pred = 'u' + pred[1:]
    else: k = ks
    x = mk(ab[:k]) if k else 0; y = mk(bb[:k]) if k else 0
    if pred in ('sle', 'sge', 'ule', 'uge'):
        return bnot(ncmp(f, {'sle': 'sgt', 'sge': 'slt', 'ule': 'ugt', 'uge': 'ult'}[pred], x, y, k))
    if pred in ('sgt', 'ugt'): pred, x, y = pred[0] + 'lt', y, x
    if pred == 'ult' and x.__class__ is int and x == 0: return bnot(ncmp(f, 'eq', y, 0, k))
    if pred == 'ult' and y.__class__ is int and y == 1: return ncmp(f, 'eq', x, 0, k)
    if pred in ('eq', 'ne') and y.__class__ is int and x.__class__ is BV:
        c, t = to_lin(x, k)          # a - b + c == y: a == b + y - c
        t = {a: n & ((1 << k) - 1) for a, n in t.items() if n & ((1 << k) - 1)}
        if sorted(t.values()) == [1, (1 << k) - 1]:
            p, = (a for a, n in t.items() if n == 1); q, = (a for a, n in t.items() if n != 1)
            if len(p.bits) >= k and len(q.bits) >= k: return ncmp(f, pred, mk(p.bits[:k]), add(mk(q.bits[:k]), (y - c) & ((1 << k) - 1), k), k)
    x = f.resolve(x, k); y = f.resolve(y, k)
    r = f.rbit(icmp(pred, x, y, k))
    if r.__class__ is Bit and (x.__class__ is int) != (y.__class__ is int):
        c, v = (x, y) if x.__class__ is int else (y, x)
        rs = f.range(v, k)
        if pred[0] == 's':
            c = signed(c, k); rs = [(signed(lo, k), signed(hi, k)) if (lo >> (k - 1)) == (hi >> (k - 1)) else (-(1 << (k - 1)), (1 << (k - 1)) - 1) for lo, hi in rs]
        lo = min(q for q, _ in rs); hi = max(q for _, q in rs)
        if pred in ('ult', 'slt'):
            if v is x:
                if hi < c: return 1
                if lo >= c: return 0
            else:
                if c < lo: return 1
                if c >= hi: return 0
    return r

def bneg(f, v, w):
    """negation; a value that is only a bit becomes that bit repeated"""
    v = f.resolve(v, w)
    if v.__class__ is BV and all(f.rbit(b) is ZERO for b in v.bits[1:]): return mk((f.rbit(v.bits[0]),) * w)
    return neg(v, w)
def badd(f, a, b, w):
    """addition; a repeated bit plus one is the inverse bit"""
    a = f.resolve(a, w); b = f.resolve(b, w)
    if a.__class__ is int: a, b = b, a
    if b.__class__ is int and b == 1 and a.__class__ is BV and all(x is a.bits[0] for x in a.bits): return mk((bnot(a.bits[0]),) + (0,) * (w - 1))
    return add(a, b, w)

# ---------------------------------------------------------------- floating point
FHINT = {64: [f2d(x, 64) for x in (0.0, -0.5, 0.5, 1.0, -1.0, 1.5, 100.0, -100.0, 127.0, -128.0, 255.0, 200.0, 32767.0, -32768.0, 40000.0, 65535.0, 2147483647.0,
                -2147483648.0, 3000000000.0, 4294967295.0, 1e15, -1e15, 9.2e18, -9.2e18, 1e19, 1.8e19)] + [1 << 63, 0x7ff0 << 48, 0xfff0 << 48, 0x7ff8 << 48]}
FHINT[32] = [f2d(x, 32) for x in (0.0, -0.5, 0.5, 1.0, -1.0, 1.5, 100.0, -100.0, 127.0, -128.0, 255.0, 200.0, 32767.0, -32768.0, 40000.0, 65535.0, 2147483520.0,
                -2147483648.0, 3000000000.0, 4294967040.0, 1e15, -1e15, 9.2e18, -9.2e18, 1e19, 1.8e19)] + [1 << 31, 0x7f80 << 16, 0xff80 << 16, 0x7fc0 << 16]
def IHINT(w): return [0, 1, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1, 5, (1 << w) - 7, (1 << (w - 1)) + 1, (1 << 63) | (1 << 10) | 1, (1 << 63) | (1 << 39) | 1, (1 << 62) | (1 << 38) | 1]

# ---------------------------------------------------------------- machine state
class Mach:
    """registers and memory of one path"""
    def __init__(self, facts):
        self.f = facts
        self.f0 = facts       # what was known before the first instruction
        self.r = {}           # register -> 64-bit value
        self.mem = []         # [(base key, offset, size, value)] newest last
        self.stores = []      # stores outside the stack: (addr, size, value)
        self.flags = None
        self.pc = 0
        self.out = None       # label jumped to
        self.calls = []
        self.prog = None
    def fork(self, facts):
        m = self.__class__(facts)
        m.r = dict(self.r); m.mem = list(self.mem); m.stores = list(self.stores); m.flags = self.flags; m.pc = self.pc
        m.out = self.out; m.calls = list(self.calls); m.prog = self.prog; m.f0 = self.f0
        return m
    def base(self, addr):
        addr = self.f.resolve(addr, 64)
        if addr.__class__ is int: return ('abs',), addr
        c, t = to_lin(addr, 64)
        return ('lin', tuple(sorted(((a.id, n) for a, n in t.items() if n))), ), c & M64
    def load(self, addr, n, init=None):
        """value of n bytes at addr: last store to exactly that cell, else the initial contents"""
        key, off = self.base(addr)
        by = [None] * n
        for k, o, s, v in reversed(self.mem):
            if k != key: continue
            d = (off - o) & M64
            if d == 0 and s >= n and by == [None] * n: return trunc(v, 8 * s, 8 * n)
            if d < s or ((o - off) & M64) < n:
                vb = bits_of(v, 8 * s)
                for i in range(n):
                    j = (off + i - o) & M64
                    if by[i] is None and j < s: by[i] = vb[8 * j:8 * j + 8]
                if all(x is not None for x in by): return mk(sum(by, ()))
        if any(x is not None for x in by): raise Undecided('access overlapping a store')
        return self.initial(key, off, addr, n)
    def initial(self, key, off, addr, n):
        c, t = to_lin(self.f.resolve(addr, 64), 64) if addr.__class__ is BV else (0, {})
        if self.prog is not None and len(t) == 1:
            (a, k), = t.items()
            if a.k == 'lab' and k == 1 and a.args[0] in self.prog.data:
                by = self.prog.bytes(a.args[0])
                if by is not None and 0 <= c and c + n <= len(by): return int.from_bytes(bytes(by[c:c + n]), 'little')
        return mk(atom('mem', (self.f.resolve(addr, 64), n), 8 * n).bits)
    def store(self, addr, n, v):
        key, off = self.base(addr)
        self.mem.append((key, off, n, self.f.resolve(v, 8 * n)))
        self.stores.append((self.f.resolve(addr, 64), n, self.f.resolve(v, 8 * n)))

def label_addr(name, off=0):
    a = mk(atom('lab', (name,), 64).bits)
    return add(a, off if off.__class__ is not int else off & M64, 64)

class Prog:
    """emitted text: instructions, labels, data"""
    def __init__(self, text, tokens):
        self.tokens = tokens
        self.ins = []         # (mnemonic, operand text, line)
        self.labels = {}      # label -> instruction index
        self.data = {}        # label -> [(directive, operand)]
        sect = '.text'; lab = None
        text = re.sub(r'/\*.*?\*/', '', text)
        for line in text.split('\n'):
            s = line.strip()
            if not s: continue
            m = re.match(r'^([^\s:"]+):\s*(.*)$', s)
            if m:
                if sect == '.text': self.labels[m.group(1)] = len(self.ins)
                else: lab = m.group(1); self.data[lab] = []
                s = m.group(2)
                if not s: continue
            p = s.split(None, 1)
            op = p[0]; rest = p[1].strip() if len(p) > 1 else ''
            if op in ('.text', '.data', '.bss'): sect = op; continue
            if op == '.section': sect = rest; continue
            if op in ('.align', '.p2align', '.balign', '.globl', '.local', '.type', '.weak'):
                if lab is not None and sect != '.text' and op.endswith('align'): pass
                continue
            if sect != '.text':
                if lab is None: raise Reject('data without a label: %s' % line)
                self.data[lab].append((op, rest)); continue
            self.ins.append((op, rest, s))
    def num(self, s, w=64):
        """value of a numeric operand, as a w-bit number of the text (sign-extended)"""
        s = s.strip()
        neg_ = False
        if s[:1] == '-': neg_ = True; s = s[1:]
        elif s[:1] == '+': s = s[1:]
        m = re.match(r'^(0x)?\x01(\d+)\x02$', s)
        if m:
            v, conv = self.tokens[int(m.group(2))]
            if conv in 'x' and not m.group(1): raise Reject('hexadecimal digits without 0x')
            n = len(v.bits) if v.__class__ is BV else 64
            v = sext(v, n, 64) if conv == 'd' else zext(v, n, 64)
        else:
            m = re.match(r'^(0x[0-9a-fA-F]+|\d+)$', s)
            if not m: raise Reject('not a number: %r' % s)
            v = int(s, 0) & M64
        if neg_: v = neg(v, 64) if v.__class__ is BV else (-v) & M64
        return v
    def bytes(self, lab):
        """constant contents of a data label, None when not constant"""
        out = []
        for d, x in self.data[lab]:
            n = {'.byte': 1, '.short': 2, '.hword': 2, '.half': 2, '.long': 4, '.word': 4, '.quad': 8, '.dword': 8, '.xword': 8}.get(d)
            if n is None: return None
            try: v = self.num(x)
            except Reject: return None
            if v.__class__ is not int: return None
            out += list((v & ((1 << 8 * n) - 1)).to_bytes(n, 'little'))
        return out
    def split(self, s):
        out = []; d = 0; cur = ''
        for c in s:
            if c in '([': d += 1
            if c in ')]': d -= 1
            if c == ',' and d == 0: out.append(cur.strip()); cur = ''
            else: cur += c
        if cur.strip(): out.append(cur.strip())
        return out

def inrange(f, v, lo, hi):
    """every value of v (64-bit, signed) allowed by the facts lies in [lo, hi]"""
    v = f.resolve(v, 64)
    if v.__class__ is int: return lo <= signed(v, 64) <= hi
    for a, b in f.range(v, 64):
        for x in (a, b):
            if not lo <= signed(x, 64) <= hi: return False
        if signed(a, 64) > signed(b, 64): return False
    return True

def signfit(f, v, hi):
    """records in f that the top bits of v equal its sign, when the facts bound it by -hi-1..hi"""
    v = f.resolve(v, 64)
    if v.__class__ is int or not inrange(f, v, -hi - 1, hi): return v
    k = hi.bit_length()
    for i in range(k, 63):
        b = bxor(v.bits[i], v.bits[63])
        if b.__class__ is Bit: f.assume(b, 0, True)
    return f.resolve(v, 64)

def execute(step, prog, m0, exits, budget=400):
    """run from the first instruction; step(m, ins) -> None or list of successors.
    Returns the final machine states (m.out is None when control falls off the end)."""
    done = []; todo = [m0]
    m0.prog = prog; m0.f0 = m0.f.copy()
    n = 0
    while todo:
        m = todo.pop()
        while True:
            n += 1
            if n > budget * 20: raise Undecided('emitted code does not end')
            if m.pc >= len(prog.ins): done.append(m); break
            op, rest, line = prog.ins[m.pc]
            m.pc += 1
            r = step(m, op, rest)
            if r is None: continue
            kind = r[0]
            if kind == 'fork':
                if not r[1]: break
                m = r[1][0]; todo += r[1][1:]
                continue
            if kind == 'jump':
                if not goto(m, prog, r[1]): done.append(m); break
            elif kind == 'exit': done.append(m); break
            elif kind == 'br':
                bit, lab = r[1], r[2]
                bit = m.f.rbit(bit) if bit.__class__ is Bit else bit
                if bit.__class__ is int:
                    if bit and not goto(m, prog, lab): done.append(m); break
                    continue
                f1 = m.f.copy()
                if f1.assume(bit, 1):
                    m1 = m.fork(f1)
                    if goto(m1, prog, lab): todo.append(m1)
                    else: done.append(m1)
                f0 = m.f.copy()
                if not f0.assume(bit, 0): break
                m = m.fork(f0)
    return done

def goto(m, prog, lab):
    if lab in prog.labels: m.pc = prog.labels[lab]; return True
    m.out = lab
    return False

def fixshift(f, k, kw):
    """the shift amount as int or resolved value"""
    k = f.resolve(k, kw)
    return k
def vshift(f, fn, a, k, w, kw):
    """shift of a w-bit value by a kw-bit amount"""
    k = f.resolve(k, kw)
    F = {'shl': shl, 'lshr': lshr, 'ashr': ashr}[fn]
    if k.__class__ is int: return F(a, k, w)
    return F(a, zext(k, kw, w) if kw < w else trunc(k, kw, w), w)

def i2fx(f, v, w, sgn, fw):
    v = f.resolve(v, w)
    # strip redundant extensions so that equal integers give equal terms
    b = bits_of(v, w)
    b = tuple(f.rbit(x) for x in b)
    top = b[-1] if sgn else 0
    bb = b + (top,) * (66 - w)
    return i2f(mk(bb), fw)

def f2i_fork(isa, m, x, fw, dw, put, sgn=True, other=None):
    """truncation to a dw-bit (un)signed integer; values that do not fit give an unrelated result, or the value `other`"""
    t = m.f.resolve(f2i(x, fw), 66)
    lo, hi = (-(1 << (dw - 1)), (1 << (dw - 1)) - 1) if sgn else (0, (1 << dw) - 1)
    M = (1 << 66) - 1
    fits = True
    if t.__class__ is int: fits = lo <= signed(t, 66) <= hi
    else:
        for a, b in m.f.range(t, 66):
            if not (lo <= signed(a, 66) and signed(b, 66) <= hi and signed(a, 66) <= signed(b, 66)): fits = False
    if fits: put(m, trunc(t, 66, dw)); return None
    if other is not None and t.__class__ is BV:
        fin = []
        big = (1 << 66)
        inr = [(0, hi)] + ([(big + lo, big - 1)] if sgn else [])
        for k, rs in ((0, tuple(inr)), (1, ((hi + 1, big + lo - 1 if sgn else big - 1),))):
            f = m.f.copy()
            if f.restrict(t, 66, rs) is False or not f.consistent(): continue
            mm = m.fork(f); put(mm, other if k else f.resolve(trunc(t, 66, dw), dw)); fin.append(mm)
        return ('fork', fin)
    put(m, mk(atom('f2i_wide', (t, dw, sgn), dw).bits))
    return None
