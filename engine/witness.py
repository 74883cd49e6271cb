"""Concretisation of abstract alarms: evaluate abstract terms at a point and
look for a point inside an abstract state.  Used only to *confirm* an alarm
(an alarm for which no point exists is never reported)."""
import random, hashlib
from dom import *
import dom

MASK = (1 << 64) - 1
EVAL = {}     # atom kind -> concrete evaluator(ev, atom) registered by a check

class Ev:
    """evaluation of terms under an assignment of the symbols"""
    def __init__(self, env):
        self.env = env       # name -> int
        self.am = {}
        self.bm = {}
        self.fm = {}
    def bit(self, b):
        if b.__class__ is int: return b
        r = self.bm.get(b)
        if r is None:
            k = b.k
            if k == 'a': r = (self.atom(b.a) >> b.b) & 1
            elif k == 'n': r = 1 - self.bit(b.a)
            elif k == '&': r = self.bit(b.a) & self.bit(b.b)
            else: r = self.bit(b.a) ^ self.bit(b.b)
            self.bm[b] = r
        return r
    def val(self, v):
        if v.__class__ is int: return v
        if v.__class__ is BV:
            r = 0
            for i, b in enumerate(v.bits):
                if self.bit(b): r |= 1 << i
            return r
        return v
    def any(self, x):
        c = x.__class__
        if c is BV: return self.val(x)
        if c is Bit: return self.bit(x)
        if c is Atom: return self.atom(x)
        if c is FT: return self.fterm(x)
        if c is Ptr: return ('ptr', x.obj, self.val(x.off))
        if c is tuple: return tuple(self.any(y) for y in x)
        return x
    def fterm(self, f):
        return (f.k,) + tuple(self.any(a) for a in f.args)
    def atom(self, A):
        r = self.am.get(A)
        if r is not None: return r
        k = A.k
        if k == 'sym':
            n = A.args[0]
            if n not in self.env: self.env[n] = _h(('sym', n)) & ((1 << A.w) - 1)
            r = self.env[n]
        elif k == 'lin':
            c, ts = A.args
            r = c
            for a, n in ts: r += n * self.atom(a)
            r &= MASK
        elif k == 'bv':
            bs, top = A.args
            r = 0
            for i, b in enumerate(bs):
                if self.bit(b): r |= 1 << i
            if self.bit(top): r |= MASK & ~((1 << len(bs)) - 1)
        elif k == 'mul':
            r = (self.atom(A.args[0]) if A.args[0].__class__ is Atom else A.args[0]) * \
                (self.atom(A.args[1]) if A.args[1].__class__ is Atom else A.args[1]) & MASK
        elif k in OPS:
            a, b, w = A.args
            r = conc(k, self.val(a), self.val(b), w)
        elif k == 'icmp' and not (A.args[1].__class__ is Ptr or A.args[2].__class__ is Ptr):
            p, a, b, w = A.args
            r = icmp(p, self.val(a), self.val(b), w)
        else:
            r = EVAL[k](self, A) if k in EVAL else None
            if r is None: r = _h((k, self.any(A.args))) & ((1 << A.w) - 1)
        self.am[A] = r
        return r

def _h(x):
    return int.from_bytes(hashlib.md5(repr(x).encode()).digest()[:8], 'little')

def conc(k, a, b, w):
    M = (1 << w) - 1
    if k in ('udiv', 'urem', 'sdiv', 'srem'):
        if b == 0: return _h((k, a, 0, w)) & M
        return OPS[k](a, b, w)
    if b >= w: return _h((k, a, b, w)) & M
    return OPS[k](a, b, w)

def syms_of(objs):
    """symbol atoms below the given terms"""
    out = {}
    seen = set()
    stack = list(objs)
    while stack:
        x = stack.pop()
        c = x.__class__
        if c is Atom:
            if x.id in seen: continue
            seen.add(x.id)
            if x.k == 'sym': out[x.args[0]] = x
            else: stack.append(x.args)
        elif c is Bit:
            if ('b', x.id) in seen: continue
            seen.add(('b', x.id))
            if x.k == 'a': stack.append(x.a)
            elif x.k == 'n': stack.append(x.a)
            else: stack.append(x.a); stack.append(x.b)
        elif c is BV:
            if ('v', x.id) in seen: continue
            seen.add(('v', x.id)); stack.extend(x.bits)
        elif c is FT: stack.extend(x.args)
        elif c is Ptr: stack.append(x.off)
        elif c is tuple: stack.extend(x)
    return out

_byid = {}
def bv_by_id(i):
    if i not in _byid:
        for v in dom._bvs.values(): _byid[v.id] = v
    return _byid[i]

EDGE = [0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 2047, 2048, 4095, 4096, 0x7fff, 0x8000, 0xffff, 0x10000,
        0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, (1 << 63) - 1, 1 << 63]
EDGE = EDGE + [-x for x in EDGE]

def facts_hold(f, ev):
    for b, v in f.sub.items():
        if ev.bit(b) != ev.bit(v): return False
    for (k, n), r in f.rng.items():
        if k.__class__ is tuple: x = ev.val(bv_by_id(k[1])) & ((1 << n) - 1)
        else: x = ev.atom(k) & ((1 << n) - 1)
        if not any(lo <= x <= hi for lo, hi in r): return False
    return True

def points(facts, extra=(), tries=1500, seed=1, fixed=None, hints=None):
    """yield assignments {name:int} inside the concretisation of facts"""
    rnd = random.Random(seed)
    fs = [facts.sub and tuple(facts.sub.items()) or ()]
    for (k, n), r in facts.rng.items():
        fs.append(bv_by_id(k[1]) if k.__class__ is tuple else k)
    S = syms_of(fs + list(extra))
    names = sorted(S)
    rngs = {}
    for (k, n), r in facts.rng.items():
        if k.__class__ is Atom and k.k == 'sym': rngs.setdefault(k.args[0], []).append((n, r))
    # derived edge values: the bounds of every range, shifted by small amounts
    consts = set()
    for (k, n), r in facts.rng.items():
        for lo, hi in r:
            consts.add(lo); consts.add(hi); consts.add(lo - (1 << n)); consts.add(hi - (1 << n))
    consts = sorted(consts)[:64]
    for t in range(tries):
        env = dict(fixed) if fixed else {}
        for nm in names:
            if nm in env: continue
            w = S[nm].w
            M = (1 << w) - 1
            rr = rngs.get(nm)
            if rr and rnd.random() < 0.9:
                n, r = rnd.choice(rr)
                lo, hi = rnd.choice(r)
                m = rnd.random()
                v = lo if m < .3 else hi if m < .6 else rnd.randint(lo, hi)
                if n < w:
                    m = rnd.random()
                    if m < .4: v = signed(v, n) & M
                    elif m < .6: v |= rnd.getrandbits(w - n) << n
            else:
                m = rnd.random()
                if m < .45: v = rnd.choice(EDGE)
                elif m < .7 and consts: v = rnd.choice(consts) + rnd.choice((0, 0, 1, -1, 2, -2, 8))
                else: v = rnd.getrandbits(rnd.randint(1, w))
                v &= M
            if hints and nm in hints and rnd.random() < .5: v = rnd.choice(hints[nm]) & M
            env[nm] = v
        # apply bit equalities on symbols
        for _ in range(3):
            ev = Ev(dict(env))
            ch = False
            for b, v in facts.sub.items():
                if b.k == 'a' and b.a.k == 'sym' and (not fixed or b.a.args[0] not in fixed):
                    nm = b.a.args[0]
                    x = ev.bit(v)
                    if (env.get(nm, 0) >> b.b) & 1 != x:
                        env[nm] = env.get(nm, 0) ^ (1 << b.b); ch = True
            if not ch: break
        ev = Ev(dict(env))
        if facts_hold(facts, ev):
            yield ev

def equal(facts, a, b, w):
    """structural equality under the facts: True | None"""
    if a is b: return True
    if a.__class__ is Ptr or b.__class__ is Ptr:
        return True if a == b else None
    if a.__class__ is FT or b.__class__ is FT: return True if a is b else None
    if a.__class__ is int and b.__class__ is int: return True if a == b else None
    ra = facts.resolve(a, w); rb = facts.resolve(b, w)
    if ra is rb: return True
    if ra.__class__ is int and rb.__class__ is int: return True if ra == rb else None
    ab = tuple(facts.rbit(x) for x in bits_of(ra, w)); bb = tuple(facts.rbit(x) for x in bits_of(rb, w))
    if ab == bb: return True
    d = sub(mk(ab), mk(bb), w)
    if d.__class__ is int: return True if d == 0 else None
    if d.__class__ is BV:
        d = facts.resolve(d, w)
        if d.__class__ is int and d == 0: return True
        r = facts.range(d, w)
        if r == ((0, 0),): return True
    return bool_equal(facts, ab, bb)

def leaves(b, out, lim):
    """the atom bits of a boolean combination"""
    st = [b]; seen = set()
    while st:
        x = st.pop()
        if x.__class__ is int or x in seen: continue
        seen.add(x)
        if len(seen) > 200: return False
        if x.k == 'a':
            out.add(x)
            if len(out) > lim: return False
        elif x.k == 'n': st.append(x.a)
        else: st.append(x.a); st.append(x.b)
    return True
def bool_equal(facts, ab, bb, lim=9):
    """are the bits equal for all values of their atom bits the facts allow"""
    diff = [(x, y) for x, y in zip(ab, bb) if x is not y and x != y]
    if len(set(diff)) > 4: return None
    lv = set()
    for x, y in diff:
        if not leaves(x, lv, lim) or not leaves(y, lv, lim): return None
    if not lv: return None
    cons = []
    for k, v in facts.sub.items():
        if k.k == 'a': continue
        o = set()
        if not leaves(k, o, lim) or not leaves(v, o, lim) or not (o & lv): continue
        if len(o | lv) > lim: continue
        lv |= o; cons.append((k, v))
    lv = sorted(lv, key=lambda b: b.id)
    def ev(b, env):
        if b.__class__ is int: return b
        if b.k == 'a': return env[b]
        if b.k == 'n': return 1 - ev(b.a, env)
        if b.k == '&': return ev(b.a, env) & ev(b.b, env)
        return ev(b.a, env) ^ ev(b.b, env)
    for n in range(1 << len(lv)):
        env = {b: n >> i & 1 for i, b in enumerate(lv)}
        if all(ev(x, env) == ev(y, env) for x, y in diff): continue
        if all(ev(k, env) == ev(v, env) for k, v in cons): return None
    return True
