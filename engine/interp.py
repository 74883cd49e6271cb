"""Forward abstract interpreter over the LLVM IR of the repository's sources.

States are (environment, memory, facts); control-flow partitions are kept
apart while their stores differ and joined when they agree.  Calls are analysed
interprocedurally in context.  Anything the domain cannot represent raises
Undecided (never silently ignored).
"""
import heapq, struct
import fp
from dom import *
import dom
import ll

class Undecided(Exception):
    pass

class Obj:
    __slots__ = ('name', 'size', 'cells', 'default', 'owner', 'mx', 'meta')
    def __init__(self, name, size, default, owner, meta=None):
        self.name = name; self.size = size; self.default = default; self.cells = {}; self.owner = owner; self.mx = 8
        self.meta = meta
    def clone(self, owner):
        o = Obj(self.name, self.size, self.default, owner, self.meta)
        o.cells = dict(self.cells); o.mx = self.mx
        return o

class State:
    __slots__ = ('mem', 'facts', 'ev', 'tok', 'nobj', 'notes')
    def __init__(self):
        self.mem = {}; self.facts = Facts(); self.ev = (); self.tok = object(); self.nobj = 0; self.notes = ()
    def fork(self):
        s = State()
        s.mem = dict(self.mem); s.facts = self.facts.copy(); s.ev = self.ev; s.nobj = self.nobj; s.notes = self.notes
        self.tok = object(); s.tok = object()
        return s
    def event(self, *e):
        self.ev = self.ev + (e,)
    def wobj(self, oid):
        o = self.mem[oid]
        if o.owner is not self.tok:
            o = o.clone(self.tok)
            self.mem[oid] = o
        return o
    def new(self, name, size, default='undef', meta=None):
        self.nobj += 1
        oid = '%s#%d' % (name, self.nobj)
        self.mem[oid] = Obj(oid, size, default, self.tok, meta)
        return oid

def val_bits(v, w):
    if v.__class__ is int or v.__class__ is BV: return bits_of(v, w)
    return None

def same(a, b):
    if a is b: return True
    if a.__class__ is not b.__class__: return False
    if a.__class__ is int: return a == b
    if a.__class__ is Ptr: return a == b
    if a.__class__ is tuple:
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False

class Interp:
    def __init__(self, mods, externs=None, budget=400000, maxpaths=4000, merge=True):
        self.mods = mods
        self.fn = {}
        for m in mods:
            for n, f in m.funcs.items():
                if not f.internal: self.fn.setdefault(n, f)
        self.gl = {}
        for m in mods:
            for n, g in m.globals.items():
                if not g.internal and not g.external and g.init_toks is not None:
                    self.gl.setdefault(n, g)
        self.ext = dict(DEFAULT_EXT)
        if externs: self.ext.update(externs)
        self.budget = budget
        self.maxpaths = maxpaths
        self.steps = 0
        self.merge = merge
        self.gobj = {}
        self.depth = 0
        self.maxdepth = 120
        self.lazy_hook = None      # (state, obj, off, ty) -> value or None
        self.unknown_calls = set()
        self.visited_fns = set()
        self.branch_hook = None
        self.call_hook = None
        self.maxloop = 400
        self.assert_fail = []

    # ------------------------------------------------ globals
    def find_fn(self, mod, name):
        f = mod.funcs.get(name)
        if f is not None: return f
        return self.fn.get(name)

    def find_global(self, mod, name):
        g = mod.globals.get(name)
        if g is not None and not g.external and g.init_toks is not None: return g
        return self.gl.get(name) or g

    def global_ptr(self, st, mod, name):
        f = self.find_fn(mod, name)
        if f is not None: return Ptr('fn:' + f.mod.name + ':' + f.name)
        if name in mod.decls or name in self.ext: return Ptr('fn::' + name)
        g = self.find_global(mod, name)
        if g is None: raise Undecided('global %s' % name)
        oid = '@%s:%s' % (g.mod.name if g.internal else '', name)
        if oid not in st.mem:
            base = self.gobj.get(oid)
            if base is None:
                base = Obj(oid, ll.sizeof(g.ty), 'zero' if g.init_toks is not None else 'lazy', None)
                self.gobj[oid] = base
                if g.init_toks is not None:
                    self._init_global(base, 0, g.ty, g.init(), g.mod)
            st.mem[oid] = base
        return Ptr(oid, 0)

    def _init_global(self, o, off, ty, v, mod):
        k = v[0]
        if k == 'zero' or k == 'undef' or k == 'null': return
        if k == 'c':
            o.cells[off] = (ll.sizeof(ty), v[1] & ((1 << ty.n) - 1))
        elif k == 'str':
            for i, c in enumerate(v[1]): o.cells[off + i] = (1, c)
        elif k == 'agg':
            if ty.k == 'struct':
                offs = ll.struct_offsets(ty)
                for (t, x), oo in zip(v[1], offs): self._init_global(o, off + oo, t, x, mod)
            else:
                s = ll.sizeof(ty.el)
                for i, (t, x) in enumerate(v[1]): self._init_global(o, off + i * s, t, x, mod)
        elif k == 'f':
            o.cells[off] = (ll.sizeof(ty), fconst(v[1], ty))
        elif k in ('g', 'gep', 'cast', 'cbin'):
            o.cells[off] = (8 if ty.k == 'ptr' else ll.sizeof(ty), ('lazyconst', mod, ty, v))
        else:
            raise Undecided('init %r' % (v,))

    # ------------------------------------------------ values
    def val(self, st, env, mod, ty, v):
        k = v[0]
        if k == 'l': return env[v[1]]
        if k == 'c': return v[1] & ((1 << ty.n) - 1)
        if k == 'null': return 0
        if k == 'undef':
            if ty.k in ('struct', 'arr'): return self._undef_agg(ty)
            return UNDEF
        if k == 'g': return self.global_ptr(st, mod, v[1])
        if k == 'f': return fconst(v[1], ty)
        if k == 'zero':
            return self._zero(ty)
        if k == 'gep':
            base = self.val(st, env, mod, v[2][0], v[2][1])
            idx = [(t, self.val(st, env, mod, t, x)) for t, x in v[3]]
            return self.gep(st, v[1], base, idx)
        if k == 'cast':
            x = self.val(st, env, mod, v[2][0], v[2][1])
            return x
        if k == 'agg':
            return tuple(self.val(st, env, mod, t, x) for t, x in v[1])
        if k == 'cbin':
            a = self.val(st, env, mod, v[2], v[3]); b = self.val(st, env, mod, v[2], v[4])
            return BIN[v[1]](a, b, v[2].n)
        raise Undecided('value %r' % (v,))

    def _zero(self, ty):
        if ty.k == 'struct': return tuple(self._zero(t) for t in ty.elts)
        if ty.k == 'arr': return tuple(self._zero(ty.el) for _ in range(ty.n))
        if ty.k == 'x86_fp80': return fp.x80(0)
        return 0
    def _undef_agg(self, ty):
        if ty.k == 'struct': return tuple(self._undef_agg(t) for t in ty.elts)
        if ty.k == 'arr': return tuple(self._undef_agg(ty.el) for _ in range(ty.n))
        return UNDEF

    def gep(self, st, sty, base, idx):
        off = 0
        t = sty
        first = True
        for it, iv in idx:
            if first:
                sz = ll.sizeof(t); first = False
            elif t.k == 'struct':
                off = self._addoff(off, ll.struct_offsets(t)[iv], st)
                t = t.elts[iv]
                continue
            else:
                t = t.el
                sz = ll.sizeof(t)
            if iv is UNDEF: raise Undecided('undef index')
            if iv.__class__ is Ptr: raise Undecided('ptr index')
            if it.n < 64: iv = sext(iv, it.n, 64)
            if iv.__class__ is int:
                off = self._addoff(off, signed(iv, 64) * sz, st)
            else:
                iv = st.facts.resolve(iv, 64)
                off = self._addoff(off, mul(iv, sz, 64), st)
        return ptr_add(base, off, st)

    @staticmethod
    def _addoff(a, b, st):
        if a.__class__ is int and b.__class__ is int: return a + b
        M = (1 << 64) - 1
        r = add(a & M if a.__class__ is int else a, b & M if b.__class__ is int else b, 64)
        if r.__class__ is int: r = signed(r, 64)
        return r

    # ------------------------------------------------ memory
    def load(self, st, p, ty):
        """p resolved Ptr with int offset; ty scalar or aggregate"""
        if ty.k == 'struct':
            return tuple(self.load(st, Ptr(p.obj, p.off + o), t) for o, t in zip(ll.struct_offsets(ty), ty.elts))
        if ty.k == 'arr':
            s = ll.sizeof(ty.el)
            return tuple(self.load(st, Ptr(p.obj, p.off + i * s), ty.el) for i in range(ty.n))
        o = st.mem.get(p.obj)
        if o is None:
            if p.obj.startswith('fn:'): raise Undecided('load from function')
            raise Undecided('load from dead object %s' % p.obj)
        sz = ll.sizeof(ty)
        off = p.off
        if o.size is not None and (off < 0 or off + sz > o.size):
            raise OutOfBounds('load of %d bytes at %s+%d (size %s)' % (sz, o.name, off, o.size))
        c = o.cells.get(off)
        if c is not None and c[0] == sz:
            v = c[1]
            if v.__class__ is tuple and v and v[0] == 'lazyconst':
                v = self.val(st, None, v[1], v[2], v[3])
            return self._cast_loaded(v, ty, st)
        # any overlap?
        ov = False
        for d in range(1, o.mx):
            c2 = o.cells.get(off - d)
            if c2 is not None and c2[0] > d: ov = True; break
        if not ov:
            for d in range(sz):
                if (off + d) in o.cells: ov = True; break
        if not ov:
            v = self._default(st, o, off, ty)
            if o.default == 'lazy' or o.default == 'undef':
                st.wobj(p.obj).cells[off] = (sz, v)
            return v
        if ty.k == 'i' or ty.k == 'ptr':
            bits = []
            w = ty.n if ty.k == 'i' else 64
            for i in range(sz):
                b = self._byte(st, p.obj, off + i)
                if b is None: raise Undecided('byte of non-integer cell at %s+%d' % (o.name, off + i))
                bits.extend(b)
            return mk(tuple(bits[:w]))
        raise Undecided('mixed load %r' % ty)

    def _cast_loaded(self, v, ty, st):
        if ty.k == 'i':
            if v.__class__ is FT:
                return mk(atom('fbits', (v,), ty.n).bits)
            if v.__class__ is int: return v & ((1 << ty.n) - 1)
            if v.__class__ is BV and len(v.bits) != ty.n:
                return mk(v.bits[:ty.n]) if len(v.bits) > ty.n else v
            return v
        if ty.k in ('float', 'double'):
            n = FW[ty.k]
            if v.__class__ is int: return v & ((1 << n) - 1)
            if v.__class__ is BV and len(v.bits) > n: return mk(v.bits[:n])
            return v
        if ty.k == 'x86_fp80':
            if v.__class__ is not FT: raise Undecided('bits taken as long double')
            return v
        return v

    def _byte(self, st, oid, off):
        o = st.mem[oid]
        for d in range(0, o.mx):
            c = o.cells.get(off - d)
            if c is not None and c[0] > d:
                v = c[1]
                if v.__class__ is tuple and v and v[0] == 'lazyconst':
                    v = self.val(st, None, v[1], v[2], v[3])
                if v is UNDEF: 
                    return [0] * 8 if False else list(sym('undef:%s+%d' % (oid, off), 8).bits)
                if v.__class__ is FT:
                    v = mk(atom('fbits', (v,), c[0] * 8).bits)
                if v.__class__ is int or v.__class__ is BV:
                    b = bits_of(v, c[0] * 8) if v.__class__ is int else v.bits + (0,) * (c[0] * 8 - len(v.bits))
                    return b[d * 8:d * 8 + 8]
                if v.__class__ is Ptr: return list(sym('ptrbyte:%s' % ((v, d),), 8).bits)      # unknown
                return None
        v = self._default(st, o, off, ll.I(8))
        if o.default in ('lazy', 'undef'):
            st.wobj(oid).cells[off] = (1, v)
        if v is UNDEF: return list(sym('undef:%s+%d' % (oid, off), 8).bits)
        return bits_of(v, 8)

    def _default(self, st, o, off, ty):
        if o.default == 'zero':
            return self._zero(ty)
        if self.lazy_hook is not None:
            v = self.lazy_hook(self, st, o, off, ty)
            if v is not None: return v
        if o.default == 'undef':
            if ty.k == 'i': return sym('undef:%s+%d' % (o.name, off), ty.n)
            return UNDEF
        if o.default == 'lazy':
            nm = '%s+%d' % (o.name, off)
            if ty.k == 'i': return sym(nm, ty.n)
            if ty.k == 'ptr':
                oid = st.new('*(' + nm + ')', None, 'lazy')
                return Ptr(oid, 0)
            if ty.k in FW: return sym(nm, FW[ty.k])
            return ft('sym', nm, ty.k)
        raise Undecided('default %s' % o.default)

    def store(self, st, p, ty, v):
        if ty.k == 'struct':
            if v is UNDEF: return
            for o, t, x in zip(ll.struct_offsets(ty), ty.elts, v):
                self.store(st, Ptr(p.obj, p.off + o), t, x)
            return
        if ty.k == 'arr':
            s = ll.sizeof(ty.el)
            for i, x in enumerate(v): self.store(st, Ptr(p.obj, p.off + i * s), ty.el, x)
            return
        if p.obj not in st.mem: raise Undecided('store to dead object %s' % p.obj)
        o = st.wobj(p.obj)
        sz = ll.sizeof(ty)
        off = p.off
        if o.size is not None and (off < 0 or off + sz > o.size):
            raise OutOfBounds('store of %d bytes at %s+%d (size %s)' % (sz, o.name, off, o.size))
        self._clear(st, o, off, sz)
        if ty.k == 'i' and ty.n < sz * 8 and v.__class__ is BV:
            v = mk(v.bits + (0,) * (sz * 8 - len(v.bits)))
        o.cells[off] = (sz, v)
        if sz > o.mx: o.mx = sz

    def _clear(self, st, o, off, sz):
        cells = o.cells
        for d in range(1, o.mx):
            c = cells.get(off - d)
            if c is not None and c[0] > d:
                self._split(st, o, off - d, c)
        for d in range(sz):
            c = cells.get(off + d)
            if c is not None:
                if d + c[0] > sz:
                    self._split(st, o, off + d, c)
                cells.pop(off + d, None)

    def _split(self, st, o, off, c):
        bs = [self._byte(st, o.name, off + i) for i in range(c[0])]
        del o.cells[off]
        for i, b in enumerate(bs):
            if b is not None: o.cells[off + i] = (1, mk(tuple(b)))
            else: o.cells[off + i] = (1, sym('partptr:%s+%d' % (o.name, off + i), 8))

    def copy(self, st, dst, src, n):
        """memcpy of n bytes"""
        so = st.mem.get(src.obj)
        if so is None: raise Undecided('copy src')
        if so.size is not None and (src.off < 0 or src.off + n > so.size):
            raise OutOfBounds('read of %d bytes at %s+%d (size %s)' % (n, so.name, src.off, so.size))
        cells = []
        i = 0
        while i < n:
            c = so.cells.get(src.off + i)
            if c is not None and i + c[0] <= n:
                v = c[1]
                if v.__class__ is tuple and v and v[0] == 'lazyconst':
                    v = self.val(st, None, v[1], v[2], v[3])
                cells.append((i, c[0], v)); i += c[0]
                continue
            b = None
            covered = c is not None
            if not covered:
                for d in range(1, so.mx):
                    c2 = so.cells.get(src.off + i - d)
                    if c2 is not None and c2[0] > d: covered = True; break
            if covered:
                b = self._byte(st, src.obj, src.off + i)
                if b is None: raise Undecided('copy of partial pointer')
                cells.append((i, 1, mk(tuple(b)))); i += 1
            else:
                if so.default == 'zero':
                    cells.append((i, 1, 0))
                elif so.default == 'lazy':
                    cells.append((i, 1, ('src', src.off + i)))
                else:
                    cells.append((i, 1, UNDEF))
                i += 1
        if dst.obj not in st.mem: raise Undecided('copy dst')
        do = st.wobj(dst.obj)
        if do.size is not None and (dst.off < 0 or dst.off + n > do.size):
            raise OutOfBounds('write of %d bytes at %s+%d (size %s)' % (n, do.name, dst.off, do.size))
        self._clear(st, do, dst.off, n)
        # lazily-typed source bytes: group by the source object's own lazy cells
        pend = [i for i, s, v in cells if v.__class__ is tuple and v and v[0] == 'src']
        for i, s, v in cells:
            if v.__class__ is tuple and v and v[0] == 'src': continue
            if v is UNDEF: continue
            do.cells[dst.off + i] = (s, v)
            if s > do.mx: do.mx = s
        if pend:
            # materialise as 8/4/1 byte symbols, aligned
            ps = set(pend)
            i = 0
            while i < n:
                if i not in ps: i += 1; continue
                for s in (8, 4, 2, 1):
                    if (src.off + i) % s == 0 and all((i + j) in ps for j in range(s)):
                        break
                v = self._default(st, so, src.off + i, ll.I(s * 8))
                so2 = st.wobj(src.obj); so2.cells[src.off + i] = (s, v)
                do.cells[dst.off + i] = (s, v)
                i += s

    def fill(self, st, dst, byte, n):
        o = st.wobj(dst.obj)
        if o.size is not None and (dst.off < 0 or dst.off + n > o.size):
            raise OutOfBounds('write of %d bytes at %s+%d (size %s)' % (n, o.name, dst.off, o.size))
        if dst.off == 0 and (o.size == n) and byte.__class__ is int and byte == 0:
            o.cells = {}; o.default = 'zero'
            return
        if n > 65536: raise Undecided('memset %d' % n)
        self._clear(st, o, dst.off, n)
        for i in range(n): o.cells[dst.off + i] = (1, byte)

    def cstr(self, st, p):
        """constant C string at p, or None"""
        if p.__class__ is not Ptr or p.off.__class__ is not int: return None
        o = st.mem.get(p.obj)
        if o is None: return None
        out = bytearray()
        i = p.off
        while True:
            c = o.cells.get(i)
            if c is None:
                if o.default == 'zero' and (o.size is None or i < o.size): break
                return None
            if c[0] != 1 or c[1].__class__ is not int: return None
            if c[1] == 0: break
            out.append(c[1]); i += 1
        return out.decode('latin1')

    # ------------------------------------------------ execution
    def run(self, fname, args, st, mod=None):
        f = self.fn.get(fname) or (mod.funcs.get(fname) if mod else None)
        if f is None:
            for m in self.mods:
                if fname in m.funcs: f = m.funcs[fname]; break
        if f is None: raise KeyError('function %s not found' % fname)
        return self.call(f, args, st)

    def call(self, f, args, st):
        f.ensure()
        self.visited_fns.add((f.mod.name, f.name))
        self.depth += 1
        if self.depth > self.maxdepth:
            self.depth -= 1
            raise Undecided('call depth in %s' % f.name)
        try:
            return self._call(f, args, st)
        finally:
            self.depth -= 1

    def _call(self, f, args, st):
        env = {}
        for (t, n), a in zip(f.params, args):
            if n is not None: env[n] = a
        env['__varargs'] = args[len(f.params):]
        results = []
        seq = 0
        heap = []
        pend = {}   # (blockidx) -> list of (block, env, st) at ins 0 awaiting merge
        entry = f.order[0]
        visits = {}

        def push_block(b, prev, env, st):
            nonlocal seq
            # evaluate phis now
            ne = dict(env)
            if b.phis:
                vals = []
                for ph in b.phis:
                    for v, l in ph.a:
                        if l == prev:
                            vals.append((ph.res, self.val(st, env, f.mod, ph.ty, v)))
                            break
                for r, v in vals: ne[r] = v
            lst = pend.get(b.idx)
            if lst is None:
                pend[b.idx] = lst = []
                heapq.heappush(heap, (b.idx, 0, 0, None))
            if self.merge and lst:
                keep = set(b.livein)
                for ph in b.phis: keep.add(ph.res)
                for j, (b2, e2, s2) in enumerate(lst):
                    if self._mergeable(keep, ne, st, e2, s2):
                        s2 = s2.fork()
                        s2.facts = Facts.join(st.facts, s2.facts)
                        lst[j] = (b2, e2, s2)
                        return
            lst.append((b, ne, st))
            if len(lst) > self.maxpaths: raise Undecided('too many partitions in %s' % f.name)

        push_block(entry, None, env, st)
        while heap:
            bi, ii, sq, item = heapq.heappop(heap)
            if item is None:
                lst = pend.pop(bi)
                todo = [(b, 0, e, s) for b, e, s in lst]
                visits[bi] = visits.get(bi, 0) + 1
                if visits[bi] > self.maxloop: raise Undecided('loop bound in %s' % f.name)
            else:
                todo = [item]
            while todo:
                b, i, env, st = todo.pop()
                r = self._block(f, b, i, env, st, todo)
                if r is None: continue
                kind = r[0]
                if kind == 'ret':
                    results.append((st, r[1]))
                    if len(results) > self.maxpaths: raise Undecided('too many results in %s' % f.name)
                elif kind == 'go':
                    if len(r[1]) == 1 and not todo and not heap:
                        # the only path: go on at once
                        (lab, s2), = r[1]
                        nb = f.blocks[lab]; env = r[2]
                        if nb.phis:
                            prev = b.name; vals = []
                            for ph in nb.phis:
                                for v, l in ph.a:
                                    if l == prev:
                                        vals.append((ph.res, self.val(s2, env, f.mod, ph.ty, v)))
                                        break
                            for x, v in vals: env[x] = v
                        k = visits[nb.idx] = visits.get(nb.idx, 0) + 1
                        if k > self.maxloop: raise Undecided('loop bound in %s' % f.name)
                        todo.append((nb, 0, env, s2))
                        continue
                    for (lab, s2) in r[1]:
                        push_block(f.blocks[lab], b.name, r[2], s2)
        # merge equal results
        if self.merge and len(results) > 1:
            out = []
            for s, v in results:
                for j, (s2, v2) in enumerate(out):
                    if same(v, v2) and self._same_store(s, s2):
                        s3 = s2.fork(); s3.facts = Facts.join(s.facts, s2.facts)
                        out[j] = (s3, v2)
                        break
                else:
                    out.append((s, v))
            results = out
        return results

    def _same_store(self, a, b):
        if a.ev != b.ev and not (len(a.ev) == len(b.ev) and all(ev_same(x, y) for x, y in zip(a.ev, b.ev))): return False
        if a.notes != b.notes: return False
        if len(a.mem) != len(b.mem): return False
        for k, o in a.mem.items():
            p = b.mem.get(k)
            if p is o: continue
            if p is None: return False
            if o.default != p.default or len(o.cells) != len(p.cells): return False
            for off, c in o.cells.items():
                d = p.cells.get(off)
                if d is None or c[0] != d[0] or not same(c[1], d[1]): return False
        return True

    def _mergeable(self, live, e1, s1, e2, s2):
        for n in live:
            x = e1.get(n); y = e2.get(n)
            if x is None or y is None:
                if x is not y: return False
                continue
            if not same(x, y): return False
        return self._same_store(s1, s2)

    def resolve_ptr(self, st, p, what):
        """returns list of (state, Ptr with int offset)"""
        if p.__class__ is Ptr:
            if p.off.__class__ is int: return [(st, p)]
            off = st.facts.resolve(p.off, 64)
            if off.__class__ is int: return [(st, Ptr(p.obj, signed(off, 64)))]
            o = st.mem.get(p.obj)
            r = st.facts.range(off, 64)
            # candidates limited by object bounds
            n = r_count(r)
            cand = []
            lim = 1200
            step = 1
            k = 0
            while off.bits[k] is dom.ZERO: k += 1
            step = 1 << k
            d = to_lin(off, 64)
            if len(d[1]) == 1:
                (A, co), = d[1].items()
                # off = co*A + c
                vr = st.facts.range(mk(A.bits[:64] if len(A.bits) >= 64 else A.bits + (0,) * (64 - len(A.bits))), 64)
                if r_count(vr) <= lim:
                    for lo, hi in vr:
                        for x in range(lo, hi + 1):
                            cand.append((signed(d[0] + co * signed(x, 64), 64)))
            if not cand:
                if n > lim * step: raise Undecided('symbolic offset in %s of %s: %r' % (what, p.obj, off))
                for lo, hi in r:
                    x = (lo + step - 1) // step * step
                    while x <= hi:
                        cand.append(signed(x, 64)); x += step
            out = []
            for x in cand:
                s2 = st.fork()
                bit = icmp('eq', off, x & ((1 << 64) - 1), 64)
                if bit.__class__ is int:
                    if not bit: continue
                elif not s2.facts.assume(bit, 1): continue
                out.append((s2, Ptr(p.obj, x)))
            if not out: return []
            return out
        if p.__class__ is int:
            if p < 4096: raise NullDeref('null %s' % what)
            raise Undecided('%s through constant address %x' % (what, p))
        raise Undecided('%s through %r' % (what, p))

    def _block(self, f, b, i, env, st, todo):
        mod = f.mod
        insl = b.ins
        n = len(insl)
        val = self.val
        while i < n:
            ins = insl[i]
            i += 1
            self.steps += 1
            if self.steps > self.budget: raise Undecided('budget')
            op = ins.op
            if op == 'load':
                p = val(st, env, mod, ll.PTR, ins.a)
                if p.__class__ is Ptr and p.off.__class__ is int:
                    try:
                        v = self.load(st, p, ins.ty)
                    except OutOfBounds as e:
                        self.on_oob(st, str(e), mod.loc(ins.dbg)); return None
                else:
                    try:
                        alts = self.resolve_ptr(st, p, 'load')
                    except NullDeref:
                        self.on_null(st, mod.loc(ins.dbg)); return None
                    if not alts: return None
                    for s2, p2 in alts[1:]:
                        try:
                            v2 = self.load(s2, p2, ins.ty)
                        except OutOfBounds as e:
                            self.on_oob(s2, str(e), mod.loc(ins.dbg)); continue
                        e2 = dict(env); e2[ins.res] = v2
                        todo.append((b, i, e2, s2))
                    st0, p = alts[0]
                    if len(alts) > 1 or st0 is not st:
                        # continue with first alternative in place
                        try:
                            v = self.load(st0, p, ins.ty)
                        except OutOfBounds as e:
                            self.on_oob(st0, str(e), mod.loc(ins.dbg)); return None
                        e2 = dict(env); e2[ins.res] = v
                        todo.append((b, i, e2, st0))
                        return None
                    v = self.load(st, p, ins.ty)
                env[ins.res] = v
            elif op == 'store':
                v = val(st, env, mod, ins.ty, ins.a[0])
                p = val(st, env, mod, ll.PTR, ins.a[1])
                if p.__class__ is Ptr and p.off.__class__ is int:
                    try:
                        self.store(st, p, ins.ty, v)
                    except OutOfBounds as e:
                        self.on_oob(st, str(e), mod.loc(ins.dbg)); return None
                else:
                    try:
                        alts = self.resolve_ptr(st, p, 'store')
                    except NullDeref:
                        self.on_null(st, mod.loc(ins.dbg)); return None
                    for s2, p2 in alts:
                        try:
                            self.store(s2, p2, ins.ty, v)
                        except OutOfBounds as e:
                            self.on_oob(s2, str(e), mod.loc(ins.dbg)); continue
                        todo.append((b, i, dict(env), s2))
                    return None
            elif op == 'getelementptr':
                base = val(st, env, mod, ll.PTR, ins.a[0][1])
                idx = [(t, val(st, env, mod, t, x)) for t, x in ins.a[1]]
                env[ins.res] = self.gep(st, ins.ty, base, idx)
            elif op in BIN:
                a = val(st, env, mod, ins.ty, ins.a[0]); c = val(st, env, mod, ins.ty, ins.a[1])
                env[ins.res] = self.binop(st, op, a, c, ins.ty.n, ins, mod)
            elif op == 'icmp':
                pred, x, y = ins.a
                a = val(st, env, mod, ins.ty, x); c = val(st, env, mod, ins.ty, y)
                env[ins.res] = self.icmp(st, pred, a, c, ins.ty, mod, ins)
            elif op == 'call':
                r = self._docall(f, b, i, ins, env, st, todo)
                if r is False: return None
                if r is True: continue
                return None
            elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
                sty, x = ins.a
                v = val(st, env, mod, sty, x)
                env[ins.res] = self.cast(st, op, v, sty, ins.ty)
            elif op == 'select':
                c = val(st, env, mod, ll.I(1), ins.a[0])
                bit = tobit(c)
                bit = st.facts.rbit(bit)
                if bit is dom.ONE: env[ins.res] = val(st, env, mod, ins.ty, ins.a[1])
                elif bit is dom.ZERO: env[ins.res] = val(st, env, mod, ins.ty, ins.a[2])
                else:
                    s2 = st.fork()
                    if s2.facts.assume(bit, 0):
                        e2 = dict(env); e2[ins.res] = val(s2, env, mod, ins.ty, ins.a[2])
                        todo.append((b, i, e2, s2))
                    if not st.facts.assume(bit, 1): return None
                    env = dict(env)
                    env[ins.res] = val(st, env, mod, ins.ty, ins.a[1])
            elif op == 'alloca':
                sz = ll.sizeof(ins.ty)
                if ins.a is not None:
                    c = val(st, env, mod, ins.a[0], ins.a[1])
                    c = st.facts.resolve(c, 64)
                    sz = sz * c if c.__class__ is int else None
                oid = st.new('%s.%s' % (f.name, ins.res), sz, 'undef')
                env[ins.res] = Ptr(oid, 0)
            elif op == 'extractvalue':
                v = val(st, env, mod, ins.ty, ins.a[0])
                for k in ins.a[1]: v = v[k]
                env[ins.res] = v
            elif op == 'insertvalue':
                v = val(st, env, mod, ins.ty, ins.a[0]); x = val(st, env, mod, ins.a[1], ins.a[2])
                env[ins.res] = _insert(v, ins.a[3], x)
            elif op in FOPS:
                try: env[ins.res] = self.fop(st, env, mod, ins)
                except fp.NoFP: raise Undecided('long double arithmetic')
            elif op == 'freeze':
                v = val(st, env, mod, ins.ty, ins.a)
                env[ins.res] = v
            else:
                raise Undecided('instruction %s' % op)
        # terminator
        t = b.term
        if t is None: return None
        if t.op == 'br':
            if t.a[0] is None:
                return ('go', [(t.a[1], st)], env)
            c = val(st, env, mod, t.ty, t.a[0])
            bit = st.facts.rbit(tobit(c))
            if bit is dom.ONE: return ('go', [(t.a[1], st)], env)
            if bit is dom.ZERO: return ('go', [(t.a[2], st)], env)
            s2 = st.fork()
            out = []
            if st.facts.assume(bit, 1): out.append((t.a[1], st))
            if s2.facts.assume(bit, 0): out.append((t.a[2], s2))
            return ('go', out, env)
        if t.op == 'switch':
            c = val(st, env, mod, t.ty, t.a[0])
            w = t.ty.n
            if c is UNDEF: raise Undecided('switch on undef')
            if c.__class__ is Ptr: raise Undecided('switch on ptr')
            c = st.facts.resolve(c, w)
            if c.__class__ is int:
                for v, l in t.a[2]:
                    if v == c: return ('go', [(l, st)], env)
                return ('go', [(t.a[1], st)], env)
            # group the cases by target
            groups = {}
            for v, l in t.a[2]: groups.setdefault(l, []).append(v)
            out = []
            vals = []
            cur = st.facts.range(c, w)
            for l, vs in groups.items():
                vals.extend(vs)
                if l == t.a[1]: continue
                rr = r_norm([(v, v) for v in vs])
                s2 = st.fork()
                if s2.facts.restrict(c, w, rr): out.append((l, s2))
            nd = [v for l, vs in groups.items() if l != t.a[1] for v in vs]
            s2 = st.fork()
            if s2.facts.restrict(c, w, r_compl(r_norm([(v, v) for v in nd]), w)): out.append((t.a[1], s2))
            return ('go', out, env)
        if t.op == 'ret':
            return ('ret', None if t.a is None else val(st, env, mod, t.ty, t.a))
        if t.op == 'unreachable':
            return None
        raise Undecided('terminator %s' % t.op)

    def on_null(self, st, loc):
        self.bad.append(('null', loc, st))
    def on_oob(self, st, msg, loc):
        self.bad.append(('oob', loc, st, msg))

    bad = None

    def _docall(self, f, b, i, ins, env, st, todo):
        mod = f.mod
        callee, args = ins.a
        if callee[0] == 'asm': raise Undecided('inline asm')
        if callee[0] == 'g':
            name = callee[1]
            tf = self.find_fn(mod, name)
        else:
            fp = self.val(st, env, mod, ll.PTR, callee)
            if fp.__class__ is Ptr and fp.off.__class__ is not int:
                raise Undecided('symbolic function pointer')
            if fp.__class__ is int and fp == 0:
                self.on_null(st, mod.loc(ins.dbg)); return False
            if fp.__class__ is not Ptr or not fp.obj.startswith('fn:'):
                if fp.__class__ is Ptr and 'indirect' in self.ext:
                    name = 'indirect'; tf = None
                else:
                    raise Undecided('indirect call to %r at %s' % (fp, mod.loc(ins.dbg)))
            else:
                _, mn, name = fp.obj.split(':', 2)
                tf = None
                for m in self.mods:
                    if m.name == mn and name in m.funcs: tf = m.funcs[name]
                if tf is None: tf = self.find_fn(mod, name)
        av = []
        for t, v, byval in args:
            x = self.val(st, env, mod, t, v) if t is not ll.META else None
            if byval is not None and x.__class__ is Ptr:
                # copy the aggregate
                oid = st.new('byval', ll.sizeof(byval), 'undef')
                self.copy(st, Ptr(oid, 0), x, ll.sizeof(byval))
                x = Ptr(oid, 0)
            av.append(x)
        if name.startswith('llvm.'):
            h = self.intrinsic(name)
        else:
            h = self.ext.get(name)
        if h is not None:
            self.cur_loc = (mod, ins.dbg)
            self.cur_fn = f
            self.cur_env = env
            try:
                res = h(self, st, av, ins)
            except NullDeref:
                self.on_null(st, mod.loc(ins.dbg)); return False
            except OutOfBounds as e:
                self.on_oob(st, str(e), mod.loc(ins.dbg)); return False
        elif tf is not None:
            res = self.call(tf, av, st)
        else:
            self.unknown_calls.add(name)
            raise Undecided('call to unknown %s at %s' % (name, mod.loc(ins.dbg)))
        if res is None: return False
        if len(res) == 1 and res[0][0] is st:
            if ins.res is not None: env[ins.res] = res[0][1]
            return True
        for s2, v in res:
            e2 = dict(env)
            if ins.res is not None: e2[ins.res] = v
            todo.append((b, i, e2, s2))
        return False

    def intrinsic(self, name):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'): return x_memcpy
        if name.startswith('llvm.memset'): return x_memset
        if name.startswith('llvm.lifetime') or name.startswith('llvm.dbg') or name.startswith('llvm.assume') \
           or name.startswith('llvm.stackrestore') or name == 'llvm.va_end' or name == 'llvm.va_end.p0': return x_void
        if name.startswith('llvm.stacksave'): return lambda I, st, a, ins: [(st, 0)]
        if name.startswith('llvm.va_start'): return x_va_start
        if name.startswith('llvm.va_copy'): return x_va_copy
        if name.startswith('llvm.expect'): return lambda I, st, a, ins: [(st, a[0])]
        if name.startswith('llvm.trap'): return lambda I, st, a, ins: None
        if name.startswith('llvm.fmuladd'): return lambda I, st, a, ins: [(st, fp.fbin('fadd', fp.fbin('fmul', a[0], a[1], FW[ins.ty.k]), a[2], FW[ins.ty.k]))]
        raise Undecided('intrinsic ' + name)

    # ------------------------------------------------ ops
    def fop(self, st, env, mod, ins):
        op = ins.op; f = st.facts; val = self.val
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a = val(st, env, mod, ins.ty, ins.a[0]); c = val(st, env, mod, ins.ty, ins.a[1])
            if a is UNDEF or c is UNDEF: raise Undecided('undefined float')
            if ins.ty.k == 'x86_fp80': return fp.bin80(op, a, c)
            w = FW[ins.ty.k]
            return fp.fbin(op, f.resolve(a, w), f.resolve(c, w), w)
        if op == 'fneg':
            a = val(st, env, mod, ins.ty, ins.a)
            if ins.ty.k == 'x86_fp80': return fp.neg80(f, a)
            w = FW[ins.ty.k]
            return xor_(f.resolve(a, w), 1 << (w - 1), w)
        if op == 'fcmp':
            pred, x, y = ins.a
            a = val(st, env, mod, ins.ty, x); c = val(st, env, mod, ins.ty, y)
            if a is UNDEF or c is UNDEF: raise Undecided('undefined float')
            b = fp.cmp80(f, pred, a, c) if ins.ty.k == 'x86_fp80' else fp.fcmp(f, pred, a, c, FW[ins.ty.k])
            return b if b.__class__ is int else mk((b,))
        v = val(st, env, mod, ins.a[0], ins.a[1])
        if v is UNDEF: raise Undecided('undefined float')
        if op in ('sitofp', 'uitofp'):
            v = fp.ext66(f, v, ins.a[0].n, op[0] == 's')
            if ins.ty.k != 'x86_fp80': return fp.i2f(v, FW[ins.ty.k])
            return fp.x80(signed(v, 66)) if v.__class__ is int else ft('int', v)
        if op in ('fptosi', 'fptoui'):
            n = ins.ty.n
            if ins.a[0].k == 'x86_fp80': return fp.int80(f, v, n)
            w = FW[ins.a[0].k]
            return f.resolve(trunc(fp.f2i(f.resolve(v, w), w), 66, n), n)
        if op in ('fptrunc', 'fpext'):
            if ins.ty.k == 'x86_fp80': return fp.to80(f.resolve(v, FW[ins.a[0].k]), FW[ins.a[0].k])
            if ins.a[0].k == 'x86_fp80': return fp.from80(f, v, FW[ins.ty.k])
            w = FW[ins.a[0].k]
            return fp.f2f(f.resolve(v, w), w, FW[ins.ty.k])
    def binop(self, st, op, a, b, w, ins=None, mod=None):
        if a is UNDEF or b is UNDEF:
            return sym('undef', w)
        if a.__class__ is Ptr or b.__class__ is Ptr:
            if op == 'add':
                if a.__class__ is not Ptr: a, b = b, a
                if b.__class__ is not Ptr: return ptr_add(a, signed(b, 64) if b.__class__ is int else b, st)
            if op == 'sub':
                if a.__class__ is Ptr and b.__class__ is Ptr:
                    if a.obj == b.obj:
                        M = (1 << 64) - 1
                        x = a.off & M if a.off.__class__ is int else a.off
                        y = b.off & M if b.off.__class__ is int else b.off
                        return sub(x, y, 64)
                    return mk(atom('ptrdiff', (a, b), 64).bits)
                if a.__class__ is Ptr:
                    return ptr_add(a, -signed(b, 64) if b.__class__ is int else neg(b, 64), st)
            a = ptrint(a); b = ptrint(b)
        if a.__class__ is not int: a = st.facts.resolve(a, w) if a.__class__ is BV else a
        if b.__class__ is not int: b = st.facts.resolve(b, w) if b.__class__ is BV else b
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            if self.div_hook is not None: self.div_hook(self, st, op, a, b, w, ins, mod)
        elif op in ('shl', 'lshr', 'ashr') and b.__class__ is not int:
            r = st.facts.range(b, w)
        return BIN[op](a, b, w)
    div_hook = None

    def icmp(self, st, pred, a, b, ty, mod=None, ins=None):
        if ty.k == 'ptr' or a.__class__ is Ptr or b.__class__ is Ptr:
            return self.pcmp(st, pred, a, b)
        if a is UNDEF or b is UNDEF: return sym('undefcmp', 1)
        a = st.facts.resolve(a, ty.n); b = st.facts.resolve(b, ty.n)
        r = icmp(pred, a, b, ty.n)
        if r.__class__ is Bit:
            r = st.facts.rbit(r)
            if r.__class__ is Bit: return mk((r,))
        return r

    def pcmp(self, st, pred, a, b):
        if a.__class__ is Ptr and b.__class__ is Ptr:
            if a.obj == b.obj:
                M = (1 << 64) - 1
                x = a.off & M if a.off.__class__ is int else st.facts.resolve(a.off, 64)
                y = b.off & M if b.off.__class__ is int else st.facts.resolve(b.off, 64)
                # offsets are non-negative within one object: compare as signed
                p = {'ugt': 'sgt', 'ult': 'slt', 'uge': 'sge', 'ule': 'sle'}.get(pred, pred)
                r = icmp(p, x, y, 64)
                if r.__class__ is Bit:
                    r = st.facts.rbit(r)
                    if r.__class__ is Bit: return mk((r,))
                return r
            if pred in ('eq', 'ne'):
                k = self.alias(st, a, b)
                if k is not None: return int(k == (pred == 'eq'))
            return mk(atom('pcmp', (pred, a, b), 1).bits)
        p, o = (a, b) if a.__class__ is Ptr else (b, a)
        if p.__class__ is Ptr:
            if o.__class__ is int and o == 0:
                nn = self.nullness(st, p)
                if nn is not None:
                    if pred == 'eq': return int(nn)
                    if pred == 'ne': return int(not nn)
                    if pred == 'ugt' and a is p: return 1
                bit = atom('isnull', (p.obj,), 1).bits[0]
                bit = st.facts.rbit(bit)
                if pred == 'ne': bit = bnot(bit)
                return mk((bit,))
            return mk(atom('pcmp', (pred, a, b), 1).bits)
        if a is UNDEF or b is UNDEF: return sym('undefcmp', 1)
        if a.__class__ is int and b.__class__ is int: return icmp(pred, a, b, 64)
        r = icmp(pred, a, b, 64)
        return r if r.__class__ is int else mk((r,))

    def alias(self, st, a, b):
        """are pointers into different objects equal? None = unknown"""
        return False
    def nullness(self, st, p):
        o = st.mem.get(p.obj)
        if o is not None and o.meta == 'maybe-null': return None
        return False

    def cast(self, st, op, v, sty, ty):
        if op == 'ptrtoint':
            if v.__class__ is Ptr:
                return v if ty.n == 64 else trunc(ptrint(v), 64, ty.n)
            return v
        if op in ('inttoptr', 'addrspacecast'): return v
        if op == 'bitcast':
            if sty.k == 'i' and ty.k in ('float', 'double'): return self._cast_loaded(v, ty, st)
            if sty.k in FW and (ty.k == 'i' or ty.k in FW): return v
            return v
        if v is UNDEF: return sym('undef', ty.n)
        if v.__class__ is Ptr: v = ptrint(v)
        if op == 'trunc': return trunc(v, sty.n, ty.n)
        if op == 'zext': return zext(v, sty.n, ty.n)
        r = sext(v, sty.n, ty.n)
        if r.__class__ is BV: r = st.facts.resolve(r, ty.n)
        return r


FW = {'float': 32, 'double': 64}
FOPS = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg', 'fcmp', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fptrunc', 'fpext'}
class NullDeref(Exception): pass
class OutOfBounds(Exception): pass

def ev_same(x, y):
    return len(x) == len(y) and all(same(a, b) or (not isinstance(a, (Ptr, BV, FT, tuple)) and a == b) for a, b in zip(x, y))

def ptrint(p):
    if p.__class__ is not Ptr: return p
    A = atom('addr', (p.obj,), 64)
    M = (1 << 64) - 1
    return add(mk(A.bits), p.off & M if p.off.__class__ is int else p.off, 64)

def ptr_add(base, off, st):
    if base.__class__ is Ptr:
        if base.off.__class__ is int and off.__class__ is int: return Ptr(base.obj, base.off + off)
        M = (1 << 64) - 1
        o = add(base.off & M if base.off.__class__ is int else base.off, off & M if off.__class__ is int else off, 64)
        if o.__class__ is int: o = signed(o, 64)
        return Ptr(base.obj, o)
    if base is UNDEF: return UNDEF
    M = (1 << 64) - 1
    return add(base, off & M if off.__class__ is int else off, 64)

def tobit(c):
    if c.__class__ is int: return c & 1
    if c.__class__ is BV: return c.bits[0]
    if c is UNDEF: return atom('sym', ('undef-cond',), 1).bits[0]
    raise Undecided('condition %r' % (c,))

def _insert(v, idx, x):
    if v is UNDEF: v = (UNDEF,) * (idx[0] + 1)
    l = list(v)
    while len(l) <= idx[0]: l.append(UNDEF)
    l[idx[0]] = x if len(idx) == 1 else _insert(l[idx[0]], idx[1:], x)
    return tuple(l)

def fconst(t, ty):
    if t.startswith('0xK'):
        n = int(t[3:], 16)
        e, m, sg = (n >> 64) & 0x7fff, n & fp.M64, n >> 79
        if e == 0x7fff: return fp.x80(float('nan') if m << 1 & fp.M64 else float('-inf') if sg else float('inf'))
        if m == 0: return fp.x80(-0.0 if sg else 0)
        x = fp.Fraction(m) * fp.Fraction(2) ** (e - 16383 - 63)
        return ft('const', str(-x if sg else x))
    if t.startswith('0x'): d = int(t, 16)
    else: d = fp.f2d(float(t), 64)
    return fp.f2d(fp.d2f(d, 64), 32) if ty.k == 'float' else d

BIN = {'add': add, 'sub': sub, 'mul': mul, 'udiv': udiv, 'sdiv': sdiv, 'urem': urem, 'srem': srem,
       'shl': shl, 'lshr': lshr, 'ashr': ashr, 'and': and_, 'or': or_, 'xor': xor_}

# ------------------------------------------------ external models
def need_int(I, st, v, what):
    if v.__class__ is BV: v = st.facts.resolve(v)
    if v.__class__ is not int: raise Undecided('%s size %r' % (what, v))
    return v

def split_int(I, st, v, w, what, lim=600):
    """case-split a symbolic integer with few values: list of (state,int)"""
    if v.__class__ is BV: v = st.facts.resolve(v, w)
    if v.__class__ is int: return [(st, v)]
    if v.__class__ is not BV: raise Undecided('%s %r' % (what, v))
    r = st.facts.range(v, w)
    if r_count(r) > lim: raise Undecided('%s: %r' % (what, v))
    out = []
    for lo, hi in r:
        for x in range(lo, hi + 1):
            s2 = st.fork()
            if s2.facts.restrict(v, w, ((x, x),)): out.append((s2, x))
    return out

def x_memcpy(I, st, a, ins):
    out = []
    for s, n in split_int(I, st, a[2], 64, 'memcpy'):
        if n:
            ps = I.resolve_ptr(s, a[0], 'memcpy')
            for s1, d in ps:
                for s2, p in I.resolve_ptr(s1, a[1], 'memcpy'):
                    I.copy(s2, d, p, n)
                    out.append((s2, a[0]))
        else:
            out.append((s, a[0]))
    return out
def x_memset(I, st, a, ins):
    out = []
    for s, n in split_int(I, st, a[2], 64, 'memset'):
        v = a[1]
        if v.__class__ is BV: v = trunc(v, len(v.bits), 8) if len(v.bits) > 8 else v
        elif v.__class__ is int: v &= 255
        for s1, d in I.resolve_ptr(s, a[0], 'memset'):
            I.fill(s1, d, v, n)
            out.append((s1, a[0]))
    return out
def x_void(I, st, a, ins): return [(st, None)]
def x_exit(I, st, a, ins):
    st.event('exit', a[0] if a else None, I.cur_loc[0].loc(I.cur_loc[1]))
    I.exits.append(st)
    return None
def x_abort(I, st, a, ins):
    I.aborts.append((st, I.cur_loc[0].loc(I.cur_loc[1])))
    return None
def x_assert(I, st, a, ins):
    I.assert_fail.append((st, I.cur_loc[0].loc(I.cur_loc[1]), I.cstr(st, a[0])))
    return None
def x_strlen(I, st, a, ins):
    s = I.cstr(st, a[0])
    if s is None: raise Undecided('strlen of unknown string')
    return [(st, len(s))]
def x_calloc(I, st, a, ins):
    n = st.facts.resolve(a[-1]); 
    if len(a) > 1:
        m = st.facts.resolve(a[0]); n = n * m if n.__class__ is int and m.__class__ is int else None
    oid = st.new('heap', n if n.__class__ is int else None, 'zero')
    return [(st, Ptr(oid, 0))]
def x_malloc(I, st, a, ins):
    n = st.facts.resolve(a[-1])
    oid = st.new('heap', n if n.__class__ is int else None, 'undef')
    return [(st, Ptr(oid, 0))]
def x_va_start(I, st, a, ins):
    """all variable arguments are placed in the overflow area of an x86-64 va_list"""
    args = I.cur_env['__varargs']
    oid = st.new('varargs', None, 'undef')
    o = st.mem[oid]
    for i, v in enumerate(args):
        o.cells[8 * i] = (8, v if v.__class__ is not BV or len(v.bits) == 64 else zext(v, len(v.bits), 64))
    ap = a[0]
    I.store(st, ap, ll.I(32), 48)
    I.store(st, Ptr(ap.obj, ap.off + 4), ll.I(32), 176)
    I.store(st, Ptr(ap.obj, ap.off + 8), ll.PTR, Ptr(oid))
    I.store(st, Ptr(ap.obj, ap.off + 16), ll.PTR, 0)
    return [(st, None)]
def x_va_copy(I, st, a, ins):
    I.copy(st, a[0], a[1], 24); return [(st, None)]

DEFAULT_EXT = {
    'memcpy': x_memcpy, 'memmove': x_memcpy, 'memset': x_memset,
    'exit': x_exit, 'abort': x_abort, '__assert_fail': x_assert, 'strlen': x_strlen,
    'calloc_or_die': x_calloc, 'malloc_or_die': x_malloc, 'calloc': x_calloc, 'malloc': x_malloc,
    'free': x_void,
}

class Run(Interp):
    """Interp with fresh per-run result collections"""
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.exits = []; self.aborts = []; self.bad = []; self.assert_fail = []
