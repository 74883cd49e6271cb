"""Abstract model of the C library used by the analyses that follow a whole tool
(linker, assembler, code generator): files are memory objects that may hold
symbolic bytes, printed symbolic integers become tokens.
"""
import struct, re
import fp
import dom, ll
from dom import *
from interp import (Run, State, Obj, Undecided, NullDeref, OutOfBounds, split_int, x_memcpy, x_memset,
                    x_calloc, x_malloc, need_int, same)

M64 = (1 << 64) - 1
EOF = 0xffffffff

class LRun(Run):
    """Run with the library model.  I.fsinit: path -> (size, [(off,size,value)])"""
    def __init__(self, mods, externs=None, **k):
        e = dict(EXT)
        if externs: e.update(externs)
        super().__init__(mods, externs=e, **k)
        self.lazy_hook = lazy
        self.maxloop = 200000
        self.tokens = []          # placeholder -> value
        self.tokidx = {}
        self.magic = None         # decimal text -> value it stands for
        self.openfail = set()     # paths that cannot be opened for writing
        self.iofail = None        # None | 'fwrite' | 'fclose' ...

    def token(self, v, conv):
        key = (id(v) if v.__class__ in (BV, FT) else v, conv)
        k = self.tokidx.get(key)
        if k is None:
            k = len(self.tokens); self.tokens.append((v, conv)); self.tokidx[key] = k
        return '\x01%d\x02' % k

def lazy(I, st, o, off, ty):
    if o.name in ('@:stderr', '@:stdout', '@:stdin') and off == 0:
        n = 'FILE:' + o.name[2:]
        if n not in st.mem: mkfile(st, n, n[5:])
        return Ptr(n)
    if o.name == '@:optind' or o.name == '@:environ': return 0
    return None

# FILE object cells: 0 content object, 8 position, 16 eof flag, 24 pushed-back char, 32 writable/mode, 40 path string index
def mkfile(st, oid, path):
    st.mem[oid] = Obj(oid, 64, 'zero', st.tok)
    fobj = 'fs:' + path
    if fobj not in st.mem:
        st.mem[fobj] = Obj(fobj, None, 'zero', st.tok)
        st.mem['fsz:' + path] = Obj('fsz:' + path, 8, 'zero', st.tok)
    c = st.mem[oid].cells
    c[0] = (8, Ptr(fobj)); c[8] = (8, 0); c[16] = (8, 0); c[24] = (8, EOF)
    return oid

def put_file(st, path, size, cells):
    """install an input file: cells = [(off, size, value)]"""
    o = Obj('fs:' + path, None, 'zero', st.tok)
    for off, s, v in cells:
        o.cells[off] = (s, v)
        if s > o.mx: o.mx = s
    st.mem['fs:' + path] = o
    z = Obj('fsz:' + path, 8, 'zero', st.tok); z.cells[0] = (8, size)
    st.mem['fsz:' + path] = z

def put_text(st, path, text):
    b = text.encode('latin1') if isinstance(text, str) else text
    put_file(st, path, len(b), [(i, 1, c) for i, c in enumerate(b)])

def file_size(st, path):
    z = st.mem.get('fsz:' + path)
    if z is None: return None
    c = z.cells.get(0)
    return c[1] if c else 0

def file_text(I, st, path):
    n = file_size(st, path)
    if n is None: return None
    o = st.mem['fs:' + path]
    out = bytearray()
    for i in range(n):
        b = I.load(st, Ptr('fs:' + path, i), ll.I(8))
        b = st.facts.resolve(b, 8)
        if b.__class__ is not int: raise Undecided('symbolic byte in text output')
        out.append(b)
    return out.decode('latin1')

class F:
    def __init__(self, I, st, p):
        if p.__class__ is int and p == 0: raise NullDeref('FILE')
        if p.__class__ is not Ptr or p.obj not in st.mem: raise Undecided('FILE %r' % (p,))
        self.st = st; self.p = p
        c = st.mem[p.obj].cells
        if 0 not in c: raise Undecided('closed FILE')
        self.content = c[0][1].obj
        self.path = self.content[3:]
        self.pos = c[8][1]; self.eof = c[16][1]; self.unget = c[24][1]
    def save(self):
        o = self.st.wobj(self.p.obj)
        o.cells[8] = (8, self.pos); o.cells[16] = (8, self.eof); o.cells[24] = (8, self.unget)
    def size(self): return file_size(self.st, self.path)
    def setsize(self, n):
        o = self.st.wobj('fsz:' + self.path); o.cells[0] = (8, n)

def path_of(I, st, p):
    s = I.cstr(st, p)
    if s is None: raise Undecided('symbolic path')
    return s

def x_fopen(I, st, a, ins):
    path = path_of(I, st, a[0]); mode = I.cstr(st, a[1])
    return do_open(I, st, path, mode[0])
def do_open(I, st, path, m):
    if m == 'r':
        if 'fs:' + path not in st.mem or file_size(st, path) is None: return [(st, 0)]
    else:
        if path in I.openfail: return [(st, 0)]
        if m == 'w' or 'fs:' + path not in st.mem: put_file(st, path, 0, [])
        st.event('create', path)
    st.nobj += 1
    oid = mkfile(st, 'FILE#%d' % st.nobj, path)
    if m == 'a':
        f = F(I, st, Ptr(oid)); f.pos = f.size(); f.save()
    return [(st, Ptr(oid))]
def x_open(I, st, a, ins):
    path = path_of(I, st, a[0]); fl = need_int(I, st, a[1], 'open flags')
    if fl & 3 == 0:
        if 'fs:' + path not in st.mem: return [(st, EOF)]
    else:
        if path in I.openfail: return [(st, EOF)]
        if fl & 0x200 or 'fs:' + path not in st.mem: put_file(st, path, 0, [])
        st.event('create', path)
    st.nobj += 1
    fd = 100 + st.nobj
    st.mem['fd:%d' % fd] = Obj('fd:%d' % fd, 8, 'zero', st.tok, meta=path)
    return [(st, fd)]
def x_fdopen(I, st, a, ins):
    fd = need_int(I, st, a[0], 'fd')
    o = st.mem.get('fd:%d' % fd)
    if o is None: raise Undecided('fdopen %d' % fd)
    st.nobj += 1
    return [(st, Ptr(mkfile(st, 'FILE#%d' % st.nobj, o.meta)))]
def x_fclose(I, st, a, ins):
    F(I, st, a[0])
    st.event('close', F(I, st, a[0]).path)
    return [(st, 0)]
def x_fread(I, st, a, ins):
    f = F(I, st, a[3])
    n = need_int(I, st, a[1], 'fread'); m = need_int(I, st, a[2], 'fread')
    if n * m == 0: return [(st, 0)]
    if f.pos.__class__ is not int: raise Undecided('symbolic file position')
    avail = f.size() - f.pos
    take = min(m, max(avail, 0) // n)
    if take: I.copy(st, a[0], Ptr(f.content, f.pos), take * n)
    f.pos += take * n
    if take < m: f.eof = 1
    f.save()
    return [(st, take)]
def x_fwrite(I, st, a, ins):
    f = F(I, st, a[3])
    n = need_int(I, st, a[1], 'fwrite'); m = need_int(I, st, a[2], 'fwrite')
    if n * m == 0: return [(st, 0)]
    if f.path in ('stderr',): st.event('diag'); return [(st, m)]
    I.copy(st, Ptr(f.content, f.pos), a[0], n * m)
    f.pos += n * m
    if f.pos > f.size(): f.setsize(f.pos)
    f.save()
    return [(st, m)]
def x_fseek(I, st, a, ins):
    f = F(I, st, a[0])
    off = st.facts.resolve(a[1], 64); wh = need_int(I, st, a[2], 'whence')
    if off.__class__ is not int: raise Undecided('symbolic seek')
    off = signed(off, 64)
    base = {0: 0, 1: f.pos, 2: f.size()}[wh]
    if base + off < 0: return [(st, EOF)]
    f.pos = base + off; f.eof = 0; f.unget = EOF; f.save()
    return [(st, 0)]
def x_ftell(I, st, a, ins):
    return [(st, F(I, st, a[0]).pos)]
def x_fgetc(I, st, a, ins):
    f = F(I, st, a[0])
    if f.unget != EOF:
        c = f.unget; f.unget = EOF; f.save(); return [(st, c)]
    if f.pos >= f.size():
        f.eof = 1; f.save(); return [(st, EOF)]
    v = I.load(st, Ptr(f.content, f.pos), ll.I(8))
    f.pos += 1; f.save()
    return [(st, zext(v, 8, 32))]
def x_ungetc(I, st, a, ins):
    f = F(I, st, a[1]); f.unget = st.facts.resolve(a[0], 32); f.eof = 0; f.save()
    return [(st, a[0])]
def x_feof(I, st, a, ins): return [(st, F(I, st, a[0]).eof)]
def x_ferror(I, st, a, ins): return [(st, 0)]
def put_bytes(I, st, fp, data):
    """data: list of ints / 8-bit BVs"""
    f = F(I, st, fp)
    if f.path == 'stderr': st.event('diag'); return
    o = st.wobj(f.content)
    for i, b in enumerate(data):
        I._clear(st, o, f.pos + i, 1)
        o.cells[f.pos + i] = (1, b)
    f.pos += len(data)
    if f.pos > f.size(): f.setsize(f.pos)
    f.save()
def x_fputc(I, st, a, ins):
    v = a[0]
    v = v & 255 if v.__class__ is int else trunc(v, 32, 8)
    put_bytes(I, st, a[1], [v])
    return [(st, zext(v, 8, 32))]
def x_putchar(I, st, a, ins):
    lazyfile(st, 'stdout')
    return x_fputc(I, st, [a[0], Ptr('FILE:stdout')], ins)
def lazyfile(st, n):
    if 'FILE:' + n not in st.mem: mkfile(st, 'FILE:' + n, n)
    return Ptr('FILE:' + n)
def x_fputs(I, st, a, ins):
    s = path_of(I, st, a[0])
    put_bytes(I, st, a[1], list(s.encode('latin1')))
    return [(st, 1)]
def x_puts(I, st, a, ins):
    s = path_of(I, st, a[0])
    put_bytes(I, st, lazyfile(st, 'stdout'), list(s.encode('latin1')) + [10])
    return [(st, 1)]

# ------------------------------------------------------------ printf
class VaList:
    """reader over an x86-64 va_list whose arguments all live in the overflow area,
    or over a Python list"""
    def __init__(self, I, st, src):
        self.I = I; self.st = st
        self.list = src if isinstance(src, (list, tuple)) else None
        self.i = 0
        self.ap = src if self.list is None else None
    def next(self, ty):
        if self.list is not None:
            v = self.list[self.i]; self.i += 1
            if ty.k == 'i' and ty.n < 64:
                if v.__class__ is int: v &= (1 << ty.n) - 1
                elif v.__class__ is BV and len(v.bits) > ty.n: v = trunc(v, len(v.bits), ty.n)
            return v
        I, st = self.I, self.st
        area = I.load(st, Ptr(self.ap.obj, self.ap.off + 8), ll.PTR)
        v = I.load(st, area, ty)
        I.store(st, Ptr(self.ap.obj, self.ap.off + 8), ll.PTR, Ptr(area.obj, area.off + 8))
        return v

def format_(I, st, fmt, va):
    """returns text (str, symbolic integers as tokens); list of one (st,text)"""
    out = []
    i = 0
    while i < len(fmt):
        c = fmt[i]
        if c != '%':
            out.append(c); i += 1; continue
        i += 1
        flags = ''
        while fmt[i] in '-+ #0': flags += fmt[i]; i += 1
        width = ''
        if fmt[i] == '*':
            width = str(signed(need_int(I, st, va.next(ll.I(32)), 'width'), 32)); i += 1
        while fmt[i].isdigit(): width += fmt[i]; i += 1
        prec = None
        if fmt[i] == '.':
            i += 1; prec = ''
            if fmt[i] == '*':
                prec = str(signed(need_int(I, st, va.next(ll.I(32)), 'precision'), 32)); i += 1
            while fmt[i].isdigit(): prec += fmt[i]; i += 1
        ln = ''
        while fmt[i] in 'hlLzjtq': ln += fmt[i]; i += 1
        conv = fmt[i]; i += 1
        if conv == '%': out.append('%'); continue
        if conv in 'diuxXop':
            w = 64 if ('l' in ln or 'z' in ln or 'j' in ln or 't' in ln or conv == 'p') else 32
            v = va.next(ll.I(w) if conv != 'p' else ll.PTR)
            if v.__class__ is Ptr: out.append('<ptr %s+%s>' % (v.obj, v.off)); continue
            v = st.facts.resolve(v, w)
            if ln == 'hh': w = 8; v = v & 255 if v.__class__ is int else trunc(v, 32, 8)
            elif ln == 'h': w = 16; v = v & 65535 if v.__class__ is int else trunc(v, 32, 16)
            if v.__class__ is int:
                x = signed(v, w) if conv in 'di' else v
                if conv == 'p': s = '0x%x' % x
                else: s = ('%' + flags + width + ('.' + prec if prec is not None else '') + ('d' if conv in 'diu' else conv)) % x
                out.append(s)
            else:
                out.append(I.token(v, conv if conv not in 'i' else 'd') )
        elif conv == 'c':
            v = st.facts.resolve(va.next(ll.I(32)), 32)
            if v.__class__ is not int: out.append(I.token(trunc(v, 32, 8), 'c'))
            else: out.append(('%' + flags + width + 's') % chr(v & 255))
        elif conv == 's':
            p = va.next(ll.PTR)
            if p.__class__ is int and p == 0: s = '(null)'
            elif prec is not None and prec != '' and not prec.startswith('-'):
                s = lenstr(I, st, p, int(prec))
            else:
                s = I.cstr(st, p)
            if s is None: raise Undecided('printing unknown string')
            out.append(('%' + flags + width + 's') % s)
        elif conv in 'fgeaFGEA':
            v = va.next(ll.DOUBLE)
            v = st.facts.resolve(v, 64)
            if v.__class__ is int:
                v = fp.d2f(v, 64)
                pr = '' if prec is None else '.' + prec
                if conv in 'aA': s = float.hex(v)
                else: s = ('%' + flags + width + pr + conv) % v
                out.append(s)
            else: out.append(I.token(v, conv))
        else:
            raise Undecided('printf conversion %s' % conv)
    return ''.join(out)

def lenstr(I, st, p, n):
    if n == 0: return ''
    out = []
    for i in range(n):
        b = I.load(st, Ptr(p.obj, p.off + i), ll.I(8))
        b = st.facts.resolve(b, 8)
        if b.__class__ is not int: return None
        if b == 0: break
        out.append(chr(b))
    return ''.join(out)

def fmt_of(I, st, p):
    s = I.cstr(st, p)
    if s is None: raise Undecided('format string')
    return s
def enc(s): return list(s.encode('latin1'))
def x_fprintf(I, st, a, ins):
    if is_stderr(I, st, a[0]): st.event('diag'); return [(st, 0)]
    t = format_(I, st, fmt_of(I, st, a[1]), VaList(I, st, a[2:]))
    put_bytes(I, st, a[0], enc(t)); return [(st, len(t))]
def is_stderr(I, st, p):
    return p.__class__ is Ptr and p.obj == 'FILE:stderr'
def x_printf(I, st, a, ins):
    t = format_(I, st, fmt_of(I, st, a[0]), VaList(I, st, a[1:]))
    put_bytes(I, st, lazyfile(st, 'stdout'), enc(t)); return [(st, len(t))]
def x_vfprintf(I, st, a, ins):
    if is_stderr(I, st, a[0]): st.event('diag'); return [(st, 0)]
    t = format_(I, st, fmt_of(I, st, a[1]), VaList(I, st, a[2]))
    put_bytes(I, st, a[0], enc(t)); return [(st, len(t))]
def sn(I, st, dst, n, t):
    b = enc(t)
    if n > 0:
        w = b[:n - 1] + [0]
        for i, c in enumerate(w): I.store(st, Ptr(dst.obj, dst.off + i), ll.I(8), c)
    return [(st, len(b))]
def x_snprintf(I, st, a, ins):
    t = format_(I, st, fmt_of(I, st, a[2]), VaList(I, st, a[3:]))
    return sn(I, st, a[0], need_int(I, st, a[1], 'snprintf'), t)
def x_vsnprintf(I, st, a, ins):
    t = format_(I, st, fmt_of(I, st, a[2]), VaList(I, st, a[3]))
    return sn(I, st, a[0], need_int(I, st, a[1], 'vsnprintf'), t)
def x_sprintf(I, st, a, ins):
    t = format_(I, st, fmt_of(I, st, a[1]), VaList(I, st, a[2:]))
    return sn(I, st, a[0], 1 << 30, t)

# ------------------------------------------------------------ strings, heap
def S(I, st, p):
    s = I.cstr(st, p)
    if s is None: raise Undecided('unknown string')
    return s
def cmpr(x, y): return 0 if x == y else (1 if x > y else 0xffffffff)
def x_strcmp(I, st, a, ins): return [(st, cmpr(S(I, st, a[0]), S(I, st, a[1])))]
def x_strncmp(I, st, a, ins):
    n = need_int(I, st, a[2], 'strncmp')
    return [(st, cmpr(nstr(I, st, a[0], n), nstr(I, st, a[1], n)))]
def nstr(I, st, p, n):
    if n > 4096: return S(I, st, p)
    s = lenstr(I, st, p, n)
    if s is None: raise Undecided('unknown string')
    return s
def x_strcasecmp(I, st, a, ins): return [(st, cmpr(S(I, st, a[0]).lower(), S(I, st, a[1]).lower()))]
def x_strncasecmp(I, st, a, ins):
    n = need_int(I, st, a[2], 'strncasecmp')
    return [(st, cmpr(nstr(I, st, a[0], n).lower(), nstr(I, st, a[1], n).lower()))]
def x_memcmp(I, st, a, ins):
    n = need_int(I, st, a[2], 'memcmp')
    x = []; y = []
    for i in range(n):
        for l, p in ((x, a[0]), (y, a[1])):
            b = st.facts.resolve(I.load(st, Ptr(p.obj, p.off + i), ll.I(8)), 8)
            l.append(b)
    for p, q in zip(x, y):
        if p.__class__ is int and q.__class__ is int:
            if p != q: return [(st, cmpr(p, q))]
        elif not (p is q): raise Undecided('memcmp of unknown bytes')
    return [(st, 0)]
def chars(I, st, p):
    s = S(I, st, p); return s
def x_strchr(I, st, a, ins):
    c = need_int(I, st, a[1], 'strchr') & 255
    s = S(I, st, a[0]) + '\0'
    k = s.find(chr(c))
    return [(st, Ptr(a[0].obj, a[0].off + k) if k >= 0 else 0)]
def x_strrchr(I, st, a, ins):
    c = need_int(I, st, a[1], 'strrchr') & 255
    s = S(I, st, a[0]) + '\0'
    k = s.rfind(chr(c))
    return [(st, Ptr(a[0].obj, a[0].off + k) if k >= 0 else 0)]
def x_strstr(I, st, a, ins):
    k = S(I, st, a[0]).find(S(I, st, a[1]))
    return [(st, Ptr(a[0].obj, a[0].off + k) if k >= 0 else 0)]
def x_strspn(I, st, a, ins):
    s = S(I, st, a[0]); t = S(I, st, a[1]); i = 0
    while i < len(s) and s[i] in t: i += 1
    return [(st, i)]
def x_strcspn(I, st, a, ins):
    s = S(I, st, a[0]); t = S(I, st, a[1]); i = 0
    while i < len(s) and s[i] not in t: i += 1
    return [(st, i)]
def x_strlen(I, st, a, ins): return [(st, len(S(I, st, a[0])))]
def newstr(st, s):
    b = s.encode('latin1') + b'\0'
    oid = st.new('str', len(b), 'zero')
    o = st.mem[oid]
    for i, c in enumerate(b): o.cells[i] = (1, c)
    return Ptr(oid)
def x_strdup(I, st, a, ins): return [(st, newstr(st, S(I, st, a[0])))]
def x_strndup(I, st, a, ins): return [(st, newstr(st, nstr(I, st, a[0], need_int(I, st, a[1], 'strndup'))))]
def wrstr(I, st, p, s, nul=True):
    for i, c in enumerate(s.encode('latin1') + (b'\0' if nul else b'')):
        I.store(st, Ptr(p.obj, p.off + i), ll.I(8), c)
def x_strcpy(I, st, a, ins): wrstr(I, st, a[0], S(I, st, a[1])); return [(st, a[0])]
def x_strcat(I, st, a, ins):
    d = S(I, st, a[0]); wrstr(I, st, Ptr(a[0].obj, a[0].off + len(d)), S(I, st, a[1])); return [(st, a[0])]
def x_memchr(I, st, a, ins):
    n = need_int(I, st, a[2], 'memchr'); c = need_int(I, st, a[1], 'memchr') & 255
    for i in range(n):
        b = st.facts.resolve(I.load(st, Ptr(a[0].obj, a[0].off + i), ll.I(8)), 8)
        if b.__class__ is not int: raise Undecided('memchr of unknown byte')
        if b == c: return [(st, Ptr(a[0].obj, a[0].off + i))]
    return [(st, 0)]
def x_realloc(I, st, a, ins):
    p, n = a[0], a[-1]
    out = []
    for s, n in split_int(I, st, n, 64, 'realloc'):
        if p.__class__ is int and p == 0:
            out.append((s, Ptr(s.new('heap', n, 'undef')))); continue
        old = s.mem[p.obj]
        oid = s.new('heap', n, old.default)
        o = s.mem[oid]
        for off, c in old.cells.items():
            if off + c[0] <= n: o.cells[off] = c
        o.mx = old.mx
        out.append((s, Ptr(oid)))
    return out
def x_errno(I, st, a, ins):
    if 'errno' not in st.mem: st.mem['errno'] = Obj('errno', 4, 'zero', st.tok)
    return [(st, Ptr('errno'))]
def x_perror(I, st, a, ins): st.event('diag'); return [(st, None)]
def x_stat(I, st, a, ins):
    path = path_of(I, st, a[0])
    if 'fs:' + path not in st.mem: return [(st, EOF)]
    I.fill(st, a[1], 0, 144)
    I.store(st, Ptr(a[1].obj, a[1].off + 24), ll.I(32), 0o100644)
    I.store(st, Ptr(a[1].obj, a[1].off + 48), ll.I(64), file_size(st, path))
    return [(st, 0)]
def x_qsort(I, st, a, ins):
    """sorts by concrete comparison results"""
    n = need_int(I, st, a[1], 'qsort'); sz = need_int(I, st, a[2], 'qsort')
    if n < 2: return [(st, None)]
    base = a[0]
    for i in range(1, n):
        j = i
        while j > 0:
            x = Ptr(base.obj, base.off + (j - 1) * sz); y = Ptr(base.obj, base.off + j * sz)
            r = callfp(I, st, a[3], [x, y])
            if len(r) != 1: raise Undecided('qsort order')
            st2, v = r[0]
            if st2 is not st:
                st.mem = st2.mem; st.facts = st2.facts; st.nobj = st2.nobj; st.tok = st2.tok
            v = st.facts.resolve(v, 32)
            if v.__class__ is not int: raise Undecided('qsort order')
            if signed(v, 32) <= 0: break
            t = st.new('swap', sz, 'undef')
            I.copy(st, Ptr(t), x, sz); I.copy(st, x, y, sz); I.copy(st, y, Ptr(t), sz)
            del st.mem[t]
            j -= 1
    return [(st, None)]
def callfp(I, st, fp, args):
    if fp.__class__ is not Ptr or not fp.obj.startswith('fn:'): raise Undecided('function pointer')
    _, mn, name = fp.obj.split(':', 2)
    for m in I.mods:
        if m.name == mn and name in m.funcs: return I.call(m.funcs[name], args, st)
    f = I.fn.get(name)
    if f is None: raise Undecided('function pointer %s' % name)
    return I.call(f, args, st)
def x_bsearch(I, st, a, ins):
    n = need_int(I, st, a[2], 'bsearch'); sz = need_int(I, st, a[3], 'bsearch')
    lo, hi = 0, n
    while lo < hi:
        m = (lo + hi) // 2
        p = Ptr(a[1].obj, a[1].off + m * sz)
        r = callfp(I, st, a[4], [a[0], p])
        if len(r) != 1 or r[0][0] is not st: raise Undecided('bsearch order')
        v = st.facts.resolve(r[0][1], 32)
        if v.__class__ is not int: raise Undecided('bsearch order')
        v = signed(v, 32)
        if v == 0: return [(st, p)]
        if v < 0: hi = m
        else: lo = m + 1
    return [(st, 0)]
def x_remove(I, st, a, ins):
    st.event('remove', path_of(I, st, a[0])); return [(st, 0)]
def x_strtoull(I, st, a, ins):
    s = S(I, st, a[0])
    base = st.facts.resolve(a[2], 32)
    i = 0
    while i < len(s) and s[i] in ' \t\n\v\f\r': i += 1
    neg = False
    if i < len(s) and s[i] in '+-': neg = s[i] == '-'; i += 1
    if base in (0, 16) and s[i:i + 2].lower() == '0x' and i + 2 < len(s) and s[i + 2] in '0123456789abcdefABCDEF':
        i += 2; base = 16
    elif base == 0: base = 8 if s[i:i + 1] == '0' else 10
    j = i
    digs = '0123456789abcdefghijklmnopqrstuvwxyz'[:base]
    while j < len(s) and s[j].lower() in digs: j += 1
    v = int(s[i:j], base) if j > i else 0
    v = min(v, (1 << 64) - 1)
    if I.magic:
        key = s[i:j] if base == 10 else (base, s[i:j].lstrip('0'))
        if key in I.magic: v = I.magic[key]
    if neg: v = dom.neg(v, 64)
    if a[1].__class__ is Ptr:
        I.store(st, a[1], ll.PTR, Ptr(a[0].obj, a[0].off + (j if j > i else 0)))
    return [(st, v)]
FLO = re.compile(r'[ \t\n]*([+-]?(?:0[xX](?:[0-9a-fA-F]+\.?[0-9a-fA-F]*|\.[0-9a-fA-F]+)(?:[pP][+-]?\d+)?|(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?))')
def x_strtold(I, st, a, ins):
    s = S(I, st, a[0])
    m = FLO.match(s)
    v = fp.parse80(m.group(1)) if m else fp.x80(0)
    if a[1].__class__ is Ptr: I.store(st, a[1], ll.PTR, Ptr(a[0].obj, a[0].off + (m.end() if m else 0)))
    return [(st, v)]
def x_getline(I, st, a, ins):
    f = F(I, st, a[2])
    n = f.size()
    out = []
    pos = f.pos
    while pos < n:
        b = st.facts.resolve(I.load(st, Ptr('fs:' + f.path, pos), ll.I(8)), 8)
        pos += 1
        out.append(b)
        if b == 10: break
        if b.__class__ is not int: raise Undecided('symbolic text')
    f.pos = pos
    if not out:
        f.eof = 1; f.save(); return [(st, M64)]
    f.save()
    oid = st.new('line', len(out) + 1, 'undef')
    o = st.wobj(oid)
    for i, b in enumerate(out): o.cells[i] = (1, b)
    o.cells[len(out)] = (1, 0)
    I.store(st, a[0], ll.PTR, Ptr(oid)); I.store(st, a[1], ll.I(64), len(out) + 1)
    return [(st, len(out))]
def _cls(pred):
    def f(I, st, a, ins):
        c = st.facts.resolve(a[0], 32)
        if c.__class__ is not int: raise Undecided('ctype of unknown')
        return [(st, int(0 <= c < 128 and pred(chr(c))))]
    return f
def x_tolower(I, st, a, ins):
    c = st.facts.resolve(a[0], 32)
    if c.__class__ is not int: raise Undecided('tolower of unknown')
    return [(st, c + 32 if 65 <= c <= 90 else c)]
def x_ctype_b(I, st, a, ins):
    """glibc's __ctype_b_loc: pointer to pointer to the class table"""
    if 'ctypetab' not in st.mem:
        o = Obj('ctypetab', 768, 'zero', st.tok)
        for c in range(128):
            ch = chr(c); v = 0
            if ch.isupper(): v |= 1 << 8
            if ch.islower(): v |= 1 << 9
            if ch.isalpha(): v |= 1 << 10
            if ch in '0123456789': v |= 1 << 11
            if ch in '0123456789abcdefABCDEF': v |= 1 << 12
            if ch in ' \t\n\v\f\r': v |= 1 << 13
            if 32 <= c < 127: v |= 1 << 14
            if 32 < c < 127: v |= 1 << 15
            if ch in ' \t': v |= 1
            if c < 32 or c == 127: v |= 2
            if 32 < c < 127 and not ch.isalnum(): v |= 4
            if ch.isalnum(): v |= 8
            o.cells[256 + 2 * c] = (2, v)
        st.mem['ctypetab'] = o
        p = Obj('ctypep', 8, 'zero', st.tok); p.cells[0] = (8, Ptr('ctypetab', 256)); st.mem['ctypep'] = p
    return [(st, Ptr('ctypep'))]
def const(v):
    return lambda I, st, a, ins: [(st, v)]

EXT = {
    'fopen': x_fopen, 'fopen64': x_fopen, 'open': x_open, 'fdopen': x_fdopen, 'fclose': x_fclose, 'fread': x_fread, 'fwrite': x_fwrite,
    'fseek': x_fseek, 'ftell': x_ftell, 'fgetc': x_fgetc, 'getc': x_fgetc, 'ungetc': x_ungetc, 'feof': x_feof, 'ferror': x_ferror,
    'fputc': x_fputc, 'putc': x_fputc, 'putchar': x_putchar, 'fputs': x_fputs, 'puts': x_puts, 'fflush': const(0),
    'fprintf': x_fprintf, 'printf': x_printf, 'vfprintf': x_vfprintf, 'snprintf': x_snprintf, 'vsnprintf': x_vsnprintf, 'sprintf': x_sprintf,
    'strcmp': x_strcmp, 'strncmp': x_strncmp, 'strcasecmp': x_strcasecmp, 'strncasecmp': x_strncasecmp, 'memcmp': x_memcmp, 'bcmp': x_memcmp,
    'strchr': x_strchr, 'strrchr': x_strrchr, 'strstr': x_strstr, 'strspn': x_strspn, 'strcspn': x_strcspn, 'strlen': x_strlen,
    'strdup': x_strdup, 'strndup': x_strndup, 'strcpy': x_strcpy, 'strcat': x_strcat, 'memchr': x_memchr,
    'realloc': x_realloc, 'realloc_or_die': x_realloc, '__errno_location': x_errno, 'perror': x_perror, 'stat': x_stat, 'qsort': x_qsort, 'bsearch': x_bsearch,
    'getline': x_getline, 'remove': x_remove, 'unlink': x_remove, 'isatty': const(0), 'getenv': const(0), 'setvbuf': const(0),
    'strtold': x_strtold, 'strtoull': x_strtoull, 'strtoul': x_strtoull, 'strtol': x_strtoull, 'strtoll': x_strtoull, '__isoc23_strtoull': x_strtoull, '__isoc23_strtoul': x_strtoull,
    '__isoc23_strtol': x_strtoull, '__isoc23_strtoll': x_strtoull, 'tolower': x_tolower, '__ctype_b_loc': x_ctype_b,
    'isalpha': _cls(str.isalpha), 'isdigit': _cls(lambda c: c in '0123456789'), 'isxdigit': _cls(lambda c: c in '0123456789abcdefABCDEF'),
    'isalnum': _cls(str.isalnum), 'isspace': _cls(lambda c: c in ' \t\n\v\f\r'), 'isupper': _cls(str.isupper), 'islower': _cls(str.islower),
    'isprint': _cls(lambda c: 32 <= ord(c) < 127), 'ispunct': _cls(lambda c: 32 < ord(c) < 127 and not c.isalnum()),
}
