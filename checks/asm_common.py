"""Common parts of the assembler checks (C01-C03): instruction tables, operand
set-up, running the encoder on abstract operands, operand-text parsing."""
from common import *

class Asm:
    def __init__(self, arch, chk):
        self.arch = arch; self.chk = chk
        d = 'src/as/arch/' + arch + '/'
        self.code = build.compile_many([(d + 'asm_code.c', 'as', arch), ('src/util/util.c', 'as', arch),
                                        (d + 'parse_%s.c' % arch, 'as', arch), ('src/as/parse_asm.c', 'as', arch), ('src/util/table.c', 'as', arch)])
        self.enc_mods = self.code[:2]
        self.T = ll.Types(self.code)
        for n in ('assemble_inst',):
            if n not in self.code[0].funcs: raise Broken('no function %s in %sasm_code.c' % (n, d))

    def rows(self):
        """(mnemonic, opcode, [operand flag masks]) from the instruction tables"""
        I = Run(self.code)
        st = State()
        T = self.T
        m = self.code[2]
        if 'kRawOpTable' not in m.globals or 'kParseInstTable' not in m.globals:
            raise Broken('instruction tables not found')
        names = []
        g = m.globals['kRawOpTable']
        p = I.global_ptr(st, m, 'kRawOpTable')
        n = ll.sizeof(g.ty) // 8
        for i in range(n):
            q = I.load(st, Ptr(p.obj, i * 8), ll.PTR)
            if q.__class__ is int: break
            names.append(I.cstr(st, q))
        g = m.globals['kParseInstTable']
        p = I.global_ptr(st, m, 'kParseInstTable')
        es = T.size('ParseInstTable')
        cnt = ll.sizeof(g.ty) // es
        oc = T.field('ParseInstTable', 'count')[0]; oa = T.field('ParseInstTable', 'array')[0]
        oo = T.field('ParseOpArray', 'op')[0]; of = T.field('ParseOpArray', 'opr_flags')[0]
        nf = T.field('ParseOpArray', 'opr_flags')[1] // 4
        out = []
        for i, name in enumerate(names):
            if i + 1 >= cnt: continue
            c = I.load(st, Ptr(p.obj, (i + 1) * es + oc), ll.I(32))
            if not c: continue
            arr = I.load(st, Ptr(p.obj, (i + 1) * es + oa), ll.PTR)
            for k in range(c):
                pa = I.load(st, Ptr(arr.obj, arr.off + k * 8), ll.PTR)
                op = I.load(st, Ptr(pa.obj, pa.off + oo), ll.I(32))
                fl = [I.load(st, Ptr(pa.obj, pa.off + of + 4 * j), ll.I(32)) for j in range(nf)]
                out.append((name, op, fl))
        self.names = names
        return out

    def encode(self, op, setup, budget=200000):
        """run the encoder; returns [(state, bytes or None if rejected)], asserts"""
        def err(I, st, a, ins):
            st.event('error'); return [(st, None)]
        I = Run(self.enc_mods, externs={'parse_error': err}, budget=budget)
        T = self.T
        st = State()
        st.mem['inst'] = Obj('inst', T.size('Inst'), 'zero', st.tok)
        st.mem['code'] = Obj('code', T.size('Code'), 'undef', st.tok)
        st.mem['info'] = Obj('info', T.size('ParseInfo'), 'zero', st.tok)
        def setf(path, v):
            o, s, _ = T.field('Inst', path)
            st.mem['inst'].cells[o] = (s, v)
        def fix(name, v):
            """a constant expression object"""
            oid = 'expr:' + name
            st.mem[oid] = Obj(oid, T.size('Expr'), 'zero', st.tok)
            o, s, _ = T.field('Expr', 'kind'); st.mem[oid].cells[o] = (s, T.enums['EX_FIXNUM'])
            o, s, _ = T.field('Expr', 'fixnum'); st.mem[oid].cells[o] = (s, v)
            return Ptr(oid)
        def lab(name):
            oid = 'expr:' + name
            st.mem[oid] = Obj(oid, T.size('Expr'), 'zero', st.tok)
            o, s, _ = T.field('Expr', 'kind'); st.mem[oid].cells[o] = (s, T.enums['EX_LABEL'])
            return Ptr(oid)
        setf('op', op)
        setup(setf, fix, lab, st)
        res = I.run('assemble_inst', [Ptr('inst'), Ptr('info'), Ptr('code')], st)
        self.chk.seen(I)
        lo, ls, _ = T.field('Code', 'len'); bo, bs, _ = T.field('Code', 'buf')
        out = []
        for s, _ in res:
            if any(e[0] == 'error' for e in s.ev):
                out.append((s, None)); continue
            n = s.facts.resolve(I.load(s, Ptr('code', lo), ll.I(8)), 8)
            if n.__class__ is not int: raise Undecided('code length %r' % (n,))
            out.append((s, [s.facts.resolve(I.load(s, Ptr('code', bo + i), ll.I(8)), 8) for i in range(n)]))
        return I, out

    # ------------------------------------------------ operand text
    def parse_text(self, text, flags):
        """abstract run of the operand parser on one constant text; returns list of
        (flag result, operand reader, rest of text)"""
        T = self.T
        def err(I, st, a, ins):
            st.event('error'); return [(st, None)]
        ext = dict(TEXT_EXT); ext['parse_error'] = err
        I = Run(self.code, externs=ext, budget=200000)
        st = State()
        buf = text.encode() + b'\0'
        st.mem['text'] = Obj('text', len(buf), 'zero', st.tok)
        for i, c in enumerate(buf): st.mem['text'].cells[i] = (1, c)
        st.mem['info'] = Obj('info', T.size('ParseInfo'), 'zero', st.tok)
        o, s, _ = T.field('ParseInfo', 'p'); st.mem['info'].cells[o] = (s, Ptr('text'))
        st.mem['opr'] = Obj('opr', T.size('Operand'), 'zero', st.tok)
        res = I.run('parse_operand', [Ptr('info'), flags, Ptr('opr')], st)
        self.chk.seen(I)
        out = []
        for s2, r in res:
            def rd(path, s2=s2):
                o, s, _ = T.field('Operand', path)
                return I.load(s2, Ptr('opr', o), ll.I(s * 8) if s in (1, 2, 4, 8) else ll.I(64))
            p = I.load(s2, Ptr('info', T.field('ParseInfo', 'p')[0]), ll.PTR)
            out.append((s2, r, rd, p, I))
        return out

def _bytes(I, st, p, n=None):
    s = I.cstr(st, p)
    if s is None: raise Undecided('unknown text')
    return s if n is None else s[:n]
def x_strncasecmp(I, st, a, ins):
    n = st.facts.resolve(a[2], 64)
    x = _bytes(I, st, a[0]).lower() + '\0'; y = _bytes(I, st, a[1]).lower() + '\0'
    x = x[:n]; y = y[:n]
    return [(st, 0 if x == y else (1 if x > y else 0xffffffff))]
def x_strcasecmp(I, st, a, ins):
    x = _bytes(I, st, a[0]).lower(); y = _bytes(I, st, a[1]).lower()
    return [(st, 0 if x == y else (1 if x > y else 0xffffffff))]
def x_strcmp(I, st, a, ins):
    x = _bytes(I, st, a[0]); y = _bytes(I, st, a[1])
    return [(st, 0 if x == y else (1 if x > y else 0xffffffff))]
def x_strncmp(I, st, a, ins):
    n = st.facts.resolve(a[2], 64)
    x = _bytes(I, st, a[0])[:n]; y = _bytes(I, st, a[1])[:n]
    return [(st, 0 if x == y else (1 if x > y else 0xffffffff))]
def x_strtoull(I, st, a, ins):
    s = _bytes(I, st, a[0])
    base = st.facts.resolve(a[2], 32)
    i = 0
    while i < len(s) and s[i] in ' \t\n\v\f\r': i += 1
    neg = False
    if i < len(s) and s[i] in '+-': neg = s[i] == '-'; i += 1
    if base in (0, 16) and s[i:i + 2].lower() == '0x' and i + 2 < len(s) and s[i + 2] in '0123456789abcdefABCDEF':
        i += 2; base = 16
    elif base == 0: base = 8 if s[i:i + 1] == '0' else 10
    j = i
    digs = '0123456789abcdefghijklmnopqrstuvwxyz'[:base]
    while j < len(s) and s[j].lower() in digs: j += 1
    v = int(s[i:j], base) if j > i else 0
    v = min(v, (1 << 64) - 1)
    if neg: v = -v & ((1 << 64) - 1)
    if a[1].__class__ is Ptr:
        I.store(st, a[1], ll.PTR, Ptr(a[0].obj, a[0].off + (j if j > i else 0)))
    return [(st, v)]
def _cls(pred):
    def f(I, st, a, ins):
        c = st.facts.resolve(a[0], 32)
        if c.__class__ is not int: raise Undecided('ctype of unknown')
        return [(st, int(0 <= c < 128 and pred(chr(c))))]
    return f
def x_tolower(I, st, a, ins):
    c = st.facts.resolve(a[0], 32)
    if c.__class__ is not int: raise Undecided('tolower of unknown')
    return [(st, c + 32 if 65 <= c <= 90 else c)]
def x_ctype_b(I, st, a, ins):
    """glibc's __ctype_b_loc: pointer to pointer to the class table"""
    if 'ctypetab' not in st.mem:
        o = Obj('ctypetab', 768, 'zero', st.tok)
        for c in range(128):
            ch = chr(c); v = 0
            if ch.isupper(): v |= 1 << 8
            if ch.islower(): v |= 1 << 9
            if ch.isalpha(): v |= 1 << 10
            if ch in '0123456789': v |= 1 << 11
            if ch in '0123456789abcdefABCDEF': v |= 1 << 12
            if ch in ' \t\n\v\f\r': v |= 1 << 13
            if 32 <= c < 127: v |= 1 << 14
            if 32 < c < 127: v |= 1 << 15
            if ch in ' \t': v |= 1
            if c < 32 or c == 127: v |= 2
            if 32 < c < 127 and not ch.isalnum(): v |= 4
            if ch.isalnum(): v |= 8
            o.cells[256 + 2 * c] = (2, v)
        st.mem['ctypetab'] = o
        p = Obj('ctypep', 8, 'zero', st.tok); p.cells[0] = (8, Ptr('ctypetab', 256)); st.mem['ctypep'] = p
    return [(st, Ptr('ctypep'))]
def x_alloc_name(I, st, a, ins):
    oid = st.new('name', 64, 'lazy')
    return [(st, Ptr(oid))]
TEXT_EXT = {'strncasecmp': x_strncasecmp, 'strcasecmp': x_strcasecmp, 'strcmp': x_strcmp, 'strncmp': x_strncmp,
            'strtoull': x_strtoull, 'strtoul': x_strtoull, 'strtol': x_strtoull, 'strtoll': x_strtoull, '__isoc23_strtoull': x_strtoull, '__isoc23_strtoul': x_strtoull,
            '__isoc23_strtol': x_strtoull, '__isoc23_strtoll': x_strtoull,
            'tolower': x_tolower, '__ctype_b_loc': x_ctype_b, 'alloc_name': x_alloc_name,
            'isalpha': _cls(str.isalpha), 'isdigit': _cls(lambda c: c in '0123456789'), 'isxdigit': _cls(lambda c: c in '0123456789abcdefABCDEF'),
            'isalnum': _cls(str.isalnum), 'isspace': _cls(lambda c: c in ' \t\n\v\f\r')}
