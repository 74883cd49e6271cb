"""C10: constant expressions have the value and type C gives them."""
from csem import *
from cc_common import *
import itertools

def data(prog, lab):
    """contents of a data label as a list of (size, value)"""
    out = []
    for d, x in prog.data[lab]:
        n = {'.byte': 1, '.short': 2, '.hword': 2, '.half': 2, '.2byte': 2, '.long': 4, '.word': 4, '.4byte': 4, '.quad': 8, '.dword': 8, '.xword': 8, '.8byte': 8}.get(d)
        if n is None:
            if d == '.zero': out.append((prog.num(x), 0)); continue
            raise Reject('unknown data directive %s' % d)
        for y in prog.split(x): out.append((n, prog.num(y)))
    return out

class Consts:
    def __init__(self, arch, chk):
        self.arch = arch; self.chk = chk; self.tool = CcTool(arch, chk); self.jobs = []
    def run(self, vals, xs, text, nnum, check):
        nums = [vals['n%d' % (i + 1)] for i in range(nnum)]
        def assume(f):
            e = Env(f, vals); out = []
            for x in xs: x.needs(e, out)
            return require(f, out)
        I, res = self.tool.run(text, nums, assume=assume)
        obs = []
        for s, status in res:
            src = ' `%s`' % text.split('\n')[-2]
            if status is None: obs.append(Fail(s.facts, 'the compiler aborts on a valid program' + src)); continue
            if status.__class__ is not int or status != 0: obs.append(Fail(s.facts, 'the compiler rejects a valid program' + src)); continue
            try: p = Prog(libc.file_text(I, s, 'stdout'), I.tokens); obs += check(p, s.facts, src)
            except Reject as e: obs.append(Fail(s.facts, str(e) + src))
        return obs
    def go(self, name, xs, text, nnum, check, hints=None):
        inputs = {'n%d' % (i + 1): 64 for i in range(nnum)}
        h = {n: [1000, 77] + IHINT(64) + IHINT(32) + IHINT(16) + IHINT(8) + [2, 3, 7, 31, 63] for n in inputs}
        self.jobs.append(lambda: self.chk.decide('%s %s' % (self.arch, name), inputs, lambda vals: self.run(vals, xs, text, nnum, lambda p, f, src: check(p, f, src, vals)), hints=h))
    def want(self, x, nnum, decl, var, rt, name=None, pre='', hints=None):
        """the variable declared by `decl` (initialised from x) holds the value of x converted to rt"""
        text = PRE + pre + decl + '\n'
        def check(p, f, src, vals):
            if var not in p.data: raise Reject('the variable is not emitted')
            d = data(p, var)
            if sum(n for n, _ in d) != rt.size: raise Reject('the variable has the wrong size')
            bits = ()
            for n, v in d: bits += bits_of(f.resolve(v, 64), 64)[:8 * n] if n <= 8 else (0,) * (8 * n)
            want = conv(f, x.v(Env(f, vals)), x.t, rt)
            return [NEq(f, f.resolve(mk(bits), rt.w), f.resolve(want, rt.w), rt.w, 'a constant expression has the wrong value' + src)]
        self.go(name or x.s, [x], text, nnum, check)
    def value(self, x, nnum, name=None, rt=I64):
        """the initialiser `rt r = x`"""
        self.want(x, nnum, '%s r = %s;' % (rt.n, x.s), 'r', rt, name or '%s r = %s' % (rt.n, x.s))
    def size(self, x, nnum, name):
        """sizeof(char[x])"""
        b = type('B', (), {'s': x.s, 't': U64, 'v': lambda q, e: conv(e.f, x.v(e), x.t, U64), 'needs': lambda q, e, out: x.needs(e, out)})()
        self.want(b, nnum, 'char a[%s]; long r = sizeof(a);' % x.s, 'r', I64, name=name)
        self.want(b, nnum, 'long r = sizeof(char[%s]);' % x.s, 'r', I64, name=name + ' (type name)')
    def address(self, nnum, pre, expr, sym_, off, needs, name):
        """the initialiser of a pointer: symbol plus offset"""
        text = PRE + pre + '\nchar *r = (char*)(%s);\n' % expr
        def check(p, f, src, vals):
            if 'r' not in p.data: raise Reject('the variable is not emitted')
            d = p.data['r']
            if len(d) != 1 or d[0][0] not in ('.quad', '.dword', '.xword', '.8byte'): raise Reject('unexpected contents of a pointer')
            m = re.match(r'^([\w.$]+)\s*(?:([+-])\s*(.*))?$', d[0][1].strip())
            if not m: raise Reject('unexpected contents of a pointer')
            o = p.num(m.group(3)) if m.group(3) else 0
            if m.group(2) == '-': o = neg(o, 64)
            if m.group(1) != sym_: raise Reject('a pointer refers to the wrong object')
            return [NEq(f, f.resolve(o, 64), f.resolve(off.v(Env(f, vals)), 64), 64, 'an address constant has the wrong offset' + src)]
        self.go(name, needs, text, nnum, check)

def plan(C, tier):
    T = INTS
    quick = tier == 'quick'
    # casts and conversions of literals
    for t in INTS + [BOOL]:
        C.value(Num(1, t), 1)
        for u in INTS + [BOOL]:
            if t is not u: C.value(Cast(u, Num(1, t)), 1)
            C.value(Num(1, t), 1, rt=u, name='%s from (%s)' % (u, t))
        for op in ('-', '~', '!', '+'): C.value(Un(op, Num(1, t)), 1)
    pairs = [(a, b) for a in (I8, U8, U16, I32, U32, I64, U64) for b in (U8, I16, I32, U32, I64, U64)]
    for op in ('+', '-', '*', '&', '|', '^', '/', '%', '<', '>', '<=', '>=', '==', '!=', '<<', '>>'):
        for a, b in pairs: C.value(Bin(op, Num(1, a), Num(2, b)), 2)
    for op in ('&&', '||'):
        for a, b in ((I32, I64), (U8, U32)): C.value(Bin(op, Num(1, a), Num(2, b)), 2)
    for a, b in pairs: C.value(Cond(Bin('<', Num(3, I32), Lit('0', I32, 0)), Num(1, a), Num(2, b)), 3)

    # literals: base, suffix, range
    zero = Lit('0', I32, 0); one = Lit('1', I32, 1)
    for base in (10, 16, 8, 2):
        for suf in ('', 'u', 'L', 'UL', 'll', 'uLL'):
            for t, lo, hi in literal_types(base, suf):
                d = DLit(1, base, suf, t, lo, hi)
                nm = '%s in [%#x,%#x]' % (d.s, lo, hi)
                C.value(d, 1, name=nm)
                C.value(Sizeof(d), 1, name='sizeof ' + nm)
                C.value(Bin('<', Bin('-', Bin('&', d, zero), one), zero), 1, name='sign of ' + nm)
                C.value(Un('-', d), 1, name='- ' + nm)
    # character constants
    for text, v in (("'a'", 97), ("'0'", 48), ("' '", 32), ("'~'", 126), ("'\\n'", 10), ("'\\0'", 0), ("'\\\\'", 92), ("'\\''", 39), ("'\"'", 34), ("'\\x41'", 65), ("'\\x7f'", 127), ("'\\x80'", -128),
                    ("'\\xff'", -1), ("'\\377'", -1), ("'\\12'", 10), ("'\\177'", 127), ("'\\200'", -128), ("'\\a'", 7), ("'\\b'", 8), ("'\\f'", 12), ("'\\v'", 11), ("'\\r'", 13), ("'\\t'", 9)):
        ch = Lit(text, I32, v)
        C.value(ch, 0); C.value(Sizeof(ch), 0); C.value(Bin('+', ch, Num(1, U32)), 1); C.value(Bin('<', ch, Num(1, U32)), 1)
    # types of results
    for a in INTS + [BOOL]:
        for op in ('-', '~', '!', '+'): C.value(Sizeof(Un(op, Num(1, a))), 1)
        for b in INTS + [BOOL]:
            for op in ('+', '<<', '<', '&', '/') if quick else ('+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '<', '==', '&&'):
                C.value(Sizeof(Bin(op, Num(1, a), Num(2, b))), 2)
    # nested: the type of an intermediate result decides the value of the whole
    for a, b in ((I32, U32), (U32, I32), (I32, I64), (U32, I64), (I64, U32), (U64, I32), (U8, I8), (I16, U16)):
        x, y = Num(1, a), Num(2, b)
        for op in ('+', '-', '&', '|', '^'):
            z = Bin(op, x, y)
            C.value(Bin('<', z, zero), 2); C.value(Bin('>>', z, Lit('3', I32, 3)), 2); C.value(Bin('/', z, Lit('7', I32, 7)), 2); C.value(Cast(I64, Un('~', z)), 2)
        for c in ('<', '=='): C.value(Bin('-', Bin(c, x, y), Num(3, U32)), 3)
        C.value(Bin('<', Cond(Bin('<', Num(3, I32), zero), x, y), zero), 3)
    # conversions to and from floating types, and floating arithmetic
    F = [FLT, DBL]
    for t in INTS + [BOOL]:
        for ft_ in F:
            C.value(Num(1, t), 1, rt=ft_)
            C.value(Cast(ft_, Num(1, t)), 1, rt=DBL, name='double from (%s)(%s)' % (ft_, t))
            C.value(Cast(t, Cast(ft_, Num(1, t))), 1, rt=I64, name='(%s)(%s)(%s)' % (t, ft_, t))
            C.value(Un('!', Cast(ft_, Num(1, t))), 1)
            for lit in (Flo('0.1', DBL), Flo('16777217.0', DBL), Flo('0.1f', FLT), Flo('3.5f', FLT)):
                for op in ('+', '-', '*', '/', '<', '=='):
                    if lit.t is FLT and ft_ is FLT and op in '+-*/': pass       # (FLT_EVAL_METHOD leaves the precision open; xcc rounds to float)
                    C.value(Bin(op, Cast(ft_, Num(1, t)), lit), 1, rt=DBL)
    for lit in ('0.0', '0.5', '0.1', '1e10', '1e-10', '123456789.123', '4294967296.0', '9007199254740993.0', '1e22', '0x1.8p3', '0x.8p0', '1.', '.5', '5e-324', '1.7976931348623157e308'):
        C.value(Flo(lit, DBL), 0, rt=DBL); C.value(Un('-', Flo(lit, DBL)), 0, rt=DBL)
        C.value(Flo(lit, DBL), 0, rt=FLT); C.value(Cast(I64, Flo(lit, DBL)), 0) if '0x' in lit or float(lit) < 1e18 else None
        C.value(Un('!', Flo(lit, DBL)), 0)
        if lit not in ('5e-324', '1.7976931348623157e308'): C.value(Flo(lit + ('f'), FLT), 0, rt=FLT) if '0x' not in lit else None; C.value(Cast(DBL, Flo(lit + 'f', FLT)), 0, rt=DBL) if '0x' not in lit else None
    # where constants are used: array bounds, enumerators, static locals, bit-field widths
    R = DLit(1, 10, '', I32, 1, 1000000)
    C.size(R, 1, 'array bound n'); C.size(Bin('+', R, one), 1, 'array bound n + 1'); C.size(Bin('*', R, Lit('3', I32, 3)), 1, 'array bound n * 3')
    C.size(Sizeof(Bin('+', Num(1, I8), Num(2, I64))), 2, 'array bound sizeof')
    for t in (I32, U32, I8):
        e1 = DLit(1, 10, '', I32, 0, (1 << 31) - 2)
        C.want(e1, 1, 'enum F { A = %s }; long r = A;' % e1.s, 'r', I64, name='enumerator = n')
    C.want(Bin('+', DLit(1, 10, '', I32, 0, (1 << 31) - 2), one), 1, 'enum F { A = %s, B }; long r = B;' % numtext(1), 'r', I64, name='enumerator after n')
    C.want(Un('-', DLit(1, 10, '', I32, 0, (1 << 31) - 1)), 1, 'enum F { A = -%s }; long r = A;' % numtext(1), 'r', I64, name='enumerator = -n')
    # addresses with constant offsets, pointer differences
    n = DLit(1, 10, '', I32, 0, 1000000); m = DLit(2, 10, '', I32, 0, 1000000)
    L = lambda k: Lit(str(k), I64, k)
    w = lambda x: Cast(I64, x)
    pre = 'char ca[2000000]; short sa[2000000]; int ia[2000000]; long la[2000000]; struct S { char c; short s; int a[4]; long l; } st[1000001]; struct S s1; extern int ex[];'
    for arr, sz in (('ca', 1), ('sa', 2), ('ia', 4), ('la', 8), ('st', 32)):
        C.address(1, pre, '&%s[%s]' % (arr, n.s), arr, Bin('*', w(n), L(sz)), [n], '&%s[n]' % arr)
        C.address(1, pre, '%s + %s' % (arr, n.s), arr, Bin('*', w(n), L(sz)), [n], '%s + n' % arr)
        C.address(1, pre, '%s + %s' % (n.s, arr), arr, Bin('*', w(n), L(sz)), [n], 'n + %s' % arr)
        C.address(2, pre, '&%s[%s] + %s' % (arr, n.s, m.s), arr, Bin('*', Bin('+', w(n), w(m)), L(sz)), [n, m], '&%s[n] + m' % arr)
        C.address(2, pre, '%s + %s - %s' % (arr, n.s, m.s), arr, Bin('*', Bin('-', w(n), w(m)), L(sz)), [n, m], '%s + n - m' % arr)
        C.address(1, pre, '(char*)%s + %s' % (arr, n.s), arr, w(n), [n], '(char*)%s + n' % arr)
        C.want(n, 1, 'long r = &%s[%s] - %s;' % (arr, n.s, arr), 'r', I64, pre=pre + '\n', name='&%s[n] - %s' % (arr, arr)) if 0 else None
    for fld, o in (('c', 0), ('s', 2), ('a[2]', 12), ('a[3]', 16), ('l', 24)):
        C.address(1, pre, '&st[%s].%s' % (n.s, fld), 'st', Bin('+', Bin('*', w(n), L(32)), L(o)), [n], '&st[n].%s' % fld)
        C.address(0, pre, '&s1.%s' % fld, 's1', L(o), [], '&s1.%s' % fld)
    C.address(1, pre, '&st[%s].a[%s]' % (n.s, '1'), 'st', Bin('+', Bin('*', w(n), L(32)), L(8)), [n], '&st[n].a[1]')
    C.address(1, pre, '&ex[%s]' % n.s, 'ex', Bin('*', w(n), L(4)), [n], '&ex[n]')
    C.address(1, pre, '"abcdef" + %s' % n.s, '.L0', w(n), [n], '"..." + n') if 0 else None

def check():
    chk = Check('C10', 'abstract interpretation of the whole compiler on constant expressions whose literals are arbitrary numbers; the emitted initialiser must equal '
                'the value the C standard gives, for all numbers')
    chk.minimum = 1200
    C = Consts('x64', chk)
    plan(C, chk.tier)
    only = [a for a in sys.argv[1:] if not a.startswith('--')]
    jobs = C.jobs
    if only: jobs = jobs[int(only[0]):int(only[1])]
    chk.parallel(jobs)
    if only: chk.minimum = 0
    return chk.finish()
main(check)
