"""Textual LLVM-18 IR (opaque pointers) -> python structures.

Only the subset clang emits for the harness translation units is supported; anything else
raises Unsupported, which makes the check inconclusive (never a silent pass)."""
import re, struct
from fractions import Fraction


class Unsupported(Exception):
    pass


TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<loc>%"[^"]*"|%[-\w$.]+)
 | (?P<glob>@"[^"]*"|@[-\w$.]+)
 | (?P<cstr>c"[^"]*")
 | (?P<str>"[^"]*")
 | (?P<meta>!"[^"]*"|![-\w.]*)
 | (?P<attr>\#\d+)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<fp>[-+]?\d+\.\d*(?:[eE][-+]?\d+)?)
 | (?P<int>-?\d+)
 | (?P<dots>\.\.\.)
 | (?P<word>[A-Za-z_$.][-\w$.]*)
 | (?P<punc>[()\[\]{}<>,=*|:])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise Unsupported('token: ' + s[i:i + 40])
        k = m.lastgroup
        if k != 'ws':
            v = m.group()
            if k == 'loc' and v[1] == '"':
                v = '%' + v[2:-1]
            out.append((k, v))
        i = m.end()
    return out


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'w', 'el', 'n', 'fields', 'packed', 'name', '_sz', '_al', '_offs')

    def __init__(self, k, w=0, el=None, n=0, fields=None, packed=False, name=None):
        self.k = k; self.w = w; self.el = el; self.n = n
        self.fields = fields; self.packed = packed; self.name = name
        self._sz = None; self._al = None; self._offs = None

    def __repr__(self):
        if self.k == 'i':
            return 'i%d' % self.w
        if self.k == 'arr':
            return '[%d x %r]' % (self.n, self.el)
        if self.k == 'vec':
            return '<%d x %r>' % (self.n, self.el)
        if self.k == 'st':
            return self.name or '{%s}' % ', '.join(map(repr, self.fields or []))
        return self.k


_ic = {}


def ity(w):
    t = _ic.get(w)
    if t is None:
        t = _ic[w] = Ty('i', w)
    return t


VOID = Ty('void'); PTR = Ty('ptr'); F64 = Ty('f', 64); F32 = Ty('f', 32); F80 = Ty('f', 80)
LABEL = Ty('label'); META = Ty('meta'); OPAQUE = Ty('opaque')


def align_of(t):
    if t._al is None:
        if t.k == 'i':
            b = (t.w + 7) // 8
            a = 1
            while a < b:
                a *= 2
            t._al = min(a, 16)
        elif t.k == 'ptr':
            t._al = 8
        elif t.k == 'f':
            t._al = {64: 8, 32: 4, 80: 16}[t.w]
        elif t.k == 'arr':
            t._al = align_of(t.el)
        elif t.k == 'vec':
            t._al = max(1, size_of(t))
        elif t.k == 'st':
            t._al = 1 if (t.packed or not t.fields) else max(align_of(f) for f in t.fields)
        else:
            raise Unsupported('align of ' + repr(t))
    return t._al


def store_size(t):
    if t.k == 'i':
        return (t.w + 7) // 8
    if t.k == 'f' and t.w == 80:
        return 10
    return size_of(t)


def size_of(t):
    if t._sz is None:
        if t.k == 'i':
            a = align_of(t)
            t._sz = ((t.w + 7) // 8 + a - 1) // a * a
        elif t.k == 'ptr':
            t._sz = 8
        elif t.k == 'f':
            t._sz = {64: 8, 32: 4, 80: 16}[t.w]
        elif t.k in ('arr', 'vec'):
            t._sz = t.n * size_of(t.el)
        elif t.k == 'st':
            offs = struct_offs(t)
            end = offs[-1] + size_of(t.fields[-1]) if t.fields else 0
            a = align_of(t)
            t._sz = (end + a - 1) // a * a
        else:
            raise Unsupported('sizeof ' + repr(t))
    return t._sz


def struct_offs(t):
    if t._offs is None:
        o = 0; offs = []
        if t.fields is None:
            raise Unsupported('opaque struct ' + repr(t))
        for f in t.fields:
            if not t.packed:
                a = align_of(f)
                o = (o + a - 1) // a * a
            offs.append(o)
            o += size_of(f)
        t._offs = offs
    return t._offs


class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'line')

    def __init__(self, op, res=None, ty=None, a=None, x=None, line=''):
        self.op = op; self.res = res; self.ty = ty; self.a = a; self.x = x; self.line = line


class Func:
    __slots__ = ('dbg', 'name', 'ret', 'params', 'vararg', 'blocks', 'entry', 'lines', 'parsed', 'mod')


# operand forms: ('c', val, ty) const ; ('l', name, ty) ; constants of aggregate: python values
class Undef:
    __slots__ = ('ty',)

    def __init__(self, ty):
        self.ty = ty

    def __repr__(self):
        return 'undef'


class GRef:           # address of a global / function
    __slots__ = ('name', 'off')

    def __init__(self, name, off=0):
        self.name = name; self.off = off


class CExpr:          # deferred constant expression
    __slots__ = ('op', 'args', 'ty')

    def __init__(self, op, args, ty=None):
        self.op = op; self.args = args; self.ty = ty


FMF = {'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'}
PATTR1 = {'noundef', 'nonnull', 'nocapture', 'readonly', 'writeonly', 'readnone', 'noalias', 'returned', 'zeroext',
          'signext', 'inreg', 'nest', 'immarg', 'nofree', 'swiftself', 'allocptr', 'allocalign', 'noext', 'dead_on_unwind',
          'writable'}
PATTRP = {'byval', 'sret', 'align', 'dereferenceable', 'dereferenceable_or_null', 'byref', 'inalloca', 'elementtype',
          'preallocated', 'nofpclass', 'memory', 'captures', 'range', 'initializes'}


class P:
    def __init__(self, mod, toks):
        self.m = mod; self.t = toks; self.i = 0

    def peek(self, o=0):
        j = self.i + o
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, o=0):
        j = self.i + o
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]; self.i += 1
        return v

    def acc(self, s):
        if self.i < len(self.t) and self.t[self.i][1] == s:
            self.i += 1
            return True
        return False

    def exp(self, s):
        if not self.acc(s):
            raise Unsupported('expected %s at %r' % (s, self.t[self.i:self.i + 6]))

    def ty(self):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'word':
            if v[0] == 'i' and v[1:].isdigit():
                t = ity(int(v[1:]))
            elif v == 'ptr':
                t = PTR
                if self.peek() == 'addrspace':
                    raise Unsupported('addrspace')
            elif v == 'void':
                t = VOID
            elif v == 'double':
                t = F64
            elif v == 'float':
                t = F32
            elif v == 'x86_fp80':
                t = F80
            elif v == 'label':
                t = LABEL
            elif v == 'metadata':
                t = META
            elif v == 'opaque':
                t = OPAQUE
            elif v == 'token':
                t = META
            else:
                raise Unsupported('type ' + v)
        elif k == 'loc':
            t = self.m.named(v)
        elif v == '[':
            n = int(self.next()); self.exp('x'); el = self.ty(); self.exp(']')
            t = Ty('arr', el=el, n=n)
        elif v == '<':
            if self.acc('{'):
                fs = []
                if not self.acc('}'):
                    while True:
                        fs.append(self.ty())
                        if not self.acc(','):
                            break
                    self.exp('}')
                self.exp('>')
                t = Ty('st', fields=fs, packed=True)
            else:
                n = int(self.next()); self.exp('x'); el = self.ty(); self.exp('>')
                t = Ty('vec', el=el, n=n)
        elif v == '{':
            fs = []
            if not self.acc('}'):
                while True:
                    fs.append(self.ty())
                    if not self.acc(','):
                        break
                self.exp('}')
            t = Ty('st', fields=fs)
        else:
            raise Unsupported('type tok ' + v)
        # function type suffix
        while self.peek() == '(':
            d = 0
            while True:
                x = self.next()
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
                    if d == 0:
                        break
            t = Ty('fn', el=t)
        return t

    def pattrs(self):
        byval = None
        while self.i < len(self.t):
            v = self.peek()
            if v in PATTR1:
                self.i += 1
            elif v in PATTRP:
                self.i += 1
                if self.peek() == '(':
                    s = self.i
                    d = 0
                    while True:
                        x = self.next()
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                            if d == 0:
                                break
                    if v == 'byval':
                        q = P(self.m, self.t[s + 1:self.i - 1])
                        byval = q.ty()
                elif v == 'align':
                    self.i += 1
            elif self.kind() == 'str':
                self.i += 1
                if self.acc('='):
                    self.i += 1
            else:
                break
        return byval

    def fpconst(self, v, ty):
        if v.startswith('0x'):
            if v[2] in 'KLMHR':
                if v[2] == 'K':
                    b = int(v[3:], 16)
                    sg = b >> 79; e = (b >> 64) & 0x7fff; m = b & ((1 << 64) - 1)
                    if e == 0x7fff:
                        return float('inf') if not sg else -float('inf')
                    val = Fraction(m) * (Fraction(2) ** (e - 16383 - 63))
                    return -val if sg else val
                raise Unsupported('fp const ' + v)
            d = struct.unpack('<d', struct.pack('<Q', int(v, 16)))[0]
            return d
        return float(v)

    def val(self, ty):
        """operand of the given type"""
        k, v = self.t[self.i]
        self.i += 1
        if k == 'loc':
            return ('l', v, ty)
        return ('c', self._const(k, v, ty), ty)

    def _const(self, k, v, ty):
        if k == 'glob':
            return GRef(self.m.gname(v))
        if k == 'int':
            if ty.k == 'i':
                return int(v) & ((1 << ty.w) - 1)
            if ty.k == 'f':
                return float(v)
            raise Unsupported('int const of ' + repr(ty))
        if k in ('fp', 'hex'):
            return self.fpconst(v, ty)
        if k == 'cstr':
            return unescape(v[2:-1])
        if k == 'word':
            if v == 'true':
                return 1
            if v == 'false':
                return 0
            if v == 'null':
                return None
            if v in ('undef', 'poison'):
                return Undef(ty)
            if v == 'zeroinitializer':
                return zero_of(ty)
            if v == 'none':
                return None
            if v == 'getelementptr':
                while self.peek() in ('inbounds', 'nuw', 'nusw') :
                    self.i += 1
                self.exp('(')
                et = self.ty(); self.exp(',')
                args = []
                while True:
                    while self.peek() == 'inrange':
                        self.i += 1
                        if self.peek() == '(':
                            while self.next() != ')':
                                pass
                    t = self.ty()
                    args.append(self.val(t))
                    if not self.acc(','):
                        break
                self.exp(')')
                return CExpr('gep', args, et)
            if v in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.exp('(')
                t = self.ty(); a = self.val(t); self.exp('to'); t2 = self.ty(); self.exp(')')
                return CExpr(v, [a], t2)
            if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr', 'icmp', 'select'):
                while self.peek() in ('nuw', 'nsw', 'exact'):
                    self.i += 1
                if v in ('icmp', 'select'):
                    raise Unsupported('constexpr ' + v)
                self.exp('(')
                t = self.ty(); a = self.val(t); self.exp(','); t2 = self.ty(); b = self.val(t2); self.exp(')')
                return CExpr(v, [a, b], ty)
            if v in ('dso_local_equivalent', 'no_cfi'):
                return self._const(*self._adv(), ty)
            raise Unsupported('const ' + v)
        if v == '{' or v == '[' or v == '<':
            close = {'{': '}', '[': ']', '<': '>'}[v]
            packed = False
            if v == '<' and self.peek() == '{':
                self.i += 1; packed = True
                close = '}'
            out = []
            if not self.acc(close):
                while True:
                    t = self.ty()
                    o = self.val(t)
                    if o[0] != 'c':
                        raise Unsupported('nonconst in aggregate')
                    out.append(o[1])
                    if not self.acc(','):
                        break
                self.exp(close)
            if packed:
                self.exp('>')
            return tuple(out)
        if k == 'meta':
            return None
        raise Unsupported('const tok %s %s' % (k, v))

    def _adv(self):
        r = self.t[self.i]; self.i += 1
        return r

    def tval(self):
        t = self.ty()
        if t is META or t.k == 'meta':
            # skip metadata operand
            self.pattrs()
            self.i += 1
            if self.peek() == '(':
                d = 0
                while True:
                    x = self.next()
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0:
                            break
            return ('c', None, t)
        bv = self.pattrs()
        o = self.val(t)
        if bv is not None:
            return ('byval', o, bv)
        return o


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out += s[i].encode('utf-8'); i += 1
    return bytes(out)


def zero_of(t):
    if t.k == 'i':
        return 0
    if t.k == 'f':
        return 0.0
    if t.k == 'ptr':
        return None
    if t.k in ('arr', 'vec'):
        if t.el.k == 'i' and t.el.w == 8:
            return bytes(t.n)
        return tuple(zero_of(t.el) for _ in range(t.n))
    if t.k == 'st':
        return tuple(zero_of(f) for f in t.fields)
    raise Unsupported('zero of ' + repr(t))


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
FBIN = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
        'bitcast', 'addrspacecast'}


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}      # name -> (ty, init or None(external), const)
        self.funcs = {}
        self.decls = {}
        self.aliases = {}
        self.ctors = []
        self.meta = {}
        self._parse(text)

    def gname(self, v):
        v = v[1:]
        if v.startswith('"'):
            v = v[1:-1]
        return v

    def named(self, v):
        t = self.types.get(v)
        if t is None:
            t = self.types[v] = Ty('st', fields=None, name=v)
        return t

    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln or ln[0] == ';':
                continue
            if ln[0] == '!':
                k = ln.find(' = ')
                if '!DI' in ln:
                    self.meta[ln[1:k]] = ln[k + 3:]
                continue
            if ln[0] == '%':
                toks = tokenize(ln)
                t = self.named(toks[0][1])
                p = P(self, toks); p.i = 3
                if p.peek() == 'opaque':
                    t.k = 'st'; t.fields = None
                    continue
                d = p.ty()
                t.k = d.k; t.fields = d.fields; t.packed = d.packed
                continue
            if ln[0] == '@':
                self._global(ln)
                continue
            if ln.startswith('define'):
                body = []
                while lines[i] != '}':
                    body.append(lines[i]); i += 1
                i += 1
                self._func(ln, body)
                continue
            if ln.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-\w$.]+)\(', ln)
                if m:
                    nm = m.group(1).strip('"')
                    self.decls[nm] = ln
                continue
            # target, source_filename, attributes, comdat ($)
        return

    def _global(self, ln):
        toks = tokenize(ln)
        p = P(self, toks)
        name = self.gname(p.next())
        p.exp('=')
        ext = False
        const = False
        while True:
            v = p.peek()
            if v in ('private', 'internal', 'linkonce_odr', 'weak', 'weak_odr', 'linkonce', 'common', 'appending', 'unnamed_addr',
                     'local_unnamed_addr', 'dso_local', 'hidden', 'available_externally', 'protected', 'externally_initialized'):
                p.i += 1
            elif v in ('external', 'extern_weak'):
                ext = True; p.i += 1
            elif v == 'thread_local':
                p.i += 1
                if p.peek() == '(':
                    while p.next() != ')':
                        pass
            elif v == 'global':
                p.i += 1
                break
            elif v in ('constant',):
                const = True; p.i += 1
                break
            elif v == 'alias':
                p.i += 1
                p.ty(); p.exp(',')
                t = p.ty()
                o = p.val(t)
                self.aliases[name] = o[1]
                return
            else:
                raise Unsupported('global ' + ln[:100])
        t = p.ty()
        init = None
        if not ext:
            o = p.val(t)
            init = o[1]
        if name == 'llvm.global_ctors':
            for e in (init or ()):
                self.ctors.append(e[1].name)
            return
        if name.startswith('llvm.'):
            return
        self.globals[name] = (t, init, const, ext)

    def _func(self, ln, body):
        f = Func()
        m = re.search(r'@("[^"]*"|[-\w$.]+)\(', ln)
        f.name = m.group(1).strip('"')
        f.lines = (ln, body)
        f.dbg = set(re.findall(r'!dbg !(\d+)', ln + '\n'.join(body)))
        f.parsed = False
        f.mod = self
        self.funcs[f.name] = f

    def sources(self, names, root):
        """source functions under root whose code (inlined included) lies in the given IR functions"""
        M = self.meta
        out = set()
        seen = set()

        def fld(s, k):
            m = re.search(r'\b' + k + r': (?:!(\d+)|"([^"]*)")', s)
            return None if m is None else m.group(1) if m.group(1) is not None else m.group(2)

        def visit(i):
            while i is not None and i not in seen:
                seen.add(i)
                s = M.get(i, '')
                if 'DILocation' in s:
                    visit(fld(s, 'inlinedAt'))
                    i = fld(s, 'scope')
                elif 'DILexicalBlock' in s:
                    i = fld(s, 'scope')
                elif 'DISubprogram' in s:
                    f = M.get(fld(s, 'file') or '', '')
                    fn = fld(f, 'filename') or ''
                    if not fn.startswith('/'):
                        fn = (fld(f, 'directory') or '') + '/' + fn
                    if fn.startswith(root + '/'):
                        out.add('%s: %s' % (fn[len(root) + 1:], fld(s, 'name')))
                    return
                else:
                    return
        for n in names:
            f = self.funcs.get(n)
            if f is not None:
                for i in f.dbg:
                    visit(i)
        return sorted(out)

    def get(self, name):
        f = self.funcs.get(name)
        if f is None:
            a = self.aliases.get(name)
            if isinstance(a, GRef):
                return self.get(a.name)
            return None
        if not f.parsed:
            self._parse_func(f)
        return f

    def _parse_func(self, f):
        ln, body = f.lines
        k = ln.index('@')
        toks = tokenize(ln[k:])
        p = P(self, toks)
        p.next()
        p.exp('(')
        f.params = []
        f.vararg = False
        while not p.acc(')'):
            if p.acc('...'):
                f.vararg = True
                continue
            t = p.ty()
            p.pattrs()
            nm = None
            if p.kind() == 'loc':
                nm = p.next()
            else:
                nm = '%' + str(len(f.params))
            f.params.append((t, nm))
            p.acc(',')
        f.blocks = {}
        cur = None
        # join multi-line constructs (switch, landingpad, invoke, phi, calls w/ bundles)
        stm = []
        j = 0
        nb = len(body)
        while j < nb:
            s = body[j]
            if not s.strip():
                j += 1
                continue
            if s[0] != ' ':
                stm.append(s); j += 1
                continue
            st = s.strip()
            if 'switch ' in st and st.endswith('['):
                while not body[j].strip().startswith(']'):
                    j += 1
                    st += ' ' + body[j].strip()
            elif re.match(r'(%[-\w$.]+ = )?invoke ', st):
                j += 1
                st += ' ' + body[j].strip()
            elif 'landingpad' in st:
                while j + 1 < nb and re.match(r'\s+(catch|cleanup|filter)', body[j + 1]):
                    j += 1
                    st += ' ' + body[j].strip()
            stm.append('  ' + st)
            j += 1
        first = True
        for s in stm:
            if s[0] != ' ':
                m = re.match(r'("[^"]*"|[-\w$.]+):', s)
                lab = '%' + m.group(1).strip('"')
                cur = f.blocks[lab] = []
                if first:
                    f.entry = lab
                    first = False
                continue
            if first:
                f.entry = '%' + str(len(f.params))
                cur = f.blocks[f.entry] = []
                first = False
            ins = self._inst(s.strip())
            if ins is not None:
                cur.append(ins)
        f.parsed = True
        f.lines = None

    def _inst(self, s):
        # strip trailing metadata
        k = s.find(', !')
        src = s
        if k >= 0:
            s = s[:k]
        toks = tokenize(s)
        p = P(self, toks)
        res = None
        if p.kind() == 'loc' and p.peek(1) == '=':
            res = p.next(); p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op in BIN or op in FBIN:
            flags = set()
            while p.peek() in FMF or p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
                flags.add(p.next())
            t = p.ty(); a = p.val(t); p.exp(','); b = p.val(t)
            return Inst(op, res, t, (a, b), flags, src)
        if op == 'fneg':
            while p.peek() in FMF:
                p.next()
            t = p.ty(); a = p.val(t)
            return Inst(op, res, t, (a,), None, src)
        if op in CAST:
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            t = p.ty(); a = p.val(t); p.exp('to'); t2 = p.ty()
            return Inst(op, res, t2, (a,), t, src)
        if op == 'load':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            t = p.ty(); p.exp(','); pt = p.ty(); a = p.val(pt)
            return Inst(op, res, t, (a,), None, src)
        if op == 'store':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            t = p.ty(); v = p.val(t); p.exp(','); pt = p.ty(); a = p.val(pt)
            return Inst(op, None, t, (v, a), None, src)
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            et = p.ty(); p.exp(',')
            args = []
            while True:
                t = p.ty()
                if t.k == 'vec':
                    raise Unsupported('vector gep')
                args.append(p.val(t))
                if not p.acc(','):
                    break
            return Inst('gep', res, et, tuple(args), None, src)
        if op == 'icmp' or op == 'fcmp':
            while p.peek() in FMF:
                p.next()
            pred = p.next()
            t = p.ty(); a = p.val(t); p.exp(','); b = p.val(t)
            return Inst(op, res, t, (a, b), pred, src)
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                return Inst('jmp', None, None, None, p.next(), src)
            t = p.ty(); c = p.val(t); p.exp(','); p.exp('label'); a = p.next(); p.exp(','); p.exp('label'); b = p.next()
            return Inst('br', None, None, (c,), (a, b), src)
        if op == 'switch':
            t = p.ty(); c = p.val(t); p.exp(','); p.exp('label'); d = p.next(); p.exp('[')
            cases = []
            while not p.acc(']'):
                ct = p.ty(); cv = p.val(ct); p.exp(','); p.exp('label')
                cases.append((cv[1], p.next()))
            return Inst('switch', None, t, (c,), (d, cases), src)
        if op == 'ret':
            t = p.ty()
            if t is VOID:
                return Inst('ret', None, t, (), None, src)
            return Inst('ret', None, t, (p.val(t),), None, src)
        if op == 'phi':
            while p.peek() in FMF:
                p.next()
            t = p.ty()
            inc = {}
            while True:
                p.exp('[')
                v = p.val(t); p.exp(','); lab = p.next(); p.exp(']')
                inc[lab] = v
                if not p.acc(','):
                    break
            return Inst('phi', res, t, None, inc, src)
        if op == 'select':
            while p.peek() in FMF:
                p.next()
            t = p.ty(); c = p.val(t); p.exp(','); t1 = p.ty(); a = p.val(t1); p.exp(','); t2 = p.ty(); b = p.val(t2)
            return Inst('select', res, t1, (c, a, b), None, src)
        if op == 'alloca':
            if p.peek() == 'inalloca':
                raise Unsupported(src)
            t = p.ty()
            cnt = None
            if p.acc(','):
                if p.peek() == 'align':
                    pass
                else:
                    ct = p.ty(); cnt = p.val(ct)
            return Inst('alloca', res, t, (cnt,), None, src)
        if op in ('call', 'invoke'):
            while p.peek() in FMF or p.peek() in ('fastcc', 'ccc', 'coldcc'):
                p.next()
            p.pattrs()
            t = p.ty()
            if t.k == 'fn':
                t = t.el
            if p.kind() == 'word' and p.peek() == 'asm':
                return Inst('asm', res, t, None, src, src)
            cal = p.val(PTR)
            p.exp('(')
            args = []
            while not p.acc(')'):
                args.append(p.tval())
                p.acc(',')
            x = None
            if op == 'invoke':
                while p.peek() != 'to':
                    p.next()
                p.exp('to'); p.exp('label'); n = p.next(); p.exp('unwind'); p.exp('label'); u = p.next()
                x = (n, u)
            return Inst(op, res, t, (cal, args), x, src)
        if op == 'extractvalue':
            t = p.ty(); a = p.val(t)
            idx = []
            while p.acc(','):
                idx.append(int(p.next()))
            return Inst(op, res, t, (a,), idx, src)
        if op == 'insertvalue':
            t = p.ty(); a = p.val(t); p.exp(','); t2 = p.ty(); b = p.val(t2)
            idx = []
            while p.acc(','):
                idx.append(int(p.next()))
            return Inst(op, res, t, (a, b), idx, src)
        if op == 'landingpad':
            t = p.ty()
            cl = []
            while p.i < len(p.t):
                w = p.next()
                if w == 'cleanup':
                    cl.append(('cleanup', None))
                elif w == 'catch':
                    tt = p.ty(); v = p.val(tt)
                    cl.append(('catch', v[1]))
                elif w == 'filter':
                    tt = p.ty(); v = p.val(tt)
                    cl.append(('filter', v[1]))
            return Inst(op, res, t, None, cl, src)
        if op == 'resume':
            t = p.ty(); a = p.val(t)
            return Inst(op, None, t, (a,), None, src)
        if op == 'unreachable':
            return Inst(op, None, None, None, None, src)
        if op == 'freeze':
            t = p.ty(); a = p.val(t)
            return Inst(op, res, t, (a,), None, src)
        if op == 'extractelement':
            t = p.ty(); a = p.val(t); p.exp(','); t2 = p.ty(); b = p.val(t2)
            return Inst(op, res, t, (a, b), None, src)
        if op == 'insertelement':
            t = p.ty(); a = p.val(t); p.exp(','); t1 = p.ty(); e = p.val(t1); p.exp(','); t2 = p.ty(); b = p.val(t2)
            return Inst(op, res, t, (a, e, b), None, src)
        if op == 'shufflevector':
            t = p.ty(); a = p.val(t); p.exp(','); t1 = p.ty(); b = p.val(t1); p.exp(','); t2 = p.ty(); m = p.val(t2)
            return Inst(op, res, t, (a, b, m), None, src)
        if op == 'fence':
            return None
        if op == 'atomicrmw':
            raise Unsupported(src)
        raise Unsupported('inst: ' + src)
