"""Models of the harness API, libc/libm/libstdc++ externals and LLVM intrinsics."""
import math, re, struct
from fractions import Fraction
import z3
import llir, rexpr as X
from llir import Unsupported, Undef, size_of
from symex import (Ptr, FnPtr, NULL, Violation, Throw, PathEnd, Fork, sgn, isz, bv, M64, DBits, R, znot, RInt, rint_val, rint_mk)

TABLE = {}


def m(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def E(ex, st, fr, args):
    return [ex.ev(st, fr, a) for a in args]


# ------------------------------------------------------------------ strings in memory
def rdb(ex, st, p, k):
    """byte at p+k: int or z3 bv8"""
    o, off = ex.offset(st, ex.padd(p, k), 1, 'read')
    b = ex.rdbyte(o, off)
    if b is None:
        ex.notes.add('uninitialised byte read by a string function')
        raise Violation('memsafe', 'string function reads an uninitialised byte')
    if isinstance(b, tuple):
        raise Unsupported('string function reads an opaque cell')
    return b


def beq(ex, st, b, v):
    if isinstance(b, int):
        return b == v
    return ex.decide(st, b == z3.BitVecVal(v, 8))


def cstr(ex, st, p):
    """concrete C string (concretises)"""
    out = bytearray()
    k = 0
    while True:
        b = rdb(ex, st, p, k)
        if not isinstance(b, int):
            b = ex.concretize(st, b) & 0xff
        if b == 0:
            return bytes(out)
        out.append(b)
        k += 1
        if k > 100000:
            raise Unsupported('long string')


SPACES = (32, 9, 10, 11, 12, 13)


def inset(ex, st, b, vals):
    if isinstance(b, int):
        return b in vals
    d = ex.doms.get(b.get_id())
    if d is not None:
        if not any(v in d[0] for v in vals):
            return False
        if all(v in vals for v in d[0]):
            return True
    return ex.decide(st, z3.Or(*[b == z3.BitVecVal(v, 8) for v in vals]))


def isdig(ex, st, b):
    if isinstance(b, int):
        return 48 <= b <= 57
    d = ex.doms.get(b.get_id())
    if d is not None:
        n = sum(1 for v in d[0] if 48 <= v <= 57)
        if n == 0:
            return False
        if n == len(d[0]):
            return True
    return ex.decide(st, z3.And(z3.UGE(b, z3.BitVecVal(48, 8)), z3.ULE(b, z3.BitVecVal(57, 8))))


def new_input(st, name):
    """unique input name (peek only; commit with st.names update)"""
    k = st.names.get(name, 0)
    return name if k == 0 else '%s#%d' % (name, k)


def commit(st, name):
    st.names[name] = st.names.get(name, 0) + 1


def nextval(ex, st):
    i = len(st.inputs)
    if i < len(ex.concrete):
        return ex.concrete[i]
    raise Unsupported('concrete run ran out of inputs')


# ------------------------------------------------------------------ harness API
def _dom(ex, u, d):
    """one solver name per input and domain: the same input may have different domains on different paths"""
    t = ex.__dict__.setdefault('inp_doms', {}).setdefault(u, [])
    if d not in t:
        t.append(d)
    return u if t[0] == d else '%s~%d' % (u, t.index(d))


def _vs_int(ex, st, fr, I, args, w):
    p, lo, hi = E(ex, st, fr, args)
    nm = cstr(ex, st, p).decode()
    u = new_input(st, nm)
    lo = sgn(lo, w); hi = sgn(hi, w)
    if ex.concrete is not None:
        v = int(nextval(ex, st))
        commit(st, nm)
        st.inputs.append((u, 'i', v, lo, hi))
        return v & ((1 << w) - 1)
    commit(st, nm)
    if lo == hi:
        st.inputs.append((u, 'i', lo, lo, hi))
        return lo & ((1 << w) - 1)
    z = z3.BitVec(u, w)
    st.pc.append(z3.And(z >= lo, z <= hi))
    st.inputs.append((u, 'i', z, lo, hi))
    return z


@m('vs_int')
def vs_int(ex, st, fr, I, args):
    return _vs_int(ex, st, fr, I, args, 32)


@m('vs_long')
def vs_long(ex, st, fr, I, args):
    return _vs_int(ex, st, fr, I, args, 64)


@m('vs_choice')
def vs_choice(ex, st, fr, I, args):
    p, n = E(ex, st, fr, args)
    nm = cstr(ex, st, p).decode()
    u = new_input(st, nm)
    if ex.concrete is not None:
        v = int(nextval(ex, st))
    elif n == 1:
        v = 0
    else:
        z = z3.BitVec(u, 32)
        k = ('v', z.get_id())
        v = st.known.get(k)
        if v is None:
            raise Fork(('v', z), [(z == i, i) for i in range(n)])
    if ex.shard and ex.concrete is None and st.shk < 3 and n > 1:
        st.shv = st.shv * n + v
        st.shk += 1
        if st.shk == 3 and st.shv % ex.shard[1] != ex.shard[0]:
            raise PathEnd()
    commit(st, nm)
    st.inputs.append((u, 'i', v, 0, n - 1))
    return v


@m('vs_concretize')
def vs_concretize(ex, st, fr, I, args):
    v, = E(ex, st, fr, args)
    return (v if isinstance(v, int) else ex.concretize(st, v)) & 0xffffffff


@m('vs_double')
def vs_double(ex, st, fr, I, args):
    p, lo, hi = E(ex, st, fr, args)
    nm = cstr(ex, st, p).decode()
    u = new_input(st, nm)
    if ex.concrete is not None:
        v = X.norm(float(nextval(ex, st)))
    else:
        v = X.var(_dom(ex, u, (lo, hi)), X.fin(lo), X.fin(hi))
    commit(st, nm)
    st.inputs.append((u, 'd', v, lo, hi))
    return v


@m('vs_char')
def vs_char(ex, st, fr, I, args):
    p, s = E(ex, st, fr, args)
    nm = cstr(ex, st, p).decode()
    dom = sorted(set(cstr(ex, st, s)))
    u = new_input(st, nm)
    if ex.concrete is not None:
        v = int(nextval(ex, st))
        commit(st, nm)
        st.inputs.append((u, 'i', v, dom[0], dom[-1]))
        return v & 0xff
    commit(st, nm)
    z = z3.BitVec(_dom(ex, u, tuple(dom)), 8)
    if len(dom) == dom[-1] - dom[0] + 1:
        st.pc.append(z3.And(z3.UGE(z, dom[0]), z3.ULE(z, dom[-1])))
    else:
        st.pc.append(z3.Or(*[z == v for v in dom]))
    ex.doms[z.get_id()] = (frozenset(dom), z)
    st.inputs.append((u, 'i', z, dom[0], dom[-1]))
    return z


@m('vs_numtok')
def vs_numtok(ex, st, fr, I, args):
    """double vs_numtok(char* dst, int width, int prec, char fmt, const char* name, double lo, double hi)"""
    dst, width, prec, fmt, p, lo, hi = E(ex, st, fr, args)
    nm = cstr(ex, st, p).decode()
    u = new_input(st, nm)
    fmt = chr(fmt & 0xff)
    if ex.concrete is not None:
        v = float(nextval(ex, st))
        txt = fmtnum(v, width, prec, fmt)
        val = X.norm(float(txt.replace('D', 'E')))
    else:
        k = st.names.get('%tok', 0)
        st.names['%tok'] = k + 1
        # unique filler of the right shape: mantissa digits carry the token number
        uid = '%d' % (1000 + k)
        if fmt in 'fF':
            nd = width - 1 - (prec + 1 if prec else 0) - 0
            digs = ('9' + uid + '7' * 40)
            ip = max(1, min(nd - 1, 5)) if prec else max(1, min(nd, 9))
            full = width - (prec + 1 if prec else 0)  # a range that always fills the field has no leading blanks
            if 1 <= full <= 15 and isinstance(lo, (int, float, Fraction)) and lo >= 10 ** (full - 1):
                ip = full
            txt = digs[:ip] + ('.' + digs[ip:ip + prec] if prec else '')
            if len(uid) + 1 > ip + prec:
                raise Unsupported('numtok too narrow')
        else:
            txt = '9.' + (uid + '7' * 40)[:prec] + ('E+00' if fmt in 'eE' else 'D+00')
        if isinstance(hi, (int, float, Fraction)) and hi < 0 and len(txt) < width:
            txt = '-' + txt
        txt = txt.rjust(width)
        if len(txt) > width:
            raise Unsupported('numtok too wide')
        val = X.var(_dom(ex, u, (lo, hi)), X.fin(lo), X.fin(hi))
        ex.toks[txt.strip().lstrip('-').replace('D', 'E')] = X.neg(val) if '-' in txt.split('E')[0].split('D')[0] else val
    for i, c in enumerate(txt):
        ex.store(st, ex.padd(dst, i), ord(c), llir.ity(8))
    commit(st, nm)
    st.inputs.append((u, 'd', X.norm(v) if ex.concrete is not None else val, lo, hi))
    return val


def fmtnum(v, width, prec, fmt):
    if fmt in 'fF':
        return '%*.*f' % (width, prec, v)
    s = '%*.*E' % (width, prec, v)
    return s.replace('E', 'D') if fmt in 'dD' else s


@m('vs_symbolic')
def vs_symbolic(ex, st, fr, I, args):
    return 0 if ex.concrete is not None and False else 1


@m('vs_assume')
def vs_assume(ex, st, fr, I, args):
    c, = E(ex, st, fr, args)
    c = cond(ex, c)
    if isinstance(c, int):
        if not c:
            raise PathEnd()
        return
    c = z3.simplify(c)
    if z3.is_true(c):
        return
    if st.known.get(c.get_id()):
        return
    if z3.is_false(c) or not ex.feasible(st, c):
        raise PathEnd()
    st.pc.append(c)
    st.known[c.get_id()] = True; st.keep.append(c)


def cond(ex, c):
    if isinstance(c, Undef):
        raise Violation('memsafe', 'assertion over an uninitialised value')
    if isinstance(c, int):
        return int(c != 0)
    if isinstance(c, z3.BoolRef):
        return c
    return c != z3.BitVecVal(0, c.size())


def truth(c):
    """strip zext(bool) patterns: If(b,1,0) != 0 simplifies in z3"""
    return c


@m('vs_assert')
def vs_assert(ex, st, fr, I, args):
    c = ex.ev(st, fr, args[0])
    lab = cstr(ex, st, ex.ev(st, fr, args[1])).decode()
    ex.require(st, cond(ex, c), lab, '')


@m('vs_close')
def vs_close(ex, st, fr, I, args):
    a, b, t, l = E(ex, st, fr, args)
    lab = cstr(ex, st, l).decode()
    if isinstance(a, Undef) or isinstance(b, Undef):
        raise Violation(lab, 'uninitialised value')
    if ex.concrete is not None:
        return
    ex.close(st, a, b, t, lab)


@m('vs_le')
def vs_le(ex, st, fr, I, args):
    """a <= b + tol"""
    a, b, t, l = E(ex, st, fr, args)
    lab = cstr(ex, st, l).decode()
    if isinstance(a, Undef) or isinstance(b, Undef):
        raise Violation(lab, 'uninitialised value')
    if ex.concrete is not None:
        return
    c = ex.rcmp('ole', ex.dbl(a), X.add(ex.dbl(b), ex.dbl(t)))
    ex.require(st, c, lab, '')


@m('vs_same')
def vs_same(ex, st, fr, I, args):
    """doubles are exactly the same value (moved/copied data)"""
    a, b, l = E(ex, st, fr, args)
    lab = cstr(ex, st, l).decode()
    if isinstance(a, Undef) or isinstance(b, Undef):
        raise Violation(lab, 'uninitialised value')
    if ex.concrete is not None:
        return
    a = ex.dbl(a); b = ex.dbl(b)
    if a is b:
        ex.ok(lab)
        if isinstance(a, R):
            ex.same_batch.append((a, b))
            if len(ex.same_batch) >= 400:
                ex.flush_same()
        return
    ex.close(st, a, b, Fraction(0), lab)


@m('vs_isnan')
def vs_isnan(ex, st, fr, I, args):
    a = ex.dbl(ex.ev(st, fr, args[0]))
    return int(isinstance(a, float) and a != a)


@m('vs_reach')
def vs_reach(ex, st, fr, I, args):
    l = cstr(ex, st, ex.ev(st, fr, args[0])).decode()
    st.reached.add(l)
    ex.reached.add(l)


@m('vs_obs_d')
def vs_obs_d(ex, st, fr, I, args):
    l, v = E(ex, st, fr, args)
    if ex.concrete is not None:
        if isinstance(v, Undef):
            v = math.nan
        st.obs.append((cstr(ex, st, l).decode(), X.tofloat(v)))


@m('vs_obs_i')
def vs_obs_i(ex, st, fr, I, args):
    l, v = E(ex, st, fr, args)
    if ex.concrete is not None:
        st.obs.append((cstr(ex, st, l).decode(), sgn(v, 64) if isinstance(v, int) else v))


@m('vs_heap_live')
def vs_heap_live(ex, st, fr, I, args):
    return st.live


@m('vs_undef_i')
def vs_undef_i(ex, st, fr, I, args):
    return Undef(I.ty)


# ------------------------------------------------------------------ heap
def alloc(ex, st, n, kind):
    n = ex.cint(st, n)
    if n > 1 << 24:
        if kind == 'malloc':
            return NULL
        raise Violation('memsafe', 'allocation of %d bytes' % n)
    o = ex.new_obj(st, n, kind, kind)
    if kind in ('new', 'new[]'):
        st.live += 1
    return Ptr(o.id, 0)


@m('_Znwm')
def op_new(ex, st, fr, I, args):
    return alloc(ex, st, ex.ev(st, fr, args[0]), 'new')


@m('_Znam')
def op_newa(ex, st, fr, I, args):
    return alloc(ex, st, ex.ev(st, fr, args[0]), 'new[]')


TABLE['_ZnwmRKSt9nothrow_t'] = op_new
TABLE['_ZnamRKSt9nothrow_t'] = op_newa
TABLE['_ZnwmSt11align_val_t'] = op_new
TABLE['_ZnamSt11align_val_t'] = op_newa


@m('malloc')
def malloc(ex, st, fr, I, args):
    return alloc(ex, st, ex.ev(st, fr, args[0]), 'malloc')


@m('calloc')
def calloc(ex, st, fr, I, args):
    a, b = E(ex, st, fr, args)
    p = alloc(ex, st, ex.cint(st, a) * ex.cint(st, b), 'malloc')
    if p.o:
        st.mem[p.o].fill = 0
    return p


@m('realloc')
def realloc(ex, st, fr, I, args):
    p, n = E(ex, st, fr, args)
    n = ex.cint(st, n)
    q = alloc(ex, st, n, 'malloc')
    if p.o:
        o = st.mem[p.o]
        ex.memcpy(st, q, p, min(o.size, n))
        release(ex, st, p, 'malloc')
    return q


def release(ex, st, p, kind):
    if isinstance(p, Undef):
        raise Violation('memsafe', 'free of an uninitialised pointer')
    if not isinstance(p, Ptr):
        p = ex.i2p(st, p)
    if p.o == 0:
        if isinstance(p.off, int) and p.off == 0:
            return
        raise Violation('memsafe', 'free of a wild pointer')
    o = st.mem.get(p.o)
    if o is None or p.off != 0 or not isinstance(p.off, int):
        raise Violation('memsafe', 'free of an interior/wild pointer')
    if not o.live:
        raise Violation('memsafe', 'double free')
    if o.kind != kind:
        raise Violation('memsafe', 'free of a %s object through %s' % (o.kind, kind))
    o = ex.wobj(st, p.o)
    o.live = False
    o.cells = {}
    if kind in ('new', 'new[]'):
        st.live -= 1


@m('_ZdlPv', '_ZdlPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t', '_ZdlPvRKSt9nothrow_t')
def op_del(ex, st, fr, I, args):
    release(ex, st, ex.ev(st, fr, args[0]), 'new')


@m('_ZdaPv', '_ZdaPvm', '_ZdaPvSt11align_val_t', '_ZdaPvRKSt9nothrow_t')
def op_dela(ex, st, fr, I, args):
    release(ex, st, ex.ev(st, fr, args[0]), 'new[]')


@m('free')
def free(ex, st, fr, I, args):
    release(ex, st, ex.ev(st, fr, args[0]), 'malloc')


# ------------------------------------------------------------------ memory / string functions
@m('memcpy', 'memmove', 'llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64', 'llvm.memcpy.inline.p0.p0.i64', 'llvm.memcpy.p0.p0.i32')
def memcpy(ex, st, fr, I, args):
    d, s, n = E(ex, st, fr, args[:3])
    ex.memcpy(st, d, s, n)
    return d


@m('memset', 'llvm.memset.p0.i64', 'llvm.memset.p0.i32')
def memset(ex, st, fr, I, args):
    d, b, n = E(ex, st, fr, args[:3])
    if isinstance(b, int):
        b &= 0xff
    elif isz(b) and b.size() > 8:
        b = z3.simplify(z3.Extract(7, 0, b))
    ex.memset(st, d, b, n)
    return d


@m('strlen')
def strlen(ex, st, fr, I, args):
    p = ex.ev(st, fr, args[0])
    return slen(ex, st, p)


def slen(ex, st, p, mx=None):
    k = 0
    while mx is None or k < mx:
        if beq(ex, st, rdb(ex, st, p, k), 0):
            return k
        k += 1
    return k


@m('strnlen')
def strnlen(ex, st, fr, I, args):
    p, n = E(ex, st, fr, args)
    return slen(ex, st, p, ex.cint(st, n))


def cmpn(ex, st, a, b, n, stop0, fold=False):
    k = 0
    while n is None or k < n:
        x = rdb(ex, st, a, k); y = rdb(ex, st, b, k)
        if fold:
            x = x if isinstance(x, int) else ex.concretize(st, x) & 255
            y = y if isinstance(y, int) else ex.concretize(st, y) & 255
            x = ord(chr(x).lower()); y = ord(chr(y).lower())
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                return (x - y) & 0xffffffff
            if stop0 and x == 0:
                return 0
        else:
            xb, yb = bv(x, 8), bv(y, 8)
            if isinstance(x, int):
                eq = beq(ex, st, y, x)
            elif isinstance(y, int):
                eq = beq(ex, st, x, y)
            else:
                eq = ex.decide(st, xb == yb)
            if not eq:
                return 0xffffffff if ex.decide(st, z3.ULT(xb, yb)) else 1
            if stop0:
                if isinstance(x, int):
                    z = x == 0
                elif isinstance(y, int):
                    z = y == 0
                else:
                    z = beq(ex, st, x, 0)
                if z:
                    return 0
        k += 1
    return 0


@m('memcmp', 'bcmp')
def memcmp(ex, st, fr, I, args):
    a, b, n = E(ex, st, fr, args)
    return cmpn(ex, st, a, b, ex.cint(st, n), False)


@m('strcmp')
def strcmp(ex, st, fr, I, args):
    a, b = E(ex, st, fr, args)
    return cmpn(ex, st, a, b, None, True)


@m('strncmp')
def strncmp(ex, st, fr, I, args):
    a, b, n = E(ex, st, fr, args)
    return cmpn(ex, st, a, b, ex.cint(st, n), True)


@m('strcasecmp')
def strcasecmp(ex, st, fr, I, args):
    a, b = E(ex, st, fr, args)
    return cmpn(ex, st, a, b, None, True, True)


@m('strncasecmp')
def strncasecmp(ex, st, fr, I, args):
    a, b, n = E(ex, st, fr, args)
    return cmpn(ex, st, a, b, ex.cint(st, n), True, True)


@m('strcpy', 'stpcpy')
def strcpy(ex, st, fr, I, args):
    d, s = E(ex, st, fr, args)
    n = slen(ex, st, s)
    ex.memcpy(st, d, s, n + 1)
    if I.a[0][1].name == 'stpcpy':
        return ex.padd(d, n)
    return d


@m('strncpy')
def strncpy(ex, st, fr, I, args):
    d, s, n = E(ex, st, fr, args)
    n = ex.cint(st, n)
    k = slen(ex, st, s, n)
    ex.memcpy(st, d, s, k)
    if n > k:
        ex.memset(st, ex.padd(d, k), 0, n - k)
    return d


@m('strcat')
def strcat(ex, st, fr, I, args):
    d, s = E(ex, st, fr, args)
    k = slen(ex, st, d)
    n = slen(ex, st, s)
    ex.memcpy(st, ex.padd(d, k), s, n + 1)
    return d


@m('strchr')
def strchr(ex, st, fr, I, args):
    p, c = E(ex, st, fr, args)
    c = ex.cint(st, c) & 0xff
    k = 0
    while True:
        b = rdb(ex, st, p, k)
        if beq(ex, st, b, c):
            return ex.padd(p, k)
        if beq(ex, st, b, 0):
            return NULL
        k += 1


@m('strrchr')
def strrchr(ex, st, fr, I, args):
    p, c = E(ex, st, fr, args)
    c = ex.cint(st, c) & 0xff
    k = 0
    last = NULL
    while True:
        b = rdb(ex, st, p, k)
        if beq(ex, st, b, c):
            last = ex.padd(p, k)
        if beq(ex, st, b, 0):
            return last
        k += 1


@m('memchr')
def memchr(ex, st, fr, I, args):
    p, c, n = E(ex, st, fr, args)
    c = ex.cint(st, c) & 0xff
    n = ex.cint(st, n)
    for k in range(n):
        if beq(ex, st, rdb(ex, st, p, k), c):
            return ex.padd(p, k)
    return NULL


@m('strstr')
def strstr(ex, st, fr, I, args):
    p, q = E(ex, st, fr, args)
    needle = cstr(ex, st, q)
    k = 0
    while True:
        j = 0
        while j < len(needle):
            b = rdb(ex, st, p, k + j)
            if not beq(ex, st, b, needle[j]):
                break
            j += 1
        if j == len(needle):
            return ex.padd(p, k)
        if beq(ex, st, rdb(ex, st, p, k), 0):
            return NULL
        k += 1


@m('strncat')
def strncat(ex, st, fr, I, args):
    d, s, n = E(ex, st, fr, args)
    k = slen(ex, st, d)
    n = slen(ex, st, s, ex.cint(st, n))
    ex.memcpy(st, ex.padd(d, k), s, n)
    ex.memset(st, ex.padd(d, k + n), 0, 1)
    return d


@m('mempcpy')
def mempcpy(ex, st, fr, I, args):
    d, s, n = E(ex, st, fr, args)
    n = ex.cint(st, n)
    ex.memcpy(st, d, s, n)
    return ex.padd(d, n)


@m('memrchr')
def memrchr(ex, st, fr, I, args):
    p, c, n = E(ex, st, fr, args)
    c = ex.cint(st, c) & 0xff
    for k in range(ex.cint(st, n) - 1, -1, -1):
        if beq(ex, st, rdb(ex, st, p, k), c):
            return ex.padd(p, k)
    return NULL


def span(ex, st, p, vals, want):
    k = 0
    while True:
        b = rdb(ex, st, p, k)
        if beq(ex, st, b, 0) or bool(inset(ex, st, b, vals)) != want:
            return k
        k += 1


@m('strspn')
def strspn(ex, st, fr, I, args):
    p, q = E(ex, st, fr, args)
    return span(ex, st, p, frozenset(cstr(ex, st, q)), True)


@m('strcspn')
def strcspn(ex, st, fr, I, args):
    p, q = E(ex, st, fr, args)
    return span(ex, st, p, frozenset(cstr(ex, st, q)), False)


@m('strpbrk')
def strpbrk(ex, st, fr, I, args):
    p, q = E(ex, st, fr, args)
    k = span(ex, st, p, frozenset(cstr(ex, st, q)), False)
    return NULL if beq(ex, st, rdb(ex, st, p, k), 0) else ex.padd(p, k)


def _strdup(ex, st, p, mx=None):
    n = slen(ex, st, p, mx)
    q = alloc(ex, st, n + 1, 'malloc')
    ex.memcpy(st, q, p, n)
    ex.memset(st, ex.padd(q, n), 0, 1)
    return q


@m('strdup')
def strdup(ex, st, fr, I, args):
    return _strdup(ex, st, ex.ev(st, fr, args[0]))


@m('strndup')
def strndup(ex, st, fr, I, args):
    p, n = E(ex, st, fr, args)
    return _strdup(ex, st, p, ex.cint(st, n))


@m('strtok_r')
def strtok_r(ex, st, fr, I, args):
    p, q, sv = E(ex, st, fr, args)
    vals = frozenset(cstr(ex, st, q))
    if not (isinstance(p, Ptr) and p.o):
        p = ex.load(st, sv, llir.PTR)
    if not (isinstance(p, Ptr) and p.o):
        return NULL
    p = ex.padd(p, span(ex, st, p, vals, True))
    if beq(ex, st, rdb(ex, st, p, 0), 0):
        ex.store(st, sv, p, llir.PTR)
        return NULL
    k = span(ex, st, p, vals, False)
    e = ex.padd(p, k)
    if not beq(ex, st, rdb(ex, st, e, 0), 0):
        ex.memset(st, e, 0, 1)
        e = ex.padd(e, 1)
    ex.store(st, sv, e, llir.PTR)
    return p


TABLE['__strdup'] = TABLE['strdup']
TABLE['__strtok_r'] = TABLE['strtok_r']
TABLE['index'] = TABLE['strchr']
TABLE['rindex'] = TABLE['strrchr']


# ------------------------------------------------------------------ number parsing
def p_int(ex, st, p, base, w, signed):
    """-> (value, nchars consumed or 0)"""
    if base not in (10, 0, 16):
        raise Unsupported('strtol base %r' % base)
    k = 0
    while inset(ex, st, rdb(ex, st, p, k), SPACES):
        k += 1
    neg = False
    b = rdb(ex, st, p, k)
    if inset(ex, st, b, (43, 45)):
        neg = beq(ex, st, b, 45)
        k += 1
    s = k
    v = 0
    while True:
        b = rdb(ex, st, p, k)
        if not isdig(ex, st, b):
            break
        if isinstance(b, int) and isinstance(v, int):
            v = v * 10 + (b - 48)
        else:
            d = z3.ZeroExt(64 - 8, bv(b, 8)) - z3.BitVecVal(48, 64)
            vv = z3.BitVecVal(v, 64) if isinstance(v, int) else v
            v = z3.simplify(vv * z3.BitVecVal(10, 64) + d)
            if k - s > 17:
                raise Unsupported('long symbolic integer text')
        k += 1
    if k == s:
        return 0, 0
    if isinstance(v, int):
        if base == 0 and k - s > 1:
            pass
        if neg:
            v = -v
        if signed:
            v = max(-(1 << 63), min((1 << 63) - 1, v))
            big = False
        return v & M64, k
    return (z3.simplify(-v) if neg else v), k


def _strtoi(signed):
    def f(ex, st, fr, I, args):
        p, e, b = E(ex, st, fr, args)
        if ex.cint(st, b) == 0:
            # base 0: leading zeros would mean octal
            pass
        v, n = p_int(ex, st, p, ex.cint(st, b), 64, signed)
        if isinstance(v, int) and signed:
            # range error
            t = rawint(ex, st, p)
            if t is not None and not (-(1 << 63) <= t < (1 << 63)):
                ex.store(st, Ptr(st.errno, 0), 34, llir.ity(32))
        if isinstance(e, Ptr) and e.o:
            ex.store(st, e, ex.padd(p, n), llir.PTR)
        return v
    return f


def rawint(ex, st, p):
    k = 0
    out = ''
    while True:
        b = rdb(ex, st, p, k)
        if not isinstance(b, int):
            return None
        if b in SPACES and not out:
            k += 1
            continue
        if (b in (43, 45) and not out) or 48 <= b <= 57:
            out += chr(b)
        else:
            break
        k += 1
    try:
        return int(out)
    except ValueError:
        return None


TABLE['strtol'] = TABLE['strtoll'] = TABLE['__isoc23_strtol'] = TABLE['__isoc23_strtoll'] = _strtoi(True)
TABLE['strtoul'] = TABLE['strtoull'] = TABLE['__isoc23_strtoul'] = TABLE['__isoc23_strtoull'] = _strtoi(False)


@m('atoi')
def atoi(ex, st, fr, I, args):
    p, = E(ex, st, fr, args)
    v, n = p_int(ex, st, p, 10, 64, True)
    if isinstance(v, int):
        return v & 0xffffffff
    return z3.simplify(z3.Extract(31, 0, v))


@m('atol')
def atol(ex, st, fr, I, args):
    p, = E(ex, st, fr, args)
    return p_int(ex, st, p, 10, 64, True)[0]


TABLE['atoll'] = TABLE['atol']


def p_dbl(ex, st, p, lim=None):
    """-> (real, n)   number text; symbolic characters are concretised"""
    def g(k):
        if lim is not None and k >= lim:
            return -1
        b = rdb(ex, st, p, k)
        return b if isinstance(b, int) else ex.concretize(st, b) & 0xff
    k = 0
    while g(k) in SPACES:
        k += 1
    s = k
    if g(k) in (43, 45):
        k += 1
    d0 = k
    t = ''
    low = ''.join(chr(g(k + j)) if 0 < g(k + j) < 128 else '\0' for j in range(1)).lower()
    if low in ('i', 'n'):
        w = ''
        for j in range(8):
            c = g(k + j)
            if c <= 0:
                break
            w += chr(c).lower()
        neg = g(s) == 45
        for word, val in (('infinity', math.inf), ('inf', math.inf), ('nan', math.nan)):
            if w.startswith(word):
                return (-val if neg else val), k + len(word)
        return X.norm(Fraction(0)), 0
    nd = 0
    while 48 <= g(k) <= 57:
        k += 1; nd += 1
    if g(k) == 46:
        j = k + 1
        nf = 0
        while 48 <= g(j) <= 57:
            j += 1; nf += 1
        if nd or nf:
            k = j; nd += nf
    if nd == 0:
        return X.norm(Fraction(0)), 0
    if g(k) in (69, 101):
        j = k + 1
        if g(j) in (43, 45):
            j += 1
        if 48 <= g(j) <= 57:
            while 48 <= g(j) <= 57:
                j += 1
            k = j
    txt = ''.join(chr(g(i)) for i in range(s, k))
    sym = ex.toks.get(txt.replace('e', 'E').lstrip('+-'))
    if sym is not None:
        return (X.neg(sym) if txt[0] == '-' else sym), k
    f = float(txt)
    if f in (math.inf, -math.inf) or abs(f) < 1e-300:
        return X.norm(f) if f not in (math.inf, -math.inf) else f, k
    return X.norm(f), k


@m('strtod', 'strtold')
def strtod(ex, st, fr, I, args):
    p, e = E(ex, st, fr, args)
    v, n = p_dbl(ex, st, p)
    if isinstance(v, float) and v in (math.inf, -math.inf):
        ex.store(st, Ptr(st.errno, 0), 34, llir.ity(32))
    if isinstance(e, Ptr) and e.o:
        ex.store(st, e, ex.padd(p, n), llir.PTR)
    return v


@m('strtof')
def strtof(ex, st, fr, I, args):
    v = strtod(ex, st, fr, I, args)
    if isinstance(v, R):
        return X.narrow32(v)
    return X.norm(Fraction(ex.f32(X.tofloat(v)))) if not X.special(v) and ex.f32(X.tofloat(v)) not in (math.inf, -math.inf) else v


@m('atof')
def atof(ex, st, fr, I, args):
    p, = E(ex, st, fr, args)
    return p_dbl(ex, st, p)[0]


@m('_ZSt10from_charsPKcS0_RdSt12chars_format')
def from_chars_d(ex, st, fr, I, args, fl=False):
    a, b, out, fmt = E(ex, st, fr, args)
    n = ex.cint(st, ex.binop(st, 'sub', b, a, llir.ity(64)))
    # no leading whitespace / plus allowed
    c = rdb(ex, st, a, 0) if n > 0 else 0
    c = c if isinstance(c, int) else ex.concretize(st, c) & 255
    if n <= 0 or c in SPACES or c == 43:
        return (a, 22)
    v, k = p_dbl(ex, st, a, n)
    if k == 0:
        return (a, 22)
    if fl:
        v = X.narrow32(v) if isinstance(v, R) else X.norm(Fraction(ex.f32(X.tofloat(v)))) if not X.special(v) else v
    ex.store(st, out, v, llir.F32 if fl else llir.F64)
    return (ex.padd(a, k), 0)


@m('_ZSt10from_charsPKcS0_RfSt12chars_format')
def from_chars_f(ex, st, fr, I, args):
    return from_chars_d(ex, st, fr, I, args, True)


@m('__errno_location')
def errno_loc(ex, st, fr, I, args):
    return Ptr(st.errno, 0)


# ------------------------------------------------------------------ ctype
def ctype(pred):
    vals = frozenset(v for v in range(256) if pred(v))

    def f(ex, st, fr, I, args):
        v = ex.ev(st, fr, args[0])
        if isinstance(v, int):
            return int(sgn(v, 32) in vals)
        b = z3.simplify(z3.Extract(7, 0, v))
        return int(inset(ex, st, b, vals))
    return f


TABLE['isspace'] = ctype(lambda v: v in SPACES)
TABLE['isblank'] = ctype(lambda v: v in (32, 9))
TABLE['isdigit'] = ctype(lambda v: 48 <= v <= 57)
TABLE['isalpha'] = ctype(lambda v: 65 <= v <= 90 or 97 <= v <= 122)
TABLE['isalnum'] = ctype(lambda v: 65 <= v <= 90 or 97 <= v <= 122 or 48 <= v <= 57)
TABLE['isupper'] = ctype(lambda v: 65 <= v <= 90)
TABLE['islower'] = ctype(lambda v: 97 <= v <= 122)
TABLE['isprint'] = ctype(lambda v: 32 <= v <= 126)
TABLE['iscntrl'] = ctype(lambda v: v < 32 or v == 127)
TABLE['isgraph'] = ctype(lambda v: 33 <= v <= 126)
TABLE['isxdigit'] = ctype(lambda v: 48 <= v <= 57 or 65 <= v <= 70 or 97 <= v <= 102)
TABLE['ispunct'] = ctype(lambda v: 33 <= v <= 126 and not chr(v).isalnum())


@m('toupper')
def toupper(ex, st, fr, I, args):
    v = ex.ev(st, fr, args[0])
    if isinstance(v, int):
        return v - 32 if 97 <= v <= 122 else v
    return z3.If(z3.And(v >= 97, v <= 122), v - 32, v)


@m('tolower')
def tolower(ex, st, fr, I, args):
    v = ex.ev(st, fr, args[0])
    if isinstance(v, int):
        return v + 32 if 65 <= v <= 90 else v
    return z3.If(z3.And(v >= 65, v <= 90), v + 32, v)


# ------------------------------------------------------------------ floating point
def f1(name):
    def f(ex, st, fr, I, args):
        v = ex.ev(st, fr, args[0])
        if isinstance(v, tuple):
            return tuple(X.fn1(name, ex.dbl(x)) for x in v)
        return X.fn1(name, ex.dbl(v))
    return f


for _n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'log10', 'sinh', 'cosh', 'tanh', 'cbrt', 'exp2', 'log2', 'log1p',
           'expm1', 'erf', 'tgamma', 'lgamma'):
    TABLE[_n] = f1(_n)
    TABLE['llvm.%s.f64' % _n] = TABLE[_n]


def sqrt_m(ex, st, fr, I, args):
    v = ex.ev(st, fr, args[0])
    if isinstance(v, tuple):
        return tuple(X.fsqrt(ex.dbl(x)) for x in v)
    v = ex.dbl(v)
    if isinstance(v, R):
        nn = 1 if X.iv(v)[0] >= 0 or X.nonneg(v) else ex.rcmp('oge', v, Fraction(0))
        if not isinstance(nn, int):
            # IEEE sqrt of a negative is NaN; the exact-real model needs a non-negative argument
            if not ex.decide(st, nn):
                return math.nan
        elif not nn:
            return math.nan
    return X.fsqrt(v)


for _n in ('sqrt', 'llvm.sqrt.f64', 'llvm.sqrt.v2f64', 'sqrtf', 'llvm.sqrt.f32'):
    TABLE[_n] = sqrt_m


def abs_m(ex, st, fr, I, args):
    v = ex.ev(st, fr, args[0])
    if isinstance(v, tuple):
        return tuple(dabs(ex, x) for x in v)
    return dabs(ex, v)


def dabs(ex, v):
    v = ex.dbl(v)
    if not isinstance(v, R):
        return abs(v)
    i = X.iv(v)
    if i[0] >= 0:
        return v
    if i[1] <= 0:
        return X.neg(v)
    return X.mk('abs', v)


for _n in ('fabs', 'llvm.fabs.f64', 'llvm.fabs.v2f64', 'fabsf', 'llvm.fabs.f32'):
    TABLE[_n] = abs_m


def f2(name):
    def f(ex, st, fr, I, args):
        a, b = E(ex, st, fr, args)
        return X.fn2(name, ex.dbl(a), ex.dbl(b))
    return f


for _n in ('pow', 'atan2', 'hypot'):
    TABLE[_n] = f2(_n)


@m('fmod')
def fmod_(ex, st, fr, I, args):
    a, b = E(ex, st, fr, args)
    return ex.fmod(st, ex.dbl(a), ex.dbl(b))


@m('ldexp', 'scalbn', 'llvm.ldexp.f64.i32')
def ldexp(ex, st, fr, I, args):
    a, n = E(ex, st, fr, args)
    n = n if isinstance(n, int) else ex.concretize(st, n)
    n &= 0xffffffff
    if n >> 31:
        n -= 1 << 32
    return X.mul(ex.dbl(a), X.norm(Fraction(2) ** n))


TABLE['llvm.pow.f64'] = TABLE['pow']


@m('llvm.powi.f64.i32')
def powi(ex, st, fr, I, args):
    a, b = E(ex, st, fr, args)
    n = sgn(ex.cint(st, b) & 0xffffffff, 32)
    return X.fn2('pow', ex.dbl(a), X.norm(Fraction(n)))


def rnd(kind):
    def one(ex, st, v):
        v = ex.dbl(v)
        if isinstance(v, R):
            i = X.iv(v)
            if i[0] > -1e6 and i[1] < 1e6 and i[1] - i[0] < 4000:
                lo = math.floor(i[0]) - 1; hi = math.ceil(i[1]) + 1
                if kind == 'trunc':
                    return X.norm(Fraction(ex.fork_trunc(st, v, lo, hi)))
                # floor: binary search on thresholds
                if kind == 'ceil':
                    return X.norm(Fraction(-_ffloor(ex, st, X.neg(v), -hi, -lo)))
                if kind == 'floor':
                    return X.norm(Fraction(_ffloor(ex, st, v, lo, hi)))
                if kind == 'round':
                    neg = ex.decide(st, ex.rcmp('olt', v, Fraction(0)))
                    a = X.neg(v) if neg else v
                    ai = X.iv(a)
                    k = _ffloor(ex, st, X.add(a, X.norm(Fraction(1, 2))), max(0, math.floor(ai[0]) - 1), math.ceil(ai[1]) + 2)
                    return X.norm(Fraction(-k if neg else k))
            if kind in ('floor', 'trunc'):
                return X.mk(kind, v)
            raise Unsupported(kind + ' of an unbounded symbolic double')
        if X.special(v):
            return v
        if kind == 'round':
            t = Fraction(v)
            k = math.floor(abs(t) + Fraction(1, 2))
            return X.norm(Fraction(-k if t < 0 else k))
        if kind == 'rint':
            return X.norm(Fraction(round(Fraction(v))))
        return X.norm(Fraction({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}[kind](v)))

    def f(ex, st, fr, I, args):
        v = ex.ev(st, fr, args[0])
        if isinstance(v, tuple):
            return tuple(one(ex, st, x) for x in v)
        return one(ex, st, v)
    return f


def _ffloor(ex, st, v, lo, hi):
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if ex.decide(st, ex.rcmp('oge', v, Fraction(mid))):
            lo = mid
        else:
            hi = mid - 1
    return lo


for _n in ('floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint'):
    TABLE[_n] = TABLE['llvm.%s.f64' % _n] = rnd('rint' if _n == 'nearbyint' else _n)


def lrnd(kind):
    g = rnd(kind)

    def f(ex, st, fr, I, args):
        v = g(ex, st, fr, I, args)
        if isinstance(v, R) or X.special(v):
            raise Unsupported('rounding of a symbolic double to an integer')
        return int(Fraction(v)) & M64
    return f


for _n, _k in (('lround', 'round'), ('llround', 'round'), ('lrint', 'rint'), ('llrint', 'rint')):
    TABLE[_n] = lrnd(_k)


def minmax(op):
    def f(ex, st, fr, I, args):
        a, b = E(ex, st, fr, args)
        a = ex.dbl(a); b = ex.dbl(b)
        if isinstance(a, float) and a != a:
            return b
        if isinstance(b, float) and b != b:
            return a
        c = ex.decide(st, ex.rcmp('olt', a, b))
        return (a if c else b) if op == 'min' else (b if c else a)
    return f


for _n in ('fmin', 'llvm.minnum.f64'):
    TABLE[_n] = minmax('min')
for _n in ('fmax', 'llvm.maxnum.f64'):
    TABLE[_n] = minmax('max')


@m('copysign', 'llvm.copysign.f64')
def copysign(ex, st, fr, I, args):
    a, b = E(ex, st, fr, args)
    a = dabs(ex, a); b = ex.dbl(b)
    if not isinstance(b, R):
        neg = math.copysign(1.0, X.tofloat(b)) < 0 if isinstance(b, float) else b < 0
    else:
        neg = ex.decide(st, ex.rcmp('olt', b, Fraction(0)))
    return X.neg(a) if neg else a


@m('llvm.fmuladd.f64', 'llvm.fma.f64', 'fma')
def fma(ex, st, fr, I, args):
    a, b, c = [ex.dbl(v) for v in E(ex, st, fr, args)]
    return X.add(X.mul(a, b), c)


@m('fdim')
def fdim(ex, st, fr, I, args):
    a, b = [ex.dbl(v) for v in E(ex, st, fr, args)]
    d = X.sub(a, b)
    c = ex.rcmp('ogt', d, Fraction(0)) if isinstance(d, R) else d > 0
    return d if (c if isinstance(c, (int, bool)) else ex.decide(st, c)) else X.norm(Fraction(0))


@m('modf')
def modf(ex, st, fr, I, args):
    a, p = E(ex, st, fr, args)
    a = ex.dbl(a)
    i = X.iv(a) if isinstance(a, R) else (0, 1e9)
    if i[1] - i[0] < 40 and abs(i[0]) < 1e8:
        t = X.norm(Fraction(ex.fork_trunc(st, a, math.floor(i[0]) - 1, math.ceil(i[1]) + 1)))
    else:
        t = TABLE['trunc'](ex, st, fr, I, args[:1])
    ex.store(st, p, t, llir.F64)
    return X.sub(ex.dbl(a), t)


@m('sincos')
def sincos(ex, st, fr, I, args):
    a, p, q = E(ex, st, fr, args)
    a = ex.dbl(a)
    ex.store(st, p, X.fn1('sin', a), llir.F64)
    ex.store(st, q, X.fn1('cos', a), llir.F64)


@m('llvm.is.fpclass.f64')
def fpclass(ex, st, fr, I, args):
    v, msk = E(ex, st, fr, args)
    v = ex.dbl(v)
    if isinstance(v, R):
        # finite: neg/pos normal or zero
        fin = msk & 0b0111111000 or msk & (0x8 | 0x10 | 0x20 | 0x40 | 0x80 | 0x100)
        if msk & 0x1f8 == 0x1f8:
            return 1
        if msk & 0x1f8 == 0:
            return 0
        raise Unsupported('is.fpclass of a symbolic double')
    if isinstance(v, float) and v != v:
        return int(bool(msk & 3))
    f = X.tofloat(v)
    if f == math.inf:
        return int(bool(msk & 0x200))
    if f == -math.inf:
        return int(bool(msk & 4))
    if f == 0:
        return int(bool(msk & (0x40 if math.copysign(1, f) > 0 else 0x20)))
    return int(bool(msk & (0x100 if f > 0 else 8)))


# ------------------------------------------------------------------ LLVM intrinsics
def nop(ex, st, fr, I, args):
    return None


def retarg0(ex, st, fr, I, args):
    return ex.ev(st, fr, args[0])


def ret0(ex, st, fr, I, args):
    return 0


@m('llvm.assume')
def assume(ex, st, fr, I, args):
    return None


@m('llvm.eh.typeid.for', 'llvm.eh.typeid.for.p0')
def typeidfor(ex, st, fr, I, args):
    return ex.typeid(args[0][1].name) & 0xffffffff


@m('llvm.objectsize.i64.p0')
def objsize(ex, st, fr, I, args):
    return M64


@m('llvm.abs.i32', 'llvm.abs.i64')
def iabs(ex, st, fr, I, args):
    v = ex.ev(st, fr, args[0])
    w = I.ty.w
    if isinstance(v, Undef):
        return v
    if isinstance(v, int):
        return abs(sgn(v, w)) & ((1 << w) - 1)
    if isinstance(v, RInt):
        r = rint_val(v, w)
        if X.iv(r)[0] >= 0 or not ex.decide(st, ex.rcmp('olt', r, Fraction(0))):
            return v
        return rint_mk(X.neg(r), w)
    return z3.simplify(z3.If(v < 0, -v, v))


TABLE['abs'] = TABLE['labs'] = TABLE['llabs'] = iabs


def imm(kind):
    def one(v, u, w, ex, st):
        if isinstance(v, RInt) or isinstance(u, RInt):
            a, b = rint_val(v, w), rint_val(u, w)
            if kind[0] == 'u' and (X.iv(a)[0] < 0 or X.iv(b)[0] < 0):
                raise Unsupported('unsigned minimum of an integral real')
            lt = ex.decide(st, ex.rcmp('olt', a, b))
            return v if lt == (kind[1:] == 'min') else u
        if isinstance(v, int) and isinstance(u, int):
            a, b = (sgn(v, w), sgn(u, w)) if kind[0] == 's' else (v, u)
            return (min if kind[1:] == 'min' else max)(a, b) & ((1 << w) - 1)
        x, y = bv(v, w), bv(u, w)
        c = {'smin': lambda: x < y, 'smax': lambda: x > y, 'umin': lambda: z3.ULT(x, y), 'umax': lambda: z3.UGT(x, y)}[kind]()
        return z3.simplify(z3.If(c, x, y))

    def f(ex, st, fr, I, args):
        a, b = E(ex, st, fr, args)
        if isinstance(a, Undef) or isinstance(b, Undef):
            return Undef(I.ty)
        if isinstance(a, tuple):
            return tuple(one(x, y, I.ty.el.w, ex, st) for x, y in zip(a, b))
        if isinstance(a, Ptr):
            a = ex.p2i(a)
        if isinstance(b, Ptr):
            b = ex.p2i(b)
        return one(a, b, I.ty.w, ex, st)
    return f


def ovf(op, signed):
    def f(ex, st, fr, I, args):
        a, b = E(ex, st, fr, args)
        w = args[0][2].w
        if isinstance(a, int) and isinstance(b, int):
            x, y = (sgn(a, w), sgn(b, w)) if signed else (a, b)
            r = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
            return (r & ((1 << w) - 1), int(not lo <= r <= hi))
        x, y = bv(a, w), bv(b, w)
        r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y}[op]()
        ext = z3.SignExt if signed else z3.ZeroExt
        X_, Y_ = ext(w, x), ext(w, y)
        R_ = {'add': lambda: X_ + Y_, 'sub': lambda: X_ - Y_, 'mul': lambda: X_ * Y_}[op]()
        return (z3.simplify(r), z3.simplify(ext(w, r) != R_))
    return f


def usat(op):
    def f(ex, st, fr, I, args):
        a, b = E(ex, st, fr, args)
        w = I.ty.w
        if op == 'usub.sat':
            if isinstance(a, int) and isinstance(b, int):
                return max(a - b, 0)
            x, y = bv(a, w), bv(b, w)
            return z3.simplify(z3.If(z3.UGT(x, y), x - y, z3.BitVecVal(0, w)))
        raise Unsupported(op)
    return f


def ctz(ex, st, fr, I, args):
    v = ex.cint(st, ex.ev(st, fr, args[0])); w = I.ty.w
    if v == 0:
        return w
    return (v & -v).bit_length() - 1


def clz(ex, st, fr, I, args):
    v = ex.cint(st, ex.ev(st, fr, args[0])); w = I.ty.w
    return w - v.bit_length()


def popcnt(ex, st, fr, I, args):
    v = ex.ev(st, fr, args[0]); w = I.ty.w
    if isinstance(v, int):
        return bin(v).count('1')
    r = z3.BitVecVal(0, w)
    for i in range(w):
        r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, v))
    return z3.simplify(r)


def fsh(left):
    def f(ex, st, fr, I, args):
        a, b, c = E(ex, st, fr, args)
        w = I.ty.w
        c = ex.cint(st, c) % w
        if not (isinstance(a, int) and isinstance(b, int)):
            x = z3.Concat(bv(a, w), bv(b, w))
            s = (w - c) if left else c
            return z3.simplify(z3.Extract(w + s - 1 if s < w else 2 * w - 1, s if s < w else w, x)) if s <= w else None
        v = (a << w) | b
        return ((v << c) >> w) & ((1 << w) - 1) if left else (v >> c) & ((1 << w) - 1)
    return f


def reduce_m(op):
    def f(ex, st, fr, I, args):
        vs = E(ex, st, fr, args)
        if op in ('fadd', 'fmul'):
            acc, vec = vs
            acc = ex.dbl(acc)
            for x in vec:
                acc = X.add(acc, ex.dbl(x)) if op == 'fadd' else X.mul(acc, ex.dbl(x))
            return acc
        vec = vs[0]
        acc = vec[0]
        for x in vec[1:]:
            acc = ex.binop(st, op, acc, x, I.ty)
        return acc
    return f


# ------------------------------------------------------------------ exceptions / runtime
@m('__cxa_allocate_exception')
def cxa_alloc(ex, st, fr, I, args):
    n = ex.cint(st, ex.ev(st, fr, args[0]))
    o = ex.new_obj(st, max(n, 64), 'exc', 'exception')
    return Ptr(o.id, 0)


@m('__cxa_throw')
def cxa_throw(ex, st, fr, I, args):
    p = ex.ev(st, fr, args[0])
    st.exc = (p, args[1][1].name, 0)
    raise Throw()


@m('__cxa_rethrow')
def cxa_rethrow(ex, st, fr, I, args):
    raise Throw()


@m('__cxa_begin_catch', '__cxa_get_exception_ptr')
def cxa_begin(ex, st, fr, I, args):
    return ex.ev(st, fr, args[0])


@m('_Unwind_Resume')
def unw(ex, st, fr, I, args):
    raise Throw()


@m('__cxa_guard_acquire')
def guard(ex, st, fr, I, args):
    p = ex.ev(st, fr, args[0])
    b = ex.load(st, p, llir.ity(8))
    return 0 if isinstance(b, int) and b else 1


@m('__cxa_guard_release')
def guardr(ex, st, fr, I, args):
    p = ex.ev(st, fr, args[0])
    ex.store(st, p, 1, llir.ity(8))


@m('__assert_fail')
def assert_fail(ex, st, fr, I, args):
    raise Violation('abort', 'assertion failed: ' + cstr(ex, st, ex.ev(st, fr, args[0])).decode('utf8', 'replace'))


@m('abort', '_ZSt9terminatev', '__clang_call_terminate', '__cxa_call_unexpected', '__cxa_pure_virtual', 'exit', '_exit',
   '_ZSt21__glibcxx_assert_failPKciS0_S0_')
def abort(ex, st, fr, I, args):
    raise Violation('abort', 'the program terminates')


def thrower(ti):
    def f(ex, st, fr, I, args):
        o = ex.new_obj(st, 64, 'exc', 'exception')
        st.exc = (Ptr(o.id, 0), ti, 0)
        raise Throw()
    return f


# ------------------------------------------------------------------ printf family
def sfmt(ex, st, fr, fmt, args):
    out = b''
    ai = 0
    i = 0
    while i < len(fmt):
        c = fmt[i:i + 1]
        if c != b'%':
            out += c
            i += 1
            continue
        mm = re.match(rb'%([-+ 0#]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|L)?([diouxXcsfFeEgGp%])', fmt[i:])
        if not mm:
            raise Unsupported('format')
        i += mm.end()
        fl, wd, pr, ln, cv = mm.groups()
        if cv == b'%':
            out += b'%'
            continue
        if wd == b'*':
            wd = b'%d' % sgn(ex.cint(st, args[ai]) & 0xffffffff, 32); ai += 1
        if pr == b'*':
            pr = b'%d' % sgn(ex.cint(st, args[ai]) & 0xffffffff, 32); ai += 1
        v = args[ai]; ai += 1
        f = b'%' + fl + (wd or b'') + (b'.' + pr if pr is not None else b'')
        if cv in b'diouxX':
            v = ex.cint(st, v)
            w = 64 if ln in (b'l', b'll', b'z', b'j') else 32
            v &= (1 << w) - 1
            if cv in b'di':
                v = sgn(v, w)
            out += f.replace(b'u', b'd') % v if False else (f + (b'd' if cv == b'u' else cv)) % v
        elif cv == b'c':
            out += (f + b'c') % (ex.cint(st, v) & 0xff)
        elif cv == b's':
            out += (f + b's') % cstr(ex, st, v)
        elif cv == b'p':
            out += b'0x1'
        else:
            v = ex.dbl(v)
            if isinstance(v, R):
                raise Unsupported('formatting a symbolic double')
            out += (f + cv) % X.tofloat(v)
    return out


def put(ex, st, p, data):
    for k, b in enumerate(data):
        ex.store(st, ex.padd(p, k), b, llir.ity(8))


@m('sprintf', '__sprintf_chk')
def sprintf(ex, st, fr, I, args):
    a = E(ex, st, fr, args)
    d = sfmt(ex, st, fr, cstr(ex, st, a[1]), a[2:])
    put(ex, st, a[0], d + b'\0')
    return len(d)


@m('snprintf')
def snprintf(ex, st, fr, I, args):
    a = E(ex, st, fr, args)
    d = sfmt(ex, st, fr, cstr(ex, st, a[2]), a[3:])
    n = ex.cint(st, a[1])
    if n:
        put(ex, st, a[0], d[:n - 1] + b'\0')
    return len(d)


def chkfmt(k):
    """memory checks only: strings printed with %s end inside their object"""
    def f(ex, st, fr, I, args):
        if len(args) <= k + 1:
            return 0
        a = E(ex, st, fr, args)
        fmt = a[k]
        if not (isinstance(fmt, Ptr) and isinstance(fmt.off, int)):
            return 0
        try:
            fmt = cstr(ex, st, fmt)
        except (Unsupported, Violation):
            return 0
        ai = k + 1
        for mm in re.finditer(rb'%([-+ 0#]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|L)?([diouxXcsfFeEgGpa%])', fmt):
            if mm.group(5) == b'%':
                continue
            ai += (mm.group(2) == b'*') + (mm.group(3) == b'*')
            if ai >= len(a):
                break
            v = a[ai]; ai += 1
            if mm.group(5) != b's' or mm.group(3) == b'*' or not (isinstance(v, Ptr) and isinstance(v.off, int)) or v.o not in st.mem:
                continue
            n = int(mm.group(3)) if mm.group(3) else 1 << 16
            for q in range(n):
                o, off = ex.offset(st, ex.padd(v, q), 1, 'printing')
                b = ex.rdbyte(o, off)
                if not isinstance(b, int) or b == 0:
                    break
        return 0
    return f


TABLE['printf'] = chkfmt(0)
TABLE['fprintf'] = chkfmt(1)
for _n in ('puts', 'putchar', 'fputs', 'fputc', 'fwrite', 'fflush', 'perror', 'vfprintf', 'putc'):
    TABLE[_n] = ret0
for _n in ('__cxa_end_catch', '__cxa_free_exception', '__cxa_atexit', 'llvm.donothing', 'llvm.trap'):
    TABLE[_n] = nop
TABLE['__cxa_atexit'] = ret0


# ------------------------------------------------------------------ pattern lookups
def override(name):
    """models that take precedence over a definition in the module"""
    if name.startswith(('_ZStls', '_ZNSolsE', '_ZSt4endl', '_ZNSo3put', '_ZNSo5flush', '_ZNSo9_M_insert', '_ZSt16__ostream_insert')):
        return retarg0
    if name.startswith('_ZNSt8ios_base4Init'):
        return nop
    return None


def lookup(name):
    if name in TABLE:
        return TABLE[name]
    if name.startswith('llvm.'):
        b = name[5:]
        if b.startswith(('lifetime', 'dbg', 'invariant', 'experimental.noalias', 'stackrestore', 'prefetch', 'var.annotation')):
            return nop
        if b.startswith('stacksave'):
            return lambda ex, st, fr, I, args: NULL
        if b.startswith(('expect', 'launder', 'strip', 'ptr.annotation', 'ssa.copy')):
            return retarg0
        q = b.split('.')
        if q[0] in ('smin', 'smax', 'umin', 'umax'):
            return imm(q[0])
        if q[0] == 'abs':
            return iabs
        if q[0] in ('cttz',):
            return ctz
        if q[0] == 'ctlz':
            return clz
        if q[0] == 'ctpop':
            return popcnt
        if q[0] in ('fshl', 'fshr'):
            return fsh(q[0] == 'fshl')
        if len(q) > 2 and q[1] == 'with':
            return ovf(q[0][1:], q[0][0] == 's')
        if b.startswith('usub.sat'):
            return usat('usub.sat')
        if b.startswith('vector.reduce.'):
            return reduce_m(q[2])
        if b.startswith('memcpy') or b.startswith('memmove'):
            return memcpy
        if b.startswith('memset'):
            return memset
        if b.startswith('fabs'):
            return abs_m
        if b.startswith('sqrt'):
            return sqrt_m
        if b.startswith('is.constant'):
            return ret0
        return None
    mm = re.match(r'_ZSt(\d+)__throw_(\w+?)(PKc|v|i|PKcz)', name)
    if mm:
        w = name[4 + len(mm.group(1)):][:int(mm.group(1))]
        t = w[len('__throw_'):]
        if t.endswith('_fmt'):
            t = t[:-4]
        return thrower('_ZTISt%d%s' % (len(t), t))
    if re.match(r'_ZNSt\d+(runtime_error|invalid_argument|out_of_range|logic_error|length_error|domain_error|range_error)(C|D)[12]', name) or \
       re.match(r'_ZNSt9exceptionD', name):
        return nop
    if re.match(r'_ZNKSt\d+(runtime_error|exception|logic_error)4whatEv', name):
        return lambda ex, st, fr, I, args: NULL
    if name.startswith('_ZNSt8ios_base') or name.startswith('_ZNSt6localeD') or name.startswith('_ZNSt6localeC'):
        return nop
    return None
