"""Exact-real expressions: hash-consed DAG nodes, polynomial normal form over algebraic /
transcendental atoms, interval enclosures, and translation of both to z3.

A `double` of the program is one of:
   Fraction        exact rational constant
   float           inf / nan / -0 (never in arithmetic with symbolic operands), or, in
                   ROUND mode, any concrete IEEE double
   R               symbolic real
"""
import math
import struct
from fractions import Fraction
import z3

ROUND = False          # concrete doubles folded with IEEE rounding instead of exactly


class NFTooBig(Exception):
    pass


class RealUnsupported(Exception):
    pass


class R:
    __slots__ = ('op', 'a', 'id', '_nf', '_iv')
    _tab = {}
    _n = 0

    def __repr__(self):
        return 'R<%s>' % (self.op,)


def mk(op, *a):
    key = (op,) + tuple((x.id if isinstance(x, R) else x) for x in a)
    # id ints could collide with Fraction ints -> tag
    key = (op,) + tuple(('#', x.id) if isinstance(x, R) else x for x in a)
    r = R._tab.get(key)
    if r is None:
        r = R()
        r.op = op; r.a = a
        R._n += 1
        r.id = R._n
        r._nf = None; r._iv = None
        R._tab[key] = r
    return r


def reset():
    R._tab.clear()
    R._n = 0
    Atom.tab.clear(); Atom.list.clear()
    TRIG.clear(); TRIG_BASE.clear(); del TRIG_PEND[:]
    _simpc.clear()


def var(name, lo, hi):
    return mk('v', name, Fraction(lo), Fraction(hi))


def special(x):
    return isinstance(x, float) and (x != x or x in (math.inf, -math.inf))


def fin(x):
    """Fraction of a finite constant"""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, int):
        return Fraction(x)
    if special(x):
        raise RealUnsupported('inf/nan meets symbolic value')
    return Fraction(x)


def trim(f):
    """result of a constant operation: overflow and underflow of double, bounded size otherwise"""
    s = f.numerator.bit_length() - f.denominator.bit_length()
    if s > 1024:
        return math.inf if f > 0 else -math.inf
    if s < -1076 and f:
        return Fraction(0)
    if f.denominator.bit_length() > 1200 or f.numerator.bit_length() > 4000:
        # keep ~400 significant bits
        k = 400 - s
        n = (f.numerator << k) // f.denominator if k >= 0 else (f.numerator // (f.denominator << -k))
        return Fraction(n) / (Fraction(2) ** k) if k >= 0 else Fraction(n) * (Fraction(2) ** (-k))
    return f


def tofloat(x):
    if isinstance(x, float):
        return x
    try:
        return float(x)
    except OverflowError:
        return math.inf if x > 0 else -math.inf


def norm(x):
    """const in canonical constant form of the current mode"""
    if isinstance(x, R):
        return x
    if ROUND:
        return tofloat(x)
    if isinstance(x, float):
        if special(x):
            return x
        return Fraction(x)
    return x if isinstance(x, Fraction) else Fraction(x)


def add(a, b):
    ra, rb = isinstance(a, R), isinstance(b, R)
    if not ra and not rb:
        if isinstance(a, float) or isinstance(b, float):
            return norm(tofloat(a) + tofloat(b)) if (ROUND or special(a) or special(b)) else Fraction(a) + Fraction(b)
        return trim(a + b)
    if not ra:
        a = fin(a)
        if a == 0:
            return b
    if not rb:
        b = fin(b)
        if b == 0:
            return a
    if ra and rb and a.id > b.id:
        a, b = b, a
    return mk('+', a, b)


def neg(a):
    if not isinstance(a, R):
        if isinstance(a, float):
            return -a
        return -a
    return mul(Fraction(-1), a)


def sub(a, b):
    if isinstance(a, R) and a is b:
        return norm(Fraction(0))
    if not isinstance(a, R) and not isinstance(b, R):
        if isinstance(a, float) or isinstance(b, float):
            return norm(tofloat(a) - tofloat(b)) if (ROUND or special(a) or special(b)) else Fraction(a) - Fraction(b)
        return trim(a - b)
    return add(a, neg(b if isinstance(b, R) else fin(b)))


def mul(a, b):
    ra, rb = isinstance(a, R), isinstance(b, R)
    if not ra and not rb:
        if isinstance(a, float) or isinstance(b, float):
            return norm(tofloat(a) * tofloat(b)) if (ROUND or special(a) or special(b)) else Fraction(a) * Fraction(b)
        return trim(a * b)
    if not ra:
        a = fin(a)
        if a == 0:
            return norm(Fraction(0))
        if a == 1:
            return b
    if not rb:
        b = fin(b)
        if b == 0:
            return norm(Fraction(0))
        if b == 1:
            return a
    if not rb:
        a, b = b, a
        ra, rb = rb, ra
    if not ra and b.op == '*' and not isinstance(b.a[0], R):
        return mul(a * b.a[0], b.a[1])
    if ra and rb and a.id > b.id:
        a, b = b, a
    return mk('*', a, b)


def div(a, b):
    ra, rb = isinstance(a, R), isinstance(b, R)
    if not ra and not rb:
        if ROUND or special(a) or special(b):
            x, y = tofloat(a), tofloat(b)
            if y == 0:
                if x == 0 or x != x:
                    return math.nan
                s = math.copysign(1, x) * math.copysign(1, y)
                return math.inf * s
            return norm(x / y)
        a = Fraction(a); b = Fraction(b)
        if b == 0:
            if a == 0:
                return math.nan
            return math.inf if a > 0 else -math.inf
        return trim(a / b)
    if not rb:
        if b in (math.inf, -math.inf):
            return norm(Fraction(0))
        b = fin(b)
        if b == 0:
            raise RealUnsupported('division of symbolic by 0')
        return mul(1 / b, a)
    if not ra:
        a = fin(a)
        if a == 0:
            return norm(Fraction(0))
    if a is b:
        return norm(Fraction(1))
    return mk('/', a, b)


def _isq(n):
    if n < 0:
        return None
    r = math.isqrt(n)
    return r if r * r == n else None


def csqrt(f):
    """sqrt of a nonnegative Fraction: exact when possible, else ~300 correct bits"""
    n, d = _isq(f.numerator), _isq(f.denominator)
    if n is not None and d is not None:
        return Fraction(n, d)
    k = 700
    return Fraction(math.isqrt((f.numerator << (2 * k)) // f.denominator), 1 << k)


def fsqrt(a):
    if not isinstance(a, R):
        if ROUND or special(a):
            x = tofloat(a)
            if x != x or x < 0:
                return math.nan
            return norm(math.sqrt(x)) if x != math.inf else x
        a = Fraction(a)
        if a < 0:
            return math.nan
        return csqrt(a)
    return mk('sqrt', a)


MATH1 = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'asin': math.asin, 'acos': math.acos, 'atan': math.atan,
         'exp': math.exp, 'log': math.log, 'log10': math.log10, 'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh,
         'cbrt': lambda x: math.copysign(abs(x) ** (1 / 3), x), 'exp2': lambda x: 2.0 ** x, 'log2': math.log2,
         'log1p': math.log1p, 'expm1': math.expm1, 'erf': math.erf,
         'tgamma': math.gamma, 'lgamma': math.lgamma}


def _f32e(x):
    try:
        return (struct.unpack('<f', struct.pack('<f', x))[0] / x - 1) * 2.0 ** 24 if x else 0.0
    except OverflowError:
        return 0.0


MATH1['f32e'] = _f32e


def narrow32(a):
    """a symbolic double rounded to float: a (1 + e 2^-24), e in [-1, 1]"""
    return add(a, mul(mul(a, norm(Fraction(1, 1 << 24))), mk('f32e', a)))


MATH2 = {'atan2': math.atan2, 'pow': math.pow, 'fmod': math.fmod, 'hypot': math.hypot}


def fn1(name, a):
    if not isinstance(a, R):
        x = tofloat(a)
        try:
            return norm(MATH1[name](x))
        except ValueError:
            return math.nan
        except OverflowError:
            return math.inf
    if name == 'tan':
        TRIG_PEND.append(a)
        return div(mk('sin', a), mk('cos', a))
    if name in ('sin', 'cos') and isinstance(a, R):
        TRIG_PEND.append(a)
    if name == 'log1p':
        return mk('log', add(a, norm(Fraction(1))))
    if name == 'expm1':
        return sub(mk('exp', a), norm(Fraction(1)))
    if name == 'exp2':
        return mk('exp', mul(a, norm(Fraction(math.log(2)))))
    if name == 'log2':
        return div(mk('log', a), norm(Fraction(math.log(2))))
    return mk(name, a)


def fn2(name, a, b):
    if not isinstance(a, R) and not isinstance(b, R):
        try:
            return norm(MATH2[name](tofloat(a), tofloat(b)))
        except ValueError:
            return math.nan
        except OverflowError:
            return math.inf
    if name == 'pow':
        if not isinstance(b, R):
            fb = fin(b)
            if fb.denominator == 1 and abs(fb) <= 64:
                n = int(fb)
                r = norm(Fraction(1))
                for _ in range(abs(n)):
                    r = mul(r, a)
                return r if n >= 0 else div(norm(Fraction(1)), r)
            if fb.denominator == 2 and abs(fb) <= 32:
                n = int(fb * 2)
                s = fsqrt(a)
                r = norm(Fraction(1))
                for _ in range(abs(n)):
                    r = mul(r, s)
                return r if n >= 0 else div(norm(Fraction(1)), r)
            if fb < 0:
                return div(norm(Fraction(1)), mk('pow', a if isinstance(a, R) else fin(a), -fb))
        return mk('pow', a if isinstance(a, R) else fin(a), b if isinstance(b, R) else fin(b))
    if name == 'hypot':
        return fsqrt(add(mul(a, a), mul(b, b)))
    return mk(name, a if isinstance(a, R) else fin(a), b if isinstance(b, R) else fin(b))


# ------------------------------------------------------------------ intervals (float, widened)
def _w(lo, hi):
    lo = -math.inf if lo != lo else lo
    hi = math.inf if hi != hi else hi
    return (lo - abs(lo) * 1e-14 - 1e-300, hi + abs(hi) * 1e-14 + 1e-300)


def _mulb(a, b):
    if a == 0 or b == 0:
        return 0.0
    try:
        return a * b
    except OverflowError:
        return math.inf


def ivmul(x, y):
    c = [_mulb(x[0], y[0]), _mulb(x[0], y[1]), _mulb(x[1], y[0]), _mulb(x[1], y[1])]
    return _w(min(c), max(c))


def ivpow(x, n):
    if n == 0:
        return (1.0, 1.0)
    if n < 0:
        p = ivpow(x, -n)
        return ivinv(p)
    try:
        a, b = x[0] ** n, x[1] ** n
    except OverflowError:
        return (-math.inf, math.inf)
    if n % 2:
        return _w(a, b)
    if x[0] <= 0 <= x[1]:
        return _w(0.0, max(a, b)) if False else (0.0, _w(0, max(a, b))[1])
    lo, hi = min(a, b), max(a, b)
    r = _w(lo, hi)
    return (max(r[0], 0.0), r[1])


def ivinv(p):
    if p[0] > 0 or p[1] < 0:
        return _w(min(1 / p[0], 1 / p[1]), max(1 / p[0], 1 / p[1]))
    if p[0] == 0 and p[1] > 0:
        return (1 / p[1] if p[1] != math.inf else 0.0, math.inf)
    return (-math.inf, math.inf)


def ivfn(op, ivs):
    x = ivs[0]
    if op == 'sqrt':
        lo = max(x[0], 0.0); hi = max(x[1], 0.0)
        r = _w(math.sqrt(lo), math.sqrt(hi) if hi != math.inf else math.inf)
        return (max(r[0], 0.0), r[1])
    if op in ('sin', 'cos'):
        lo, hi = x
        if hi - lo > 7 or lo == -math.inf or hi == math.inf or max(abs(lo), abs(hi)) > 1e6:
            return (-1.0, 1.0)
        f = math.sin if op == 'sin' else math.cos
        v = [f(lo), f(hi)]
        # extrema at k*pi/2
        k0 = math.floor(lo / (math.pi / 2)) - 1
        k1 = math.ceil(hi / (math.pi / 2)) + 1
        for k in range(int(k0), int(k1) + 1):
            t = k * math.pi / 2
            if lo - 1e-9 <= t <= hi + 1e-9:
                v.append(f(t))
        r = (min(v) - 1e-12, max(v) + 1e-12)
        return (max(-1.0, r[0]), min(1.0, r[1]))
    if op == 'exp':
        return (max(0.0, _w(math.exp(min(x[0], 700)), 0)[0]) if x[0] > -700 else 0.0,
                _w(0, math.exp(x[1]))[1] if x[1] < 700 else math.inf)
    if op == 'log':
        return (_w(math.log(x[0]), 0)[0] if x[0] > 0 else -math.inf, _w(0, math.log(x[1]))[1] if 0 < x[1] < math.inf else math.inf)
    if op == 'asin' or op == 'atan':
        return (-1.5707963267949, 1.5707963267949)
    if op == 'acos':
        return (0.0, 3.1415926535898)
    if op == 'atan2':
        return (-3.1415926535898, 3.1415926535898)
    if op == 'abs':
        if x[0] >= 0:
            return x
        if x[1] <= 0:
            return (-x[1], -x[0])
        return (0.0, max(-x[0], x[1]))
    if op == 'pow':
        if x[0] > 0:
            try:
                y = ivs[1]
                c = [x[0] ** y[0], x[0] ** y[1], x[1] ** y[0], x[1] ** y[1]]
                r = _w(min(c), max(c))
                return (max(0.0, r[0]), r[1])
            except OverflowError:
                pass
        y = ivs[1]
        frac = y[1] - y[0] < 1e-9 and y[0] != 0 and abs(y[0] - round(y[0])) > 1e-6  # a real value then needs base >= 0
        if frac:
            try:
                lo, hi = max(x[0], 0.0), max(x[1], 0.0)
                return _w(lo ** y[0], hi ** y[0])[0:2] if y[0] > 0 and lo > 0 else (0.0, _w(0, hi ** y[0])[1] if y[0] > 0 else math.inf)
            except OverflowError:
                return (0.0, math.inf)
        return (0.0, math.inf) if x[0] >= 0 else (-math.inf, math.inf)
    if op == 'fmod':
        y = ivs[1]
        m = max(abs(y[0]), abs(y[1]))
        lo = -m if x[0] < 0 else 0.0
        hi = m if x[1] > 0 else 0.0
        return (lo, hi)
    if op == 'f32e':
        return (-1.0, 1.0)
    if op == 'floor':
        return (x[0] - 1, x[1])
    if op == 'trunc':
        return (x[0] - 1, x[1] + 1)
    return (-math.inf, math.inf)


def iv(r):
    if not isinstance(r, R):
        f = tofloat(r)
        return (f, f) if isinstance(r, float) else _w(f, f) if Fraction(f) != r else (f, f)
    if r._iv is not None:
        return r._iv
    st = [r]
    while st:
        n = st[-1]
        if n._iv is not None:
            st.pop(); continue
        todo = [x for x in n.a if isinstance(x, R) and x._iv is None]
        if todo:
            st.extend(todo)
            continue
        st.pop()
        op = n.op
        if op == 'v':
            n._iv = (tofloat(n.a[1]), tofloat(n.a[2]))
        elif op == '+':
            x, y = iv(n.a[0]), iv(n.a[1])
            n._iv = _w(x[0] + y[0], x[1] + y[1])
        elif op == '*':
            if n.a[0] is n.a[1]:
                n._iv = ivpow(iv(n.a[0]), 2)
            else:
                n._iv = ivmul(iv(n.a[0]), iv(n.a[1]))
        elif op == '/':
            n._iv = ivmul(iv(n.a[0]), ivinv(iv(n.a[1])))
        else:
            n._iv = ivfn(op, [iv(x) for x in n.a])
    return r._iv


# ------------------------------------------------------------------ normal form
class Atom:
    tab = {}
    list = []
    __slots__ = ('id', 'kind', 'arg', 'iv', 'name', 'red', 'mate')

    @staticmethod
    def get(kind, key, arg, ivl, name=None):
        k = (kind, key)
        a = Atom.tab.get(k)
        if a is None:
            a = Atom()
            a.id = len(Atom.list)
            a.kind = kind; a.arg = arg; a.iv = ivl; a.name = name
            a.red = kind in ('sqrt', 'cos')
            a.mate = None
            Atom.tab[k] = a
            Atom.list.append(a)
        return a


ONE = ()
MAXTERMS = 60000


def pconst(c):
    c = Fraction(c)
    return {ONE: c} if c else {}


def patom(a, e=1):
    return {((a.id, e),): Fraction(1)}


def padd(p, q, k=1):
    if not q:
        return p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m)
        if v is None:
            r[m] = c * k if k != 1 else c
        else:
            v = v + c * k
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def pscale(p, k):
    if k == 0:
        return {}
    return {m: c * k for m, c in p.items()}


def _mm(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    out = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, e = m1[i]
        b, f = m2[j]
        if a == b:
            if e + f:
                out.append((a, e + f))
            i += 1; j += 1
        elif a < b:
            out.append(m1[i]); i += 1
        else:
            out.append(m2[j]); j += 1
    out.extend(m1[i:]); out.extend(m2[j:])
    return tuple(out)


def _needs(m):
    for (a, e) in m:
        at = Atom.list[a]
        if at.red:
            if at.kind == 'sqrt':
                if e not in (0, 1):
                    return (a, e)
            elif e >= 2:
                return (a, e)
        elif at.kind == 'inv' and e < 0:
            return (a, e)
    return None


_powc = {}


def _ppow(p, n):
    r = pconst(1)
    while n:
        if n & 1:
            r = pmul(r, p)
        n >>= 1
        if n:
            p = pmul(p, p)
    return r


def mono_reduce(m, c):
    nd = _needs(m)
    if nd is None:
        return {m: c}
    a, e = nd
    at = Atom.list[a]
    rest = tuple(x for x in m if x[0] != a)
    if at.kind == 'sqrt':
        h, o = divmod(e, 2)
        base = at.arg if h >= 0 else pinv(at.arg)
        q = _ppow(base, abs(h))
        if o:
            q = pmul(q, patom(at))
    elif at.kind == 'cos':
        h, o = divmod(e, 2)
        s = at.mate
        one_m_s2 = {ONE: Fraction(1), ((s.id, 2),): Fraction(-1)}
        q = _ppow(one_m_s2, h)
        if o:
            q = pmul(q, patom(at))
    else:   # inv with negative exponent
        q = _ppow(at.arg, -e)
    return pmul({rest: c}, q)


def pmul(p, q):
    if not p or not q:
        return {}
    if len(p) > len(q):
        p, q = q, p
    r = {}
    if len(p) * len(q) > 4 * MAXTERMS:
        raise NFTooBig()
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mm(m1, m2)
            c = c1 * c2
            if _needs(m) is not None:
                for mm, cc in mono_reduce(m, c).items():
                    v = r.get(mm)
                    if v is None:
                        r[mm] = cc
                    else:
                        v += cc
                        if v:
                            r[mm] = v
                        else:
                            del r[mm]
                continue
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v += c
                if v:
                    r[m] = v
                else:
                    del r[m]
    if len(r) > MAXTERMS:
        raise NFTooBig()
    return r


def pkey(p):
    return tuple(sorted(p.items()))


def mono_iv(m):
    x = (1.0, 1.0)
    for (a, e) in m:
        x = ivmul(x, ivpow(Atom.list[a].iv, e))
    return x


def piv(p):
    lo = hi = 0.0
    for m, c in p.items():
        cf = tofloat(c)
        x = ivmul(mono_iv(m), (cf, cf))
        lo += x[0]; hi += x[1]
    return _w(lo, hi)


def clear_lo(p):
    """(N, lo): N = p*M cleared of inverses, lo a lower bound of |M|"""
    fac = []
    N, M = clear(p, fac)
    lo = 1.0
    for at, k in fac:
        i = at.iv
        if at.kind == 'inv':
            h = max(abs(i[0]), abs(i[1]))
            b = 1 / h if h > 0 else 0.0
        else:
            b = i[0] if i[0] > 0 else -i[1] if i[1] < 0 else 0.0
        lo *= (b * (1 - 1e-12)) ** k
    return N, (lo if lo > 0 and lo < 1e300 else 0.0)


def clear(p, fac=None):
    """(N, M) with N = p*M, N free of inverse atoms and negative exponents"""
    M = pconst(1)
    while True:
        best = -1
        for m in p:
            for (a, e) in m:
                if a > best and (e < 0 or Atom.list[a].kind == 'inv'):
                    best = a
        if best < 0:
            return p, M
        at = Atom.list[best]
        if at.kind == 'inv':
            K = max((dict(m).get(best, 0) for m in p))
            if fac is not None:
                fac.append((at, K))
            pw = [pconst(1)]
            for _ in range(K):
                pw.append(pmul(pw[-1], at.arg))
            r = {}
            for m, c in p.items():
                e = dict(m).get(best, 0)
                rest = tuple(x for x in m if x[0] != best)
                r = padd(r, pmul({rest: c}, pw[K - e]))
            p = r
            M = pmul(M, pw[K])
        else:
            K = -min((dict(m).get(best, 0) for m in p))
            if fac is not None:
                fac.append((at, K))
            q = patom(at, K)
            p = pmul(p, q)
            M = pmul(M, q)
        if len(p) > MAXTERMS:
            raise NFTooBig()


def pinv(p):
    if not p:
        raise RealUnsupported('inverse of zero')
    if len(p) == 1:
        (m, c), = p.items()
        if all(Atom.list[a].kind not in ('inv', 'sqrt') for a, e in m):
            return {tuple((a, -e) for a, e in m): 1 / c}
        r = pconst(1 / c)
        for a, e in m:
            at = Atom.list[a]
            if at.kind == 'inv':
                r = pmul(r, _ppow(at.arg, e))
            elif at.kind == 'sqrt':
                # 1/s^e
                r = pmul(r, mono_reduce(((a, -e),), Fraction(1)))
            else:
                r = pmul(r, patom(at, -e))
        return r
    N, M = clear(p)
    # split monomial content
    if len(N) == 1:
        return pmul(M, pinv(N))
    common = None
    for m in N:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d[a]) for a, e in common.items() if a in d}
    common = {a: e for a, e in common.items() if e > 0}
    if common:
        cm = tuple(sorted((a, -e) for a, e in common.items()))
        N = {_mm(m, cm): c for m, c in N.items()}
        M = pmul(M, pinv({tuple(sorted(common.items())): Fraction(1)}))
    # single sqrt conjugate trick is not attempted
    lead = max(N)
    lc = N[lead]
    D = pscale(N, 1 / lc)
    if len(D) < 60:
        for a in {a for m in D for a, e in m if e >= 2 and Atom.list[a].kind == 'sin'}:
            mate = Atom.list[a].mate
            q = _rawdiv(D, {ONE: Fraction(1), ((a, 2),): Fraction(-1)})
            if q is not None and q:
                return pmul(pmul(pscale(M, 1 / lc), pinv(q)), patom(mate, -2))
    if 2 < len(D) < 60:
        for sg in (1, -1):
            rt = proot(D if sg == 1 else pscale(D, -1))
            if rt is not None:
                i = pinv(rt[1])
                return pmul(pscale(M, sg / (lc * rt[0])), pmul(i, i))
    at = Atom.get('inv', pkey(D), D, ivinv(piv(D)))
    return pmul(pscale(M, 1 / lc), patom(at))


def _is_sq_mono(m):
    return all(e % 2 == 0 for a, e in m)


def _rawsqrt(p):
    """polynomial q with q*q == p (no atom reductions), or None"""
    vs = sorted({a for m in p for a, e in m})
    if len(vs) > 12 or len(p) > 400:
        return None
    ix = {a: i for i, a in enumerate(vs)}
    def vec(m):
        v = [0] * len(vs)
        for a, e in m:
            if e < 0:
                return None
            v[ix[a]] = e
        return tuple(v)
    P = {}
    for m, c in p.items():
        v = vec(m)
        if v is None:
            return None
        P[v] = c
    lead = max(P)
    if any(e & 1 for e in lead):
        return None
    lc = P[lead]
    if lc <= 0:
        return None
    P = {m: c / lc for m, c in P.items()}
    h = tuple(e // 2 for e in lead)
    q = {h: Fraction(1)}
    rem = dict(P); del rem[lead]
    for _ in range(60):
        if not rem:
            break
        l = max(rem)
        t = tuple(x - y for x, y in zip(l, h))
        if min(t) < 0 or t >= h:
            return None
        c = rem[l] / 2
        for m, k in list(q.items()) + [(t, c / 2)]:
            mm = tuple(x + y for x, y in zip(m, t))
            v = rem.get(mm, 0) - 2 * c * k
            if v:
                rem[mm] = v
            else:
                rem.pop(mm, None)
        q[t] = c
    if rem:
        return None
    return lc, {tuple((vs[i], e) for i, e in enumerate(m) if e): c for m, c in q.items()}


def _variants(p):
    """the same polynomial with sin^2 of some angles rewritten to 1-cos^2 (no further reduction)"""
    tr = {}
    for m in p:
        for a, e in m:
            at = Atom.list[a]
            if at.kind == 'sin' and e >= 2:
                tr[a] = at.mate.id
    cand = [p]
    for a in list(tr)[:3]:
        nc = []
        for q in cand:
            r = {}
            for m, c in q.items():
                d = dict(m)
                e = d.pop(a, 0)
                h, o = divmod(e, 2)
                for j in range(h + 1):
                    dd = dict(d)
                    if o:
                        dd[a] = 1
                    if j:
                        dd[tr[a]] = dd.get(tr[a], 0) + 2 * j
                    k = tuple(sorted(dd.items()))
                    r[k] = r.get(k, 0) + c * math.comb(h, j) * (-1) ** j
            nc.append({k: v for k, v in r.items() if v})
        cand += nc
    return cand


def _rawdiv(p, d):
    """p / d as raw polynomials when exact, else None"""
    vs = sorted({a for q in (p, d) for m in q for a, e in m})
    ix = {a: i for i, a in enumerate(vs)}
    def conv(q):
        out = {}
        for m, c in q.items():
            v = [0] * len(vs)
            for a, e in m:
                if e < 0:
                    return None
                v[ix[a]] = e
            out[tuple(v)] = c
        return out
    P, D = conv(p), conv(d)
    if P is None or D is None:
        return None
    ld = max(D); cd = D[ld]
    q = {}
    for _ in range(400):
        if not P:
            break
        l = max(P)
        t = tuple(x - y for x, y in zip(l, ld))
        if t and min(t) < 0:
            return None
        c = P[l] / cd
        q[t] = c
        for m, k in D.items():
            mm = tuple(x + y for x, y in zip(m, t))
            v = P.get(mm, 0) - c * k
            if v:
                P[mm] = v
            else:
                P.pop(mm, None)
    if P:
        return None
    return {tuple((vs[i], e) for i, e in enumerate(m) if e): c for m, c in q.items()}


_simpc = {}


def simp(p):
    """cancel common factors between the numerator and an inverse atom's argument"""
    if len(p) > 80 or len(p) < 2:
        return p
    inv = sorted({a for m in p for a, e in m if Atom.list[a].kind == 'inv'}, reverse=True)
    if not inv or len(inv) > 3:
        return p
    key = pkey(p)
    r = _simpc.get(key)
    if r is not None:
        return r
    out = p
    for a in inv:
        D = Atom.list[a].arg
        if any(Atom.list[b].kind == 'inv' or e < 0 for m in D for b, e in m) or len(D) > 30:
            continue
        if not out:
            break
        K = max(dict(m).get(a, 0) for m in out)
        if K == 0 or K > 8:
            continue
        N = {}
        for m, c in out.items():
            e = dict(m).get(a, 0)
            rest = tuple(x for x in m if x[0] != a)
            N = padd(N, pmul({rest: c}, _ppow(D, K - e)))
            if len(N) > 300:
                break
        if len(N) > 300:
            continue
        # negative exponents of plain atoms: shift
        sh = {}
        for m in N:
            for b, e in m:
                if e < 0:
                    sh[b] = min(sh.get(b, 0), e)
        if any(Atom.list[b].kind == 'sqrt' for b in sh):
            continue
        if sh:
            up = tuple(sorted((b, -e) for b, e in sh.items()))
            N = {_mm(m, up): c for m, c in N.items()}
        k = 0
        while k < K:
            ok = None
            for q in _variants(N):
                z = _rawdiv(q, D) if q else {}
                if z is not None:
                    t = {}
                    for m, c in z.items():
                        t = padd(t, mono_reduce(m, c))
                    ok = t
                    break
            if ok is None:
                break
            N = ok; k += 1
            if not N:
                break
        if k:
            down = [(b, e) for b, e in sh.items()]
            if K - k:
                down.append((a, K - k))
            out = pmul(N, {tuple(sorted(down)): Fraction(1)}) if down else N
    if len(_simpc) < 20000:
        _simpc[key] = out
    return out


def proot(p):
    """(k, q) with p == k*q*q for a positive rational k, or None"""
    if not p or len(p) > 400:
        return None
    if any(e < 0 or Atom.list[a].kind == 'inv' for m in p for a, e in m):
        return None
    cand = _variants(p)
    for q in cand:
        if not q:
            continue
        r = _rawsqrt(q)
        if r is None:
            continue
        k, z = r
        out = {}
        for m, c in z.items():
            out = padd(out, mono_reduce(m, c))
        if pscale(pmul(out, out), k) == p:
            return k, out
    return None


def _snn(v, d=0):
    """structurally non-negative"""
    if not isinstance(v, R):
        return v >= 0
    if d > 40:
        return False
    op = v.op
    if op in ('sqrt', 'abs', 'exp'):
        return True
    if op == '*':
        return v.a[0] is v.a[1] or (_snn(v.a[0], d + 1) and _snn(v.a[1], d + 1))
    if op in ('+', '/'):
        return _snn(v.a[0], d + 1) and _snn(v.a[1], d + 1)
    if op == 'v':
        return v.a[1] >= 0
    return False


def nonneg(v):
    if _snn(v):
        return True
    p = nf(v)
    if piv(p)[0] >= 0:
        return True
    if any(e < 0 or Atom.list[a].kind == 'inv' for m in p for a, e in m):
        N, M = clear(p)
        i = piv(M)
        if not (i[0] >= 0 or proot(M) is not None):
            if i[1] <= 0:
                N = pscale(N, -1)
            else:
                return False
        p = N
        if piv(p)[0] >= 0:
            return True
    return proot(p) is not None


def psqrt(p):
    if len(p) > 1 and len(p) < 400:
        # even common powers of atoms of known sign come out of the root
        com = None
        for m in p:
            d = dict(m)
            com = d if com is None else {a: min(e, d.get(a, 0)) for a, e in com.items()} | {a: min(e, 0) for a, e in d.items() if a not in com}
        out = []
        for a, e in (com or {}).items():
            iva = Atom.list[a].iv
            h = e // 2
            if h and Atom.list[a].kind not in ('sqrt', 'cos') and (iva[0] >= 0 or (iva[1] <= 0 and h % 2 == 0)):
                if h < 0 and Atom.list[a].kind == 'inv':
                    continue
                out.append((a, h))
        if out:
            dn = tuple(sorted((a, -2 * h) for a, h in out))
            q = {_mm(m, dn): c for m, c in p.items()}
            return pmul(psqrt(q), {tuple(sorted(out)): Fraction(1)})
        if any(e < 0 or Atom.list[a].kind == 'inv' for m in p for a, e in m):
            try:
                N, M = clear(p)
                r = proot(M)
                if r is not None:
                    i = piv(r[1])
                    if i[0] >= 0 or i[1] <= 0:
                        d = pscale(r[1], csqrt(r[0]) * (1 if i[0] >= 0 else -1))
                        return pmul(psqrt(N), pinv(d))
                i = piv(M)
                if i[0] >= 0 and len(N) * len(M) < 400:
                    return pmul(psqrt(pmul(N, M)), pinv(M))
            except NFTooBig:
                pass
        else:
            r = proot(p)
            if r is not None:
                i = piv(r[1])
                if i[0] >= 0 or i[1] <= 0:
                    return pscale(r[1], csqrt(r[0]) * (1 if i[0] >= 0 else -1))
    return psqrt0(p)


def psqrt0(p):
    if not p:
        return {}
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0:
            r = pconst(csqrt(c))
            ok = True
            left = []
            for a, e in m:
                at = Atom.list[a]
                if e % 2 == 0 and at.iv[0] >= 0:
                    r = pmul(r, patom(at, e // 2))
                elif e % 4 == 0:
                    r = pmul(r, patom(at, e // 2))
                elif e % 2 == 0 and at.iv[1] <= 0:
                    r = pmul(r, pscale(patom(at, e // 2), -1))
                else:
                    left.append((a, e))
            if not left:
                return r
            q = {tuple(left): Fraction(1)}
            at = Atom.get('sqrt', pkey(q), q, ivfn('sqrt', [piv(q)]))
            return pmul(r, patom(at))
    # 1 - s^2 for a sine atom -> |cos|
    if len(p) == 2 and p.get(ONE) == 1:
        (m, c), = [(m, c) for m, c in p.items() if m != ONE]
        if c == -1 and len(m) == 1 and m[0][1] == 2 and Atom.list[m[0][0]].kind == 'sin':
            cs = Atom.list[m[0][0]].mate
            if cs.iv[0] >= 0:
                return patom(cs)
            if cs.iv[1] <= 0:
                return pscale(patom(cs), -1)
    # remove a rational square content
    lead = max(p)
    lc = abs(p[lead])
    r = csqrt(lc)
    if r * r == lc:
        q = pscale(p, 1 / lc)
    else:
        q = p
        r = Fraction(1)
    at = Atom.get('sqrt', pkey(q), q, ivfn('sqrt', [piv(q)]))
    return pscale(patom(at), r)


TRIG = {}     # leading monomial -> [argument polynomials with atoms]
TRIG_MERGE = 1e-11


def trig_near(p, q):
    """|p - q| below the merging tolerance for all values of the atoms"""
    d = 0.0
    for m in set(p) | set(q):
        e = tofloat(p.get(m, 0) - q.get(m, 0))
        if e:
            i = mono_iv(m)
            d += abs(e) * max(abs(i[0]), abs(i[1]))
            if not d < TRIG_MERGE:
                return False
    return True


def trig_atoms(argp):
    k = pkey(argp)
    s = Atom.tab.get(('sin', k))
    if s is not None:
        return s, s.mate
    lead = max(argp, key=lambda m: (abs(argp[m]), m))
    # arguments that differ by rounding only share their sine and cosine
    for q, s in TRIG.get(lead, ()):
        if Atom.tab.get(('sin', pkey(q))) is s and trig_near(argp, q):
            return s, s.mate
    r = _trig_atoms(argp, k)
    TRIG.setdefault(lead, []).append((argp, r[0]))
    return r


def _trig_atoms(argp, k):
    ivl = piv(argp)
    s = Atom.get('sin', k, argp, ivfn('sin', [ivl]))
    c = Atom.get('cos', k, argp, ivfn('cos', [ivl]))
    s.mate = c; c.mate = s
    return s, c


TRIG_BASE = {}     # monomial -> coefficients of the angles used as base
DEG = Fraction(math.pi) / 180


TRIG_PEND = []     # arguments of sines and cosines made since the last look


def trig_pending():
    """angles that are multiples of an input: the smallest one of a batch comes first"""
    seen = {}
    for a in TRIG_PEND:
        st = [(Fraction(1), a)]
        for _ in range(64):
            if not st:
                break
            c, n = st.pop()
            if not isinstance(n, R):
                continue
            if n.op == 'v':
                if n.a[1] != n.a[2]:
                    (m, one), = nf(n).items()
                    seen.setdefault(m, set()).add(abs(c))
            elif n.op == '+':
                st += [(c, x) for x in n.a]
            elif n.op == '*':
                k = [x for x in n.a if not isinstance(x, R)]
                if len(k) == 1 and isinstance(k[0], Fraction):
                    st.append((c * k[0], [x for x in n.a if isinstance(x, R)][0]))
            elif n.op == '/' and isinstance(n.a[1], Fraction) and n.a[1]:
                st.append((c / n.a[1], n.a[0]))
    del TRIG_PEND[:]
    for m, cs in seen.items():
        for c in sorted(cs):
            if c and c.denominator != 1:
                trig_base(m, c)


def trig_base(m, c):
    t = TRIG_BASE.setdefault(m, [])
    for b in [DEG] + t:
        k = round(c / b)
        if 1 <= k <= 4 and abs(c / b - k) < Fraction(1, 10**14):
            if k > 1:
                return k, b
            break
    if c not in t:
        t.append(c)
    return 1, c


def ptrig(p):
    """(sin p, cos p) as polynomials, expanding sums"""
    if TRIG_PEND:
        trig_pending()
    S, C = {}, pconst(1)
    items = [(m, c, None) for m, c in sorted(p.items())]
    # a long sum of products and trigonometric terms is one argument (no expansion)
    rest = [(m, c) for m, c, _ in items if m != ONE and not (len(m) == 1 and m[0][1] == 1 and Atom.list[m[0][0]].kind in ('var', 'atan2', 'acos', 'asin', 'atan'))]
    if len(rest) > 3:
        gone = {m for m, c in rest}
        items = [x for x in items if x[0] not in gone]
        c = max((abs(c), m) for m, c in rest)
        sg = 1 if dict(rest)[c[1]] > 0 else -1
        items.append((None, Fraction(sg), pscale(dict(rest), sg)))
    for m, c, group in items:
        if group is not None:
            s, cc = trig_atoms(group)
            s1, c1 = patom(s), patom(cc)
            if c < 0:
                s1 = pscale(s1, -1)
        elif m == ONE:
            f = tofloat(c)
            s1, c1 = pconst(Fraction(math.sin(f))), pconst(Fraction(math.cos(f)))
            # exact multiples of pi/2
            k = round(f / (math.pi / 2))
            if abs(f - k * math.pi / 2) < 1e-14 * max(1, abs(k)):
                s1 = pconst([0, 1, 0, -1][k % 4]); c1 = pconst([1, 0, -1, 0][k % 4])
        else:
            at = Atom.list[m[0][0]] if len(m) == 1 and m[0][1] == 1 else None
            n = 1
            base = pscale({m: Fraction(1)}, abs(c))
            if c.denominator == 1 and 1 < abs(c) <= 8:
                n = abs(int(c)); base = {m: Fraction(1)}
            elif abs(c) != 1 and (at is None or at.kind not in ('atan2', 'acos', 'asin', 'atan')):
                # small multiples of an angle seen before (or of a degree) are expanded
                n, b = trig_base(m, abs(c))
                base = {m: b}
            if at is not None and at.kind == 'atan2' and (abs(c) == 1 or n > 1):
                y, x = at.arg
                h = pinv(psqrt(padd(pmul(x, x), pmul(y, y))))
                s1, c1 = pmul(y, h), pmul(x, h)
            elif at is not None and at.kind == 'acos' and (abs(c) == 1 or n > 1):
                u = at.arg
                c1 = u; s1 = psqrt(padd(pconst(1), pmul(u, u), -1))
            elif at is not None and at.kind == 'asin' and (abs(c) == 1 or n > 1):
                u = at.arg
                s1 = u; c1 = psqrt(padd(pconst(1), pmul(u, u), -1))
            elif at is not None and at.kind == 'atan' and (abs(c) == 1 or n > 1):
                u = at.arg
                h = pinv(psqrt(padd(pconst(1), pmul(u, u))))
                s1, c1 = pmul(u, h), h
            else:
                s, cc = trig_atoms(base)
                s1, c1 = patom(s), patom(cc)
            bs, bc = s1, c1
            for _ in range(n - 1):
                s1, c1 = padd(pmul(s1, bc), pmul(c1, bs)), padd(pmul(c1, bc), pmul(s1, bs), -1)
            if c < 0:
                s1 = pscale(s1, -1)
        S, C = padd(pmul(S, c1), pmul(C, s1)), padd(pmul(C, c1), pmul(S, s1), -1)
    return S, C


def nf(r):
    if not isinstance(r, R):
        return pconst(fin(r))
    if r._nf is not None:
        return r._nf
    st = [r]
    while st:
        n = st[-1]
        if n._nf is not None:
            st.pop(); continue
        todo = [x for x in n.a if isinstance(x, R) and x._nf is None]
        if todo:
            st.extend(todo)
            continue
        st.pop()
        n._nf = _nf1(n)
    return r._nf


def _cst(p):
    if not p:
        return Fraction(0)
    if len(p) == 1 and ONE in p:
        return p[ONE]
    return None


def _nf1(n):
    op = n.op
    if op == 'v':
        if n.a[1] == n.a[2]:
            return pconst(n.a[1])
        return patom(Atom.get('var', n.a[0], None, (tofloat(n.a[1]), tofloat(n.a[2])), n.a[0]))
    A = [nf(x) for x in n.a]
    if op == '+':
        return simp(padd(A[0], A[1]))
    if op == '*':
        return pmul(A[0], A[1])
    if op == '/':
        return pmul(A[0], pinv(A[1]))
    cs = [_cst(x) for x in A]
    if op == 'sqrt':
        if cs[0] is not None:
            if cs[0] < 0:
                if cs[0] > -Fraction(1, 10**12):
                    return {}
                raise RealUnsupported('sqrt of negative constant')
            return pconst(csqrt(cs[0]))
        return psqrt(A[0])
    if op == 'sin':
        return ptrig(A[0])[0]
    if op == 'cos':
        return ptrig(A[0])[1]
    if all(c is not None for c in cs):
        if op == 'abs':
            return pconst(abs(cs[0]))
        if op == 'floor':
            return pconst(math.floor(cs[0]))
        if op == 'trunc':
            return pconst(math.trunc(cs[0]))
        if op in MATH1:
            return pconst(Fraction(MATH1[op](tofloat(cs[0]))))
        return pconst(Fraction(MATH2[op](tofloat(cs[0]), tofloat(cs[1]))))
    ivl = ivfn(op, [piv(x) for x in A])
    i2 = n._iv if n._iv is not None else iv(n)
    ivl = (max(ivl[0], i2[0]), min(ivl[1], i2[1]))
    if op == 'abs':
        x = piv(A[0])
        if x[0] >= 0:
            return A[0]
        if x[1] <= 0:
            return pscale(A[0], -1)
    if op == 'exp':
        # exp(a+b) = exp(a)exp(b) termwise, canonical sign
        r = pconst(1)
        for m, c in sorted(A[0].items()):
            lg = [i for i, h in m if h == 1 and Atom.list[i].kind == 'log'] if m != ONE else []
            if m == ONE:
                r = pscale(r, Fraction(math.exp(tofloat(c))))
            elif len(lg) == 1 and len(m) > 1 and piv(Atom.list[lg[0]].arg)[0] > 0:
                # exp(y log q) = q^y
                q = Atom.list[lg[0]].arg
                y = {tuple(x for x in m if x[0] != lg[0]): c}
                r = pmul(r, patom(Atom.get('pow', (pkey(q), pkey(y)), (q, y), ivfn('pow', [piv(q), piv(y)]))))
            else:
                base = {m: abs(c)}
                at = Atom.get('exp', pkey(base), base, ivfn('exp', [piv(base)]))
                r = pmul(r, patom(at, 1 if c > 0 else -1))
        return r
    if op == 'log' and len(A[0]) == 1:
        # log(c * prod exp(a_i)^n_i * rest) = log c + sum n_i a_i + log(rest)
        (m, c), = A[0].items()
        ex = [(i, n) for i, n in m if Atom.list[i].kind == 'exp']
        rest = tuple((i, n) for i, n in m if Atom.list[i].kind != 'exp')
        if c > 0 and (not rest or piv({rest: Fraction(1)})[0] > 0):
            r = pconst(Fraction(math.log(tofloat(c))) if c != 1 else 0)
            for i, n in ex:
                r = padd(r, pscale(Atom.list[i].arg, n))
            if rest:
                q = {rest: Fraction(1)}
                r = padd(r, patom(Atom.get('log', pkey(q), q, ivfn('log', [piv(q)]))))
            return r
    if op == 'log':
        at = Atom.get('log', pkey(A[0]), A[0], ivl)
        return patom(at)
    arg = A[0] if len(A) == 1 else tuple(A)
    at = Atom.get(op, tuple(pkey(x) for x in A), arg, ivl)
    return patom(at)


# ------------------------------------------------------------------ z3
def zconst(f):
    return z3.Q(f.numerator, f.denominator)


class ZCtx:
    """atoms -> z3 reals, with defining axioms fetched on demand"""

    def __init__(self):
        self.v = {}
        self.ax = {}
        self.byname = {}

    def atom(self, at):
        z = self.v.get(at.id)
        if z is not None:
            return z
        nm = 'a%d_%s' % (at.id, at.name or at.kind)
        z = z3.Real(nm)
        self.v[at.id] = z
        self.byname[nm] = at
        ax = []
        lo, hi = at.iv
        if lo > -math.inf:
            ax.append(z >= zconst(Fraction(lo)))
        if hi < math.inf:
            ax.append(z <= zconst(Fraction(hi)))
        self.ax[nm] = ax
        if at.kind == 'sqrt':
            ax.append(z >= 0)
            ax.append(z * z == self.poly(at.arg))
        elif at.kind == 'inv':
            ax.append(z * self.poly(at.arg) == 1)
        elif at.kind in ('sin', 'cos'):
            m = self.atom(at.mate)
            ax.append(z * z + m * m == 1)
        elif at.kind == 'abs':
            p = self.poly(at.arg)
            ax.append(z3.If(p >= 0, z == p, z == -p))
        elif at.kind == 'floor':
            p = self.poly(at.arg)
            k = z3.Int(nm + '_i')
            ax += [z == z3.ToReal(k), z <= p, p < z + 1]
        elif at.kind == 'trunc':
            p = self.poly(at.arg)
            k = z3.Int(nm + '_i')
            ax += [z == z3.ToReal(k), z3.If(p >= 0, z3.And(z <= p, p < z + 1), z3.And(z >= p, p > z - 1))]
        elif at.kind == 'fmod':
            p, q = self.poly(at.arg[0]), self.poly(at.arg[1])
            k = z3.Int(nm + '_i')
            aq = z3.If(q >= 0, q, -q)
            ax += [z == p - z3.ToReal(k) * q, z3.If(p >= 0, z3.And(z >= 0, z < aq), z3.And(z <= 0, z > -aq))]
        elif at.kind == 'exp':
            p = self.poly(at.arg)
            ax += [z > 0, z3.Implies(p > 0, z > 1), z3.Implies(p < 0, z < 1), z >= 1 + p]
        elif at.kind == 'pow' and _cst(at.arg[1]) is not None and at.iv[0] >= 0:
            # base^c for a constant c: exact for c close to 1/n within 1e-12 relative, else order against 1
            p = self.poly(at.arg[0])
            c = _cst(at.arg[1])
            n = round(1 / c) if c else 0
            if 2 < n <= 16 and abs(n * c - 1) < Fraction(1, 10**13):
                q = z
                for _ in range(n - 1):
                    q = q * z
                e = Fraction(1, 10**12)
                ax += [z >= 0, p >= 0, q <= p * zconst(1 + e), q >= p * zconst(1 - e)]
            s = 1 if c > 0 else -1
            ax += [z3.Implies(p >= 1, s * z >= s), z3.Implies(p <= 1, s * z <= s)]
        elif at.kind == 'int':
            pass
        return z

    def poly(self, p):
        ts = []
        for m, c in p.items():
            f = []
            d = []
            for a, e in m:
                z = self.atom(Atom.list[a])
                if e > 0:
                    f += [z] * e
                else:
                    d += [z] * (-e)
            t = zconst(c)
            if f:
                pr = f[0]
                for x in f[1:]:
                    pr = pr * x
                t = pr if c == 1 else t * pr
            for x in d:
                t = t / x
            ts.append(t)
        if not ts:
            return z3.RealVal(0)
        if len(ts) == 1:
            return ts[0]
        return z3.Sum(ts)

    def real(self, r):
        return self.poly(nf(r))


def ppr(p, d=0):
    def at(a):
        t = Atom.list[a]
        if t.kind == 'var':
            return t.name
        if isinstance(t.arg, dict) and d < 4:
            return '%s(%s)' % (t.kind, ppr(t.arg, d + 1))
        if isinstance(t.arg, tuple) and d < 4:
            return '%s(%s)' % (t.kind, ', '.join(ppr(x, d + 1) for x in t.arg))
        return '%s#%d' % (t.kind, a)
    out = []
    for m, c in list(p.items())[:12]:
        out.append('%.9g' % tofloat(c) + ''.join('*%s%s' % (at(a), '' if e == 1 else '^%d' % e) for a, e in m))
    return ' + '.join(out) + (' + ...%d' % len(p) if len(p) > 12 else '')
