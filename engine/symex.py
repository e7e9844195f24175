"""Symbolic executor for the LLVM IR of the harness + the real sources.

Integers are bit-vectors (z3) / python ints, doubles are exact reals (rexpr) or IEEE floats when
everything is concrete and ROUND mode is on.  Control flow is explored path by path; every
branch, bounds check and assertion that is not syntactically constant is decided by z3."""
import os, math, struct, time, sys, re
from fractions import Fraction
import z3
import llir
from llir import Unsupported, Undef, GRef, CExpr, size_of, struct_offs, PTR, F64, F32
import rexpr as X
from rexpr import R

M64 = (1 << 64) - 1


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off):
        self.o = o; self.off = off

    def __repr__(self):
        return 'Ptr(%r,%r)' % (self.o, self.off)


NULL = Ptr(0, 0)


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, FnPtr) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class DBits:
    """64-bit pattern of a symbolic double (only moved around or sign-manipulated)"""
    __slots__ = ('r',)

    def __init__(self, r):
        self.r = r


class RInt:
    """integer holding the integral part of a symbolic double (r is integer-valued)"""
    __slots__ = ('r',)

    def __init__(self, r):
        self.r = r


def rint_val(v, w):
    if isinstance(v, RInt):
        return v.r
    if isinstance(v, int):
        return Fraction(sgn(v, w))
    raise Unsupported('bit-vector combined with an integral real')


def rint_mk(r, w):
    if not isinstance(r, R):
        return int(Fraction(r)) & ((1 << w) - 1)
    i = X.iv(r)
    if not (-2.0 ** (w - 1) < i[0] and i[1] < 2.0 ** (w - 1)):
        raise Unsupported('integral real outside the integer type')
    return RInt(r)


class Obj:
    __slots__ = ('id', 'size', 'kind', 'cells', 'owner', 'live', 'name', 'fill', 'ro')

    def copy(self, owner):
        o = Obj()
        o.id = self.id; o.size = self.size; o.kind = self.kind
        o.cells = dict(self.cells); o.owner = owner; o.live = self.live
        o.name = self.name; o.fill = self.fill; o.ro = self.ro
        return o


class Frame:
    __slots__ = ('f', 'blk', 'ins', 'i', 'prev', 'loc', 'allocas', 'nvisit', 'ctor')


class Fork(Exception):
    def __init__(self, key, alts):
        self.key = key; self.alts = alts     # alts: [(constraint, value)]


class PathEnd(Exception):
    pass


class Violation(Exception):
    def __init__(self, label, detail=''):
        self.label = label; self.detail = detail


class Throw(Exception):
    pass


class Budget(Exception):
    pass


class State:
    _n = 0

    def __init__(self):
        State._n += 1
        self.id = State._n
        self.pc = []
        self.frames = []
        self.mem = {}
        self.known = {}
        self.keep = []
        self.model = None
        self.inputs = []
        self.nobj = 0
        self.live = 0
        self.steps = 0
        self.exc = None
        self.reached = set()
        self.obs = []
        self.errno = None
        self.names = {}
        self.forks = 0
        self.maybe = False
        self.shk = 0
        self.shv = 0

    def fork(self):
        s = State()
        s.pc = list(self.pc)
        s.frames = []
        for fr in self.frames:
            g = Frame()
            g.f = fr.f; g.blk = fr.blk; g.ins = fr.ins; g.i = fr.i; g.prev = fr.prev
            g.loc = dict(fr.loc); g.allocas = list(fr.allocas); g.nvisit = dict(fr.nvisit); g.ctor = fr.ctor
            s.frames.append(g)
        s.mem = dict(self.mem)
        s.known = dict(self.known)
        s.keep = list(self.keep)
        s.model = self.model
        s.inputs = list(self.inputs)
        s.nobj = self.nobj
        s.live = self.live
        s.steps = self.steps
        s.exc = self.exc
        s.reached = set(self.reached)
        s.obs = list(self.obs)
        s.errno = self.errno
        s.names = dict(self.names)
        s.forks = self.forks
        s.maybe = self.maybe
        s.shk = self.shk; s.shv = self.shv
        # both sides must copy objects on write from now on
        State._n += 1
        self.id = State._n
        return s


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def isz(v):
    return isinstance(v, z3.ExprRef)


def bv(v, w):
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if isinstance(v, RInt):
        raise Unsupported('integral real used as bits')
    return v


def tobool(v):
    if isinstance(v, z3.BoolRef):
        return v
    if isinstance(v, int):
        return v != 0
    return v == z3.BitVecVal(1, 1)


def znot(c):
    if isinstance(c, z3.BoolRef):
        return z3.Not(c)
    return 0 if c else 1


class Executor:
    def __init__(self, mod, opts=None):
        o = opts or {}
        self.mod = mod
        self.shard = o.get('shard')
        self.concrete = o.get('concrete')          # list of input values in call order -> concrete run
        self.loop_bound = o.get('loop_bound', 20000)
        self.max_steps = o.get('max_steps', 4000000)
        self.max_paths = o.get('max_paths', 20000)
        self.deadline = time.time() + o.get('time', 300)
        self.qtimeout = o.get('qtimeout', 10000)
        self.btimeout = opts.get('btimeout', 1000)
        self.fork_select = o.get('fork_select', True)
        self.z = X.ZCtx()
        self.gaddr = {}
        self.vs_cache = {}
        self.qcache = {}
        self.st_queries = 0
        self.st_qtime = 0.0
        self.st_unsat = 0; self.st_sat = 0; self.st_unknown = 0
        self.funcs_run = {}
        self.obls = {}       # label -> [discharged, violated, undecided]
        self.cands = []      # (label, detail, inputs)
        self.undecided = []
        self.reached = set()
        self.paths = 0
        self.instrs = 0
        self.doms = {}
        self.tinfo = {}
        self.fresh_n = 0
        self.notes = set()
        self.opcache = {}
        self.toks = {}
        self.same_batch = []
        self.disp = {k[3:]: getattr(self, k) for k in dir(self) if k.startswith('op_')}
        self.init_state = State()
        self._globals(self.init_state)
        import models
        self.models = models.TABLE
        self.model_mod = models

    # ---------------------------------------------------------------- memory
    def new_obj(self, st, size, kind, name=''):
        st.nobj += 1
        o = Obj()
        o.id = st.nobj; o.size = size; o.kind = kind; o.cells = {}; o.owner = st.id; o.live = True
        o.name = name; o.fill = None; o.ro = False
        st.mem[o.id] = o
        return o

    def _globals(self, st):
        for name, (ty, init, const, ext) in self.mod.globals.items():
            try:
                sz = size_of(ty)
            except Unsupported:
                sz = 8
            o = self.new_obj(st, sz, 'global', name)
            self.gaddr[name] = o.id
        for name, (ty, init, const, ext) in self.mod.globals.items():
            o = st.mem[self.gaddr[name]]
            if ext:
                o.fill = 0 if name in ('stderr', 'stdout', 'stdin') else None
                continue
            try:
                self._init(o, 0, ty, init)
            except Unsupported:
                pass
            o.ro = const
        e = self.new_obj(st, 4, 'global', 'errno')
        e.cells[0] = (4, 0)
        st.errno = e.id

    def _init(self, o, off, ty, v):
        if isinstance(v, bytes):
            for i, b in enumerate(v):
                o.cells[off + i] = (1, b)
            return
        if isinstance(v, tuple):
            if ty.k == 'st':
                for fo, ft, fv in zip(struct_offs(ty), ty.fields, v):
                    self._init(o, off + fo, ft, fv)
                return
            es = size_of(ty.el)
            for i, fv in enumerate(v):
                self._init(o, off + i * es, ty.el, fv)
            return
        if isinstance(v, Undef):
            return
        if ty.k in ('arr', 'st', 'vec') and v is None:
            return
        o.cells[off] = (llir.store_size(ty), self.cval(v, ty))

    def cval(self, v, ty):
        """runtime value of a constant"""
        if isinstance(v, Undef):
            return v
        k = ty.k
        if k == 'i':
            if isinstance(v, int):
                return v
            if isinstance(v, CExpr):
                return self.cexpr(v)
        if k == 'f':
            if ty.w == 32 and isinstance(v, float):
                pass
            return X.norm(v) if not isinstance(v, float) else (v if X.special(v) else X.norm(v))
        if k == 'ptr':
            if v is None:
                return NULL
            if isinstance(v, GRef):
                return self.gptr(v.name)
            if isinstance(v, CExpr):
                return self.cexpr(v)
        if k == 'vec' and isinstance(v, tuple):
            return tuple(self.cval(x, ty.el) for x in v)
        if k == 'vec' and isinstance(v, bytes):
            return tuple(v)
        if k == 'st' and isinstance(v, tuple):
            return tuple(self.cval(x, f) for x, f in zip(v, ty.fields))
        if k == 'arr':
            if isinstance(v, bytes):
                return tuple(v)
            return tuple(self.cval(x, ty.el) for x in v)
        if v is None:
            return None
        raise Unsupported('const %r of %r' % (v, ty))

    def gptr(self, name):
        oid = self.gaddr.get(name)
        if oid is not None:
            return Ptr(oid, 0)
        if name in self.mod.funcs or name in self.mod.decls:
            return FnPtr(name)
        a = self.mod.aliases.get(name)
        if a is not None:
            return self.cval(a, PTR)
        raise Unsupported('global ' + name)

    def cexpr(self, e):
        if e.op == 'gep':
            base = self.cval(e.args[0][1], e.args[0][2])
            return self.gep(base, e.ty, [self.cval(a[1], a[2]) for a in e.args[1:]], [a[2] for a in e.args[1:]])
        if e.op in ('bitcast', 'addrspacecast'):
            return self.cval(e.args[0][1], e.args[0][2])
        if e.op == 'ptrtoint':
            return self.p2i(self.cval(e.args[0][1], e.args[0][2]))
        if e.op == 'inttoptr':
            return self.i2p(None, self.cval(e.args[0][1], e.args[0][2]))
        if e.op in ('add', 'sub'):
            a = self.cval(e.args[0][1], e.args[0][2]); b = self.cval(e.args[1][1], e.args[1][2])
            return (a + b if e.op == 'add' else a - b) & ((1 << e.ty.w) - 1)
        if e.op in ('trunc',):
            return self.cval(e.args[0][1], e.args[0][2]) & ((1 << e.ty.w) - 1)
        raise Unsupported('constexpr ' + e.op)

    def gep(self, base, ty, idx, itys):
        off = 0
        t = ty
        for n, (i, it) in enumerate(zip(idx, itys)):
            if n == 0:
                sc = size_of(t)
            elif t.k == 'st':
                off = self.addoff(off, struct_offs(t)[i])
                t = t.fields[i]
                continue
            else:
                t = t.el
                sc = size_of(t)
            if isinstance(i, int):
                off = self.addoff(off, sgn(i, it.w) * sc)
            else:
                if isinstance(i, Undef):
                    i = self.fresh_bv('undef', it.w)
                e = i
                if it.w < 64:
                    e = z3.SignExt(64 - it.w, e)
                off = self.addoff(off, e * z3.BitVecVal(sc, 64) if sc != 1 else e)
        if isinstance(base, FnPtr):
            if off == 0:
                return base
            raise Unsupported('gep on function')
        if isinstance(base, Undef):
            raise Violation('memsafe', 'pointer arithmetic on an uninitialised pointer')
        return Ptr(base.o, self.addoff(base.off, off))

    def addoff(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a + b
        if isinstance(a, int):
            if a == 0:
                return b
            a = z3.BitVecVal(a & M64, 64)
        if isinstance(b, int):
            if b == 0:
                return a
            b = z3.BitVecVal(b & M64, 64)
        r = z3.simplify(a + b)
        if z3.is_bv_value(r):
            return sgn(r.as_long(), 64)
        return r

    SH = 26

    def p2i(self, p):
        if isinstance(p, FnPtr):
            return (0x7f0000000000 + (hash(p.name) & 0xffffff) * 16) & M64
        if isinstance(p, Undef):
            return Undef(llir.ity(64))
        b = p.o << self.SH
        if isinstance(p.off, int):
            return (b + p.off) & M64
        return z3.simplify(z3.BitVecVal(b, 64) + p.off) if b else p.off

    def i2p(self, st, v):
        if isinstance(v, int):
            s = sgn(v, 64)
            o = (s + (1 << (self.SH - 1))) >> self.SH if s > 0 else 0
            if s > 0:
                o = s >> self.SH
                if o > (st.nobj if st else 1 << 30):
                    o = 0
            return Ptr(o, s - (o << self.SH))
        if isinstance(v, (Ptr, FnPtr)):
            return v
        if isinstance(v, Undef):
            return Undef(PTR)
        # symbolic: find the object through a model
        m = self.get_model(st)
        c = m.eval(v, model_completion=True).as_long()
        o = c >> self.SH
        return Ptr(o, z3.simplify(v - z3.BitVecVal(o << self.SH, 64)))

    def wobj(self, st, oid):
        o = st.mem[oid]
        if o.owner != st.id:
            o = o.copy(st.id)
            st.mem[oid] = o
        return o

    def offset(self, st, p, n, what):
        """check an access of n bytes at p, return (oid, concrete offset)"""
        if isinstance(p, Undef):
            raise Violation('memsafe', what + ' through an uninitialised pointer')
        if isinstance(p, FnPtr):
            raise Violation('memsafe', what + ' of a function address')
        if isinstance(p, int) or isz(p):
            p = self.i2p(st, p)
        o = st.mem.get(p.o)
        if o is None:
            if isinstance(p.off, int) or True:
                raise Violation('memsafe', what + ' through a null/wild pointer')
        if not o.live:
            raise Violation('memsafe', what + ' of a dead object (%s %s)' % (o.kind, o.name))
        off = p.off
        if isinstance(off, int):
            if off < 0 or off + n > o.size:
                raise Violation('memsafe', '%s of %d bytes at offset %d of %s object %s of size %d' % (what, n, off, o.kind, o.name, o.size))
            return o, off
        # symbolic offset
        inb = z3.And(z3.ULE(off, z3.BitVecVal(max(o.size - n, 0), 64))) if o.size >= n else z3.BoolVal(False)
        self.require(st, inb, 'memsafe', '%s of %d bytes at a symbolic offset of %s object %s of size %d' % (what, n, o.kind, o.name, o.size))
        v = self.concretize(st, off)
        return o, v

    def load(self, st, p, ty):
        if ty.k in ('st', 'arr'):
            if ty.k == 'st':
                return tuple(self.load(st, self.padd(p, fo), ft) for fo, ft in zip(struct_offs(ty), ty.fields))
            es = size_of(ty.el)
            return tuple(self.load(st, self.padd(p, i * es), ty.el) for i in range(ty.n))
        if ty.k == 'vec':
            es = size_of(ty.el)
            return tuple(self.load(st, self.padd(p, i * es), ty.el) for i in range(ty.n))
        n = llir.store_size(ty)
        # table lookup of a small integer element at a symbolic offset: ITE chain
        if ty.k == 'i' and isinstance(p, Ptr) and not isinstance(p.off, int):
            o = st.mem.get(p.o)
            if o is not None and o.live and o.size <= 64 * n:
                r = self.load_ite(st, o, p.off, n, ty)
                if r is not None:
                    return r
        o, off = self.offset(st, p, n, 'read')
        return self.rd(st, o, off, n, ty)

    def load_ite(self, st, o, off, n, ty):
        if o.size < n:
            return None
        inb = z3.ULE(off, z3.BitVecVal(o.size - n, 64))
        if n > 1:
            if self.feasible(st, z3.URem(off, z3.BitVecVal(n, 64)) != 0):
                return None
        self.require(st, inb, 'memsafe', 'read of %d bytes at a symbolic offset of %s object %s of size %d' % (n, o.kind, o.name, o.size))
        r = None
        for k in range(o.size - n, -1, -n):
            v = self.rd(st, o, k, n, ty)
            if isinstance(v, Undef):
                v = self.fresh_bv('uninit', ty.w)
            if not (isinstance(v, int) or isinstance(v, (z3.BitVecRef, z3.BoolRef))):
                return None
            v = bv(v, ty.w)
            r = v if r is None else z3.If(off == z3.BitVecVal(k, 64), v, r)
        return z3.simplify(r)

    def padd(self, p, k):
        return Ptr(p.o, self.addoff(p.off, k))

    def rd(self, st, o, off, n, ty):
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return self.conv_cell(st, c[1], ty, n)
        if c is None and n == 1 and o.fill is None:
            # inside a wider cell?
            pass
        # gather bytes
        bs = []
        und = 0
        for k in range(n):
            b = self.rdbyte(o, off + k)
            if b is None:
                und += 1
            bs.append(b)
        if und == n:
            return Undef(ty)
        if und:
            self.notes.add('partially uninitialised read')
            bs = [self.fresh_bv('uninit', 8) if b is None else b for b in bs]
        if all(isinstance(b, int) for b in bs):
            v = 0
            for k in range(n):
                v |= bs[k] << (8 * k)
            return self.conv_cell(st, v, ty, n)
        if any(isinstance(b, tuple) for b in bs):
            # bytes of opaque cells: only a full contiguous copy is meaningful
            raise Unsupported('partial read of a pointer/double cell')
        v = bv(bs[n - 1], 8)
        for k in range(n - 2, -1, -1):
            v = z3.Concat(v, bv(bs[k], 8))
        v = z3.simplify(v)
        return self.conv_cell(st, v, ty, n)

    def rdbyte(self, o, off):
        for back in range(0, 16):
            c = o.cells.get(off - back)
            if c is not None:
                n, v = c
                if back >= n:
                    break
                if isinstance(v, Undef):
                    return None
                if isinstance(v, int):
                    return (v >> (8 * back)) & 0xff
                if isinstance(v, z3.BoolRef):
                    v = bv(v, 8 * n)
                if isinstance(v, z3.BitVecRef):
                    if v.size() != 8 * n:
                        v = z3.ZeroExt(8 * n - v.size(), v)
                    if n == 1:
                        return v
                    return z3.simplify(z3.Extract(8 * back + 7, 8 * back, v))
                if isinstance(v, Ptr):
                    i = self.p2i(v)
                    if isinstance(i, int):
                        return (i >> (8 * back)) & 0xff
                if isinstance(v, (float, Fraction)) and n in (4, 8):
                    f = X.tofloat(v)
                    return struct.pack('<d' if n == 8 else '<f', f)[back]
                return ('op', v, back)
        return o.fill

    def conv_cell(self, st, v, ty, n):
        k = ty.k
        if isinstance(v, Undef):
            return Undef(ty)
        if k == 'i':
            if isinstance(v, int):
                return v & ((1 << ty.w) - 1)
            if isinstance(v, z3.BitVecRef):
                if v.size() == ty.w:
                    if ty.w == 1:
                        return v == z3.BitVecVal(1, 1)
                    return v
                if v.size() > ty.w:
                    e = z3.simplify(z3.Extract(ty.w - 1, 0, v))
                    return e == z3.BitVecVal(1, 1) if ty.w == 1 else e
                return z3.ZeroExt(ty.w - v.size(), v)
            if isinstance(v, z3.BoolRef):
                return v if ty.w == 1 else bv(v, ty.w)
            if isinstance(v, (Ptr, FnPtr)):
                return v        # keep provenance: pointer travelling as i64
            if isinstance(v, (float, Fraction)):
                f = X.tofloat(v)
                return int.from_bytes(struct.pack('<d' if n == 8 else '<f', f), 'little')
            if isinstance(v, R):
                return DBits(v)
            if isinstance(v, (DBits, RInt)):
                return v
        elif k == 'ptr':
            if isinstance(v, (Ptr, FnPtr)):
                return v
            return self.i2p(st, v)
        elif k == 'f':
            if isinstance(v, (float, Fraction, R)):
                return v
            if isinstance(v, DBits):
                return v.r
            if isinstance(v, int):
                if n == 10:
                    raise Unsupported('x86_fp80 bits')
                return X.norm(struct.unpack('<d' if n == 8 else '<f', v.to_bytes(n, 'little'))[0]) if True else None
            if isz(v):
                raise Unsupported('symbolic bits as double')
        raise Unsupported('cell %r as %r' % (v, ty))

    def store(self, st, p, v, ty):
        if ty.k in ('st', 'arr', 'vec'):
            if isinstance(v, Undef):
                return
            if ty.k == 'st':
                for fo, ft, fv in zip(struct_offs(ty), ty.fields, v):
                    self.store(st, self.padd(p, fo), fv, ft)
            else:
                es = size_of(ty.el)
                for i, fv in enumerate(v):
                    self.store(st, self.padd(p, i * es), fv, ty.el)
            return
        n = llir.store_size(ty)
        o, off = self.offset(st, p, n, 'write')
        if o.ro:
            raise Violation('memsafe', 'write to constant object ' + o.name)
        if isinstance(v, z3.BoolRef):
            v = bv(v, 8 * n)
        elif isinstance(v, z3.BitVecRef) and v.size() < 8 * n:
            v = z3.ZeroExt(8 * n - v.size(), v)
        self.wr(st, o.id, off, n, v)

    def wr(self, st, oid, off, n, v):
        o = self.wobj(st, oid)
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            cells[off] = (n, v)
            return
        # split overlapping cells
        for k in range(off - 15, off + n):
            c = cells.get(k)
            if c is None:
                continue
            cn, cv = c
            if k + cn <= off:
                continue
            del cells[k]
            if k >= off and k + cn <= off + n:
                continue
            for j in range(cn):
                if off <= k + j < off + n:
                    continue
                cells[k] = (cn, cv)
                b = self.rdbyte(o, k + j)
                del cells[k]
                if isinstance(b, tuple):
                    raise Unsupported('partial overwrite of an opaque cell')
                cells.setdefault(('t', k + j), (1, b))
            for j in range(cn):
                t = cells.pop(('t', k + j), None)
                if t is not None and t[1] is not None:
                    cells[k + j] = t
        cells[off] = (n, v)

    def memcpy(self, st, d, s, n):
        n = self.cint(st, n)
        if n == 0:
            return
        so, soff = self.offset(st, s, n, 'read')
        do, doff = self.offset(st, d, n, 'write')
        if do.ro:
            raise Violation('memsafe', 'write to constant object ' + do.name)
        # collect
        items = []
        k = 0
        while k < n:
            c = so.cells.get(soff + k)
            if c is not None and k + c[0] <= n:
                items.append((k, c[0], c[1]))
                k += c[0]
            else:
                b = self.rdbyte(so, soff + k)
                if isinstance(b, tuple):
                    b = None  # part of a symbolic double: any value
                items.append((k, 1, b))
                k += 1
        cells = self.wobj(st, do.id).cells
        if len(items) > 1:
            for k in ([k for k, c in cells.items() if doff <= k and k + c[0] <= doff + n] if len(cells) < n else
                      [k for k in range(doff, doff + n) if k in cells and k + cells[k][0] <= doff + n]):
                del cells[k]
        for k, w, v in items:
            if v is None:
                # uninitialised: clear destination
                self.wr(st, do.id, doff + k, w, Undef(llir.ity(8)))
            else:
                self.wr(st, do.id, doff + k, w, v)

    def memset(self, st, d, b, n):
        n = self.cint(st, n)
        if n == 0:
            return
        do, doff = self.offset(st, d, n, 'write')
        if do.ro:
            raise Violation('memsafe', 'write to constant object ' + do.name)
        o = self.wobj(st, do.id)
        cells = o.cells
        if len(cells) < n:
            whole = [k for k, c in cells.items() if doff <= k and k + c[0] <= doff + n]
        else:
            whole = [k for k in range(doff, doff + n)
                     if k in cells and k + cells[k][0] <= doff + n]
        for k in whole:
            del cells[k]
        if not isinstance(b, int) :
            for k in range(n):
                self.wr(st, o.id, doff + k, 1, b)
            return
        b &= 0xff
        for k in range(n):
            self.wr(st, o.id, doff + k, 1, b)

    # ---------------------------------------------------------------- solving
    def vset(self, e):
        k = e.get_id()
        r = self.vs_cache.get(k)
        if r is not None:
            return r[0]
        out = set()
        seen = set()
        stack = [e]
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_const(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
            else:
                stack.extend(x.children())
        # close over atom definitions
        work = list(out)
        while work:
            nm = work.pop()
            for ax in self.z.ax.get(nm, ()):
                for y in self.vset(ax) if ax.get_id() in self.vs_cache else self._raw(ax):
                    if y not in out:
                        out.add(y); work.append(y)
        r = frozenset(out)
        self.vs_cache[k] = (r, e)
        return r

    def _raw(self, e):
        out = set(); seen = set(); stack = [e]
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_const(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
            else:
                stack.extend(x.children())
        return out

    def slice(self, pc, cond):
        vs = set(self.vset(cond))
        rest = [(c, self.vset(c)) for c in pc]
        out = []
        ch = True
        while ch and rest:
            ch = False
            nr = []
            for c, s in rest:
                if s & vs:
                    out.append(c); vs |= s; ch = True
                else:
                    nr.append((c, s))
            rest = nr
        return out, vs

    def query(self, cons, vs, timeout=None):
        """-> (status, model)"""
        key = frozenset(c.get_id() for c in cons)
        r = self.qcache.get(key)
        if r is not None and (r[0] != z3.unknown or timeout):
            return r[0], r[1]
        ax = []
        for nm in vs:
            ax += self.z.ax.get(nm, ())
        t0 = time.time()
        real = any(nm in self.z.ax for nm in vs)
        allreal = real and all(nm in self.z.ax for nm in vs)
        to = timeout or self.qtimeout
        res = z3.unknown
        model = None
        left = self.deadline - time.time()
        if left <= 0:
            raise Budget('time')
        to = int(min(to, max(left * 1000, 200)))
        if allreal:
            s = z3.SolverFor('QF_NRA')
            s.set('timeout', to)
            s.add(*cons); s.add(*ax)
            res = s.check()
            if timeout:
                to = max(to // 3, 300)
        if res == z3.unknown:
            s = z3.Solver()
            s.set('timeout', to)
            s.add(*cons); s.add(*ax)
            res = s.check()
        if res == z3.sat:
            model = s.model()
            self.st_sat += 1
        elif res == z3.unsat:
            self.st_unsat += 1
        else:
            self.st_unknown += 1
        self.st_queries += 1
        self.st_qtime += time.time() - t0
        self.qcache[key] = (res, model, list(cons))
        return res, model

    def check(self, st, cond, timeout=None):
        """is pc & cond satisfiable?"""
        if isinstance(cond, (bool, int)):
            return (z3.sat if cond else z3.unsat), None
        c = z3.simplify(cond)
        if z3.is_true(c):
            return z3.sat, None
        if z3.is_false(c):
            return z3.unsat, None
        sl, vs = self.slice(st.pc, c)
        return self.query(sl + [c], vs, timeout)

    def feasible(self, st, cond):
        r, m = self.check(st, cond, self.btimeout)
        if r == z3.unknown:
            self.notes.add('branch feasibility undecided (both sides explored)')
            return True
        return r == z3.sat

    def get_model(self, st):
        vs = set()
        for c in st.pc:
            vs |= self.vset(c)
        r, m = self.query(list(st.pc), vs)
        if r == z3.unsat:
            raise PathEnd()
        return m

    def decide(self, st, c):
        if isinstance(c, (bool, int)):
            return bool(c)
        if isinstance(c, Undef):
            c = self.fresh_bool('undef')
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = c.get_id()
        r = st.known.get(k)
        if r is not None:
            return r
        nc = z3.simplify(z3.Not(c))
        r = st.known.get(nc.get_id())
        if r is not None:
            return not r
        q = self.quick(c)
        if q is not None:
            st.known[k] = q; st.keep.append(c)
            return q
        t = self.feasible(st, c)
        if not t:
            st.known[k] = False; st.keep.append(c)
            return False
        f = self.feasible(st, nc)
        if not f:
            st.known[k] = True; st.keep.append(c)
            return True
        raise Fork(c, [(c, True), (nc, False)])

    def quick(self, c):
        """equality of a domain byte with a constant"""
        try:
            if c.decl().kind() == z3.Z3_OP_EQ:
                a, b = c.children()
                if z3.is_bv_value(a):
                    a, b = b, a
                if z3.is_bv_value(b):
                    v = b.as_long()
                    if a.decl().kind() in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
                        a = a.children()[0]
                    d = self.doms.get(a.get_id())
                    if d is not None and v not in d[0]:
                        return False
        except z3.Z3Exception:
            pass
        return None

    def concretize(self, st, e, limit=300):
        """value of an int expression; forks over all feasible values"""
        if isinstance(e, int):
            return e
        if isinstance(e, z3.BoolRef):
            return 1 if self.decide(st, e) else 0
        e = z3.simplify(e)
        if z3.is_bv_value(e):
            return sgn(e.as_long(), e.size())
        k = ('v', e.get_id())
        r = st.known.get(k)
        if r is not None:
            return r
        vals = []
        cons = []
        while True:
            r, m = self.check(st, z3.And(*cons) if cons else (e == e if False else z3.BoolVal(True)), None) if cons else self._chk_pc(st, e)
            if r == z3.unsat:
                break
            if r == z3.unknown:
                raise Unsupported('concretisation undecided')
            v = m.eval(e, model_completion=True)
            vals.append(v)
            cons.append(e != v)
            if len(vals) > limit:
                raise Unsupported('too many values to concretise')
        if not vals:
            raise PathEnd()
        if len(vals) == 1:
            x = sgn(vals[0].as_long(), e.size())
            st.known[k] = x; st.keep.append(e)
            return x
        vals.sort(key=lambda v: sgn(v.as_long(), e.size()))
        raise Fork(('v', e), [(e == v, sgn(v.as_long(), e.size())) for v in vals])

    def _chk_pc(self, st, e):
        sl, vs = self.slice(st.pc, e == e + 0 if False else (e == e))
        vs = set(self.vset(e))
        rest = [(c, self.vset(c)) for c in st.pc]
        out = []
        ch = True
        while ch:
            ch = False
            nr = []
            for c, s in rest:
                if s & vs:
                    out.append(c); vs |= s; ch = True
                else:
                    nr.append((c, s))
            rest = nr
        r, m = self.query(out, vs)
        if r == z3.sat and m is None:
            m = z3.Solver().model()
        return r, m

    def cint(self, st, v):
        if isinstance(v, int):
            return v
        if isinstance(v, Undef):
            raise Violation('memsafe', 'uninitialised size/length')
        return self.concretize(st, v) & M64 if isz(v) else v

    def ok(self, label):
        o = self.obls.setdefault(label, [0, 0, 0])
        o[0] += 1

    def require(self, st, cond, label, detail=''):
        """obligation: pc => cond ; violated -> candidate; afterwards cond is assumed"""
        if isinstance(cond, (bool, int)):
            if cond:
                self.ok(label)
                return
            raise Violation(label, detail)
        c = z3.simplify(cond)
        if z3.is_true(c):
            self.ok(label)
            return
        if z3.is_false(c):
            raise Violation(label, detail)
        if st.known.get(c.get_id()) is True:
            self.ok(label)
            return
        nc = z3.Not(c)
        r, m = self.check(st, nc)
        if r == z3.unsat:
            self.ok(label)
            st.known[c.get_id()] = True; st.keep.append(c)
            return
        if r == z3.sat:
            self.violate(st, label, detail, extra=nc)
        else:
            self.undec(st, label, detail)
        r2, _ = self.check(st, c)
        if r2 == z3.unsat:
            raise PathEnd()
        st.pc.append(c)
        st.known[c.get_id()] = True; st.keep.append(c)

    def violate(self, st, label, detail, extra=None):
        self.obls.setdefault(label, [0, 0, 0])[1] += 1
        if len([1 for c in self.cands if c[0] == label]) >= 6:
            return
        cons = list(st.pc) + ([extra] if extra is not None else [])
        vs = set()
        for c in cons:
            vs |= self.vset(c)
        r, m = self.query(cons, vs) if cons else (z3.sat, None)
        if r == z3.unsat:
            # infeasible path after all
            self.obls[label][1] -= 1
            return
        self.cands.append((label, detail, self.inputs_of(st, m), r == z3.sat))

    def undec(self, st, label, detail):
        self.obls.setdefault(label, [0, 0, 0])[2] += 1
        if len(self.undecided) < 40:
            self.undecided.append((label, detail, self.inputs_of(st, None)))

    def inputs_of(self, st, m):
        out = []
        for name, kind, term, lo, hi in st.inputs:
            if kind == 'd':
                v = None
                if m is not None and isinstance(term, R):
                    at = X.Atom.tab.get(('var', name))
                    if at is not None and at.id in self.z.v:
                        z = m.eval(self.z.v[at.id], model_completion=False)
                        try:
                            if z3.is_rational_value(z):
                                v = X.tofloat(Fraction(z.numerator_as_long(), z.denominator_as_long()))
                            elif z3.is_algebraic_value(z):
                                z = z.approx(30)
                                v = X.tofloat(Fraction(z.numerator_as_long(), z.denominator_as_long()))
                        except Exception:
                            v = None
                if not isinstance(term, R):
                    v = X.tofloat(term)
                if v is None:
                    lf, hf = X.tofloat(lo), X.tofloat(hi)
                    v = lf + (hf - lf) * 0.37
                out.append((name, 'd', v))
            else:
                if isinstance(term, int):
                    v = term
                elif m is not None:
                    v = m.eval(term, model_completion=True).as_long()
                    v = sgn(v, term.size())
                else:
                    v = lo
                out.append((name, 'i', v))
        return out

    def fresh_bv(self, nm, w):
        self.fresh_n += 1
        self.notes.add('undefined value used: ' + nm) if nm in ('undef', 'uninit') else None
        return z3.BitVec('%s!%d' % (nm, self.fresh_n), w)

    def fresh_bool(self, nm):
        self.fresh_n += 1
        self.notes.add('branch on an undefined value')
        return z3.Bool('%s!%d' % (nm, self.fresh_n))

    def fresh_real(self, nm):
        self.fresh_n += 1
        self.notes.add('undefined double used')
        return X.var('%s!%d' % (nm, self.fresh_n), -10**6, 10**6)

    # ---------------------------------------------------------------- reals
    def rcmp(self, pred, a, b):
        """ordered/unordered compare; returns python bool/int or z3 Bool"""
        if isinstance(a, Undef):
            a = self.fresh_real('undef')
        if isinstance(b, Undef):
            b = self.fresh_real('undef')
        if pred == 'ord' or pred == 'uno':
            nan = (isinstance(a, float) and a != a) or (isinstance(b, float) and b != b)
            return int((not nan) if pred == 'ord' else nan)
        if pred == 'true':
            return 1
        if pred == 'false':
            return 0
        ra, rb = isinstance(a, R), isinstance(b, R)
        base = pred[1:]
        nan = (isinstance(a, float) and a != a) or (isinstance(b, float) and b != b)
        if nan:
            return 1 if pred[0] == 'u' else 0
        if (not ra and isinstance(a, float) and X.special(a)) or (not rb and isinstance(b, float) and X.special(b)):
            # +-inf against finite/symbolic
            x = a if (not ra and X.special(a)) else 0.0
            y = b if (not rb and X.special(b)) else 0.0
            if x == y and x == 0.0:
                pass
            else:
                return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[base])
        if not ra and not rb:
            if isinstance(a, float) and not isinstance(b, float):
                b = X.tofloat(b) if X.ROUND else b
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[base])
        d = X.sub(a, b)
        if not isinstance(d, R):
            s = (d > 0) - (d < 0)
            return int({'eq': s == 0, 'ne': s != 0, 'lt': s < 0, 'le': s <= 0, 'gt': s > 0, 'ge': s >= 0}[base])
        q = self._iv_dec(base, X.iv(d))
        if q is not None:
            return q
        try:
            p = X.nf(d)
        except X.NFTooBig:
            # unconstrained value standing for this difference (over-approximation; a counterexample must replay)
            if not hasattr(self, 'opq'):
                self.opq = {}
            if id(d) not in self.opq:
                self.opq[id(d)] = (z3.Real('opq!%d' % len(self.opq)), d)
            z = self.opq[id(d)][0]
            return {'eq': z == 0, 'ne': z != 0, 'lt': z < 0, 'le': z <= 0, 'gt': z > 0, 'ge': z >= 0}[base]
        c = X._cst(p)
        if c is not None:
            s = (c > 0) - (c < 0)
            return int({'eq': s == 0, 'ne': s != 0, 'lt': s < 0, 'le': s <= 0, 'gt': s > 0, 'ge': s >= 0}[base])
        q = self._iv_dec(base, X.piv(p))
        if q is not None:
            return q
        if any(e < 0 or X.Atom.list[t].kind == 'inv' for m in p for t, e in m):
            # multiply by the denominators when their signs are known
            try:
                fac = []
                N, M = X.clear(p, fac)
                sg = 1
                for at, k in fac:
                    if k % 2:
                        sg *= 1 if at.iv[0] >= 0 else -1 if at.iv[1] <= 0 else 0
                if sg and N and len(N) < 300:
                    p = N if sg > 0 else X.pscale(N, -1)
                    q = self._iv_dec(base, X.piv(p))
                    if q is not None:
                        return q
            except X.NFTooBig:
                pass
        if len(p) > 1:
            # canonical scale, so that proportional conditions coincide
            c = abs(p[max(p)])
            if c != 1:
                p = X.pscale(p, 1 / c)
        z = self.z.poly(p)
        return {'eq': z == 0, 'ne': z != 0, 'lt': z < 0, 'le': z <= 0, 'gt': z > 0, 'ge': z >= 0}[base]

    def _iv_dec(self, base, i):
        lo, hi = i
        if lo > 0:
            return int(base in ('ne', 'gt', 'ge'))
        if hi < 0:
            return int(base in ('ne', 'lt', 'le'))
        if lo >= 0 and base == 'ge':
            return 1
        if lo >= 0 and base == 'lt':
            return 0
        if hi <= 0 and base == 'le':
            return 1
        if hi <= 0 and base == 'gt':
            return 0
        return None

    def close(self, st, a, b, tol, label):
        """obligation |a-b| <= tol"""
        a = self.dbl(a); b = self.dbl(b); tol = self.dbl(tol)
        for v in (a, b):
            if not isinstance(v, R) and X.special(v):
                if not isinstance(a, R) and not isinstance(b, R) and a == b:
                    self.ok(label)
                    return
                raise Violation(label, 'non-finite value')
        d = X.sub(a, b)
        if not isinstance(d, R):
            if abs(d) <= tol:
                self.ok(label)
                return
            raise Violation(label, 'difference %g' % X.tofloat(d))
        tol = X.fin(tol)
        t0 = time.time()
        p = None
        try:
            p = X.nf(d)
            if self._bounded(p, tol):
                self.ok(label)
                return
            n, lo = X.clear_lo(p)
            if self._bounded(n, tol * Fraction(lo) * Fraction(99, 100)):
                self.ok(label)
                return
        except X.NFTooBig:
            self.undec(st, label, 'normal form too large')
            return
        if os.environ.get('VS_DBG'):
            print('OPEN', label, len(p), X.ppr(p)[:3000], '|| CLEARED', X.ppr(n)[:2000])
        # let z3 decide it
        if len(p) < 400:
            z = self.z.poly(p)
            t = X.zconst(tol)
            c = z3.Or(z > t, z < -t)
            r, m = self.check(st, c)
            if r == z3.unsat:
                self.ok(label)
                return
            if r == z3.sat:
                # prefer a witness with a large gap
                for g in (1000000, 1000):
                    c2 = z3.Or(z > t * g, z < -t * g)
                    r2, m2 = self.check(st, c2, 3000)
                    if r2 == z3.sat:
                        self.violate(st, label, 'difference exceeds tolerance', extra=c2)
                        return
                self.violate(st, label, 'difference exceeds tolerance', extra=c)
                return
        self.undec(st, label, 'difference not bounded by tolerance (%d terms)' % len(p))

    def _bounded(self, p, tol):
        """z3 (linear) decides: no monomial values inside their enclosures make |p| > tol"""
        s = z3.Solver()
        s.set('timeout', 20000)
        ts = []
        k = 0
        tot = 0.0
        for m, c in p.items():
            lo, hi = X.mono_iv(m)
            if lo == -math.inf or hi == math.inf:
                return False
            tot += max(abs(lo), abs(hi)) * abs(X.tofloat(c))
            v = z3.Real('m%d' % k)
            if c.denominator.bit_length() > 128:
                # same or larger |c m| with a short coefficient and a symmetric range
                hi = max(abs(lo), abs(hi))
                lo = -hi
                c = Fraction(math.ceil(abs(c) * (1 << 64)), 1 << 64)
            k += 1
            s.add(v >= X.zconst(Fraction(lo)), v <= X.zconst(Fraction(hi)))
            ts.append(X.zconst(c) * v)
        # hopeless sums are not worth a query unless they may cancel through their intervals
        pi = X.piv(p)
        if p and not (pi[1] <= X.tofloat(tol) * 1.0001 and pi[0] >= -X.tofloat(tol) * 1.0001):
            return False
        t = X.zconst(tol)
        e = z3.Sum(ts) if ts else z3.RealVal(0)
        s.add(z3.Or(e > t, e < -t))
        t0 = time.time()
        r = s.check()
        self.st_queries += 1
        self.st_qtime += time.time() - t0
        if r == z3.unsat:
            self.st_unsat += 1
            return True
        return False

    def dbl(self, v):
        if isinstance(v, Undef):
            return self.fresh_real('undef')
        if isinstance(v, DBits):
            return v.r
        return v

    # ---------------------------------------------------------------- running
    def ev(self, st, fr, o):
        if o[0] == 'l':
            try:
                return fr.loc[o[1]]
            except KeyError:
                raise Unsupported('undefined local ' + o[1])
        if o[0] == 'byval':
            src = self.ev(st, fr, o[1])
            n = size_of(o[2])
            nb = self.new_obj(st, n, 'stack', 'byval')
            fr.allocas.append(nb.id)
            self.memcpy(st, Ptr(nb.id, 0), src, n)
            return Ptr(nb.id, 0)
        k = id(o)
        c = self.opcache.get(k)
        if c is not None:
            return c[0]
        v = self.cval(o[1], o[2])
        self.opcache[k] = (v, o)
        return v

    def push(self, st, fname, args, ctor=False):
        f = self.mod.get(fname)
        self.funcs_run[fname] = self.funcs_run.get(fname, 0) + 1
        if len(st.frames) > 200:
            raise Violation('termination', 'recursion deeper than 200 frames')
        fr = Frame()
        fr.f = f; fr.blk = f.entry; fr.ins = f.blocks[f.entry]; fr.i = 0; fr.prev = None
        fr.loc = {}
        for (t, nm), v in zip(f.params, args):
            fr.loc[nm] = v
        fr.allocas = []
        fr.nvisit = {}
        fr.ctor = ctor
        st.frames.append(fr)

    def goto(self, st, fr, lab):
        n = fr.nvisit.get(lab, 0) + 1
        fr.nvisit[lab] = n
        if n > self.loop_bound:
            raise Violation('termination', 'loop bound %d exceeded in %s' % (self.loop_bound, fr.f.name))
        prev = fr.blk
        ins = fr.f.blocks[lab]
        vals = []
        k = 0
        for I in ins:
            if I.op != 'phi':
                break
            vals.append((I.res, self.ev(st, fr, I.x[prev])))
            k += 1
        for r, v in vals:
            fr.loc[r] = v
        fr.prev = prev; fr.blk = lab; fr.ins = ins; fr.i = k

    def run(self, entry):
        work = [self.init_state]
        st = self.init_state
        self.push(st, entry, [])
        for c in reversed(self.mod.ctors):
            self.push(st, c, [], True)
        while work:
            st = work.pop()
            try:
                self.run_state(st, work)
            except PathEnd:
                pass
            if self.paths > self.max_paths:
                raise Budget('paths')
        self.flush_same()
        return self

    def run_state(self, st, work):
        frames = st.frames
        disp = self.disp
        n = 0
        try:
            while True:
                fr = frames[-1]
                I = fr.ins[fr.i]
                n += 1
                if (n & 255) == 0:
                    self.instrs += 256
                    st.steps += 256
                    if st.steps > self.max_steps:
                        raise Budget('steps')
                    if time.time() > self.deadline:
                        raise Budget('time')
                try:
                    h = disp.get(I.op)
                    if h is None:
                        raise Unsupported(I.line)
                    if h(st, fr, I):
                        # finished
                        self.paths += 1
                        self.finish(st)
                        return
                except Fork as fk:
                    self.do_fork(st, fk, work)
                    return
                except (Unsupported, X.RealUnsupported) as e:
                    raise type(e)('%s [in %s: %s]' % (e, fr.f.name, str(I.line)[:160]))
                except Violation as v:
                    self.violate(st, v.label, v.detail + ' [in %s]' % fr.f.name)
                    self.paths += 1
                    return
                except Throw:
                    if not self.unwind(st):
                        self.violate(st, 'uncaught', 'exception escapes')
                        self.paths += 1
                        return
        finally:
            self.instrs += n & 255

    def do_fork(self, st, fk, work):
        alts = fk.alts
        if len(alts) > 1:
            st.forks += 1
        out = []
        for n, (c, v) in enumerate(alts):
            s = st if n == len(alts) - 1 else st.fork()
            out.append((s, c, v))
        for s, c, v in out:
            s.pc.append(c)
            if isinstance(fk.key, tuple):
                e = fk.key[1]
                s.known[('v', e.get_id())] = v
                s.keep.append(e)
            else:
                s.known[fk.key.get_id()] = v
                s.keep.append(fk.key)
            work.append(s)

    def finish(self, st):
        self.reached |= st.reached
        self.last = st

    def flush_same(self):
        """identity obligations collected so far, decided by one solver query"""
        bt, self.same_batch = self.same_batch, []
        if not bt:
            return
        s = z3.Solver()
        t0 = time.time()
        s.add(z3.Or(*[self.z.real(a) != self.z.real(b) for a, b in bt]))
        r = s.check()
        self.st_queries += 1
        self.st_qtime += time.time() - t0
        if r == z3.unsat:
            self.st_unsat += 1
        else:
            raise Unsupported('identity obligations not confirmed by the solver')

    def unwind(self, st):
        while True:
            fr = st.frames[-1]
            I = fr.ins[fr.i]
            if I.op == 'invoke':
                lab = I.x[1]
                lp = [x for x in fr.f.blocks[lab] if x.op == 'landingpad'][0]
                sel = self.match_lp(st, lp)
                if sel is not None:
                    st.exc = (st.exc[0], st.exc[1], sel)
                    self.goto(st, fr, lab)
                    return True
            self.pop_frame(st)
            if not st.frames:
                return False

    def match_lp(self, st, lp):
        t = st.exc[1]
        cl = False
        for k, v in lp.x:
            if k == 'cleanup':
                cl = True
            elif k == 'catch':
                if v is None:
                    return self.typeid(None)
                nm = v.name
                if nm == t or (nm == '_ZTISt9exception' and t is not None and ('St' in t or t in self.exc_derived)):
                    return self.typeid(nm)
            elif k == 'filter':
                return -1
        return 0 if cl else None

    exc_derived = set()

    def typeid(self, nm):
        if nm not in self.tinfo:
            self.tinfo[nm] = len(self.tinfo) + 1
        return self.tinfo[nm]

    def pop_frame(self, st):
        fr = st.frames.pop()
        for oid in fr.allocas:
            o = self.wobj(st, oid)
            o.live = False
            o.cells = {}

    # ---------------------------------------------------------------- instructions
    def op_ret(self, st, fr, I):
        v = self.ev(st, fr, I.a[0]) if I.a else None
        self.pop_frame(st)
        if not st.frames:
            return True
        c = st.frames[-1]
        if fr.ctor:
            return False
        J = c.ins[c.i]
        if J.res is not None:
            c.loc[J.res] = v
        if J.op == 'invoke':
            self.goto(st, c, J.x[0])
        else:
            c.i += 1
        return False

    def op_jmp(self, st, fr, I):
        self.goto(st, fr, I.x)

    def op_br(self, st, fr, I):
        c = self.ev(st, fr, I.a[0])
        if isinstance(c, Undef):
            c = self.fresh_bool('undef')
            fr.loc[I.a[0][1]] = c
        self.goto(st, fr, I.x[0] if self.decide(st, c) else I.x[1])

    def op_switch(self, st, fr, I):
        v = self.ev(st, fr, I.a[0])
        if isinstance(v, Undef):
            v = self.fresh_bv('undef', I.ty.w)
            fr.loc[I.a[0][1]] = v
        d, cases = I.x
        if isinstance(v, int):
            for cv, lab in cases:
                if cv == v:
                    return self.goto(st, fr, lab)
            return self.goto(st, fr, d)
        if isinstance(v, z3.BoolRef):
            v = bv(v, I.ty.w)
        for cv, lab in cases:
            if self.decide(st, v == z3.BitVecVal(cv, I.ty.w)):
                return self.goto(st, fr, lab)
        return self.goto(st, fr, d)

    def op_unreachable(self, st, fr, I):
        raise Violation('unreachable', 'undefined behaviour: unreachable code executed')

    def op_alloca(self, st, fr, I):
        n = size_of(I.ty)
        if I.a[0] is not None:
            n *= self.cint(st, self.ev(st, fr, I.a[0]))
        o = self.new_obj(st, n, 'stack', I.res)
        fr.allocas.append(o.id)
        fr.loc[I.res] = Ptr(o.id, 0)
        fr.i += 1

    def op_load(self, st, fr, I):
        p = self.ev(st, fr, I.a[0])
        fr.loc[I.res] = self.load(st, p, I.ty)
        fr.i += 1

    def op_store(self, st, fr, I):
        v = self.ev(st, fr, I.a[0])
        p = self.ev(st, fr, I.a[1])
        self.store(st, p, v, I.ty)
        fr.i += 1

    def op_gep(self, st, fr, I):
        b = self.ev(st, fr, I.a[0])
        if isinstance(b, int) or isinstance(b, z3.BitVecRef):
            b = self.i2p(st, b)
        ix = [self.ev(st, fr, a) for a in I.a[1:]]
        for n, v in enumerate(ix):
            if isinstance(v, RInt):  # an index computed in floating point: one path per value
                lo, hi = X.iv(v.r)
                if not hi - lo < 4000:
                    raise Unsupported('index from a wide range of floating point values')
                ix[n] = self.fork_trunc(st, v.r, math.floor(lo), math.ceil(hi)) & M64
        fr.loc[I.res] = self.gep(b, I.ty, ix, [a[2] for a in I.a[1:]])
        fr.i += 1

    def op_freeze(self, st, fr, I):
        v = self.ev(st, fr, I.a[0])
        if isinstance(v, Undef):
            if I.ty.k == 'i':
                v = self.fresh_bool('undef') if I.ty.w == 1 else self.fresh_bv('undef', I.ty.w)
            elif I.ty.k == 'f':
                v = self.fresh_real('undef')
        fr.loc[I.res] = v
        fr.i += 1

    def op_extractvalue(self, st, fr, I):
        v = self.ev(st, fr, I.a[0])
        for k in I.x:
            if isinstance(v, Undef):
                t = v.ty
                v = Undef(t.fields[k] if t.k == 'st' else t.el)
            else:
                v = v[k]
        fr.loc[I.res] = v
        fr.i += 1

    def op_insertvalue(self, st, fr, I):
        v = self.ev(st, fr, I.a[0])
        x = self.ev(st, fr, I.a[1])
        fr.loc[I.res] = self._ins(v, I.ty, I.x, x)
        fr.i += 1

    def _ins(self, v, ty, idx, x):
        if isinstance(v, Undef):
            if ty.k == 'st':
                v = tuple(Undef(f) for f in ty.fields)
            else:
                v = tuple(Undef(ty.el) for _ in range(ty.n))
        k = idx[0]
        if len(idx) > 1:
            x = self._ins(v[k], ty.fields[k] if ty.k == 'st' else ty.el, idx[1:], x)
        return v[:k] + (x,) + v[k + 1:]

    def op_extractelement(self, st, fr, I):
        v = self.ev(st, fr, I.a[0]); k = self.cint(st, self.ev(st, fr, I.a[1]))
        fr.loc[I.res] = Undef(I.ty.el) if isinstance(v, Undef) else v[k]
        fr.i += 1

    def op_insertelement(self, st, fr, I):
        v = self.ev(st, fr, I.a[0]); x = self.ev(st, fr, I.a[1]); k = self.cint(st, self.ev(st, fr, I.a[2]))
        if isinstance(v, Undef):
            v = tuple(Undef(I.ty.el) for _ in range(I.ty.n))
        fr.loc[I.res] = v[:k] + (x,) + v[k + 1:]
        fr.i += 1

    def op_shufflevector(self, st, fr, I):
        a = self.ev(st, fr, I.a[0]); b = self.ev(st, fr, I.a[1]); m = self.ev(st, fr, I.a[2])
        n = I.ty.n
        if isinstance(a, Undef):
            a = tuple(Undef(I.ty.el) for _ in range(n))
        if isinstance(b, Undef):
            b = tuple(Undef(I.ty.el) for _ in range(n))
        ab = a + b
        if isinstance(m, Undef):
            m = (0,) * I.a[2][2].n
        fr.loc[I.res] = tuple(Undef(I.ty.el) if isinstance(k, Undef) else ab[k] for k in m)
        fr.i += 1

    def op_select(self, st, fr, I):
        c = self.ev(st, fr, I.a[0])
        if isinstance(c, tuple):
            a = self.ev(st, fr, I.a[1]); b = self.ev(st, fr, I.a[2])
            fr.loc[I.res] = tuple(x if self.decide(st, k) else y for k, x, y in zip(c, a, b))
            fr.i += 1
            return
        if isinstance(c, Undef):
            c = self.fresh_bool('undef')
            fr.loc[I.a[0][1]] = c
        if isinstance(c, int):
            fr.loc[I.res] = self.ev(st, fr, I.a[1] if c else I.a[2])
            fr.i += 1
            return
        a = self.ev(st, fr, I.a[1]); b = self.ev(st, fr, I.a[2])
        r = None
        if I.ty.k == 'i' and not isinstance(a, (Undef, DBits, RInt, Ptr, FnPtr)) and not isinstance(b, (Undef, DBits, RInt, Ptr, FnPtr)):
            if I.ty.w == 1:
                ab = a if isz(a) else z3.BoolVal(bool(a))
                bb = b if isz(b) else z3.BoolVal(bool(b))
                r = z3.simplify(z3.If(c, ab, bb))
                if z3.is_true(r):
                    r = 1
                elif z3.is_false(r):
                    r = 0
            else:
                r = z3.If(c, bv(a, I.ty.w), bv(b, I.ty.w))
        elif I.ty.k == 'f' and not isinstance(a, Undef) and a is b:
            r = a
        elif I.ty.k == 'ptr' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
            x = a.off if isz(a.off) else z3.BitVecVal(a.off & M64, 64)
            y = b.off if isz(b.off) else z3.BitVecVal(b.off & M64, 64)
            r = Ptr(a.o, z3.simplify(z3.If(c, x, y)))
        if r is None:
            r = a if self.decide(st, c) else b
        fr.loc[I.res] = r
        fr.i += 1

    # -- integer arithmetic
    def op_bin(self, st, fr, I):
        a = self.ev(st, fr, I.a[0]); b = self.ev(st, fr, I.a[1])
        fr.loc[I.res] = self.binop(st, I.op, a, b, I.ty, I.x)
        fr.i += 1
    op_add = op_sub = op_mul = op_udiv = op_sdiv = op_urem = op_srem = op_shl = op_lshr = op_ashr = op_and = op_or = op_xor = op_bin

    def binop(self, st, op, a, b, ty, flags=()):
        if ty.k == 'vec':
            if isinstance(a, Undef) or isinstance(b, Undef):
                return Undef(ty)
            return tuple(self.binop(st, op, x, y, ty.el, flags) for x, y in zip(a, b))
        w = ty.w
        if isinstance(a, Undef):
            a = self.fresh_bool('undef') if w == 1 else self.fresh_bv('undef', w)
        if isinstance(b, Undef):
            b = self.fresh_bool('undef') if w == 1 else self.fresh_bv('undef', w)
        if isinstance(a, DBits) or isinstance(b, DBits):
            return self.dbits_op(op, a, b)
        if isinstance(a, RInt) or isinstance(b, RInt):
            if isz(a):
                a = self.concretize(st, a) & ((1 << w) - 1)
            if isz(b):
                b = self.concretize(st, b) & ((1 << w) - 1)
            return self.rint_op(op, a, b, w)
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            # pointer travelling as an integer
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
                r = self.addoff(a.off, -b.off if isinstance(b.off, int) else -b.off)
                return r & M64 if isinstance(r, int) else r
            if op == 'add' and isinstance(a, Ptr) and not isinstance(b, Ptr):
                return Ptr(a.o, self.addoff(a.off, sgn(b, 64) if isinstance(b, int) else b))
            if op == 'and' and isinstance(a, Ptr) and isinstance(b, int) and b < 4096 and isinstance(a.off, int):
                return self.p2i(a) & b
            a = self.p2i(a) if isinstance(a, (Ptr, FnPtr)) else a
            b = self.p2i(b) if isinstance(b, (Ptr, FnPtr)) else b
        m = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add':
                return (a + b) & m
            if op == 'sub':
                return (a - b) & m
            if op == 'mul':
                return (a * b) & m
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op in ('shl', 'lshr', 'ashr'):
                if b >= w:
                    return Undef(ty)
                if op == 'shl':
                    return (a << b) & m
                if op == 'lshr':
                    return a >> b
                return (sgn(a, w) >> b) & m
            if b == 0:
                raise Violation('divzero', 'integer division by zero')
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            if op == 'sdiv':
                return q & m
            return (x - q * y) & m
        if w == 1:
            x = a if isz(a) else z3.BoolVal(bool(a))
            y = b if isz(b) else z3.BoolVal(bool(b))
            if op == 'and':
                r = z3.And(x, y)
            elif op == 'or':
                r = z3.Or(x, y)
            elif op in ('xor', 'add', 'sub'):
                r = z3.Xor(x, y)
            else:
                raise Unsupported('i1 ' + op)
            r = z3.simplify(r)
            if z3.is_true(r):
                return 1
            if z3.is_false(r):
                return 0
            return r
        x, y = bv(a, w), bv(b, w)
        if op == 'add':
            r = x + y
        elif op == 'sub':
            r = x - y
        elif op == 'mul':
            r = x * y
        elif op == 'and':
            r = x & y
        elif op == 'or':
            r = x | y
        elif op == 'xor':
            r = x ^ y
        elif op == 'shl':
            r = x << y
        elif op == 'lshr':
            r = z3.LShR(x, y)
        elif op == 'ashr':
            r = x >> y
        else:
            self.require(st, y != 0, 'divzero', 'integer division by zero')
            r = {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda p, q: p / q, 'srem': z3.SRem}[op](x, y)
        r = z3.simplify(r)
        if z3.is_bv_value(r):
            return r.as_long()
        return r

    def rint_op(self, op, a, b, w):
        if op == 'shl' and isinstance(b, int):
            op, b = 'mul', 1 << b
        x, y = rint_val(a, w), rint_val(b, w)
        if op == 'add':
            return rint_mk(X.add(x, y), w)
        if op == 'sub':
            return rint_mk(X.sub(x, y), w)
        if op == 'mul':
            return rint_mk(X.mul(x, y), w)
        if op in ('sdiv', 'srem', 'udiv', 'urem') and isinstance(b, int) and b:
            if op[0] == 'u' and X.iv(x)[0] < 0:
                raise Unsupported('unsigned division of an integral real')
            q = X.mk('trunc', X.div(x, y))
            return rint_mk(q if op[1:] == 'div' else X.sub(x, X.mul(q, y)), w)
        raise Unsupported('bit operation on an integral real')

    def dbits_op(self, op, a, b):
        if isinstance(b, DBits):
            a, b = b, a
        if isinstance(b, int):
            if op == 'and' and b == 0x7fffffffffffffff:
                return DBits(X.mk('abs', a.r))
            if op == 'xor' and b == 0x8000000000000000:
                return DBits(X.neg(a.r))
        raise Unsupported('bit operation on a symbolic double')

    def op_icmp(self, st, fr, I):
        a = self.ev(st, fr, I.a[0]); b = self.ev(st, fr, I.a[1])
        if I.ty.k == 'vec':
            fr.loc[I.res] = tuple(self.icmp(st, I.x, x, y, I.ty.el) for x, y in zip(a, b))
        else:
            fr.loc[I.res] = self.icmp(st, I.x, a, b, I.ty)
        fr.i += 1

    def icmp(self, st, p, a, b, ty):
        w = 64 if ty.k == 'ptr' else ty.w
        if isinstance(a, Undef):
            a = self.fresh_bool('undef') if w == 1 else self.fresh_bv('undef', w)
        if isinstance(b, Undef):
            b = self.fresh_bool('undef') if w == 1 else self.fresh_bv('undef', w)
        if isinstance(a, DBits) or isinstance(b, DBits):
            # sign test of a double's bit pattern
            if isinstance(a, DBits) and b == 0 and p in ('slt', 'sge'):
                c = self.rcmp('olt', a.r, Fraction(0))
                return c if p == 'slt' else znot(c)
            if isinstance(a, DBits) and b == M64 and p == 'sgt':
                return znot(self.rcmp('olt', a.r, Fraction(0)))
            raise Unsupported('compare of double bits')
        if isinstance(a, RInt) or isinstance(b, RInt):
            if isz(a):
                a = self.concretize(st, a) & ((1 << w) - 1)
            if isz(b):
                b = self.concretize(st, b) & ((1 << w) - 1)
            x, y = rint_val(a, w), rint_val(b, w)
            if p[0] == 'u' and (X.iv(x)[0] < 0 or X.iv(y)[0] < 0):
                raise Unsupported('unsigned compare of an integral real')
            return self.rcmp('o' + (p if p in ('eq', 'ne') else p[1:]), x, y)
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if isinstance(a, FnPtr) and isinstance(b, FnPtr):
                return int((a == b) == (p == 'eq'))
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                return int(p != 'eq')
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
                a, b = a.off, b.off
                a = a & M64 if isinstance(a, int) else a
                b = b & M64 if isinstance(b, int) else b
                if p[0] == 'u':
                    p = 's' + p[1:]
            elif isinstance(a, Ptr) and isinstance(b, Ptr) and p in ('eq', 'ne'):
                return int(p == 'ne')
            else:
                a = self.p2i(a) if isinstance(a, Ptr) else a
                b = self.p2i(b) if isinstance(b, Ptr) else b
        if isinstance(a, int) and isinstance(b, int):
            if p == 'eq':
                return int(a == b)
            if p == 'ne':
                return int(a != b)
            if p[0] == 's':
                a = sgn(a, w); b = sgn(b, w)
            k = p[1:]
            return int(a < b if k == 'lt' else a <= b if k == 'le' else a > b if k == 'gt' else a >= b)
        if w == 1:
            x = a if isz(a) else z3.BoolVal(bool(a))
            y = b if isz(b) else z3.BoolVal(bool(b))
            if p == 'eq':
                r = x == y
            elif p == 'ne':
                r = z3.Xor(x, y)
            elif p in ('ult', 'sgt'):
                r = z3.And(z3.Not(x), y)
            elif p in ('ugt', 'slt'):
                r = z3.And(x, z3.Not(y))
            else:
                raise Unsupported('icmp i1 ' + p)
            return z3.simplify(r)
        x, y = bv(a, w), bv(b, w)
        if p == 'eq':
            r = x == y
        elif p == 'ne':
            r = x != y
        elif p == 'slt':
            r = x < y
        elif p == 'sle':
            r = x <= y
        elif p == 'sgt':
            r = x > y
        elif p == 'sge':
            r = x >= y
        elif p == 'ult':
            r = z3.ULT(x, y)
        elif p == 'ule':
            r = z3.ULE(x, y)
        elif p == 'ugt':
            r = z3.UGT(x, y)
        else:
            r = z3.UGE(x, y)
        r = z3.simplify(r)
        if z3.is_true(r):
            return 1
        if z3.is_false(r):
            return 0
        return r

    # -- floating point
    def op_fbin(self, st, fr, I):
        a = self.ev(st, fr, I.a[0]); b = self.ev(st, fr, I.a[1])
        if I.ty.k == 'vec':
            fr.loc[I.res] = tuple(self.fbin(st, I.op, x, y, I.ty.el) for x, y in zip(a, b))
        else:
            fr.loc[I.res] = self.fbin(st, I.op, a, b, I.ty)
        fr.i += 1
    op_fadd = op_fsub = op_fmul = op_fdiv = op_frem = op_fbin

    def fbin(self, st, op, a, b, ty):
        a = self.dbl(a); b = self.dbl(b)
        if op == 'fadd':
            r = X.add(a, b)
        elif op == 'fsub':
            r = X.sub(a, b)
        elif op == 'fmul':
            r = X.mul(a, b)
        elif op == 'fdiv':
            if isinstance(b, R):
                self.nonzero(st, b)
            r = X.div(a, b)
        else:
            r = self.fmod(st, a, b)
        if ty.w == 32 and isinstance(r, float) and X.ROUND:
            r = self.f32(r)
        return r

    def fmod(self, st, a, b):
        if isinstance(a, R) and not isinstance(b, R) and not X.special(b) and b != 0:
            q = X.div(a, b)
            i = X.iv(q)
            if i[1] - i[0] < 400 and abs(i[0]) < 1e6:
                k = self.fork_trunc(st, q, math.floor(i[0]) - 1, math.ceil(i[1]) + 1)
                return X.sub(a, X.mul(X.norm(Fraction(k)), b))
        return X.fn2('fmod', a, b)

    def f32(self, r):
        if X.special(r):
            return r
        try:
            return struct.unpack('<f', struct.pack('<f', r))[0]
        except OverflowError:
            return math.copysign(math.inf, r)

    def nonzero(self, st, b):
        """division by a symbolic real: the zero case is excluded by assumption (IEEE gives inf/nan)"""
        i = X.iv(b)
        if i[0] > 0 or i[1] < 0:
            return
        p = X.nf(b)
        c = X._cst(p)
        if c is not None:
            if c == 0:
                raise Violation('fdivzero', 'division by an expression that is identically zero')
            return
        i = X.piv(p)
        if i[0] > 0 or i[1] < 0:
            return
        z = z3.simplify(self.z.poly(p) != 0)
        if st.known.get(z.get_id()):
            return
        self.notes.add('assumed: symbolic divisors are non-zero')
        st.pc.append(z)
        st.known[z.get_id()] = True
        st.keep.append(z)

    def op_fneg(self, st, fr, I):
        v = self.ev(st, fr, I.a[0])
        if I.ty.k == 'vec':
            fr.loc[I.res] = tuple(X.neg(self.dbl(x)) for x in v)
        else:
            v = self.dbl(v)
            fr.loc[I.res] = X.neg(v)
        fr.i += 1

    def op_fcmp(self, st, fr, I):
        a = self.ev(st, fr, I.a[0]); b = self.ev(st, fr, I.a[1])
        if I.ty.k == 'vec':
            fr.loc[I.res] = tuple(self.rcmp(I.x, self.dbl(x), self.dbl(y)) for x, y in zip(a, b))
        else:
            fr.loc[I.res] = self.rcmp(I.x, self.dbl(a), self.dbl(b))
        fr.i += 1

    # -- casts
    def op_cast(self, st, fr, I):
        a = self.ev(st, fr, I.a[0])
        if I.ty.k == 'vec' and I.op != 'bitcast':
            fr.loc[I.res] = tuple(self.cast(st, I.op, x, I.x.el, I.ty.el) for x in a)
        else:
            fr.loc[I.res] = self.cast(st, I.op, a, I.x, I.ty)
        fr.i += 1
    op_trunc = op_zext = op_sext = op_fptrunc = op_fpext = op_fptoui = op_fptosi = op_uitofp = op_sitofp = op_cast
    op_ptrtoint = op_inttoptr = op_bitcast = op_addrspacecast = op_cast

    def cast(self, st, op, a, ft, tt):
        if isinstance(a, Undef):
            if op in ('zext', 'sext', 'trunc', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr', 'fpext', 'fptrunc'):
                return Undef(tt)
            a = self.fresh_bv('undef', ft.w) if ft.k == 'i' else self.fresh_real('undef')
        if isinstance(a, RInt):
            if op == 'sitofp' or (op == 'uitofp' and X.iv(a.r)[0] >= 0):
                return a.r
            if op in ('sext', 'trunc') or (op == 'zext' and X.iv(a.r)[0] >= 0):
                return rint_mk(a.r, tt.w)
            if op == 'zext' and X.iv(a.r)[1] - X.iv(a.r)[0] < 4000:
                return self.fork_trunc(st, a.r, math.floor(X.iv(a.r)[0]), math.ceil(X.iv(a.r)[1])) & ((1 << ft.w) - 1)
            raise Unsupported(op + ' of an integral real')
        if op == 'zext':
            if isinstance(a, int):
                return a
            if isinstance(a, z3.BoolRef):
                return bv(a, tt.w)
            return z3.simplify(z3.ZeroExt(tt.w - ft.w, a))
        if op == 'sext':
            if isinstance(a, int):
                return sgn(a, ft.w) & ((1 << tt.w) - 1)
            if isinstance(a, z3.BoolRef):
                return z3.If(a, z3.BitVecVal(-1, tt.w), z3.BitVecVal(0, tt.w))
            return z3.simplify(z3.SignExt(tt.w - ft.w, a))
        if op == 'trunc':
            if isinstance(a, (Ptr, FnPtr)):
                a = self.p2i(a)
            if isinstance(a, int):
                return a & ((1 << tt.w) - 1)
            if isinstance(a, DBits):
                raise Unsupported('trunc of double bits')
            r = z3.simplify(z3.Extract(tt.w - 1, 0, a))
            if tt.w == 1:
                r = z3.simplify(r == z3.BitVecVal(1, 1))
                if z3.is_true(r):
                    return 1
                if z3.is_false(r):
                    return 0
                return r
            if z3.is_bv_value(r):
                return r.as_long()
            return r
        if op in ('sitofp', 'uitofp'):
            if isinstance(a, int):
                v = sgn(a, ft.w) if op == 'sitofp' else a
                return X.norm(Fraction(v))
            if isinstance(a, z3.BoolRef):
                return X.norm(Fraction((-1 if op == 'sitofp' else 1) if self.decide(st, a) else 0))
            v = self.concretize(st, a)
            if op == 'uitofp':
                v &= (1 << ft.w) - 1
            return X.norm(Fraction(v))
        if op in ('fptosi', 'fptoui'):
            if isinstance(a, R):
                i = X.iv(a)
                t = X.mk('trunc', a)
                lo, hi = math.floor(i[0]) - 1 if i[0] > -1e6 else None, math.ceil(i[1]) + 1 if i[1] < 1e6 else None
                if lo is not None and hi is not None and hi - lo < 4000:
                    # binary search over the value by deciding thresholds: fork on the integer value
                    return self.fork_trunc(st, a, lo, hi) & ((1 << tt.w) - 1)
                if tt.w >= 32 and -2.0 ** (tt.w - 1) < i[0] and i[1] < 2.0 ** (tt.w - 1) and op == 'fptosi':
                    return rint_mk(t, tt.w)
                raise Unsupported('fptosi of an unbounded symbolic double')
            f = a
            if X.special(f):
                return Undef(tt)
            v = math.trunc(f)
            if not (-(1 << (tt.w - 1)) <= v < (1 << tt.w)):
                return Undef(tt)
            return v & ((1 << tt.w) - 1)
        if op == 'fpext':
            return a
        if op == 'fptrunc':
            if isinstance(a, float) and X.ROUND and tt.w == 32:
                return self.f32(a)
            if isinstance(a, Fraction) and tt.w == 32:
                return X.norm(self.f32(X.tofloat(a)))
            if isinstance(a, R) and tt.w == 32:
                return X.narrow32(a)
            return a
        if op == 'ptrtoint':
            if isinstance(a, Ptr) and tt.w == 64:
                return self.p2i(a) if a.o == 0 else a     # keep provenance
            r = self.p2i(a)
            if isinstance(r, int):
                return r & ((1 << tt.w) - 1)
            return r
        if op == 'inttoptr':
            return self.i2p(st, a)
        if op == 'bitcast':
            if ft.k == tt.k and ft.k != 'vec':
                return a
            if ft.k == 'f' and tt.k == 'i':
                if isinstance(a, R):
                    return DBits(a)
                f = X.tofloat(a)
                return int.from_bytes(struct.pack('<d' if ft.w == 64 else '<f', f), 'little')
            if ft.k == 'i' and tt.k == 'f':
                if isinstance(a, DBits):
                    return a.r
                if isinstance(a, int):
                    return X.norm(struct.unpack('<d' if tt.w == 64 else '<f', a.to_bytes(tt.w // 8, 'little'))[0])
            raise Unsupported('bitcast %r -> %r' % (ft, tt))
        raise Unsupported('cast ' + op)

    def fork_trunc(self, st, a, lo, hi):
        """integer value of trunc(a): decided by threshold comparisons"""
        while lo < hi:
            mid = (lo + hi + 1) // 2
            # trunc(a) >= mid  <=>  (mid<=0 ? a > mid-1 : a >= mid)
            c = self.rcmp('oge', a, Fraction(mid)) if mid > 0 else self.rcmp('ogt', a, Fraction(mid - 1))
            if self.decide(st, c):
                lo = mid
            else:
                hi = mid - 1
        return lo

    # -- calls / exceptions
    def op_landingpad(self, st, fr, I):
        fr.loc[I.res] = (st.exc[0], st.exc[2] & 0xffffffff)
        fr.i += 1

    def op_resume(self, st, fr, I):
        raise Throw()

    def op_asm(self, st, fr, I):
        raise Unsupported('inline asm')

    def op_call(self, st, fr, I):
        cal, args = I.a
        if cal[0] == 'c' and isinstance(cal[1], GRef):
            name = cal[1].name
        else:
            v = self.ev(st, fr, cal)
            if not isinstance(v, FnPtr):
                raise Violation('memsafe', 'call through a bad function pointer')
            name = v.name
        m = self.models.get(name) or self.model_mod.override(name)
        if m is None:
            f = self.mod.get(name)
            if f is not None:
                self.push(st, f.name, [self.ev(st, fr, a) for a in args])
                return
            m = self.model_mod.lookup(name)
            if m is None:
                raise Unsupported('external function ' + name)
        r = m(self, st, fr, I, args)
        if st.frames and st.frames[-1] is fr:
            if I.res is not None:
                fr.loc[I.res] = r
            if I.op == 'invoke':
                self.goto(st, fr, I.x[0])
            else:
                fr.i += 1
    op_invoke = op_call
