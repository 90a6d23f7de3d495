"""Deductive verifier over the LLVM IR of the real code.

Symbolic execution of one function at a time for *all* inputs: every path is executed over bit-vector terms, loops are
either unrolled to completion (the path that would leave the unrolling must be infeasible) or cut with an inductive
invariant (candidates are filtered Houdini style: each must hold on entry and be preserved by the body), callees with a
contract are replaced by that contract.  Every memory access yields a bounds obligation, every return yields the
obligations of the postcondition.  Obligations are decided by z3 and, where z3 gives up, cvc5.
"""
import re
import subprocess
import sys
import time
import z3
from . import sweep
from . import ir

BV = z3.BitVec
BVV = z3.BitVecVal
sys.setrecursionlimit(20000)
MASK64 = (1 << 64) - 1


class Undecided(Exception):
    """the function left the fragment this verifier handles, or a solver gave up"""


class PathLimit(Undecided):
    pass


def num(e):
    return e.as_long() if z3.is_bv_value(e) else None


def bv64(x):
    return BVV(x, 64) if isinstance(x, int) else x


def simp(e):
    return z3.simplify(e)


def small(e, lim=60):
    """few operation nodes (z3.simplify pushes extracts through everything, which ruins the sharing of large terms)"""
    n = 0
    todo = [e]
    seen = set()
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        n += 1
        if n > lim:
            return False
        todo.extend(x.children())
    return True


_same_cache = {}


def same(a, b):
    """True / False / None (unknown)"""
    if a.eq(b):
        return True
    x, y = num(a), num(b)
    if x is not None and y is not None:
        return x == y
    k = (a.get_id(), b.get_id())
    r = _same_cache.get(k)
    if r is None:
        d = num(simp(a - b))
        r = (('?' if d is None else d == 0), a, b)
        _same_cache[k] = r
    return None if r[0] == '?' else r[0]


class Lin:
    """const + sum coef*term, 64 bit"""
    __slots__ = ('c', 't')

    def __init__(s, c=0, t=()):
        c &= MASK64
        s.c = c - (1 << 64) if c >> 63 else c
        s.t = t

    def add(s, o):
        d = {}
        for k, e in s.t + o.t:
            i = e.get_id()
            if i in d:
                d[i] = (d[i][0] + k, e)
            else:
                d[i] = (k, e)
        return Lin(s.c + o.c, tuple(v for v in d.values() if v[0] != 0))

    def mul(s, k):
        return Lin(s.c * k, tuple((c * k, e) for c, e in s.t))

    def sub(s, o):
        return s.add(o.mul(-1))

    def bv(s):
        r = None
        for k, e in s.t:
            x = e if k == 1 else (-e if k == -1 else e * BVV(k, 64))
            r = x if r is None else r + x
        if r is None:
            return BVV(s.c, 64)
        return r if s.c == 0 else r + BVV(s.c, 64)

    def div(s, n):
        """exact division by n -> Lin or None"""
        if n == 1:
            return s
        if s.c % n or any(k % n for k, e in s.t):
            return None
        return Lin(s.c // n, tuple((k // n, e) for k, e in s.t))

    def const(s):
        return s.c if not s.t else None


def lin_of(e, scale=1):
    n = num(e)
    if n is not None:
        return Lin(n * scale)
    # split sums so that the constant part is visible
    e = simp(e)
    n = num(e)
    if n is not None:
        return Lin(n * scale)
    if z3.is_app_of(e, z3.Z3_OP_BADD):
        r = Lin(0)
        for ch in e.children():
            r = r.add(lin_of(ch, scale))
        return r
    if z3.is_app_of(e, z3.Z3_OP_BMUL):
        a, b = e.children() if e.num_args() == 2 else (None, None)
        if a is not None and num(a) is not None:
            k = num(a)
            if k >> 63:
                k -= 1 << 64
            return lin_of(b, scale * k)
    if z3.is_app_of(e, z3.Z3_OP_BNEG):
        return lin_of(e.arg(0), -scale)
    return Lin(0, ((scale, e),))


class Ptr:
    __slots__ = ('r', 'o')

    def __init__(s, r, o):
        s.r = r
        s.o = o

    def __repr__(s):
        return 'Ptr(%s,%s)' % (s.r, s.o.bv())


NULL = Ptr(None, Lin(0))


class PtrInt:
    """result of ptrtoint, kept symbolic"""
    __slots__ = ('p',)

    def __init__(s, p):
        s.p = p


class FnPtr:
    def __init__(s, name):
        s.name = name


# ---------------------------------------------------------------- functional arrays
class Arr:
    pass


class ABase(Arr):
    cnt = 0

    def __init__(s, name, esz):
        ABase.cnt += 1
        s.name = '%s!%d' % (name, ABase.cnt)
        s.esz = esz
        s.f = z3.Function(s.name, z3.BitVecSort(64), z3.BitVecSort(8 * esz))
        s.facts = []

    def rd(s, i, sink):
        v = s.f(i)
        if s.facts and sink is not None:
            key = (s.name, i.get_id())
            if key not in sink.keys:
                sink.keys[key] = i
                for fn in s.facts:
                    sink.add(fn(i, v, sink))
        return v


class AConst(Arr):
    def __init__(s, v, esz):
        s.v = v
        s.esz = esz

    def rd(s, i, sink):
        return s.v


class ATable(Arr):
    def __init__(s, vals, esz):
        s.vals = [BVV(v, 8 * esz) if isinstance(v, int) else v for v in vals]
        s.esz = esz
        s.cache = {}

    def rd(s, i, sink):
        n = num(i)
        if n is not None:
            if n >= len(s.vals):
                return BVV(0, 8 * s.esz)
            return s.vals[n]
        k = i.get_id()
        if k in s.cache:
            return s.cache[k][0]
        n = len(s.vals)
        bits = max(1, (n - 1).bit_length())

        def go(lo, b):
            if lo >= n:
                return s.vals[n - 1]
            if b < 0:
                return s.vals[lo]
            x = go(lo, b - 1)
            y = go(lo + (1 << b), b - 1)
            if x.eq(y):
                return x
            return z3.If(z3.Extract(b, b, i) == 1, y, x)
        r = go(0, bits - 1)
        s.cache[k] = (r, i)
        return r


class AStore(Arr):
    def __init__(s, prev, i, v):
        s.prev = prev
        s.i = i
        s.v = v
        s.esz = prev.esz

    def rd(s, j, sink):
        a = s
        pend = []
        while isinstance(a, AStore):
            q = same(a.i, j)
            if q is True:
                r = a.v
                break
            if q is None:
                pend.append(a)
            a = a.prev
        else:
            r = a.rd(j, sink)
        for p in reversed(pend):
            r = z3.If(p.i == j, p.v, r)
        return r


class ACopy(Arr):
    """prev with [lo, lo+n) replaced by src[slo...]"""

    def __init__(s, prev, lo, n, src, slo):
        s.prev, s.lo, s.n, s.src, s.slo = prev, lo, n, src, slo
        s.esz = prev.esz

    def rd(s, j, sink):
        c = simp(z3.ULT(j - s.lo, s.n))
        if z3.is_true(c):
            return s.src.rd(simp(j - s.lo + s.slo), sink)
        if z3.is_false(c):
            return s.prev.rd(j, sink)
        return z3.If(c, s.src.rd(simp(j - s.lo + s.slo), sink), s.prev.rd(j, sink))


class AFill(Arr):
    def __init__(s, prev, lo, n, v):
        s.prev, s.lo, s.n, s.v = prev, lo, n, v
        s.esz = prev.esz

    def rd(s, j, sink):
        c = simp(z3.ULT(j - s.lo, s.n))
        if z3.is_true(c):
            return s.v
        if z3.is_false(c):
            return s.prev.rd(j, sink)
        return z3.If(c, s.v, s.prev.rd(j, sink))


class AIte(Arr):
    def __init__(s, c, a, b):
        s.c, s.a, s.b = c, a, b
        s.esz = a.esz

    def rd(s, j, sink):
        return z3.If(s.c, s.a.rd(j, sink), s.b.rd(j, sink))


class ABytes(Arr):
    """byte view of a wider array (little endian)"""

    def __init__(s, a):
        s.a = a
        s.esz = 1

    def rd(s, j, sink):
        e = s.a.esz
        n = num(j)
        if n is not None:
            v = s.a.rd(BVV(n // e, 64), sink)
            k = n % e
            return z3.Extract(8 * k + 7, 8 * k, v)
        l = lin_of(j)
        if all(k % e == 0 for k, _ in l.t):
            k = l.c % e
            q = Lin(l.c - k, l.t).div(e).bv()
            return z3.Extract(8 * k + 7, 8 * k, s.a.rd(simp(q), sink))
        sh = e.bit_length() - 1
        v = s.a.rd(simp(z3.LShR(j, sh)), sink)
        w = 8 * e
        amt = (j & (e - 1)) << 3
        amt = z3.Extract(w - 1, 0, amt) if w < 64 else amt
        return z3.Extract(7, 0, z3.LShR(v, amt))


class AWide(Arr):
    """little endian wide view of a byte array"""

    def __init__(s, a, esz):
        s.a = a
        s.esz = esz

    def rd(s, j, sink):
        k = s.esz // s.a.esz
        b = simp(j * k)
        parts = [s.a.rd(simp(b + t), sink) for t in range(k)]
        return z3.Concat(*reversed(parts)) if k > 1 else parts[0]


def conv(a, esz):
    if a.esz == esz:
        return a
    if a.esz > esz:
        if esz == 1:
            return ABytes(a)
        return AWide(ABytes(a), esz)
    return AWide(a, esz)


class AFn(Arr):
    def __init__(s, f, esz):
        s.f = f
        s.esz = esz

    def rd(s, j, sink):
        return s.f(j, sink)


# ---------------------------------------------------------------- regions and state
class Region:
    def __init__(s, rid, name, kind, esz=1, nelem=None, size=None, segs=(), ro=False):
        s.rid, s.name, s.kind, s.esz, s.nelem, s.size, s.segs, s.ro = rid, name, kind, esz, nelem, size, segs, ro
        s.born = 0
        s.lib = None


class PC:
    def __init__(s, l=None, keys=None):
        s.l = l if l is not None else []
        s.keys = keys if keys is not None else {}

    def add(s, f):
        if isinstance(f, bool):
            if f:
                return
            f = z3.BoolVal(False)
        if z3.is_true(f):
            return
        s.l.append(f)

    def clone(s):
        return PC(list(s.l), dict(s.keys))


class State:
    def __init__(s):
        s.regs = {}
        s.cells = {}   # rid -> {off: (n, val)}
        s.arrs = {}    # (rid, seg) -> Arr
        s.g = {}       # ghost variables: key -> BV / Bool / Arr
        s.pc = PC()
        s.counts = {}
        s.trace = []

    def clone(s):
        t = State.__new__(State)
        t.regs = dict(s.regs)
        t.cells = {k: dict(v) for k, v in s.cells.items()}
        t.arrs = dict(s.arrs)
        t.g = dict(s.g)
        t.pc = s.pc.clone()
        t.counts = dict(s.counts)
        t.trace = list(s.trace)
        return t


class Ob:
    def __init__(s, name, pc, goal, fn):
        s.name, s.pc, s.goal, s.fn = name, pc, goal, fn
        s.res = None
        s.t = 0
        s.backend = None
        s.model = None


class Cand:
    def __init__(s, name, fn):
        s.name, s.fn = name, fn


class QCand:
    """forall j: fn(view, j, arr[j])"""

    def __init__(s, name, h, fn):
        s.name, s.h, s.fn = name, h, fn


class View:
    def __init__(s, eng, st, vals):
        s.eng, s.st, s.vals = eng, st, vals

    def __getitem__(s, h):
        return s.vals[h]

    def rd(s, h, j):
        return s.vals[h].rd(j, s.st.pc)


class LoopCtx:
    def __init__(s, eng, fn, header, st, k):
        s.eng, s.fn, s.header, s.st, s.st0, s.k = eng, fn, header, st, st, k
        s.info = {}   # handle -> dict(kind, w, rid, init)

    def ints(s, w=None):
        return [h for h, d in s.info.items() if d['kind'] in ('int', 'gint') and (w is None or d['w'] == w)]

    def ptrs(s, rid=None):
        return [h for h, d in s.info.items() if d['kind'] == 'ptr' and (rid is None or d['rid'] == rid)]

    def arrs(s, rid=None):
        return [h for h, d in s.info.items() if d['kind'] in ('arr', 'garr') and (rid is None or d.get('rid') == rid)]


class Spec:
    """what a property says about one function; subclasses fill this in"""
    unroll_max = 70
    path_max = 4000
    contracts = {}

    def loop(s, ctx):
        """return 'unroll' or a list of candidate invariants"""
        return 'unroll'


CXXFILT = '/usr/lib/llvm-18/bin/llvm-cxxfilt'


def demangle(names):
    names = list(names)
    r = subprocess.run([CXXFILT], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, r.stdout.split('\n')))


class Stats:
    def __init__(s):
        s.queries = 0
        s.time = 0.0


AS_INT = ('--solve-bv-as-int=sum',)


class Engine:
    def __init__(s, mod, spec, verbose=False):
        s.m = mod
        s.spec = spec
        s.regions = {}
        s.nrid = 0
        s.gl = {}
        s.obls = []
        s.dry = 0
        s.wlog = []
        s.simp_lim = getattr(spec, 'simp_lim', 60)
        s.stats = Stats()
        s.verbose = verbose
        s.paths = 0
        s.loops_cut = []
        s.loops_unrolled = set()
        s.funcs_used = set()
        s.contracts_used = set()
        s._slv = None
        s._stk = []
        s.fresh_n = 0
        s.bounds_off = False
        if not hasattr(mod, 'dem'):
            names = set(mod.funcs) | mod.decls
            mod.dem = demangle(names)
        s.qto = 4000
        s.cb_cache = {}
        s.merging = True
        s.oto = 60000
        s.deadline = None

    # ------------------------------------------------------------ utilities
    def fresh(s, name, w=64):
        s.fresh_n += 1
        return z3.BitVec('%s!%d' % (name, s.fresh_n), w)

    def fresh_bool(s, name):
        s.fresh_n += 1
        return z3.Bool('%s!%d' % (name, s.fresh_n))

    def new_region(s, name, kind, **k):
        s.nrid += 1
        r = Region(s.nrid, name, kind, **k)
        s.regions[r.rid] = r
        return r

    def array_region(s, st, name, esz, nelem, arr=None, ro=False):
        r = s.new_region(name, 'arr', esz=esz, nelem=nelem, ro=ro)
        st.arrs[(r.rid, 0)] = arr if arr is not None else ABase(name, esz)
        return r

    def obj_region(s, st, name, ty, undef=True):
        ty = s.m.rt(ty)
        size = s.m.size(ty)
        segs = []
        s.collect_segs(ty, 0, segs)
        t = s.m.rt(ty)
        if len(segs) == 1 and segs[0][0] == 0 and segs[0][1] == size:
            return s.array_region(st, name, segs[0][2], BVV(size // segs[0][2], 64))
        r = s.new_region(name, 'obj', size=size, segs=tuple(segs))
        st.cells[r.rid] = {}
        for i, (lo, hi, e) in enumerate(segs):
            st.arrs[(r.rid, i)] = ABase(name + '.%d' % lo, e)
        return r

    def collect_segs(s, ty, off, out):
        ty = s.m.rt(ty)
        if ty.k == 'st':
            for i, x in enumerate(ty.a):
                s.collect_segs(x, off + s.m.offset(ty, i), out)
        elif ty.k == 'arr' and ty.a > 1:
            e = s.m.rt(ty.b)
            b = e
            n = ty.a
            while b.k == 'arr':
                n *= b.a
                b = s.m.rt(b.b)
            if b.k == 'i' and b.a in (8, 16, 32, 64, 128):
                out.append((off, off + s.m.size(ty), b.a // 8))
            else:
                for i in range(min(ty.a, 4096)):
                    s.collect_segs(ty.b, off + i * s.m.size(ty.b), out)
        elif ty.k == 'arr' and ty.a == 1:
            s.collect_segs(ty.b, off, out)

    def nelem(s, st, r):
        n = r.nelem
        if isinstance(n, tuple):
            n = st.g[n]
            return simp(n + 1) if getattr(r, 'isstr', False) else n
        return n

    # ------------------------------------------------------------ solver
    def check(s, pc, extra=(), to=None):
        """feasibility: 'sat' | 'unsat' | 'unknown'"""
        t0 = time.time()
        if s.deadline and t0 > s.deadline:
            raise Undecided('time budget')
        if s._slv is None:
            s._slv = z3.Solver()
            s._slv.set('timeout', s.qto)
            s._stk = []
        l = pc.l
        k = 0
        while k < len(s._stk) and k < len(l) and s._stk[k] is l[k]:
            k += 1
        if k < len(s._stk):
            s._slv.pop(len(s._stk) - k)
            del s._stk[k:]
        for f in l[k:]:
            s._slv.push()
            s._slv.add(f)
            s._stk.append(f)
        s._slv.set('timeout', to or s.qto)
        s._slv.push()
        for e in extra:
            s._slv.add(e)
        r = s._slv.check()
        s._slv.pop()
        s.stats.queries += 1
        s.stats.time += time.time() - t0
        return str(r)

    def valid(s, pc, goal, to=None):
        g = simp(goal) if not isinstance(goal, bool) else z3.BoolVal(goal)
        if z3.is_true(g):
            return True
        r = s.check(pc, [z3.Not(g)], to)
        return r == 'unsat'

    def oblige(s, st, name, goal):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        g = goal if z3.is_true(goal) else simp(goal)
        if not s.dry:
            s.obls.append(Ob(name, list(st.pc.l), g, s.cur_fn))
        if z3.is_true(g):
            return
        st.pc.add(goal)

    # ------------------------------------------------------------ globals
    def global_ptr(s, st, name):
        if name in s.m.funcs or name in s.m.decls:
            return FnPtr(name)
        if name in s.gl:
            rid = s.gl[name]
            r = s.regions[rid]
        else:
            t, init, const, kind = s.m.globals[name]
            if kind == 'alias':
                return s.const(st, init)
            if kind == 'ext':
                r = s.new_region('@' + name, 'obj', size=s.m.size(t) if t.k != 'st' or t.a else 8)
                r.init = ({}, {})
            else:
                if not const and not getattr(s.spec, 'globals_const', False) and not name.startswith('_ZGV'):
                    const = False
                arrs = {}
                cells = {}
                segs = []
                s.collect_segs(t, 0, segs)
                size = s.m.size(t)
                data = {}
                s.flatten(st, init, t, 0, data)
                if len(segs) == 1 and segs[0][0] == 0 and segs[0][1] == size:
                    e = segs[0][2]
                    r = s.new_region('@' + name, 'arr', esz=e, nelem=BVV(size // e, 64), ro=const)
                    arrs[0] = ATable([data.get(i * e, (e, BVV(0, 8 * e)))[1] for i in range(size // e)], e)
                    h = getattr(s.spec, 'opaque_table', None)
                    if const and h:
                        # a constant table whose every entry was compared with the specification's may be read through its symbol
                        arrs[0] = h([num(v) for v in arrs[0].vals], e) or arrs[0]
                else:
                    r = s.new_region('@' + name, 'obj', size=size, segs=tuple(segs), ro=const)
                    for i, (lo, hi, e) in enumerate(segs):
                        arrs[i] = ATable([data.get(lo + k * e, (e, BVV(0, 8 * e)))[1] for k in range((hi - lo) // e)], e)
                    for o, v in data.items():
                        if not any(lo <= o < hi for lo, hi, e in segs):
                            cells[o] = v
                r.init = (cells, arrs)
            s.gl[name] = r.rid
        if r.rid not in st.cells:
            st.cells[r.rid] = dict(r.init[0])
            for i, a in r.init[1].items():
                st.arrs[(r.rid, i)] = a
        return Ptr(r.rid, Lin(0))

    def flatten(s, st, v, t, off, out):
        t = s.m.rt(t)
        if v.k == 'zero' or v.k == 'undef':
            if t.k == 'arr':
                for i in range(t.a):
                    s.flatten(st, Val0(t.b), t.b, off + i * s.m.size(t.b), out)
            elif t.k == 'st':
                for i, x in enumerate(t.a):
                    s.flatten(st, Val0(x), x, off + s.m.offset(t, i), out)
            elif t.k == 'ptr':
                out[off] = (8, NULL)
            elif t.k == 'i':
                out[off] = (s.m.size(t), BVV(0, 8 * s.m.size(t)))
        elif v.k == 'cstr':
            for i, b in enumerate(v.v):
                out[off + i] = (1, BVV(b, 8))
        elif v.k == 'arr':
            for i, x in enumerate(v.v):
                s.flatten(st, x, t.b, off + i * s.m.size(t.b), out)
        elif v.k == 'struct':
            for i, x in enumerate(v.v):
                s.flatten(st, x, t.a[i], off + s.m.offset(t, i), out)
        elif v.k == 'int':
            n = s.m.size(t)
            out[off] = (n, BVV(v.v, 8 * n))
        elif t.k == 'ptr':
            try:
                out[off] = (8, s.const(st, v))
            except (Undecided, KeyError):
                out[off] = (8, NULL)

    # ------------------------------------------------------------ operands
    def const(s, st, v):
        t = v.ty
        if v.k == 'int':
            if t.a == 1:
                return z3.BoolVal(v.v != 0)
            return BVV(v.v, t.a)
        if v.k == 'null':
            return NULL
        if v.k == 'glob':
            return s.global_ptr(st, v.v)
        if v.k == 'undef':
            return s.undef(t)
        if v.k == 'zero':
            return s.zero(t)
        if v.k in ('arr', 'struct'):
            return [s.const(st, x) for x in v.v]
        if v.k == 'cexpr':
            if v.v == 'getelementptr':
                bt, args = v.x
                return s.gep(st, bt, s.const(st, args[0]), [s.const(st, a) for a in args[1:]])
            if v.v == 'ptrtoint':
                return PtrInt(s.const(st, v.x))
            if v.v == 'inttoptr':
                a = s.const(st, v.x)
                if isinstance(a, PtrInt):
                    return a.p
                return Ptr(None, Lin(num(a)))
            if v.v == 'bitcast':
                return s.const(st, v.x)
            if v.v in ir.BIN:
                return s.binop(st, v.v, s.const(st, v.x[0]), s.const(st, v.x[1]), v.ty, ())
        raise Undecided('constant %s' % v.k)

    def undef(s, t):
        t = s.m.rt(t)
        if t.k == 'i':
            return s.fresh_bool('undef') if t.a == 1 else s.fresh('undef', t.a)
        if t.k == 'ptr':
            return NULL
        if t.k == 'st':
            return [s.undef(x) for x in t.a]
        if t.k in ('arr', 'vec'):
            return [s.undef(t.b) for _ in range(t.a)]
        return None

    def zero(s, t):
        t = s.m.rt(t)
        if t.k == 'i':
            return z3.BoolVal(False) if t.a == 1 else BVV(0, t.a)
        if t.k == 'ptr':
            return NULL
        if t.k == 'st':
            return [s.zero(x) for x in t.a]
        if t.k in ('arr', 'vec'):
            return [s.zero(t.b) for _ in range(t.a)]
        raise Undecided('zero of ' + t.k)

    def ev(s, st, v):
        if v.k == 'local':
            try:
                return st.regs[v.v]
            except KeyError:
                raise Undecided('undefined register ' + v.v)
        return s.const(st, v)

    def gep(s, st, t, p, idx):
        if isinstance(p, PtrInt):
            p = p.p
        if not isinstance(p, Ptr):
            raise Undecided('gep on non pointer %r' % (p,))
        o = p.o
        first = True
        for i in idx:
            if first:
                sz = s.m.size(t)
                o = o.add(s.scaled(i, sz))
                first = False
                continue
            r = s.m.rt(t)
            if r.k == 'st':
                k = num(i)
                o = o.add(Lin(s.m.offset(r, k)))
                t = r.a[k]
            elif r.k in ('arr', 'vec'):
                t = r.b
                o = o.add(s.scaled(i, s.m.size(t)))
            else:
                raise Undecided('gep')
        return Ptr(p.r, o)

    def scaled(s, i, sz):
        if isinstance(i, PtrInt):
            raise Undecided('pointer as index')
        if z3.is_bool(i):
            i = z3.If(i, BVV(1, 64), BVV(0, 64))
        w = i.size()
        if w < 64:
            i = simp(z3.SignExt(64 - w, i))
        return lin_of(i, sz)

    # ------------------------------------------------------------ memory access
    def locate(s, st, p, n, what):
        """-> ('cell', rid, off) or ('arr', rid, seg, rel Lin, region)"""
        if p.r is None:
            s.oblige(st, 'no-null-deref:%s' % what, False)
            raise Dead()
        r = s.regions[p.r]
        if p.r not in st.cells and hasattr(r, 'init'):
            st.cells[r.rid] = dict(r.init[0])
            for i, a in r.init[1].items():
                st.arrs[(r.rid, i)] = a
        if r.kind == 'arr':
            return ('arr', r, 0, p.o)
        c = p.o.const()
        if c is not None:
            for i, (lo, hi, e) in enumerate(r.segs):
                if lo <= c < hi:
                    if n is not None and c + n > hi:
                        break
                    return ('arr', r, i, p.o.sub(Lin(lo)))
            return ('cell', r, c)
        # symbolic offset: must be provably inside one array segment
        o = p.o.bv()
        best = None
        # prefer the segment whose base is the constant part
        cand = sorted(range(len(r.segs)), key=lambda i: (not (r.segs[i][0] <= p.o.c < r.segs[i][1]), i))
        for i in cand:
            lo, hi, e = r.segs[i]
            if s.valid(st.pc, z3.ULT(o - lo, BVV(hi - lo, 64))):
                return ('arr', r, i, p.o.sub(Lin(lo)))
        if n is None:
            # block operations check their own range; an empty one may start at the end
            for i in cand:
                lo, hi, e = r.segs[i]
                if s.valid(st.pc, z3.ULE(o - lo, BVV(hi - lo, 64))):
                    return ('arr', r, i, p.o.sub(Lin(lo)))
        for i in cand:
            lo, hi, e = r.segs[i]
            if lo <= p.o.c < hi:
                # the access is meant for this segment; record the failing bound as an obligation
                s.oblige(st, 'in-bounds:%s' % what, z3.ULT(o - lo, BVV(hi - lo, 64)))
                if s.check(st.pc) == 'unsat':
                    raise Dead()
                return ('arr', r, i, p.o.sub(Lin(lo)))
        offs = [c for c in sorted(st.cells.get(r.rid, {})) if n is None or st.cells[r.rid][c][0] == n]
        if 0 < len(offs) <= 64:
            raise NeedCases(r, o, offs, p)
        raise Undecided('symbolic offset into object %s' % r.name)

    def seg_n(s, st, r, seg):
        if r.kind == 'arr':
            return s.nelem(st, r), r.esz
        lo, hi, e = r.segs[seg]
        return BVV((hi - lo) // e, 64), e

    def bounds(s, st, r, seg, idx, k, what):
        n, e = s.seg_n(st, r, seg)
        if n is None or s.bounds_off:
            return
        if k == 1:
            g = z3.ULT(idx, n)
        else:
            g = z3.And(z3.ULT(idx, n), z3.ULE(BVV(k, 64), n - idx))
        s.oblige(st, 'in-bounds:%s:%s' % (what, r.name), g)

    def load(s, st, p, ty):
        ty = s.m.rt(ty)
        if ty.k == 'st':
            return [s.load(st, Ptr(p.r, p.o.add(Lin(s.m.offset(ty, i)))), x) for i, x in enumerate(ty.a)]
        if ty.k in ('vec', 'arr'):
            n = s.m.size(ty) // ty.a
            return [s.load(st, Ptr(p.r, p.o.add(Lin(i * n))), ty.b) for i in range(ty.a)]
        if ty.k == 'f':
            raise Undecided('float')
        n = s.m.size(ty) if ty.k != 'i' else (ty.a + 7) // 8
        v = s.load_n(st, p, n, ty.k == 'ptr')
        if ty.k == 'ptr':
            if isinstance(v, Ptr) or isinstance(v, FnPtr):
                return v
            if isinstance(v, PtrInt):
                return v.p
            c = num(simp(v))
            if c == 0:
                return NULL
            return Ptr(None, lin_of(v))
        if isinstance(v, (Ptr, FnPtr)):
            return PtrInt(v)
        if isinstance(v, PtrInt):
            return v
        if ty.a == 1:
            return simp(z3.Extract(0, 0, v) == 1)
        if v.size() > ty.a:
            v = z3.Extract(ty.a - 1, 0, v)
        return v

    def load_n(s, st, p, n, isptr=False):
        loc = s.locate(st, p, n, 'load')
        if loc[0] == 'cell':
            _, r, off = loc
            if not s.bounds_off and not (0 <= off and off + n <= r.size):
                s.oblige(st, 'in-bounds:load:%s' % r.name, False)
                raise Dead()
            return s.cell_load(st, r, off, n, isptr)
        _, r, seg, rel = loc
        _, e = s.seg_n(st, r, seg)
        a = st.arrs[(r.rid, seg)]
        return s.arr_load(st, r, seg, rel, n, e, a)

    def arr_load(s, st, r, seg, rel, n, e, a, chk=True):
        if n >= e and n % e == 0:
            q = rel.div(e)
            if q is None:
                if rel.const() is not None or n != e:
                    # unaligned access: go through bytes
                    if e > 1:
                        b = ABytes(a)
                        i0 = simp(rel.bv())
                        if chk:
                            s.bounds(st, r, seg, simp(z3.LShR(i0, e.bit_length() - 1)), 1, 'load')
                            s.bounds(st, r, seg, simp(z3.LShR(i0 + n - 1, e.bit_length() - 1)), 1, 'load')
                        return simp(z3.Concat(*[b.rd(simp(i0 + k), st.pc) for k in reversed(range(n))]))
                # byte offset that must be aligned
                o = rel.bv()
                s.oblige(st, 'aligned-access:%s' % r.name, (o & BVV(e - 1, 64)) == 0)
                q = lin_of(simp(z3.LShR(o, e.bit_length() - 1)))
            i = simp(q.bv())
            k = n // e
            if chk:
                s.bounds(st, r, seg, i, k, 'load')
            if k == 1:
                return a.rd(i, st.pc)
            return simp(z3.Concat(*[a.rd(simp(i + j), st.pc) for j in reversed(range(k))]))
        if n < e:
            if all(k % e == 0 for k, _ in rel.t):
                sub = rel.c % e
                if sub + n <= e:
                    q = Lin(rel.c - sub, rel.t).div(e)
                    i = simp(q.bv())
                    if chk:
                        s.bounds(st, r, seg, i, 1, 'load')
                    return simp(z3.Extract(8 * (sub + n) - 1, 8 * sub, a.rd(i, st.pc)))
            b = ABytes(a)
            o = simp(rel.bv())
            if chk:
                s.bounds(st, r, seg, simp(z3.LShR(o, e.bit_length() - 1)), 1, 'load')
            return simp(z3.Concat(*[b.rd(simp(o + k), st.pc) for k in reversed(range(n))])) if n > 1 else b.rd(o, st.pc)
        raise Undecided('load width %d of %d' % (n, e))

    def cell_load(s, st, r, off, n, isptr=False):
        d = st.cells.setdefault(r.rid, {})
        c = d.get(off)
        if c and c[0] == n:
            return c[1]
        # compose from bytes
        parts = []
        any_ = False
        for k in range(n):
            b = s.cell_byte(st, r, off + k)
            parts.append(b)
            any_ = any_ or b is not None
        if not any_:
            lazy = getattr(r, 'lazy', None)
            if lazy is not None:
                v = lazy(off, n, isptr)
            elif isptr:
                v = NULL
            else:
                v = s.fresh('%s.%d' % (r.name, off), 8 * n)
            d[off] = (n, v)
            return v
        for k in range(n):
            if parts[k] is None:
                b = s.fresh('%s.%d' % (r.name, off + k), 8)
                d[off + k] = (1, b)
                parts[k] = b
        return simp(z3.Concat(*reversed(parts))) if n > 1 else parts[0]

    def cell_byte(s, st, r, o):
        d = st.cells[r.rid]
        for b in range(o, o - 17, -1):
            c = d.get(b)
            if c and b + c[0] > o:
                v = c[1]
                if isinstance(v, (Ptr, PtrInt, FnPtr)):
                    if isinstance(v, Ptr) and v.r is None and v.o.const() is not None:
                        v = BVV(v.o.c, 64)
                    else:
                        raise Undecided('bytes of a pointer')
                k = o - b
                return simp(z3.Extract(8 * k + 7, 8 * k, v))
        for i, (lo, hi, e) in enumerate(r.segs):
            if lo <= o < hi:
                return ABytes(st.arrs[(r.rid, i)]).rd(BVV(o - lo, 64), st.pc) if e > 1 else st.arrs[(r.rid, i)].rd(BVV(o - lo, 64), st.pc)
        return None

    def store(s, st, p, v, ty):
        ty = s.m.rt(ty)
        if ty.k == 'st':
            for i, x in enumerate(ty.a):
                s.store(st, Ptr(p.r, p.o.add(Lin(s.m.offset(ty, i)))), v[i], x)
            return
        if ty.k in ('vec', 'arr'):
            n = s.m.size(ty) // ty.a
            for i in range(ty.a):
                s.store(st, Ptr(p.r, p.o.add(Lin(i * n))), v[i], ty.b)
            return
        if ty.k == 'f':
            raise Undecided('float')
        if ty.k == 'i':
            n = (ty.a + 7) // 8
            if ty.a == 1:
                v = z3.If(v, BVV(1, 8), BVV(0, 8))
            elif not isinstance(v, PtrInt) and v.size() < 8 * n:
                v = z3.ZeroExt(8 * n - v.size(), v)
        else:
            n = 8
        s.store_n(st, p, v, n)

    def store_n(s, st, p, v, n):
        loc = s.locate(st, p, n, 'store')
        r = loc[1]
        if r.ro:
            s.oblige(st, 'no-write-to-const:%s' % r.name, False)
            raise Dead()
        if loc[0] == 'cell':
            off = loc[2]
            if not s.bounds_off and not (0 <= off and off + n <= r.size):
                s.oblige(st, 'in-bounds:store:%s' % r.name, False)
                raise Dead()
            s.cell_store(st, r, off, v, n)
            return
        _, r, seg, rel = loc
        _, e = s.seg_n(st, r, seg)
        if isinstance(v, PtrInt):
            raise Undecided('pointer stored to integer array')
        s.wlog.append(('arr', r.rid, seg))
        a = st.arrs[(r.rid, seg)]
        if isinstance(v, Ptr):
            raise Undecided('pointer stored to integer array')
        if n >= e and n % e == 0:
            q = rel.div(e)
            if q is None:
                o = rel.bv()
                s.oblige(st, 'aligned-access:%s' % r.name, (o & BVV(e - 1, 64)) == 0)
                q = lin_of(simp(z3.LShR(o, e.bit_length() - 1)))
            i = simp(q.bv())
            k = n // e
            s.bounds(st, r, seg, i, k, 'store')
            for j in range(k):
                a = AStore(a, simp(i + j) if j else i, v if k == 1 else simp(z3.Extract(8 * e * (j + 1) - 1, 8 * e * j, v)))
            st.arrs[(r.rid, seg)] = a
            return
        if n < e and all(k % e == 0 for k, _ in rel.t):
            sub = rel.c % e
            q = Lin(rel.c - sub, rel.t).div(e)
            i = simp(q.bv())
            s.bounds(st, r, seg, i, 1, 'store')
            old = a.rd(i, st.pc)
            parts = []
            if sub + n < e:
                parts.append(z3.Extract(8 * e - 1, 8 * (sub + n), old))
            parts.append(v)
            if sub:
                parts.append(z3.Extract(8 * sub - 1, 0, old))
            nv = simp(z3.Concat(*parts)) if len(parts) > 1 else parts[0]
            st.arrs[(r.rid, seg)] = AStore(a, i, nv)
            return
        if n < e:
            # symbolic byte offset in a wider array
            o = simp(rel.bv())
            i = simp(z3.LShR(o, e.bit_length() - 1))
            s.bounds(st, r, seg, i, 1, 'store')
            if n > 1:
                raise Undecided('narrow store')
            old = a.rd(i, st.pc)
            w = 8 * e
            amt = (o & (e - 1)) << 3
            amt = z3.Extract(w - 1, 0, amt) if w < 64 else amt
            m = BVV(0xff, w) << amt
            nv = (old & ~m) | (z3.ZeroExt(w - 8, v) << amt)
            st.arrs[(r.rid, seg)] = AStore(a, i, simp(nv))
            return
        raise Undecided('store width')

    def cell_store(s, st, r, off, v, n):
        d = st.cells.setdefault(r.rid, {})
        s.wlog.append(('cell', r.rid, off, n))
        # remove overlapped cells, preserving their other bytes
        for b in range(off - 16, off + n):
            c = d.get(b)
            if not c or b + c[0] <= off:
                continue
            if b == off and c[0] == n:
                continue
            del d[b]
            cv = c[1]
            if isinstance(cv, (Ptr, PtrInt, FnPtr)):
                continue
            for k in range(c[0]):
                if not (off <= b + k < off + n):
                    d[b + k] = (1, simp(z3.Extract(8 * k + 7, 8 * k, cv)))
        # spans into array segments
        for i, (lo, hi, e) in enumerate(r.segs):
            if off < hi and off + n > lo:
                raise Undecided('store straddles array segment')
        d[off] = (n, v)

    # bulk operations -------------------------------------------------
    def memcpy(s, st, dst, src, n):
        n = simp(bv64(n))
        c = num(n)
        if c == 0:
            return
        if c is None and s.check(st.pc, [n != 0]) == 'unsat':
            return
        if c is None and (dst.r is None or src.r is None):
            s.oblige(st, 'no-null-deref:memcpy', n == 0)
            return
        for q in (dst, src):
            if q.r is None:
                s.oblige(st, 'no-null-deref:memcpy', False)
                raise Dead()
        rd, rs = s.regions[dst.r], s.regions[src.r]
        if c is not None and (rd.kind == 'obj' or rs.kind == 'obj'):
            # copy piecewise when both are objects or sizes are small
            dl = s.locate(st, dst, None, 'memcpy')
            sl = s.locate(st, src, None, 'memcpy')
            if dl[0] == 'cell' or sl[0] == 'cell':
                return s.copy_pieces(st, dst, src, c)
            # array segments: check that the range stays in the segment
            if dl[0] == 'arr' and dl[1].kind == 'obj' and dl[3].const() is not None:
                lo, hi, e = dl[1].segs[dl[2]]
                if dl[3].const() + c > hi - lo:
                    return s.copy_pieces(st, dst, src, c)
            if sl[0] == 'arr' and sl[1].kind == 'obj' and sl[3].const() is not None:
                lo, hi, e = sl[1].segs[sl[2]]
                if sl[3].const() + c > hi - lo:
                    return s.copy_pieces(st, dst, src, c)
        dl = s.locate(st, dst, None, 'memcpy')
        sl = s.locate(st, src, None, 'memcpy')
        if dl[0] == 'cell' or sl[0] == 'cell':
            raise Undecided('symbolic memcpy on scalars')
        sr, sseg, srel = sl[1:]
        dr, dseg, drel = dl[1:]
        sa = st.arrs[(sr.rid, sseg)]
        slo, sn = s.range_elems(st, sr, sseg, srel, n, 'memcpy-src')
        if slo is None:
            sa = conv(sa, 1)
            slo, sn = srel.bv(), n
            es = 1
        else:
            es = s.seg_n(st, sr, sseg)[1]
        s.arr_write_range(st, dr, dseg, drel, n, sa, slo, es)

    def range_elems(s, st, r, seg, rel, n, what):
        """bounds obligation for bytes [rel, rel+n); returns element index, count (None if not aligned)"""
        ne, e = s.seg_n(st, r, seg)
        nl = lin_of(n)
        q, k = rel.div(e), nl.div(e)
        if q is None or k is None:
            o = rel.bv()
            if ne is not None:
                tot = ne * e
                s.oblige(st, 'in-bounds:%s:%s' % (what, r.name), z3.And(z3.ULE(o, tot), z3.ULE(n, tot - o)))
            return None, None
        q, k = simp(q.bv()), simp(k.bv())
        if ne is not None:
            s.oblige(st, 'in-bounds:%s:%s' % (what, r.name), z3.Or(k == 0, z3.And(z3.ULE(q, ne), z3.ULE(k, ne - q))))
        return q, k

    def arr_write_range(s, st, dr, dseg, drel, n, sa, slo, es):
        if dr.ro:
            s.oblige(st, 'no-write-to-const:%s' % dr.name, False)
            raise Dead()
        s.wlog.append(('arr', dr.rid, dseg))
        de = s.seg_n(st, dr, dseg)[1]
        dlo, dn = s.range_elems(st, dr, dseg, drel, n, 'memcpy-dst')
        da = st.arrs[(dr.rid, dseg)]
        if dlo is None:
            # unaligned write into wide elements
            c = num(simp(n))
            if de > 1 and c is not None and c <= 64:
                sb = conv(sa, 1)
                sb0 = slo * es if es > 1 else slo
                for k in range(c):
                    v = sb.rd(simp(sb0 + k), st.pc)
                    s.store_n(st, Ptr(dr.rid, drel.add(Lin((dr.segs[dseg][0] if dr.kind == 'obj' else 0) + k))), v, 1)
                return
            # byte view of the whole destination
            nb = ACopy(ABytes(da), simp(drel.bv()), n, conv(sa, 1), simp(slo * es if es > 1 else slo))
            st.arrs[(dr.rid, dseg)] = AWide(nb, de)
            return
        if es == de:
            st.arrs[(dr.rid, dseg)] = ACopy(da, dlo, dn, sa, slo)
            return
        if es > de:
            sa2 = conv(sa, de)
            st.arrs[(dr.rid, dseg)] = ACopy(da, dlo, dn, sa2, simp(slo * (es // de)))
            return
        # narrower source: wide view at byte offset slo*es
        sb = conv(sa, 1)
        base = slo * es if es > 1 else slo

        def f(j, sink):
            parts = [sb.rd(simp(base + (j - dlo) * de + t), sink) for t in range(de)]
            return z3.Concat(*reversed(parts))
        st.arrs[(dr.rid, dseg)] = ACopy(da, dlo, dn, AFn(f, de), dlo)

    def copy_pieces(s, st, dst, src, c):
        """constant size copy between objects: move typed cells where possible"""
        rd, rs = s.regions[dst.r], s.regions[src.r]
        so = src.o.const()
        k = 0
        todo = []
        while k < c:
            n = None
            if rs.kind == 'obj' and so is not None:
                cell = st.cells.get(rs.rid, {}).get(so + k)
                if cell and k + cell[0] <= c:
                    n = cell[0]
                    v = cell[1]
            if n is None:
                # elements of a segment
                n = 1
                for w in (8, 4, 2):
                    if k + w <= c and k % w == 0 and rs.kind == 'obj' and so is not None:
                        seg = next((g for g in rs.segs if g[0] <= so + k and so + k + w <= g[1] and g[2] == w), None)
                        if seg:
                            n = w
                            break
                        if w == 8 and not any(g[0] < so + k + w and so + k < g[1] for g in rs.segs) and not any(
                                (so + k + t) in st.cells.get(rs.rid, {}) for t in range(-15, 8)):
                            n = 8
                            break
                    if rs.kind == 'arr' and rs.esz == w and k + w <= c:
                        n = w
                        break
                v = s.load_n(st, Ptr(src.r, src.o.add(Lin(k))), n)
            todo.append((k, v, n))
            k += n
        for k, v, n in todo:
            if isinstance(v, (Ptr, FnPtr, PtrInt)):
                loc = s.locate(st, Ptr(dst.r, dst.o.add(Lin(k))), n, 'memcpy')
                if loc[0] != 'cell':
                    raise Undecided('pointer copied to array')
                s.cell_store(st, loc[1], loc[2], v, n)
            else:
                s.store_n(st, Ptr(dst.r, dst.o.add(Lin(k))), v, n)

    def memset(s, st, dst, v, n):
        n = simp(bv64(n))
        c = num(n)
        if c == 0:
            return
        if dst.r is None:
            s.oblige(st, 'no-null-deref:memset', n == 0)
            if c is not None:
                raise Dead()
            return
        r = s.regions[dst.r]
        off = dst.o.const()
        if r.kind == 'obj' and c is not None and off is not None:
            k = 0
            while k < c:
                seg = next((i for i, g in enumerate(r.segs) if g[0] <= off + k < g[1]), None)
                if seg is not None:
                    lo, hi, e = r.segs[seg]
                    m = min(c - k, hi - (off + k))
                    s.fill_range(st, r, seg, Lin(off + k - lo), BVV(m, 64), v)
                    k += m
                else:
                    w = 8 if (off + k) % 8 == 0 and c - k >= 8 and not any(off + k < g[0] < off + k + 8 for g in r.segs) else (4 if (off + k) % 4 == 0 and c - k >= 4 else 1)
                    val = simp(z3.Concat(*[v] * w)) if w > 1 else v
                    s.store_n(st, Ptr(r.rid, Lin(off + k)), val, w)
                    k += w
            return
        loc = s.locate(st, dst, None, 'memset')
        if loc[0] == 'cell':
            raise Undecided('symbolic memset on scalars')
        s.fill_range(st, loc[1], loc[2], loc[3], n, v)

    def fill_range(s, st, r, seg, rel, n, v):
        if r.ro:
            s.oblige(st, 'no-write-to-const:%s' % r.name, False)
            raise Dead()
        s.wlog.append(('arr', r.rid, seg))
        q, k = s.range_elems(st, r, seg, rel, n, 'memset')
        if q is None:
            e = s.seg_n(st, r, seg)[1]
            nb = AFill(ABytes(st.arrs[(r.rid, seg)]), simp(rel.bv()), n, v)
            st.arrs[(r.rid, seg)] = AWide(nb, e)
            return
        e = s.seg_n(st, r, seg)[1]
        val = simp(z3.Concat(*[v] * e)) if e > 1 else v
        st.arrs[(r.rid, seg)] = AFill(st.arrs[(r.rid, seg)], q, k, val)

    # ------------------------------------------------------------ arithmetic
    def binop(s, st, op, a, b, ty, fl):
        if isinstance(a, list):
            return [s.binop(st, op, x, y, ty.b, fl) for x, y in zip(a, b)]
        if ty.k == 'i' and ty.a == 1:
            if op in ('and', 'mul'):
                return simp(z3.And(a, b))
            if op == 'or':
                return simp(z3.Or(a, b))
            if op in ('xor', 'add', 'sub'):
                return simp(z3.Xor(a, b))
            raise Undecided('i1 ' + op)
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt):
                if a.p.r == b.p.r:
                    l = a.p.o.sub(b.p.o)
                    e = simp(l.bv())
                    s.lin_note(e, l)
                    return e
                if a.p.r is None and b.p.r is None:
                    return simp(a.p.o.bv() - b.p.o.bv())
                raise Undecided('difference of unrelated pointers')
            if op == 'add' and isinstance(a, PtrInt):
                return PtrInt(Ptr(a.p.r, a.p.o.add(lin_of(b))))
            if op == 'add':
                return PtrInt(Ptr(b.p.r, b.p.o.add(lin_of(a))))
            if op == 'sub' and isinstance(a, PtrInt):
                return PtrInt(Ptr(a.p.r, a.p.o.sub(lin_of(b))))
            if op == 'and' and isinstance(a, PtrInt) and getattr(s.spec, 'aligned_ptrs', False):
                # region bases are maximally aligned
                return a.p.o.bv() & b
            if isinstance(a, PtrInt):
                a = s.ptr_addr(a.p)
            if isinstance(b, PtrInt):
                b = s.ptr_addr(b.p)
        na, nb = num(a), num(b)
        w = ty.a
        if op == 'add':
            r = a + b
        elif op == 'sub':
            r = a - b
        elif op == 'mul':
            r = a * b
        elif op == 'and':
            r = a & b
        elif op == 'or':
            r = a | b
        elif op == 'xor':
            r = a ^ b
        elif op == 'shl':
            r = s.shifted(st, a << b, b, nb, w)
        elif op == 'lshr':
            r = s.exact_shift(a, nb, fl)
            if r is None and nb is not None and w == 64 and getattr(s.spec, 'by_parts', None) == nb:
                r = by_parts(a, nb)
                if r is not None:
                    return r
            if r is None:
                r = s.shifted(st, z3.LShR(a, b), b, nb, w)
        elif op == 'ashr':
            r = s.exact_shift(a, nb, fl)
            if r is None:
                r = s.shifted(st, a >> b, b, nb, w)
        elif op in ('udiv', 'urem', 'sdiv', 'srem'):
            if nb is None:
                s.oblige(st, 'no-division-by-zero', b != 0)
            elif nb == 0:
                s.oblige(st, 'no-division-by-zero', False)
                raise Dead()
            if op == 'sdiv' and nb and not (nb >> (w - 1)):
                l = s.lin_get(a)
                if l is not None and l.div(nb) is not None:
                    return simp(l.div(nb).bv())
            if op == 'udiv' and nb:
                l = s.lin_get(a)
                if 'exact' in fl and l is not None and l.div(nb) is not None:
                    return simp(l.div(nb).bv())
            if na is None and nb is not None and nb > 2 and nb & (nb - 1) and not (op[0] == 's' and nb >> (w - 1)) and w >= 16:
                q = (udivc if op[0] == 'u' else sdivc)(st.pc, a, nb)
                return q if op.endswith('div') else a - q * BVV(nb, w)
            r = {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda x, y: x / y, 'srem': z3.SRem}[op](a, b)
        else:
            raise Undecided(op)
        if na is not None and nb is not None:
            return simp(r)
        if op in ('add', 'sub', 'and', 'or', 'xor', 'shl', 'lshr'):
            if (na is not None or nb is not None) and small(r, min(s.simp_lim, 12 if op == 'xor' else 60)):
                return simp(r)
        return r

    def shifted(s, st, r, b, nb, w):
        """a shift by w or more gives an arbitrary value (LLVM: poison; it may be speculated and not used)"""
        if nb is not None:
            return r
        ok = z3.ULT(b, BVV(w, w))
        if z3.is_true(simp(ok)) or s.valid(st.pc, ok, to=300):
            return r
        return z3.If(ok, r, s.fresh('shift', w))

    _lin = {}

    def lin_note(s, e, l):
        s._lin[e.get_id()] = (l, e)

    def lin_get(s, e):
        r = s._lin.get(e.get_id())
        return r[0] if r else None

    def exact_shift(s, a, nb, fl):
        if nb is None:
            return None
        l = s.lin_get(a)
        if l is not None:
            q = l.div(1 << nb)
            if q is not None:
                return simp(q.bv())
        return None

    def ptr_addr(s, p):
        if p.r is None:
            return p.o.bv()
        base = z3.BitVec('addr!%d' % p.r, 64)
        return base + p.o.bv()

    def icmp(s, st, pr, a, b, ty):
        if isinstance(a, list):
            return [s.icmp(st, pr, x, y, ty.b) for x, y in zip(a, b)]
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            eq = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
            return z3.BoolVal(eq if pr == 'eq' else not eq)
        if isinstance(a, PtrInt) and isinstance(b, PtrInt):
            a, b = a.p, b.p
        if isinstance(a, PtrInt) and not isinstance(b, Ptr):
            if num(b) is not None:
                b = Ptr(None, Lin(num(b)))
                a = a.p
            else:
                a = s.ptr_addr(a.p)
        elif isinstance(b, PtrInt) and not isinstance(a, Ptr):
            if num(a) is not None:
                a = Ptr(None, Lin(num(a)))
                b = b.p
            else:
                b = s.ptr_addr(b.p)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r == b.r:
                d = a.o.sub(b.o)
                if d.const() is not None:
                    c = d.const()
                    return z3.BoolVal({'eq': c == 0, 'ne': c != 0, 'ult': c < 0, 'ule': c <= 0, 'ugt': c > 0, 'uge': c >= 0,
                                       'slt': c < 0, 'sle': c <= 0, 'sgt': c > 0, 'sge': c >= 0}[pr])
                e = s.regions[a.r].esz if a.r is not None and s.regions[a.r].kind == 'arr' else 1
                x, y = a.o.div(e), b.o.div(e)
                if x is None or y is None:
                    # common remainder
                    k = a.o.c % e
                    if b.o.c % e == k:
                        x, y = Lin(a.o.c - k, a.o.t).div(e), Lin(b.o.c - k, b.o.t).div(e)
                    if x is None or y is None:
                        x, y = a.o, b.o
                # drop common terms
                x, y = x.bv(), y.bv()
                if pr in ('eq', 'ne'):
                    r = x == y
                    return simp(r if pr == 'eq' else z3.Not(r))
                return simp(CMP[pr](x, y))
            if pr in ('eq', 'ne'):
                return z3.BoolVal(pr == 'ne')
            if a.r is None or b.r is None:
                c = b if a.r is None else a
                # compare with null: regions are above it
                lt = a.r is None
                return z3.BoolVal({'ult': lt, 'ule': lt, 'ugt': not lt, 'uge': not lt}.get(pr, False))
            a, b = s.ptr_addr(a), s.ptr_addr(b)
            return CMP[pr](a, b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            raise Undecided('icmp mixed')
        if z3.is_bool(a):
            if pr == 'eq':
                return simp(a == b)
            if pr == 'ne':
                return simp(z3.Xor(a, b))
            a = z3.If(a, BVV(1, 1), BVV(0, 1))
            b = z3.If(b, BVV(1, 1), BVV(0, 1))
        if pr in ('eq', 'ne'):
            la, lb = s.lin_get(a), s.lin_get(b)
            r = a == b
            return simp(r if pr == 'eq' else z3.Not(r))
        return simp(CMP[pr](a, b))

    def select(s, st, c, a, b):
        """-> value or raises NeedFork"""
        if isinstance(c, list):
            return [s.select(st, x, y, z) for x, y, z in zip(c, a, b)]
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r == b.r and a.r is not None:
                r = s.regions[a.r]
                e = r.esz if r.kind == 'arr' else 1
                x, y = a.o.div(e), b.o.div(e)
                if x is not None and y is not None:
                    return Ptr(a.r, lin_of(simp(z3.If(c, x.bv(), y.bv())), e))
            raise NeedFork(c)
        if isinstance(a, (Ptr, PtrInt, FnPtr)) or isinstance(b, (Ptr, PtrInt, FnPtr)):
            raise NeedFork(c)
        if isinstance(a, list):
            return [s.select(st, c, x, y) for x, y in zip(a, b)]
        if z3.is_bool(a):
            return simp(z3.If(c, a, b))
        if a.eq(b):
            return a
        return z3.If(c, a, b)

    # ------------------------------------------------------------ running functions
    def call_function(s, st, f, args):
        """-> list of (state, kind, value), kind in ret|throw"""
        s.funcs_used.add(f.name)
        saved = st.regs
        sc = st.counts
        st.regs = {}
        st.counts = {}
        for (nm, t, at), v in zip(f.params, args):
            st.regs[nm] = v
        allocas = []
        outs = s.run(st, f, f.order[0], None, None)
        res = []
        for o in outs:
            o[1].regs = dict(saved)
            o[1].counts = dict(sc)
            res.append((o[1], o[0], o[2]))
        return res

    def edge(s, st, f, prev, blk):
        """take the edge prev -> blk: assign the phis of blk"""
        b = f.blocks[blk]
        if b.phis and prev is not None:
            vals = []
            for ph in b.phis:
                for v, pb in ph.a:
                    if pb == prev:
                        vals.append(s.ev(st, v))
                        break
                else:
                    raise Undecided('phi without edge')
            for ph, v in zip(b.phis, vals):
                st.regs[ph.res] = v

    def run(s, st, f, blk, prev, loop):
        """execute until return/throw; with loop=(header, body) also stop at back edges and exits.
        -> list of (kind, state, x)  kind: ret, throw, back, exit.  Phis of the target are assigned when an edge is taken."""
        loops = ir.find_loops(f)
        rpo = ir.rpo(f)
        work = []
        outs = []

        def push(st, blk, prev):
            if loop is not None:
                if blk == loop[0]:
                    outs.append(('back', st, prev))
                    return
                if blk not in loop[1]:
                    outs.append(('exit', st, (blk, prev)))
                    return
            work.append([st, blk, prev])
        work.append([st, blk, prev])
        entered_cut = loop is not None
        while work:
            # lowest block first so that paths meet again and can be merged
            k = min(range(len(work)), key=lambda q: (rpo[work[q][1]], -q))
            st, blk, prev = work.pop(k)
            if s.deadline and time.time() > s.deadline:
                raise Undecided('time budget')
            if work and s.merging:
                q = 0
                while q < len(work):
                    if work[q][1] == blk and (blk not in loops or ((work[q][2] in loops[blk]) == (prev in loops[blk]) and work[q][0].counts.get(blk) == st.counts.get(blk))):
                        m = s.merge(st, work[q][0], f, blk)
                        if m is not None:
                            st = m
                            work.pop(q)
                            continue
                    q += 1
            # loop entry?
            if blk in loops and not entered_cut:
                body = loops[blk]
                if prev not in body:
                    mode = s.loop_mode(st, f, blk, prev)
                    if mode != 'unroll':
                        for o in s.process_loop(st, f, blk, prev, body, mode):
                            if o[0] == 'exit':
                                push(o[1], o[2][0], o[2][1])
                            else:
                                outs.append(o)
                        continue
                    st.counts[blk] = 0
                else:
                    st.counts[blk] = st.counts.get(blk, 0) + 1
                    mx = s.spec.unroll_max
                    if callable(mx):
                        mx = mx(f, blk)
                    if st.counts[blk] > mx:
                        if s.check(st.pc) == 'unsat':
                            continue
                        if getattr(s.spec, 'bounded', False):
                            s.bound_hit = True
                            continue
                        raise Undecided('unwinding limit %d in %s' % (mx, f.name))
                    s.loops_unrolled.add((f.name, blk))
            entered_cut = False
            try:
                self_outs = s.exec_block(st, f, f.blocks[blk], 0)
            except Dead:
                continue
            for o in self_outs:
                if o[0] == 'goto':
                    s.edge(o[1], f, blk, o[2])
                    push(o[1], o[2], blk)
                else:
                    outs.append(o)
            if len(work) + len(outs) > s.spec.path_max:
                raise PathLimit('too many paths in %s' % f.name)
        return outs

    def merge(s, a, b, f, blk):
        """one state for two paths that agree on everything live"""
        live = ir.live_in(f)[blk]
        for r in live:
            x, y = a.regs.get(r), b.regs.get(r)
            if x is y:
                continue
            if not eqv(x, y):
                return None
        if a.arrs.keys() != b.arrs.keys() or a.cells.keys() != b.cells.keys() or a.g.keys() != b.g.keys():
            return None
        for k, v in a.arrs.items():
            if b.arrs[k] is not v:
                return None
        for k, v in a.g.items():
            if not eqv(v, b.g[k]):
                return None
        for k, v in a.cells.items():
            w = b.cells[k]
            if v.keys() != w.keys():
                return None
            for o, c in v.items():
                d = w[o]
                if c[0] != d[0] or not eqv(c[1], d[1]):
                    return None
        la, lb = a.pc.l, b.pc.l
        k = 0
        while k < len(la) and k < len(lb) and la[k] is lb[k]:
            k += 1
        t = a.clone()
        t.pc = PC(la[:k], {q: v for q, v in a.pc.keys.items() if q in b.pc.keys})
        ra, rb = la[k:], lb[k:]
        if ra and rb:
            x, y = (z3.And(*ra) if len(ra) > 1 else ra[0]), (z3.And(*rb) if len(rb) > 1 else rb[0])
            t.pc.add(simp(z3.Or(x, y)) if len(ra) + len(rb) < 6 else z3.Or(x, y))
        t.counts = {q: max(a.counts.get(q, 0), b.counts.get(q, 0)) for q in set(a.counts) | set(b.counts)}
        return t

    def branch(s, st, cond, tgt_t, tgt_f):
        cond = simp(cond)
        if z3.is_true(cond):
            return [('goto', st, tgt_t)]
        if z3.is_false(cond):
            return [('goto', st, tgt_f)]
        if tgt_t == tgt_f:
            return [('goto', st, tgt_t)]
        nc = simp(z3.Not(cond))
        res = []
        rt = s.check(st.pc, [cond])
        rf = s.check(st.pc, [nc]) if rt != 'unsat' else 'sat'
        if rt != 'unsat' and rf != 'unsat':
            st2 = st.clone()
            st.pc.add(cond)
            st2.pc.add(nc)
            return [('goto', st, tgt_t), ('goto', st2, tgt_f)]
        if rt != 'unsat':
            return [('goto', st, tgt_t)]
        return [('goto', st, tgt_f)]

    def exec_block(s, st, f, b, i):
        n = len(b.ins)
        while i < n:
            x = b.ins[i]
            op = x.op
            try:
                if op in ir.BIN:
                    st.regs[x.res] = s.binop(st, op, s.ev(st, x.a[0]), s.ev(st, x.a[1]), x.ty, x.x)
                elif op == 'icmp':
                    st.regs[x.res] = s.icmp(st, x.x, s.ev(st, x.a[0]), s.ev(st, x.a[1]), x.ty)
                elif op == 'load':
                    st.regs[x.res] = s.load(st, s.ptr(st, x.a[0]), x.ty)
                elif op == 'store':
                    s.store(st, s.ptr(st, x.a[1]), s.ev(st, x.a[0]), x.ty)
                elif op == 'getelementptr':
                    st.regs[x.res] = s.gep(st, x.ty, s.ev(st, x.a[0]), [s.ev(st, v) for v in x.a[1:]])
                elif op == 'select':
                    st.regs[x.res] = s.select(st, s.ev(st, x.a[0]), s.ev(st, x.a[1]), s.ev(st, x.a[2]))
                elif op == 'zext':
                    st.regs[x.res] = s.cast(op, s.ev(st, x.a[0]), x.ty)
                elif op in ('sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr'):
                    st.regs[x.res] = s.cast(op, s.ev(st, x.a[0]), x.ty)
                elif op == 'freeze':
                    st.regs[x.res] = s.ev(st, x.a[0])
                elif op == 'br':
                    return [('goto', st, x.x[0])]
                elif op == 'condbr':
                    return s.branch(st, s.ev(st, x.a[0]), x.x[0], x.x[1])
                elif op == 'switch':
                    return s.switch(st, x)
                elif op == 'ret':
                    return [('ret', st, s.ev(st, x.a[0]) if x.a else None)]
                elif op == 'alloca':
                    if x.a[0] is not None and not (x.a[0].k == 'int'):
                        raise Undecided('dynamic alloca')
                    r = s.obj_region(st, 'stk.' + x.res, x.ty)
                    st.regs[x.res] = Ptr(r.rid, Lin(0))
                elif op in ('call', 'invoke'):
                    r = s.call(st, f, x)
                    if r is None:
                        pass
                    else:
                        if len(r) == 1 and r[0][1] == 'ret':
                            st = r[0][0]
                            if x.res is not None:
                                st.regs[x.res] = r[0][2]
                        else:
                            outs = []
                            for st2, kind, v in r:
                                if kind == 'ret':
                                    if x.res is not None:
                                        st2.regs[x.res] = v
                                    if op == 'invoke':
                                        outs.append(('goto', st2, x.x[0]))
                                    else:
                                        outs += s.exec_block(st2, f, b, i + 1)
                                elif kind == 'throw':
                                    outs += s.unwind(st2, f, x, v)
                                else:
                                    raise Undecided(kind)
                            return outs
                    if op == 'invoke':
                        return [('goto', st, x.x[0])]
                elif op == 'extractvalue':
                    v = s.ev(st, x.a[0])
                    for k in x.x:
                        v = v[k]
                    st.regs[x.res] = v
                elif op == 'insertvalue':
                    v = list(s.ev(st, x.a[0]))
                    if len(x.x) != 1:
                        raise Undecided('nested insertvalue')
                    v[x.x[0]] = s.ev(st, x.a[1])
                    st.regs[x.res] = v
                elif op == 'landingpad':
                    st.regs[x.res] = [NULL, BVV(1, 32)]
                elif op == 'unreachable':
                    s.oblige(st, 'unreachable-not-reached', False)
                    return []
                elif op == 'resume':
                    return [('throw', st, None)]
                else:
                    raise Undecided('instruction %s' % x.line.strip()[:120])
            except NeedCases as e:
                if op != 'load':
                    raise Undecided('symbolic offset into object %s' % e.r.name)
                s.oblige(st, 'in-bounds:%s' % e.r.name, z3.Or(*[e.o == BVV(c, 64) for c in e.offs]))
                outs = []
                for c in e.offs:
                    cond = simp(e.o == BVV(c, 64))
                    if s.check(st.pc, [cond]) == 'unsat':
                        continue
                    st2 = st.clone()
                    st2.pc.add(cond)
                    st2.regs[x.res] = s.load(st2, Ptr(e.r.rid, Lin(c)), x.ty)
                    outs += s.exec_block(st2, f, b, i + 1)
                return outs
            except NeedFork as e:
                outs = []
                st2 = st.clone()
                if s.check(st.pc, [e.c]) != 'unsat':
                    st.pc.add(e.c)
                    st.regs[x.res] = s.ev(st, x.a[1])
                    outs += s.exec_block(st, f, b, i + 1)
                nc = simp(z3.Not(e.c))
                if s.check(st2.pc, [nc]) != 'unsat':
                    st2.pc.add(nc)
                    st2.regs[x.res] = s.ev(st2, x.a[2])
                    outs += s.exec_block(st2, f, b, i + 1)
                return outs
            i += 1
        raise Undecided('fell off block')

    def unwind(s, st, f, x, v):
        if x.op != 'invoke':
            return [('throw', st, v)]
        lp = next(q for q in f.blocks[x.x[1]].ins if q.op == 'landingpad')
        if any(c.startswith('catch') for c in lp.x):
            if getattr(s.spec, 'catch', None):
                return s.spec.catch(s, st, f, x, v)
            if any(c == 'catch ptr null' for c in lp.x):
                return [('goto', st, x.x[1])]
            raise Undecided('catch clause')
        return [('throw', st, v)]

    def ptr(s, st, v):
        p = s.ev(st, v)
        if isinstance(p, PtrInt):
            p = p.p
        if not isinstance(p, Ptr):
            raise Undecided('address is not a pointer')
        return p

    def cast(s, op, v, ty):
        if isinstance(v, list) and ty.k == 'vec':
            return [s.cast(op, x, ty.b) for x in v]
        if op == 'zext':
            if z3.is_bool(v):
                return simp(z3.If(v, BVV(1, ty.a), BVV(0, ty.a)))
            r = z3.ZeroExt(ty.a - v.size(), v)
            return simp(r) if num(v) is not None else r
        if op == 'sext':
            if z3.is_bool(v):
                return simp(z3.If(v, BVV(-1, ty.a), BVV(0, ty.a)))
            r = z3.SignExt(ty.a - v.size(), v)
            return simp(r) if num(v) is not None else r
        if op == 'trunc':
            if isinstance(v, PtrInt):
                v = s.ptr_addr(v.p)
            if ty.a == 1:
                return simp(z3.Extract(0, 0, v) == 1)
            return simp(z3.Extract(ty.a - 1, 0, v))
        if op == 'bitcast':
            return v
        if op == 'ptrtoint':
            if isinstance(v, FnPtr):
                return PtrInt(Ptr(None, Lin(1)))
            if v.r is None:
                return simp(v.o.bv())
            return PtrInt(v)
        if op == 'inttoptr':
            if isinstance(v, PtrInt):
                return v.p
            return Ptr(None, lin_of(v))

    def switch(s, st, x):
        v = s.ev(st, x.a[0])
        d, cases = x.x
        w = x.ty.a
        if z3.is_bool(v):
            v = z3.If(v, BVV(1, 1), BVV(0, 1))
        v = simp(v)
        c = num(v)
        if c is not None:
            for k, t in cases:
                if k & ((1 << w) - 1) == c:
                    return [('goto', st, t)]
            return [('goto', st, d)]
        outs = []
        bytgt = {}
        for k, t in cases:
            bytgt.setdefault(t, []).append(k)
        for t, ks in bytgt.items():
            cond = z3.Or(*[v == BVV(k, w) for k in ks]) if len(ks) > 1 else v == BVV(ks[0], w)
            if s.check(st.pc, [cond]) != 'unsat':
                st2 = st.clone()
                st2.pc.add(cond)
                outs.append(('goto', st2, t))
        cond = z3.And(*[v != BVV(k, w) for k, t in cases]) if cases else z3.BoolVal(True)
        if s.check(st.pc, [cond]) != 'unsat':
            st.pc.add(cond)
            outs.append(('goto', st, d))
        return outs

    # ------------------------------------------------------------ calls
    def call(s, st, f, x):
        callee, argv = x.a
        if callee.k == 'asm':
            h = ASM.get(callee.v.split('|')[0])
            if h is None:
                raise Undecided('inline assembly ' + callee.v)
            s.contracts_used.add('asm "%s"' % callee.v.split('|')[0])
            return [(st, 'ret', h(*[s.ev(st, a) for a in argv]))]
        if callee.k != 'glob':
            cv = s.ev(st, callee)
            if isinstance(cv, FnPtr):
                name = cv.name
            else:
                h = getattr(s.spec, 'indirect', None)
                if h:
                    return h(s, st, f, x, cv, [s.ev(st, a) for a in argv])
                raise Undecided('indirect call')
        else:
            name = callee.v
        if name.startswith('llvm.'):
            return s.intrinsic(st, name, x, argv)
        dem = s.m.dem.get(name, name)
        for pat, h in s.spec.contracts.items():
            if (pat == name) or (pat == dem) or (hasattr(pat, 'search') and pat.search(dem)):
                args = [s.ev(st, a) for a in argv]
                s.contracts_used.add(dem)
                return h(s, st, args, x)
        if name in BUILTIN:
            args = [s.ev(st, a) for a in argv]
            s.contracts_used.add(dem)
            return BUILTIN[name](s, st, args, x)
        for pat, h in LIB:
            if pat.search(dem):
                args = [s.ev(st, a) for a in argv]
                s.contracts_used.add(dem)
                return h(s, st, args, x)
        from . import stdlib
        h = stdlib.lookup(dem) if 'std::' in dem else None
        if h:
            args = [s.ev(st, a) for a in argv]
            s.contracts_used.add(dem)
            return h(s, st, args, x)
        if name in s.m.funcs:
            if len(s.stack) > 60:
                raise Undecided('recursion')
            args = [s.ev(st, a) for a in argv]
            s.stack.append(name)
            r = s.call_function(st, s.m.funcs[name], args)
            s.stack.pop()
            return r
        raise Undecided('call to unknown external ' + dem)

    def intrinsic(s, st, name, x, argv):
        base = name[5:]
        if base.startswith(('lifetime', 'dbg', 'assume', 'experimental.noalias', 'invariant', 'stacksave', 'stackrestore', 'donothing', 'va_', 'prefetch')):
            return None
        a = [s.ev(st, v) for v in argv]
        if base.startswith(('memcpy', 'memmove')):
            s.memcpy(st, a[0], a[1], a[2])
            return None
        if base.startswith('memset'):
            s.memset(st, a[0], a[1], a[2])
            return None
        r = None
        w = x.ty.a if x.ty.k == 'i' else None
        if x.ty.k == 'vec':
            raise Undecided('vector intrinsic')
        if base.startswith('umin'):
            r = z3.If(z3.ULT(a[0], a[1]), a[0], a[1])
        elif base.startswith('umax'):
            r = z3.If(z3.UGT(a[0], a[1]), a[0], a[1])
        elif base.startswith('smin'):
            r = z3.If(a[0] < a[1], a[0], a[1])
        elif base.startswith('smax'):
            r = z3.If(a[0] > a[1], a[0], a[1])
        elif base.startswith('abs'):
            r = z3.If(a[0] < 0, -a[0], a[0])
        elif base.startswith('ctpop'):
            r = popcnt(a[0])
        elif base.startswith('ctlz'):
            r = ctlz(a[0])
            if z3.is_true(a[1]):
                # poison for zero: any value
                r = z3.If(a[0] == 0, s.fresh('poison', w), r)
        elif base.startswith('cttz'):
            r = cttz(a[0])
            if z3.is_true(a[1]):
                # poison for zero: any value
                r = z3.If(a[0] == 0, s.fresh('poison', w), r)
        elif base.startswith('bswap'):
            n = w // 8
            r = z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, a[0]) for k in range(n)])
        elif base.startswith('bitreverse'):
            r = z3.Concat(*[z3.Extract(k, k, a[0]) for k in range(w)])
        elif base.startswith('fshl'):
            k = num(a[2])
            if k is not None:
                k %= w
                r = a[0] if k == 0 else (z3.RotateLeft(a[0], k) if a[0].eq(a[1]) else (a[0] << k) | z3.LShR(a[1], w - k))
            else:
                q = z3.URem(a[2], BVV(w, w))
                r = z3.If(q == 0, a[0], (a[0] << q) | z3.LShR(a[1], BVV(w, w) - q))
        elif base.startswith('fshr'):
            k = num(a[2])
            if k is not None:
                k %= w
                r = a[1] if k == 0 else (z3.RotateRight(a[1], k) if a[0].eq(a[1]) else (a[0] << (w - k)) | z3.LShR(a[1], k))
            else:
                q = z3.URem(a[2], BVV(w, w))
                r = z3.If(q == 0, a[1], (a[0] << (BVV(w, w) - q)) | z3.LShR(a[1], q))
        elif base.startswith('uadd.with.overflow'):
            w = a[0].size()
            v = a[0] + a[1]
            return [(st, 'ret', [v, simp(z3.ULT(v, a[0]))])]
        elif base.startswith('usub.with.overflow'):
            return [(st, 'ret', [a[0] - a[1], simp(z3.ULT(a[0], a[1]))])]
        elif base.startswith('umul.with.overflow'):
            return [(st, 'ret', [a[0] * a[1], z3.Not(z3.BVMulNoOverflow(a[0], a[1], False))])]
        elif base.startswith('sadd.with.overflow'):
            return [(st, 'ret', [a[0] + a[1], z3.Not(z3.And(z3.BVAddNoOverflow(a[0], a[1], True), z3.BVAddNoUnderflow(a[0], a[1])))])]
        elif base.startswith('ssub.with.overflow'):
            return [(st, 'ret', [a[0] - a[1], z3.Not(z3.And(z3.BVSubNoOverflow(a[0], a[1]), z3.BVSubNoUnderflow(a[0], a[1], True)))])]
        elif base.startswith('smul.with.overflow'):
            return [(st, 'ret', [a[0] * a[1], z3.Not(z3.And(z3.BVMulNoOverflow(a[0], a[1], True), z3.BVMulNoUnderflow(a[0], a[1])))])]
        elif base.startswith('usub.sat'):
            r = z3.If(z3.ULT(a[0], a[1]), BVV(0, w), a[0] - a[1])
        elif base.startswith('uadd.sat'):
            r = z3.If(z3.ULT(a[0] + a[1], a[0]), BVV(-1, w), a[0] + a[1])
        elif base.startswith('ucmp'):
            r = z3.If(z3.ULT(a[0], a[1]), BVV(-1, w), z3.If(a[0] == a[1], BVV(0, w), BVV(1, w)))
        elif base.startswith('expect'):
            r = a[0]
        elif base.startswith('is.constant'):
            r = z3.BoolVal(False)
        elif base.startswith('objectsize'):
            r = BVV(-1, w)
        elif base.startswith('trap'):
            s.oblige(st, 'trap-not-reached', False)
            raise Dead()
        elif base.startswith('eh.typeid.for'):
            r = BVV(1, 32)
        if r is None:
            raise Undecided('intrinsic ' + name)
        return [(st, 'ret', simp(r) if z3.is_bool(r) or (small(r) and not (base.startswith('fsh') and num(a[0]) is None)) else r)]

    # writes made by a contract (logged, so that enclosing loops forget the old value)
    def set_g(s, st, k, v):
        st.g[k] = v
        s.wlog.append(('g', k))

    def set_arr(s, st, rid, seg, a):
        st.arrs[(rid, seg)] = a
        s.wlog.append(('arr', rid, seg))

    # ------------------------------------------------------------ loops
    def loop_mode(s, st, f, header, prev):
        h = getattr(s.spec, 'loop_mode', None)
        if h:
            return h(s, st, f, header)
        if s.const_bound(f, header):
            return 'unroll'
        return 'inv' if type(s.spec).loop is not Spec.loop else 'unroll'

    def const_bound(s, f, header, limit=130):
        """loop with a counter that starts at a constant, moves by a constant and leaves at a constant: unrolled to completion"""
        key = (f.name, header)
        c = s.cb_cache.get(key)
        if c is not None:
            return c
        body = ir.find_loops(f)[header]
        defs = {}
        for b in body:
            for x in f.blocks[b].ins:
                if x.res:
                    defs[x.res] = x
        cnt = set()
        for ph in f.blocks[header].phis:
            if ph.ty.k != 'i':
                continue
            ok = True
            nxt = set()
            for v, pb in ph.a:
                if pb in body:
                    d = defs.get(v.v) if v.k == 'local' else None
                    if d is None or d.op not in ('add', 'sub') or not (d.a[0].k == 'local' and d.a[0].v == ph.res and d.a[1].k == 'int'):
                        ok = False
                    else:
                        nxt.add(v.v)
                elif v.k != 'int' or not (-limit <= v.v <= limit):
                    ok = False
            if ok and nxt:
                cnt.add(ph.res)
                cnt |= nxt
        res = False
        for b in body:
            t = f.blocks[b].ins[-1]
            if t.op == 'condbr' and any(q not in body for q in t.x) and t.a[0].k == 'local':
                todo = [t.a[0]]
                while todo:
                    v = todo.pop()
                    d = defs.get(v.v) if v.k == 'local' else None
                    if d is None:
                        continue
                    if d.op in ('and', 'or', 'select'):
                        todo += list(d.a)
                    elif d.op == 'icmp' and d.a[0].k == 'local' and d.a[0].v in cnt and d.a[1].k == 'int' and 0 <= d.a[1].v <= limit:
                        res = True
        s.cb_cache[key] = res
        return res

    def process_loop(s, st, f, header, prev, body, mode):
        b = f.blocks[header]
        # values of the header phis on entry
        init = {ph.res: st.regs[ph.res] for ph in b.phis}
        key = (f.name, header)
        hav = set()
        dropped = set()
        obl_mark = len(s.obls)
        rounds = 0
        entry_ok = {}
        wsave = s.wlog
        outer_dry = s.dry
        while True:
            rounds += 1
            if rounds > 400:
                raise Undecided('loop fixpoint')
            del s.obls[obl_mark:]
            s.dry = outer_dry + 1
            S1 = st.clone()
            k = s.fresh('iter')
            ctx = LoopCtx(s, f, header, st, k)
            cur, ini = {}, {}
            for ph in b.phis:
                h = 'phi:' + ph.res
                iv = init[ph.res]
                cur[h], ini[h], ctx.info[h] = s.havoc_val(h, iv, ph.ty)
                S1.regs[ph.res] = s.unview(cur[h], ctx.info[h])
            for w in sorted(hav, key=str):
                h = ':'.join(map(str, w))
                if w[0] == 'cell':
                    _, rid, off, n = w
                    iv = s.cell_load(st, s.regions[rid], off, n)
                    cur[h], ini[h], ctx.info[h] = s.havoc_val(h, iv, None)
                    s.cell_store(S1, s.regions[rid], off, s.unview(cur[h], ctx.info[h]), n)
                    ctx.info[h]['rid'] = ctx.info[h].get('rid')
                    ctx.info[h]['cell'] = (rid, off)
                elif w[0] == 'arr':
                    _, rid, seg = w
                    ia = st.arrs[(rid, seg)]
                    na = ABase('h.' + s.regions[rid].name, ia.esz)
                    S1.arrs[(rid, seg)] = na
                    cur[h], ini[h] = na, ia
                    ctx.info[h] = dict(kind='arr', rid=rid, seg=seg, esz=ia.esz, init=ia)
                elif w[0] == 'g':
                    gk = w[1]
                    iv = st.g[gk]
                    if isinstance(iv, Arr):
                        na = ABase('h.%s' % (gk,), iv.esz)
                        S1.g[gk] = na
                        cur[h], ini[h] = na, iv
                        ctx.info[h] = dict(kind='garr', g=gk, esz=iv.esz, init=iv, rid=None)
                    else:
                        nv = s.fresh('h.%s' % (gk,), iv.size()) if z3.is_bv(iv) else s.fresh_bool('h.%s' % (gk,))
                        S1.g[gk] = nv
                        cur[h], ini[h] = nv, iv
                        ctx.info[h] = dict(kind='gint' if z3.is_bv(iv) else 'gbool', g=gk, w=iv.size() if z3.is_bv(iv) else 1, init=iv)
            ctx.cur = cur
            ctx.ini = ini
            cur['k'] = k
            ini['k'] = BVV(0, 64)
            vini = View(s, st.clone(), ini)
            vcur = View(s, S1, cur)
            ctx.view = vcur
            ctx.written = hav
            cands = s.spec.loop(ctx)
            if cands == 'unroll':
                raise Undecided('spec cannot handle loop')
            cands = [c for c in cands if c.name not in dropped]
            # entry check
            bad = s.houdini(vini, [c for c in cands if c.name not in entry_ok], ctx)
            for c in cands:
                if c.name not in bad:
                    entry_ok[c.name] = 1
            dropped |= bad
            cands = [c for c in cands if c.name not in dropped]
            for c in cands:
                if isinstance(c, QCand):
                    arr = cur[c.h]

                    def fact(i, v, sink, c=c):
                        return c.fn(View(s, SinkState(sink), cur), i, v)
                    arr.facts.append(fact)
                else:
                    S1.pc.add(c.fn(vcur))
            for hh in getattr(ctx, 'hints', []):
                S1.pc.add(hh(vcur))
            if getattr(ctx, 'on_header', None):
                ctx.on_header(vcur, S1)
            s.wlog = []
            # run the body (dry: only to learn writes and check candidates)
            last = False
            outs = s.run(S1.clone(), f, header, prev, (header, body))
            new = set()
            for w in s.wlog:
                if w[0] in ('cell', 'arr') and w[1] not in st.cells and (w[1], 0) not in st.arrs:
                    continue
                if w[0] == 'cell' and s.regions[w[1]].kind == 'arr':
                    continue
                if w[0] == 'g' and w[1] not in st.g:
                    continue
                new.add(w)
            inner_w = set(new)
            if not new <= hav:
                hav |= new
                # drop sub-cells overlapped by others of different size
                hav = s.fix_cells(hav)
                s.dry = outer_dry
                s.wlog = wsave
                entry_ok = {}
                continue
            # preservation
            bad = set()
            for o in outs:
                if o[0] != 'back':
                    continue
                S2 = o[1]
                nv = {}
                pv = {}
                okk = True
                for ph in b.phis:
                    pv[ph.res] = S2.regs[ph.res]
                for ph in b.phis:
                    h = 'phi:' + ph.res
                    nv[h] = s.view_val(S2, pv[ph.res], ctx.info[h], init[ph.res])
                for w in hav:
                    h = ':'.join(map(str, w))
                    if w[0] == 'cell':
                        v = s.cell_load(S2, s.regions[w[1]], w[2], w[3])
                        nv[h] = s.view_val(S2, v, ctx.info[h], None)
                    elif w[0] == 'arr':
                        nv[h] = S2.arrs[(w[1], w[2])]
                    else:
                        nv[h] = S2.g[w[1]]
                nv['k'] = k + 1
                vn = View(s, S2, nv)
                live = [c for c in cands if c.name not in bad]
                if getattr(ctx, 'on_back', None):
                    ctx.on_back(vcur, vn, S2)
                bad |= s.houdini(vn, live, ctx)
            if bad:
                dropped |= bad
                s.dry = outer_dry
                s.wlog = wsave
                continue
            s.dry = outer_dry
            if outer_dry == 0:
                # final pass with obligations on
                mark = len(s.obls)
                outs = s.run(S1.clone(), f, header, prev, (header, body))
                s.loops_cut.append(dict(fn=f.name, header=header, invariants=[c.name for c in cands], rounds=rounds))
                for c in cands:
                    ob = Ob('invariant:%s' % c.name, [], z3.BoolVal(True), s.cur_fn)
                    ob.res = 'proved'
                    ob.backend = 'z3'
                    ob.kind = 'inv'
                    s.obls.append(ob)
                s.vacuity.append(('loop %s' % header, S1.pc))
                if s.verbose:
                    print('  loop', f.name, header, 'inv:', [c.name for c in cands], 'dropped:', sorted(dropped))
            s.wlog = wsave + list(inner_w)
            return [o for o in outs if o[0] != 'back']

    def fix_cells(s, hav):
        cells = [w for w in hav if w[0] == 'cell']
        out = set(w for w in hav if w[0] != 'cell')
        for w in cells:
            if any(v != w and v[1] == w[1] and v[2] <= w[2] and w[2] + w[3] <= v[2] + v[3] for v in cells):
                continue
            out.add(w)
        return out

    def havoc_val(s, h, iv, ty):
        """-> (current view value, initial view value, info)"""
        if isinstance(iv, PtrInt):
            iv = iv.p
        if isinstance(iv, Ptr):
            if iv.r is None:
                # pointer starting as null/undef: not supported unless never used
                return iv, iv, dict(kind='opaque', init=iv)
            r = s.regions[iv.r]
            e = r.esz if r.kind == 'arr' else 1
            q = iv.o.div(e)
            sub = 0
            if q is None:
                e = 1
                q = iv.o
            return s.fresh(h), simp(q.bv()), dict(kind='ptr', rid=iv.r, esz=e, init=simp(q.bv()), w=64)
        if isinstance(iv, FnPtr) or isinstance(iv, list) or iv is None:
            return iv, iv, dict(kind='opaque', init=iv)
        if z3.is_bool(iv):
            return s.fresh_bool(h), iv, dict(kind='bool', init=iv, w=1)
        return s.fresh(h, iv.size()), iv, dict(kind='int', init=iv, w=iv.size())

    def unview(s, v, info):
        if info['kind'] == 'ptr':
            return Ptr(info['rid'], lin_of(v, info['esz']))
        return v

    def view_val(s, st, v, info, init):
        if info['kind'] == 'ptr':
            if isinstance(v, PtrInt):
                v = v.p
            if not isinstance(v, Ptr) or v.r != info['rid']:
                raise Undecided('pointer changes object in loop')
            q = v.o.div(info['esz'])
            if q is None:
                raise Undecided('pointer stride')
            return simp(q.bv())
        if info['kind'] == 'opaque':
            if isinstance(v, Ptr) and isinstance(info['init'], Ptr) and v.r == info['init'].r and v.o.const() is not None and v.o.const() == info['init'].o.const():
                return v
            if v is info['init']:
                return v
            raise Undecided('opaque value changes in loop')
        if isinstance(v, (Ptr, PtrInt)):
            raise Undecided('pointer in integer variable')
        return v

    def houdini(s, view, cands, ctx):
        """names of candidates that do not hold in view.st"""
        bad = set()
        live = list(cands)
        goals = {}
        st = view.st
        for c in live:
            if isinstance(c, QCand):
                j = s.fresh('j')
                a = view.vals[c.h]
                goals[c.name] = c.fn(view, j, a.rd(j, st.pc))
            else:
                goals[c.name] = c.fn(view)
        if not live:
            return bad
        # conjunction first, then model guided elimination
        for c in list(live):
            g = goals[c.name]
            if isinstance(g, bool):
                g = z3.BoolVal(g)
            g = simp(g)
            goals[c.name] = g
            if z3.is_true(g):
                live.remove(c)
        t0 = time.time()
        while live:
            sol = s.mk_solver(st.pc.l)
            sol.set('timeout', 1500)
            sol.add(z3.Not(z3.And(*[goals[c.name] for c in live])))
            r = sol.check()
            s.stats.queries += 1
            if r == z3.unsat:
                break
            if r == z3.sat:
                m = sol.model()
                rm = [c for c in live if not z3.is_true(m.eval(goals[c.name], model_completion=True))]
                if not rm:
                    rm = live[:1]
                for c in rm:
                    bad.add(c.name)
                    live.remove(c)
            else:
                if s.cvc5(st.pc.l, z3.Not(z3.And(*[goals[c.name] for c in live])), 3000, AS_INT):
                    break
                # decide one by one
                rm = []
                for c in live:
                    if not s.decide_cand(view, c, goals[c.name]):
                        rm.append(c)
                for c in rm:
                    bad.add(c.name)
                    live.remove(c)
                break
        s.stats.time += time.time() - t0
        return bad

    def decide_cand(s, view, c, goal):
        st = view.st
        a = view.vals[c.h] if isinstance(c, QCand) else None
        at = []
        while isinstance(a, AStore) and len(at) < 8:
            at.append(a.i)
            a = a.prev
        if at:
            # written positions one by one, then the rest
            top = view.vals[c.h]
            for i in at:
                g = c.fn(view, i, top.rd(i, st.pc))
                if s.decide(st.pc.l, simp(g), 20000)[0] != 'proved':
                    return False
            j = s.fresh('j')
            g = c.fn(view, j, a.rd(j, st.pc))
            return s.decide(st.pc.l + [j != i for i in at], simp(g), 20000)[0] == 'proved'
        return s.decide(st.pc.l, goal, 20000)[0] == 'proved'

    def by_cases(s, pc, q, var, to):
        for n in range(1 << var.size()):
            c = BVV(n, var.size())
            sol = z3.Solver()
            sol.set('timeout', int(min(to, 5000)))
            sol.add(var == c)
            sub = [z3.simplify(z3.substitute(f, (var, c))) for f in list(pc) + [q]]
            if any(z3.is_false(f) for f in sub):
                continue
            sol.add(*sub)
            s.stats.queries += 1
            r = sol.check()
            if r == z3.sat:
                return 'refuted', sol.model()
            if r != z3.unsat:
                if not s.cvc5(sub, z3.BoolVal(True), 3000, AS_INT):
                    return None
        return 'proved', None

    def mk_solver(s, pc):
        sol = z3.Solver()
        for f in pc:
            sol.add(f)
        return sol

    def cvc5(s, pc, q, ms, opts=()):
        """is pc & q unsatisfiable according to cvc5"""
        sol = s.mk_solver(pc)
        sol.add(q)
        smt = '(set-logic ALL)\n' + sol.to_smt2()
        if len(smt) > 3000000:
            return False
        try:
            p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % ms] + list(opts), input=smt, capture_output=True, text=True, timeout=ms / 1000 + 10)
        except subprocess.TimeoutExpired:
            return False
        return p.stdout.strip().split('\n')[0] == 'unsat'

    # ------------------------------------------------------------ deciding obligations
    def decide(s, pc, goal, to):
        t0 = time.time()
        if z3.is_true(goal):
            return 'proved', None, 'simplifier', 0
        q = z3.Not(goal)
        if len(pc) > 3:
            # fewer hypotheses first: only those about terms of the goal
            ga = atoms(goal)
            sub = [f for f in pc if atoms(f) <= ga]
            inner = set()
            for k in ga:
                inner |= _atoms[k][0] - {k}
            top = ga - inner
            sub0 = [f for f in sub if atoms(f) & top]
            for hyp in (sub0, sub):
                if len(hyp) < len(pc):
                    sol = z3.Solver()
                    sol.set('timeout', 1500)
                    sol.add(*hyp)
                    sol.add(q)
                    s.stats.queries += 1
                    if sol.check() == z3.unsat:
                        return 'proved', None, 'z3', time.time() - t0
                if len(sub0) == len(sub):
                    break
        # linear arithmetic is easier over the integers
        sol = z3.Solver()
        sol.set('timeout', getattr(s.spec, 'first_to', 700))
        sol.add(*pc)
        sol.add(q)
        s.stats.queries += 1
        r = sol.check()
        if r == z3.unsat:
            return 'proved', None, 'z3', time.time() - t0
        if r == z3.sat:
            return 'refuted', sol.model(), 'z3', time.time() - t0
        if s.cvc5(pc, q, 3000, AS_INT):
            return 'proved', None, 'cvc5 (bit-vectors as integers)', time.time() - t0
        for var in getattr(s.spec, 'cases', ()):
            # a small variable that the goal depends on (a shift amount): one query per value
            r = s.by_cases(pc, q, var, to)
            if r is not None:
                return r[0], r[1], 'z3 (case split)', time.time() - t0
        for mk, frac in ((z3.Solver, 0.08), (lambda: z3.SolverFor('QF_AUFBV'), 0.3), (z3.Solver, 0.3), (lambda: z3.Then('simplify', 'propagate-values', 'solve-eqs', 'simplify', 'smt').solver(), 0.4)):
            sol = mk()
            sol.set('timeout', int(to * frac))
            for f in pc:
                sol.add(f)
            sol.add(q)
            s.stats.queries += 1
            try:
                r = sol.check()
            except z3.Z3Exception:
                continue
            if r == z3.unsat:
                return 'proved', None, 'z3', time.time() - t0
            if r == z3.sat:
                return 'refuted', sol.model(), 'z3', time.time() - t0
            if frac == 0.08 and z3.is_eq(goal) and z3.is_bv(goal.arg(0)) and goal.arg(0).size() >= 32:
                if sweep.equal(goal.arg(0), goal.arg(1), pc=pc):
                    return 'proved', None, 'z3 (equivalence sweep)', time.time() - t0
        if s.cvc5(pc, q, int(to)):
            return 'proved', None, 'cvc5', time.time() - t0
        return 'unknown', None, 'z3,cvc5', time.time() - t0

    # ------------------------------------------------------------ top level
    def verify(s, fname, setup, post):
        """setup(eng, st) -> args ; post(eng, st, kind, ret) -> list of (name, goal).  Collects obligations."""
        s.cur_fn = fname
        s.stack = []
        s.vacuity = []
        st = State()
        args = setup(s, st)
        s.vacuity.append(('precondition', st.pc.clone()))
        f = s.m.funcs[fname]
        outs = s.call_function(st, f, args)
        s.nret = 0
        for st2, kind, v in outs:
            if s.check(st2.pc) == 'unsat':
                continue
            s.nret += 1
            for name, goal in post(s, st2, kind, v):
                if isinstance(goal, bool):
                    goal = z3.BoolVal(goal)
                s.obls.append(Ob('post:' + name, list(st2.pc.l), goal, fname))
                s.obls[-1].st = st2
        return outs


_atoms = {}


def by_parts(e, lg):
    """(t1 + t2 + ...) >> lg for zero-extended terms ti = Concat(0.., Qi, Ri): the sum of the quotients plus the carry of the low parts.
    Exact: every ti is below 2^58 and there are at most 8 of them, so the sum does not wrap."""
    e = simp(e)
    ts = e.children() if z3.is_app_of(e, z3.Z3_OP_BADD) else [e]
    if len(ts) > 8:
        return None
    hi, lo = [], []
    for t in ts:
        n = num(t)
        if n is not None:
            if n >= 1 << 58:
                return None
        elif z3.is_app_of(t, z3.Z3_OP_CONCAT) and num(t.arg(0)) == 0 and t.arg(0).size() >= 6:
            pass
        else:
            return None
        hi.append(simp(z3.LShR(t, lg)))
        lo.append(simp(z3.ZeroExt(3, z3.Extract(lg - 1, 0, t))))
    c = lo[0]
    for x in lo[1:]:
        c = c + x
    q = hi[0]
    for x in hi[1:]:
        q = q + x
    if len(ts) > 1:
        q = q + z3.ZeroExt(61, z3.Extract(lg + 2, lg, c))
    return simp(q)


def atoms(e):
    """ids of the uninterpreted applications (constants included) in e"""
    i = e.get_id()
    r = _atoms.get(i)
    if r is not None:
        return r[0]
    todo = [e]
    while todo:
        x = todo[-1]
        k = x.get_id()
        if k in _atoms:
            todo.pop()
            continue
        ch = x.children()
        miss = [c for c in ch if c.get_id() not in _atoms]
        if miss:
            todo += miss
            continue
        todo.pop()
        if len(ch) == 1:
            a = _atoms[ch[0].get_id()][0]
        else:
            a = frozenset().union(*[_atoms[c.get_id()][0] for c in ch]) if ch else frozenset()
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            a = a | {k}
        _atoms[k] = (a, x)
    return _atoms[i][0]


_ubound = {}


def udivc(sink, x, c):
    """quotient of an unsigned division by a constant, given by its defining property (cheaper than a divider circuit)"""
    n = num(x)
    w = x.size()
    if n is not None:
        return BVV(n // c, w)
    # the quotient of a zero extended value is the zero extended quotient
    if z3.is_app_of(x, z3.Z3_OP_ZERO_EXT):
        y = x.arg(0)
        if y.size() >= 16 and c < (1 << y.size()):
            return z3.ZeroExt(w - y.size(), udivc(sink, y, c))
    if z3.is_app_of(x, z3.Z3_OP_CONCAT) and x.num_args() == 2 and num(x.arg(0)) == 0:
        y = x.arg(1)
        if y.size() >= 16 and c < (1 << y.size()):
            return z3.ZeroExt(w - y.size(), udivc(sink, y, c))
    f = z3.Function('udiv%d_%d' % (c, w), z3.BitVecSort(w), z3.BitVecSort(w))
    q = f(x)
    key = ('udiv', c, x.get_id())
    mx = _ubound.get(x.get_id(), ((1 << w) - 1, x))[0] // c
    _ubound[q.get_id()] = (mx, q)
    if key not in sink.keys:
        sink.keys[key] = x
        sink.add(z3.And(z3.ULE(q, BVV(mx, w)), z3.ULE(q * BVV(c, w), x), z3.ULT(x - q * BVV(c, w), BVV(c, w))))
        sink.add((q == 0) == z3.ULT(x, BVV(c, w)))
    return q


def sdivc(sink, x, c):
    """signed division by a positive constant, truncating"""
    n = num(x)
    w = x.size()
    if n is not None:
        return simp(x / BVV(c, w))
    f = z3.Function('sdiv%d_%d' % (c, w), z3.BitVecSort(w), z3.BitVecSort(w))
    q = f(x)
    key = ('sdiv', c, x.get_id())
    if key not in sink.keys:
        sink.keys[key] = x
        r = x - q * BVV(c, w)
        m = (1 << (w - 1)) // c
        sink.add(z3.And(q <= BVV(m, w), q >= BVV(-m, w), z3.If(x >= 0, z3.And(r >= 0, r < BVV(c, w), q >= 0), z3.And(r <= 0, r > BVV(-c, w), q <= 0))))
    return q


def Val0(t):
    return ir.Val('zero', t)


class SinkState:
    def __init__(s, pc):
        s.pc = pc


class Dead(Exception):
    pass


def eqv(x, y):
    if x is y:
        return True
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        if x.r != y.r:
            return False
        return x.o.sub(y.o).const() == 0
    if isinstance(x, PtrInt) and isinstance(y, PtrInt):
        return eqv(x.p, y.p)
    if isinstance(x, FnPtr) and isinstance(y, FnPtr):
        return x.name == y.name
    if isinstance(x, list) and isinstance(y, list):
        return len(x) == len(y) and all(eqv(u, v) for u, v in zip(x, y))
    if isinstance(x, z3.AstRef) and isinstance(y, z3.AstRef):
        return x.eq(y)
    return False


class NeedCases(Exception):
    def __init__(s, r, o, offs, p):
        s.r, s.o, s.offs, s.p = r, o, offs, p


class NeedFork(Exception):
    def __init__(s, c):
        s.c = c


CMP = {'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE,
       'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b, 'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b}


def popcnt(v):
    w = v.size()
    r = BVV(0, w)
    for k in range(w):
        r = r + z3.ZeroExt(w - 1, z3.Extract(k, k, v)) if w > 1 else v
    return r


def ctlz(v):
    w = v.size()
    r = BVV(w, w)
    for k in range(w):
        r = z3.If(z3.Extract(k, k, v) == 1, BVV(w - 1 - k, w), r)
    return r


def cttz(v):
    w = v.size()
    r = BVV(w, w)
    for k in reversed(range(w)):
        r = z3.If(z3.Extract(k, k, v) == 1, BVV(k, w), r)
    return r


# ---------------------------------------------------------------- contracts of the C and C++ runtime (assumed)
# meaning of the inline assembly that the library uses


def _rot(f):
    def g(x, r):
        n = num(simp(r & 31))
        return f(x, n) if n is not None else f(x, r & 31)
    return g


ASM = {'rorl %cl, $0': _rot(z3.RotateRight), 'roll %cl, $0': _rot(z3.RotateLeft)}


def b_throw(eng, st, args, x):
    return [(st, 'throw', None)]


def b_new(eng, st, args, x):
    n = simp(args[0])
    c = num(n)
    r = eng.new_region('heap', 'heap')
    r.kind = 'arr'
    r.esz = 1
    r.nelem = n
    st.arrs[(r.rid, 0)] = ABase('heap', 1)
    return [(st, 'ret', Ptr(r.rid, Lin(0)))]


def b_nop(eng, st, args, x):
    return None


def b_memcpy(eng, st, args, x):
    eng.memcpy(st, args[0], args[1], args[2])
    return [(st, 'ret', args[0])]


def b_memset(eng, st, args, x):
    v = args[1]
    eng.memset(st, args[0], simp(z3.Extract(7, 0, v)), args[2])
    return [(st, 'ret', args[0])]


def b_memcmp(eng, st, args, x):
    p, q, n = args
    n = simp(n)
    c = num(n)
    if c is None:
        raise Undecided('memcmp of symbolic size')
    a = [eng.load_n(st, Ptr(p.r, p.o.add(Lin(i))), 1) for i in range(c)]
    b = [eng.load_n(st, Ptr(q.r, q.o.add(Lin(i))), 1) for i in range(c)]
    r = eng.fresh('memcmp', 32)
    eq = z3.And(*[u == v for u, v in zip(a, b)]) if c else z3.BoolVal(True)
    st.pc.add((r == 0) == eq)
    lt = z3.BoolVal(False)
    for u, v in reversed(list(zip(a, b))):
        lt = z3.Or(z3.ULT(u, v), z3.And(u == v, lt))
    if x.a[0].v == 'memcmp':
        st.pc.add((r < 0) == lt)
    return [(st, 'ret', r)]


def b_assert_fail(eng, st, args, x):
    eng.oblige(st, 'assert-not-violated', False)
    raise Dead()


BUILTIN = {
    '__cxa_allocate_exception': b_throw,
    '__cxa_throw': b_throw,
    '__cxa_rethrow': b_throw,
    '_Znwm': b_new, '_Znam': b_new, 'malloc': b_new,
    '_ZdlPv': b_nop, '_ZdaPv': b_nop, '_ZdlPvm': b_nop, '_ZdaPvm': b_nop, 'free': b_nop,
    'memcpy': b_memcpy, 'memmove': b_memcpy, 'memset': b_memset,
    'memcmp': b_memcmp, 'bcmp': b_memcmp,
    '__assert_fail': b_assert_fail,
    '__cxa_guard_acquire': lambda e, st, a, x: [(st, 'ret', BVV(1, 32))],
    '__cxa_guard_release': b_nop,
}
LIB = [
    (re.compile(r'^std::__throw_'), b_throw),
]
