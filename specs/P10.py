"""serializer: the documented bytes out, exactly those bytes back in"""
from specs.streams import *
from vf import stdlib
import re
TU = 'serial.cpp'
HARNESS = 'P10.cpp'
BUDGET = 300
SMALL = ('N', 'n')
ASSUMPTIONS = ['std::string, std::vector and std::basic_string<Char> obey their contracts (vf/stdlib.py)', 'cybozu::read is used through its contract, which P09 proves']
READ = re.compile(r'^void cybozu::read<In>\(void\*')


def ex(v, i):
    return z3.Extract(8 * i + 7, 8 * i, v)


def var_enc(x):
    """documented variable-length form of an integer -> (length, bytes)"""
    w = x.size()
    rec = lambda n, sg: (sx if sg else zx)(z3.Extract(n - 1, 0, x), w) == x if n <= w else z3.BoolVal(True)
    tag = rng(ex(x, 0), 0x80, 0x87)
    cases = [(z3.And(rec(8, 1), z3.Not(tag)), 1, None), (rec(8, 1), 2, 0x84), (rec(8, 0), 2, 0x80), (rec(16, 0), 3, 0x81), (rec(16, 1), 3, 0x85),
             (rec(32, 0), 5, 0x82), (rec(32, 1), 5, 0x86), (z3.BoolVal(True), 9, 0x83)]
    if w == 32:
        cases = cases[:5] + [(z3.BoolVal(True), 5, 0x82)]
    n, b = None, None
    for c, l, h in reversed(cases):
        bs = [ex(x, 0)] if h is None else [BVV(h, 8)] + [ex(x, i) for i in range(l - 1)]
        bs = bs + [BVV(0, 8)] * (9 - len(bs))
        if n is None:
            n, b = c64(l), bs
        else:
            n = z3.If(c, c64(l), n)
            b = [z3.If(c, p, q) for p, q in zip(bs, b)]
    return n, b


def var_dec(M, p, rem, w):
    """(bytes consumed or 0 when it cannot be read, value)"""
    h = M(p)
    u = z3.Concat(*[M(simp(p + 1 + i)) for i in range(8)][::-1])
    cases = []
    for i, n in enumerate((1, 2, 4, 8)):
        for sg in (0, 1):
            if n == 8 and w == 32:
                cases.append((h == 0x83 + 4 * sg, c64(0), BVV(0, w)))
                continue
            v = z3.Extract(8 * n - 1, 0, u)
            cases.append((h == 0x80 + i + 4 * sg, c64(1 + n), (sx if sg else zx)(v, w)))
    n, v = c64(1), sx(h, w)
    for c, l, y in cases:
        n, v = z3.If(c, l, n), z3.If(c, y, v)
    return z3.If(z3.UGT(n, rem), c64(0), n), v


def pod_enc(x):
    k = x.size() // 8
    return c64(k), [ex(x, i) for i in range(k)]


def pod_dec(M, p, rem, w):
    k = w // 8
    v = z3.Concat(*[M(simp(p + i)) for i in range(k)][::-1]) if k > 1 else M(p)
    return z3.If(z3.ULT(rem, c64(k)), c64(0), c64(k)), v


class Ser(Streams):
    def __init__(s, w, enc, dec):
        Streams.__init__(s)
        s.contracts[READ] = s.c_xread
        s.w, s.enc, s.dec = w, enc, dec

    def base(s, eng, st):
        a, o = s.objs(eng, st)
        s.i0 = z3.BitVec('pre', 64)
        st.pc.add(z3.ULE(s.i0, s.N))
        st.g['ip'] = s.i0
        return a, o


class SaveOne(Ser):
    isbool = False

    def setup(s, eng, st):
        a, o = s.base(eng, st)
        w = 8 if s.isbool else s.w
        s.x = z3.BitVec('x', w)
        if s.isbool:
            st.pc.add(z3.ULE(s.x, 1))
        s.inputs = {'x': s.x}
        n, b = s.enc(s.x)
        s.len = n
        for i, v in enumerate(b):
            st.pc.add(z3.Implies(z3.ULT(c64(i), n), s.E(c64(i)) == v))
        return [o, (s.x == 1) if s.isbool else s.x]

    def post(s, eng, st, kind, ret):
        if kind != 'ret':
            return [('no-exception', False)]
        return [('bytes-written', st.g['op'] == s.len)]

    def lemmas(s, eng):
        n, b = s.enc(s.x)
        M = lambda p: s.M(simp(p))
        z = c64(0)
        hy = [z3.Implies(z3.ULT(c64(i), n), s.M(c64(i)) == v) for i, v in enumerate(b)]
        k, v = s.dec(s.M, z, n, s.w)
        yield 'loading-gives-back-the-value', hy, z3.And(k == n, v == s.x)


class LoadOne(Ser):
    isbool = False

    def setup(s, eng, st):
        a, o = s.base(eng, st)
        w = 8 if s.isbool else s.w
        if s.isbool:
            st.pc.add(z3.ULE(s.M(s.i0), 1))
        s.r = eng.new_region('x', 'obj', size=w // 8)
        st.cells[s.r.rid] = {0: (w // 8, eng.fresh('old', w))}
        s.inputs = {'M': ('bytes', s.arrM, s.N), 'pre': s.i0}
        return [Ptr(s.r.rid, Lin(0)), a]

    def post(s, eng, st, kind, ret):
        n, v = s.dec(s.M, s.i0, s.N - s.i0, s.w)
        if kind != 'ret':
            return [('raises-only-on-truncated-or-alien-input', n == 0)]
        return [('complete', n != 0), ('value', eng.cell_load(st, s.r, 0, s.w // 8) == v), ('consumed', st.g['ip'] == s.i0 + n)]


class SavePods(Ser):
    """length, then the elements byte for byte"""

    def __init__(s, e, kind):
        Ser.__init__(s, 64, var_enc, var_dec)
        s.e, s.kind = e, kind

    def setup(s, eng, st):
        a, o = s.base(eng, st)
        s.n = z3.BitVec('n', 64)
        st.pc.add(z3.ULT(s.n, c64(1 << 48)))
        s.a = ABase('v', s.e)
        s.inputs = {'v': ('bytes', s.a, s.n)}
        ln, b = var_enc(s.n)
        if s.kind == 'range':
            ln = c64(0)
        s.H = ln
        e, sh = s.e, s.e.bit_length() - 1

        def E(off):
            rel = simp(off - ln)
            el = s.a.rd(simp(z3.LShR(rel, sh)), None)
            y = ex(el, 0)
            for i in range(1, e):
                y = z3.If((rel & (e - 1)) == i, ex(el, i), y)
            for i in reversed(range(9)):
                y = z3.If(z3.And(off == i, z3.ULT(c64(i), ln)), b[i], y)
            return y
        s.E = E
        if s.kind == 'range':
            r = eng.array_region(st, 'p', e, s.n, s.a, ro=True)
            return [o, Ptr(r.rid, Lin(0)), s.n]
        if s.kind == 'cstr':
            nul = AFn(lambda j, sink: z3.If(j == s.n, BVV(0, 8), s.a.rd(j, sink)), 1)
            s.a.facts.append(lambda i, v, sink: z3.Implies(z3.ULT(i, s.n), v != 0))
            r = eng.array_region(st, 'p', 1, simp(s.n + 1), nul, ro=True)
            s.strlen = lambda eng, st, p: s.n if p.r == r.rid and p.o.const() == 0 else None
            s.contracts['strlen'] = lambda eng, st, a, x: [(st, 'ret', s.strlen(eng, st, a[0]))]
            return [o, Ptr(r.rid, Lin(0))]
        p = stdlib.new_container(eng, st, 'v')
        mk(eng, st, p, s.kind, e, s.n, s.a)
        return [o, p]

    def post(s, eng, st, kind, ret):
        if kind != 'ret':
            return [('no-exception', False)]
        return [('bytes-written', st.g['op'] == s.H + s.n * s.e)]


def mk(eng, st, p, kind, e, n, a):
    if kind == 'str':
        stdlib.WIDTH[0] = e
        c = stdlib.mk_string(eng, st, p)
        stdlib.WIDTH[0] = 1
        c.set(n, a)
    else:
        stdlib.mk_vector(eng, st, p, e, n, a)


class LoadPods(Ser):
    def __init__(s, e, kind):
        Ser.__init__(s, 64, var_enc, var_dec)
        s.e, s.kind = e, kind

    def setup(s, eng, st):
        a, o = s.base(eng, st)
        s.inputs = {'M': ('bytes', s.arrM, s.N), 'pre': s.i0}
        if s.kind == 'range':
            s.n = z3.BitVec('n', 64)
            st.pc.add(z3.ULT(s.n, c64(1 << 48)))
            s.inputs['n'] = s.n
            s.r = eng.array_region(st, 'p', s.e, s.n, ABase('old', s.e))
            return [Ptr(s.r.rid, Lin(0)), s.n, a]
        p = stdlib.new_container(eng, st, 'v')
        n0 = z3.BitVec('n0', 64)
        st.pc.add(z3.ULT(n0, c64(1 << 48)))
        mk(eng, st, p, s.kind, s.e, n0, ABase('old', s.e))
        s.P = p
        return [p, a]

    def post(s, eng, st, kind, ret):
        if s.kind == 'range':
            h, n = c64(0), s.n
            ok = z3.BoolVal(True)
        else:
            h, n = var_dec(s.M, s.i0, s.N - s.i0, 64)
            ok = h != 0
        rem = s.N - s.i0 - h
        ok = z3.And(ok, z3.ULE(n, z3.LShR(rem, s.e.bit_length() - 1)))
        if kind != 'ret':
            return [('raises-only-on-truncated-input', z3.Not(ok))]
        j = z3.BitVec('j', 64)
        if s.kind == 'range':
            a, total = st.arrs[(s.r.rid, 0)], n
        else:
            c = stdlib.C(eng, st, s.P, s.e, create=False).live()
            a, total = c.arr, c.n
        b0 = s.i0 + h
        el = z3.Concat(*[s.M(simp(b0 + j * s.e + i)) for i in range(s.e)][::-1]) if s.e > 1 else s.M(simp(b0 + j))
        return [('complete', ok), ('size', total == n), ('elements', z3.Implies(z3.ULT(j, n), a.rd(j, st.pc) == el)), ('consumed', st.g['ip'] == b0 + n * s.e)]


class SaveVec(Ser):
    """length, then each element in its own form: OFF(k) where element k starts"""

    def setup(s, eng, st):
        a, o = s.base(eng, st)
        s.n = z3.BitVec('n', 64)
        st.pc.add(z3.ULT(s.n, c64(1 << 48)))
        s.a = ABase('v', s.w // 8)
        s.inputs = {'v': ('bytes', s.a, s.n)}
        s.OFF = UF('off', 64, 64)
        ln, b = var_enc(s.n)
        for i, v in enumerate(b):
            st.pc.add(z3.Implies(z3.ULT(c64(i), ln), s.E(c64(i)) == v))
        st.pc.add(s.OFF(c64(0)) == ln)
        p = stdlib.new_container(eng, st, 'v')
        c = stdlib.mk_vector(eng, st, p, s.w // 8, s.n, s.a)
        s.rid = c.rid
        if getattr(s, 'bounded', False):
            st.pc.add(z3.ULE(s.n, c64(3)))
            for k in range(4):
                s.unfold(st.pc, c64(k))
        return [o, p]

    def unfold(s, sink, k):
        k = simp(k)
        ln, b = s.enc(s.a.rd(k, sink))
        o = s.OFF(k)
        t = [s.OFF(simp(k + 1)) == o + ln]
        for i, v in enumerate(b):
            t.append(z3.Implies(z3.ULT(c64(i), ln), s.E(simp(o + i)) == v))
        sink.add(z3.Implies(z3.ULT(k, s.n), z3.And(*t)))

    def loop(s, ctx):
        out = linear_cands(ctx)
        ctx.on_header = lambda v, st: s.unfold(st.pc, v['k'])
        out.append(Cand('k<=n', lambda v: z3.ULE(v['k'], s.n)))
        if 'g:op' in ctx.info:
            out.append(Cand('op=off(k)', lambda v: v['g:op'] == s.OFF(v['k'])))
        return out

    def post(s, eng, st, kind, ret):
        if kind != 'ret':
            return [('no-exception', False)]
        return [('bytes-written', st.g['op'] == s.OFF(s.n))]


class LoadVec(Ser):
    def setup(s, eng, st):
        a, o = s.base(eng, st)
        s.inputs = {'M': ('bytes', s.arrM, s.N), 'pre': s.i0}
        s.POS, s.VAL = UF('pos', 64, 64), UF('val', 64, s.w)
        s.h, s.n = var_dec(s.M, s.i0, s.N - s.i0, 64)
        st.pc.add(s.POS(c64(0)) == s.i0 + s.h)
        st.g['it'] = c64(0)
        st.g['in'] = z3.BoolVal(False)
        p = stdlib.new_container(eng, st, 'v')
        n0 = z3.BitVec('n0', 64)
        st.pc.add(z3.ULT(n0, c64(1 << 48)))
        c = stdlib.mk_vector(eng, st, p, s.w // 8, n0, ABase('old', s.w // 8))
        s.P, s.rid = p, c.rid
        if getattr(s, 'bounded', False):
            st.pc.add(z3.ULE(s.N, c64(12)))
            st.pc.add(z3.ULE(s.n, c64(3)))
            for k in range(4):
                s.unfold(st.pc, c64(k))
        return [p, a]

    def at(s, k):
        p = s.POS(k)
        return s.dec(s.M, p, s.N - p, s.w)

    def unfold(s, sink, k):
        k = simp(k)
        ln, v = s.at(k)
        p = s.POS(k)
        sink.add(z3.Implies(z3.And(z3.ULT(k, s.n), ln != 0), z3.And(s.POS(simp(k + 1)) == p + ln, s.VAL(k) == v)))

    def loop(s, ctx):
        out = linear_cands(ctx)

        def hdr(v, st):
            st.g['it'] = v['k']
            st.g['in'] = z3.BoolVal(True)
            s.unfold(st.pc, v['k'])
        ctx.on_header = hdr
        out.append(Cand('k<=n', lambda v: z3.ULE(v['k'], s.n)))
        out.append(Cand('ip<=N', lambda v: z3.ULE(v['g:ip'] if 'g:ip' in v.vals else s.i0, s.N)))
        if 'g:ip' in ctx.info:
            out.append(Cand('ip=pos(k)', lambda v: v['g:ip'] == s.POS(v['k'])))
        for h in ctx.arrs(s.rid):
            out.append(QCand('elements', h, lambda v, j, x: z3.Implies(z3.ULT(j, v['k']), x == s.VAL(j))))
        return out

    def post(s, eng, st, kind, ret):
        k = st.g['it']
        ln, v = s.at(k)
        if kind != 'ret':
            return [('raises-only-on-truncated-or-alien-input', z3.If(st.g['in'], z3.And(z3.ULT(k, s.n), ln == 0), z3.Or(s.h == 0, z3.And(s.n != 0, ln == 0))))]
        c = stdlib.C(eng, st, s.P, s.w // 8, create=False).live()
        j = z3.BitVec('j', 64)
        return [('complete', s.h != 0), ('size', c.n == s.n), ('elements', z3.Implies(z3.ULT(j, s.n), c.arr.rd(j, st.pc) == s.VAL(j))), ('consumed', st.g['ip'] == s.POS(s.n))]


def targets(tier):
    out = []
    NI = READ

    def T(label, fn, mk_, hfn, wt=1, defs=None):
        out.append(Target(label, fn, mk_, hfn=hfn, noinline=NI, weight=wt, defs=defs))

    def one(cls, w, e, d, isb):
        def f():
            x = cls(w, e, d)
            x.isbool = isb
            return x
        return f
    for n, w in (('bool', 8), ('char', 8), ('short', 16), ('uchar', 8), ('ushort', 16), ('wchar', 32)):
        T('save(%s)' % n, 'w_save_' + n, one(SaveOne, w, pod_enc, pod_dec, n == 'bool'), 'save_' + n)
        T('load(%s)' % n, 'w_load_' + n, one(LoadOne, w, pod_enc, pod_dec, n == 'bool'), 'load_' + n)
    for n, w in (('int', 32), ('long', 64), ('ll', 64), ('uint', 32), ('ulong', 64), ('ull', 64)):
        T('save(%s)' % n, 'w_save_' + n, one(SaveOne, w, var_enc, var_dec, False), 'save_' + n)
        T('load(%s)' % n, 'w_load_' + n, one(LoadOne, w, var_enc, var_dec, False), 'load_' + n)
        fx = ('CYBOZU_SERIALIZER_FIXED_SIZE_INTEGER',)
        T('save(%s) fixed size' % n, 'w_save_' + n, one(SaveOne, w, pod_enc, pod_dec, False), 'fixed_save_' + n, defs=fx)
        T('load(%s) fixed size' % n, 'w_load_' + n, one(LoadOne, w, pod_enc, pod_dec, False), 'fixed_load_' + n, defs=fx)
    for n, e, k in (('str', 1, 'str'), ('String', 4, 'str'), ('pod4', 4, 'vec'), ('pod8', 8, 'vec'), ('range', 2, 'range'), ('cstr', 1, 'cstr')):
        T('save(%s)' % n, 'w_save_' + n, lambda e=e, k=k: SavePods(e, k), 'save_' + n, 2)
        if n != 'cstr':
            T('load(%s)' % n, 'w_load_' + n, lambda e=e, k=k: LoadPods(e, k), 'load_' + n, 2)
    for n, w, e, d in (('vint', 32, var_enc, var_dec), ('vull', 64, var_enc, var_dec), ('vshort', 16, pod_enc, pod_dec)):
        T('save(%s)' % n, 'w_save_' + n, lambda w=w, e=e, d=d: SaveVec(w, e, d), 'save_' + n, 5)
        T('load(%s)' % n, 'w_load_' + n, lambda w=w, e=e, d=d: LoadVec(w, e, d), 'load_' + n, 5)
    return out
