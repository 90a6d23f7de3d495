"""UTF-8 / UTF-16 / String conversion: exactly the well-formed texts, exactly their code points"""
from specs.lib import *
from vf import stdlib
from vf.engine import AFn, bv64
TU = 'utf.cpp'
HARNESS = 'P08.cpp'
BUDGET = 300
SMALL = ('N',)
ASSUMPTIONS = ['std::string, std::basic_string<Char16> and std::basic_string<Char> obey their contracts (vf/stdlib.py)']
BITS = {8: 8, 16: 16, 32: 32}


def x32(v):
    return zx(v, 32)


def surr(c):
    return rng(c, 0xd800, 0xdfff)


def valid(c):
    return z3.And(z3.ULE(c, BVV(0x10ffff, 32)), z3.Not(surr(c)))


def cont(b):
    return rng(b, 0x80, 0xbf)


def dec8(b, rem):
    """Unicode table 3-7 -> (length or 0, code point)"""
    b0, b1, b2, b3 = b
    two = z3.And(z3.UGE(rem, 2), rng(b0, 0xc2, 0xdf), cont(b1))
    lo = z3.If(b0 == 0xe0, BVV(0xa0, 8), BVV(0x80, 8))
    hi = z3.If(b0 == 0xed, BVV(0x9f, 8), BVV(0xbf, 8))
    three = z3.And(z3.UGE(rem, 3), rng(b0, 0xe0, 0xef), z3.UGE(b1, lo), z3.ULE(b1, hi), cont(b2))
    lo = z3.If(b0 == 0xf0, BVV(0x90, 8), BVV(0x80, 8))
    hi = z3.If(b0 == 0xf4, BVV(0x8f, 8), BVV(0xbf, 8))
    four = z3.And(z3.UGE(rem, 4), rng(b0, 0xf0, 0xf4), z3.UGE(b1, lo), z3.ULE(b1, hi), cont(b2), cont(b3))
    one = z3.ULE(b0, 0x7f)
    n = z3.If(one, c64(1), z3.If(two, c64(2), z3.If(three, c64(3), z3.If(four, c64(4), c64(0)))))
    p = lambda b, m, s: x32(b & m) << s
    cp = z3.If(one, x32(b0), z3.If(two, p(b0, 0x1f, 6) | p(b1, 0x3f, 0), z3.If(three, p(b0, 0xf, 12) | p(b1, 0x3f, 6) | p(b2, 0x3f, 0),
                                                                               p(b0, 7, 18) | p(b1, 0x3f, 12) | p(b2, 0x3f, 6) | p(b3, 0x3f, 0))))
    return n, cp


def dec16(u, rem):
    u0, u1 = u
    lead, trail = rng(u0, 0xd800, 0xdbff), rng(u1, 0xdc00, 0xdfff)
    alone = z3.Not(surr(u0))
    pair = z3.And(lead, z3.UGE(rem, 2), trail)
    return z3.If(alone, c64(1), z3.If(pair, c64(2), c64(0))), z3.If(alone, x32(u0), BVV(0x10000, 32) + (x32(u0 & 0x3ff) << 10) + x32(u1 & 0x3ff))


def enc8(c):
    b = lambda v: z3.Extract(7, 0, v)
    n = z3.If(z3.Not(valid(c)), c64(0), z3.If(z3.ULE(c, 0x7f), c64(1), z3.If(z3.ULE(c, 0x7ff), c64(2), z3.If(z3.ULE(c, 0xffff), c64(3), c64(4)))))
    t = lambda s: b(z3.LShR(c, s) & 0x3f | 0x80)
    L = lambda k: n == k
    return n, [z3.If(L(1), b(c), z3.If(L(2), b(z3.LShR(c, 6) | 0xc0), z3.If(L(3), b(z3.LShR(c, 12) | 0xe0), b(z3.LShR(c, 18) | 0xf0)))),
               z3.If(L(2), t(0), z3.If(L(3), t(6), t(12))), z3.If(L(3), t(0), t(6)), t(0)]


def enc16(c):
    h = lambda v: z3.Extract(15, 0, v)
    n = z3.If(z3.UGT(c, 0x10ffff), c64(0), z3.If(z3.ULE(c, 0xffff), c64(1), c64(2)))
    d = c - 0x10000
    return n, [z3.If(n == 1, h(c), h(z3.LShR(d, 10) | 0xd800)), h((d & 0x3ff) | 0xdc00)]


def enc32(c):
    return c64(1), [c]


ENC = {8: enc8, 16: enc16, 32: enc32}


class One(Spec):
    """one character"""

    def __init__(s, fn):
        s.fn = fn

    def setup(s, eng, st):
        f = s.fn
        if f in ('get8', 'get16'):
            w = int(f[3:])
            s.n = z3.BitVec('n', 64)
            st.pc.add(z3.And(s.n != 0, z3.ULT(s.n, c64(1 << 40))))
            s.a = ABase('p', w // 8)
            r = eng.array_region(st, 'p', w // 8, s.n, s.a, ro=True)
            ok, c = eng.new_region('ok', 'obj', size=1), eng.new_region('c', 'obj', size=4)
            st.cells[ok.rid], st.cells[c.rid] = {0: (1, BVV(0, 8))}, {0: (4, eng.fresh('c0', 32))}
            s.ok, s.c = ok, c
            s.inputs = {'M': ('bytes', s.a, s.n)}
            return [Ptr(ok.rid, Lin(0)), Ptr(c.rid, Lin(0)), Ptr(r.rid, Lin(0)), Ptr(r.rid, lin_of(s.n, w // 8))]
        s.cp = z3.BitVec('c', 32)
        s.inputs = {'c': s.cp}
        if f in ('size', 'valid'):
            return [s.cp]
        s.w = w = 8 if f.endswith('8') else 16
        if f.startswith('to'):
            s.o0 = ABase('out', w // 8)
            s.o = eng.array_region(st, 'out', w // 8, c64(4 if w == 8 else 2), s.o0)
            return [Ptr(s.o.rid, Lin(0)), s.cp]
        stdlib.WIDTH[0] = w // 8
        s.P = stdlib.new_container(eng, st, 'out')
        s.n0, s.a0 = z3.BitVec('n0', 64), ABase('old', w // 8)
        st.pc.add(z3.ULT(s.n0, c64(1 << 40)))
        stdlib.mk_string(eng, st, s.P, s.n0, s.a0)
        stdlib.WIDTH[0] = 1
        return [s.P, s.cp]

    def post(s, eng, st, kind, ret):
        if kind != 'ret':
            return [('no-exception', False)]
        f = s.fn
        if f in ('size', 'valid'):
            n, _ = enc8(s.cp)
            return [('utf8-length', zx(ret, 64) == n)] if f == 'size' else [('scalar-value', boolv(ret) == valid(s.cp))]
        if f in ('get8', 'get16'):
            k = 4 if f == 'get8' else 2
            u = [z3.If(z3.ULT(c64(i), s.n), s.a.rd(c64(i), st.pc), BVV(0, 8 * s.a.esz)) for i in range(k)]
            n, cp = (dec8 if f == 'get8' else dec16)(u, s.n)
            ok = eng.cell_load(st, s.ok, 0, 1)
            c = eng.cell_load(st, s.c, 0, 4)
            out = [('well-formed-is-decoded', z3.Implies(n != 0, z3.And(ok == 1, c == cp, ret == n))), ('stays-in-range', z3.ULE(ret, s.n))]
            lone = rng(u[0], 0xdc00, 0xdfff) if f == 'get16' else z3.BoolVal(False)
            out.append(('ill-formed-is-refused', z3.Implies(z3.And(n == 0, z3.Not(lone)), ok == 0)))
            return out
        n, e = ENC[s.w](s.cp)
        pre = z3.Not(surr(s.cp)) if s.w == 16 else z3.BoolVal(True)
        out = []
        if f.startswith('to'):
            out.append(('length', z3.Implies(pre, zx(ret, 64) == n)))
            a, b, o0 = st.arrs[(s.o.rid, 0)], c64(0), s.o0
            for i, v in enumerate(e):
                got = a.rd(c64(i), st.pc)
                out.append(('unit%d' % i, z3.Implies(pre, got == z3.If(z3.ULT(c64(i), n), v, got))))
            return out
        c = stdlib.C(eng, st, s.P, s.w // 8, create=False).live()
        out.append(('accepts', z3.Implies(pre, boolv(ret) == (n != 0))))
        out.append(('length', z3.Implies(pre, c.n == s.n0 + n)))
        for i, v in enumerate(e):
            out.append(('unit%d' % i, z3.Implies(z3.And(pre, z3.ULT(c64(i), n)), c.arr.rd(simp(s.n0 + i), st.pc) == v)))
        j = z3.BitVec('j', 64)
        out.append(('kept', z3.Implies(z3.ULT(j, s.n0), c.arr.rd(j, st.pc) == s.a0.rd(j, st.pc))))
        return out


def boolv(b):
    return b if z3.is_bool(b) else b != 0


class Conv(Spec):
    """whole texts: POS(k), OFF(k) input and output position after k characters; E the expected output"""

    def __init__(s, src, dst, args, keep=False, ret='bool'):
        s.src, s.dst, s.args, s.keep, s.rk = src, dst, args, keep, ret

    def setup(s, eng, st):
        es, ed = s.src // 8, s.dst // 8
        s.N = z3.BitVec('N', 64)
        st.pc.add(z3.ULT(s.N, c64(1 << 40)))
        s.POS, s.OFF, s.E = UF('pos', 64, 64), UF('off', 64, 64), UF('E', 64, s.dst)
        st.pc.add(z3.And(s.POS(c64(0)) == 0, s.OFF(c64(0)) == 0))
        s.a = ABase('M', es)
        st.g['it'] = c64(0)
        s.inputs = {'M': ('bytes', s.a, s.N)}
        args = []
        for k in s.args:
            if k == 'out':
                stdlib.WIDTH[0] = ed
                s.P = stdlib.new_container(eng, st, 'out')
                if s.rk == 'new':
                    s.n0, s.a0 = c64(0), None
                else:
                    s.n0, s.a0 = z3.BitVec('n0', 64), ABase('old', ed)
                    st.pc.add(z3.ULT(s.n0, c64(1 << 40)))
                    stdlib.mk_string(eng, st, s.P, s.n0, s.a0)
                    if not s.keep:
                        s.n0 = c64(0)
                stdlib.WIDTH[0] = 1
                args.append(s.P)
            elif k == 'in':
                stdlib.WIDTH[0] = es
                p = stdlib.new_container(eng, st, 'in')
                c = stdlib.mk_string(eng, st, p)
                c.set(s.N, s.a)
                stdlib.WIDTH[0] = 1
                s.rid = c.rid
                args.append(p)
            else:
                r = eng.array_region(st, 'p', es, s.N, s.a, ro=True)
                s.rid = r.rid
                args += [Ptr(r.rid, Lin(0)), s.N if k == 'pn' else Ptr(r.rid, lin_of(s.N, es))]
        if getattr(s, 'bounded', False):
            st.pc.add(z3.ULE(s.N, c64(5)))
        for k in range(6 if getattr(s, 'bounded', False) else 1):
            s.unfold(st.pc, c64(k))
        return args

    def at(s, k, sink):
        """(units consumed or 0 when ill-formed, code point) at character k"""
        p = s.POS(k)
        rem = s.N - p
        m = 4 if s.src == 8 else 2 if s.src == 16 else 1
        rd = lambda i: z3.If(z3.ULT(c64(i), rem), s.a.rd(simp(p + i), sink), BVV(0, s.src))
        u = [rd(i) for i in range(m)]
        if s.src == 8:
            return dec8(u, rem)
        if s.src == 16:
            if s.dst == 32:
                sink.add(z3.Not(z3.And(z3.ULT(p, s.N), rng(u[0], 0xdc00, 0xdfff))))     # precondition: no unpaired trail surrogate
            return dec16(u, rem)
        if s.dst == 16:
            sink.add(z3.Not(z3.And(z3.ULT(p, s.N), surr(u[0]))))     # precondition: no surrogate code point
        return z3.If(ENC[s.dst](u[0])[0] != 0, c64(1), c64(0)), u[0]

    def unfold(s, sink, k):
        k = simp(k)
        key = ('cv', k.get_id())
        if key in sink.keys:
            return
        sink.keys[key] = k
        k1 = simp(k + 1)
        p, o = s.POS(k), s.OFF(k)
        n, cp = s.at(k, sink)
        m, e = ENC[s.dst](cp)
        t = [s.POS(k1) == p + n, s.OFF(k1) == o + m, z3.ULE(n, s.N - p)]
        for i, v in enumerate(e):
            t.append(z3.Implies(z3.ULT(c64(i), m), s.E(simp(o + i)) == v))
        sink.add(z3.Implies(z3.And(z3.ULT(p, s.N), n != 0), z3.And(*t)))
        sink.add(z3.Implies(z3.ULE(p, s.N), z3.ULE(o, p * 4)))

    def lemmas(s, eng):
        b = [z3.BitVec('b%d' % i, s.src) for i in range(4)]
        rem, p, o = z3.BitVecs('rem p o', 64)
        if s.src == 8:
            n, cp = dec8(b, rem)
        elif s.src == 16:
            n, cp = dec16(b[:2], rem)
        else:
            n, cp = z3.If(ENC[s.dst](b[0])[0] != 0, c64(1), c64(0)), b[0]
        m, e = ENC[s.dst](cp)
        h = [z3.ULT(p, s.N), z3.ULT(s.N, c64(1 << 40)), rem == s.N - p, n != 0, z3.ULE(o, p * 4)]
        yield 'characters-fit', h, z3.And(z3.ULE(n, rem), m != 0, z3.ULE(m, c64(4)))
        yield 'offset-bound', h, z3.ULE(o + m, (p + n) * 4)
        if s.src != 32:
            yield 'decoded-is-scalar', h, valid(cp)

    def loop(s, ctx):
        out = linear_cands(ctx)

        def hdr(v, st):
            st.g['it'] = v['k']
            s.unfold(st.pc, v['k'])
        ctx.on_header = hdr
        lens = [h for h in ctx.info if h.startswith("g:('len'")]
        for h in ctx.ptrs(s.rid):
            out.append(Cand('%s=pos' % h, lambda v, h=h: v[h] == s.POS(v['k'])))
        for h in ctx.ints(64):
            out.append(Cand('%s=pos' % h, lambda v, h=h: v[h] == s.POS(v['k'])))
            out.append(Cand('%s=N-pos' % h, lambda v, h=h: v[h] == s.N - s.POS(v['k'])))
        out.append(Cand('pos<=N', lambda v: z3.ULE(s.POS(v['k']), s.N)))
        out.append(Cand('k<=pos', lambda v: z3.ULE(v['k'], s.POS(v['k']))))
        if s.src == 32:
            out.append(Cand('pos=k', lambda v: v['k'] == s.POS(v['k'])))
        for h in lens:
            out.append(Cand('%s=n0+off' % h, lambda v, h=h: v[h] == s.n0 + s.OFF(v['k'])))
        for h in ctx.arrs():
            if ctx.info[h]['kind'] == 'arr' and ctx.info[h]['esz'] == s.dst // 8:
                def q(v, j, x):
                    f = z3.Implies(z3.ULT(j - s.n0, s.OFF(v['k'])), x == s.E(simp(j - s.n0)))
                    if s.keep:
                        f = z3.And(f, z3.Implies(z3.ULT(j, s.n0), x == s.a0.rd(j, v.st.pc)))
                    return f
                out.append(QCand('text(%s)' % h, h, q))
        return out

    def post(s, eng, st, kind, ret):
        k = st.g['it']
        sink = st.pc
        n, cp = s.at(k, sink)
        bad = z3.And(z3.ULT(s.POS(k), s.N), n == 0)
        if kind != 'ret':
            if s.rk == 'bool':
                return [('no-exception', False)]
            return [('raises-only-on-ill-formed-text', bad)]
        c = stdlib.C(eng, st, s.P, s.dst // 8, create=False).live()
        ok = boolv(ret) if s.rk == 'bool' else z3.BoolVal(True)
        j = z3.BitVec('j', 64)
        out = [('refuses-only-ill-formed-text', z3.Or(ok, bad)), ('accepts-only-well-formed-text', z3.Implies(ok, s.POS(k) == s.N)),
               ('output-length', z3.Implies(ok, c.n == s.n0 + s.OFF(k))),
               ('output-text', z3.Implies(z3.And(ok, z3.ULT(j, s.OFF(k))), c.arr.rd(simp(s.n0 + j), sink) == s.E(j)))]
        if s.keep:
            out.append(('text-before-kept', z3.Implies(z3.And(ok, z3.ULT(j, s.n0)), c.arr.rd(j, sink) == s.a0.rd(j, sink))))
        return out


class Next(Spec):
    """Utf8ref::next from any position"""

    def setup(s, eng, st):
        s.n, s.p = z3.BitVecs('n p', 64)
        st.pc.add(z3.And(z3.ULT(s.n, c64(1 << 40)), z3.ULE(s.p, s.n)))
        s.a = ABase('M', 1)
        r = eng.array_region(st, 'text', 1, s.n, s.a, ro=True)
        c = eng.new_region('c', 'obj', size=4)
        o = eng.new_region('ref', 'obj', size=24)
        st.cells[c.rid] = {0: (4, eng.fresh('c0', 32))}
        st.cells[o.rid] = {0: (8, Ptr(r.rid, lin_of(s.p, 1))), 8: (8, Ptr(r.rid, lin_of(s.n, 1))), 16: (1, BVV(0, 8))}
        s.o, s.c = o, c
        s.inputs = {'M': ('bytes', s.a, s.n), 'p': s.p}
        return [Ptr(o.rid, Lin(0)), Ptr(c.rid, Lin(0))]

    def post(s, eng, st, kind, ret):
        rem = s.n - s.p
        u = [z3.If(z3.ULT(c64(i), rem), s.a.rd(simp(s.p + i), st.pc), BVV(0, 8)) for i in range(4)]
        n, cp = dec8(u, rem)
        if kind != 'ret':
            return [('raises-only-on-ill-formed-text', z3.And(rem != 0, n == 0))]
        ok = boolv(ret)
        q = eng.cell_load(st, s.o, 0, 8, True)
        return [('false-only-at-end', ok == (rem != 0)), ('well-formed', z3.Implies(ok, n != 0)),
                ('character', z3.Implies(ok, eng.cell_load(st, s.c, 0, 4) == cp)), ('advances', z3.Implies(ok, q.o.bv() == s.p + n))]


def targets(tier):
    out = []
    for f, l in (('size', 'GetCharSize'), ('valid', 'IsValidChar'), ('get8', 'GetCharFromUtf8'), ('get16', 'GetCharFromUtf16'), ('to8', 'toUtf8'), ('to16', 'toUtf16'),
                 ('app8', 'AppendUtf8'), ('app16', 'AppendUtf16')):
        out.append(Target(l, 'w_' + f, lambda f=f: One(f), hfn=f))
    for l, f, src, dst, args, keep, rk in (
            ('ConvertUtf16ToUtf8(range)', 'conv_16_8', 16, 8, ['out', 'pp'], 0, 'bool'), ('ConvertUtf16ToUtf8', 'conv_16_8s', 16, 8, ['out', 'in'], 0, 'bool'),
            ('ConvertUtf8ToUtf16(range)', 'conv_8_16', 8, 16, ['out', 'pp'], 0, 'bool'), ('ConvertUtf8ToUtf16', 'conv_8_16s', 8, 16, ['out', 'in'], 0, 'bool'),
            ('ConvertUtf8ToUtf16(iterators)', 'conv_8_16i', 8, 16, ['out', 'in'], 0, 'bool'),
            ('ToUtf8', 'ToUtf8', 16, 8, ['out', 'in'], 0, 'new'), ('ToUtf16', 'ToUtf16', 8, 16, ['out', 'in'], 0, 'new'),
            ('String::append(ptr,n)', 'app_p', 8, 32, ['out', 'pn'], 1, 'void'), ('String::append(std::string)', 'app_s', 8, 32, ['out', 'in'], 1, 'void'),
            ('String::append(Char16 range)', 'app_16', 16, 32, ['out', 'pp'], 1, 'void'), ('String(ptr,n)', 'ctor_p', 8, 32, ['out', 'pn'], 0, 'new'),
            ('String(std::string)', 'ctor_s', 8, 32, ['out', 'in'], 0, 'new'), ('String::assign(std::string)', 'assign_s', 8, 32, ['out', 'in'], 0, 'void'),
            ('String::operator=(std::string)', 'eq_s', 8, 32, ['out', 'in'], 0, 'void'),
            ('String::toUtf8(std::string&)', 'str8', 32, 8, ['in', 'out'], 1, 'void'), ('String::toUtf8()', 'str8r', 32, 8, ['in', 'out'], 0, 'new'),
            ('String::toUtf16(String16&)', 'str16', 32, 16, ['in', 'out'], 1, 'void'), ('String::toUtf16()', 'str16r', 32, 16, ['in', 'out'], 0, 'new')):
        out.append(Target(l, 'w_' + f, lambda s=src, d=dst, a=args, k=keep, r=rk: Conv(s, d, a, k, r), hfn=f, weight=5))
    out.append(Target('Utf8ref::next', 'w_next', Next, hfn='next'))
    return out
