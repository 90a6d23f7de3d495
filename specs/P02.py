"""integer -> text: canonical numeral of exactly that value (itoa, itohex, itobin, padding)"""
from specs.lib import *
from vf.engine import udivc, AConst, PC
from vf import stdlib

TU = 'itoa.cpp'
HARNESS = 'P02.cpp'
BUDGET = 200
IT = {'int': (32, True), 'unsigned int': (32, False), 'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False)}
UT = {'unsigned char': 8, 'unsigned short': 16, 'unsigned int': 32, 'unsigned long': 64, 'unsigned long long': 64}
ASSUMPTIONS = ['std::string behaves as documented (vf/stdlib.py); lengths stay below 2^62']


class Num:
    """the numeral of m in a base: Q(0) = m, Q(k+1) = Q(k) div base, digit k = Q(k) mod base, Nat = number of digits"""

    def __init__(s, base, W, up):
        s.base, s.W, s.up = base, W, up
        s.Q = UF('Q', 64, W)
        s.Nat = z3.BitVec('Nat', 64)
        s.max = 0
        m = (1 << W) - 1
        s.bound = []
        while m:
            s.bound.append(m)
            m //= base
            s.max += 1
        s.seen = {}

    def assume(s, sink, m):
        sink.add(s.Q(c64(0)) == m)
        sink.add(z3.And(z3.UGE(s.Nat, 1), U(s.Nat, c64(s.max))))
        s.unfold(sink, c64(0))
        s.unfold(sink, s.Nat)
        s.unfold(sink, s.Nat - 1)

    def div(s, sink, q):
        if s.base == 10:
            return udivc(sink, q, 10) if s.W >= 16 else z3.UDiv(q, BVV(10, s.W))
        return z3.LShR(q, BVV(s.base.bit_length() - 1, s.W))

    def B(s, k):
        r = BVV(0, s.W)
        for i in reversed(range(s.max)):
            r = z3.If(k == i, BVV(s.bound[i], s.W), r)
        return r

    def unfold(s, sink, k):
        k = simp(k)
        key = ('num', k.get_id())
        if key in sink.keys:
            return
        sink.keys[key] = k
        q = s.Q(k)
        q2 = s.div(sink, q)
        ok = z3.ULT(k, c64(1 << 40))
        sink.add(z3.Implies(ok, z3.And(s.Q(simp(k + 1)) == q2, z3.ULE(q, s.B(k)), z3.Implies(k != 0, (q == 0) == z3.UGE(k, s.Nat)))))

    def dig(s, sink, k):
        s.unfold(sink, k)
        q = s.Q(simp(k))
        if s.base == 10:
            d = q - s.div(sink, q) * 10
        else:
            d = q & (s.base - 1)
        d8 = zx(d, 8)
        if s.base == 16:
            return z3.If(z3.ULT(d8, 10), d8 + 48, d8 + z3.If(s.up, BVV(55, 8), BVV(87, 8)))
        return d8 + 48

    def lemmas(s):
        q = z3.BitVec('lq', s.W)
        k = z3.BitVec('lk', 64)
        pc = PC()
        d = s.div(pc, q)
        return [('quotient-bound-step', pc.l + [z3.ULE(q, s.B(k)), z3.ULT(k, c64(1 << 40))], z3.ULE(d, s.B(k + 1))),
                ('zero-stays-zero', pc.l + [q == 0], d == 0)]


class Base(Spec):
    path_max = 8000
    unroll_max = 70
    to = 60000

    def loop_mode(s, eng, st, f, h):
        return 'unroll'


class Cut(Base):
    """digit loops that fill a buffer from its right end, for any buffer length"""

    def loop_mode(s, eng, st, f, h):
        return 'inv'

    def loop(s, ctx):
        out = linear_cands(ctx)
        N = s.N

        def hdr(v, st):
            N.unfold(st.pc, v['k'])
            N.unfold(st.pc, v['k'] + 1)
        ctx.on_header = hdr
        ctx.on_back = lambda vc, vn, st: N.unfold(st.pc, vn['k'])
        out.append(Cand('k<Nat or first', lambda v: z3.Or(v['k'] == 0, z3.ULT(v['k'], N.Nat))))
        out.append(Cand('k<=Nat', lambda v: z3.ULE(v['k'], N.Nat)))
        for h in ctx.ints():
            w = ctx.info[h]['w']
            out.append(Cand('%s=Q(k)' % h, lambda v, h=h, w=w: (zx(v[h], s.W) == N.Q(v['k'])) if w <= s.W else v[h] == zx(N.Q(v['k']), w)))
        for h in ctx.arrs():
            if ctx.info[h]['esz'] != 1 or ctx.info[h]['kind'] != 'arr':
                continue
            r = ctx.eng.regions[ctx.info[h]['rid']]
            n = ctx.eng.seg_n(ctx.st, r, ctx.info[h]['seg'])[0]
            out.append(Cand('k<=size(%s)' % h, lambda v, n=n: U(v['k'], n)))
            out.append(QCand('written(%s)' % h, h, lambda v, j, x, n=n: z3.Implies(z3.And(z3.ULT(j, n), z3.UGE(j, n - v['k']), U(v['k'], n)), x == N.dig(v.st.pc, n - 1 - j))))
        return out

    def lemmas(s, eng):
        return s.N.lemmas()

    def text_goals(s, eng, st, n, rd, neg, shown=None):
        """text rd(0..n-1) is sign + numeral"""
        N = s.N
        j = z3.BitVec('j', 64)
        ng = z3.If(neg, c64(1), c64(0))
        return [('length', n == N.Nat + ng),
                ('digits', z3.Implies(z3.ULT(j, N.Nat), rd(simp(n - 1 - j)) == N.dig(st.pc, j))),
                ('sign', z3.Implies(neg, rd(c64(0)) == 45))]


class Dec(Cut):
    def __init__(s, w, signed, form):
        s.w, s.signed, s.form = w, signed, form
        s.W = 64

    def setup(s, eng, st):
        s.x = z3.BitVec('x', s.w)
        s.N = Num(10, 64, None)
        x = zx(s.x, 64) if not s.signed else sx(s.x, 64)
        s.neg = (x < 0) if s.signed else z3.BoolVal(False)
        s.N.assume(st.pc, z3.If(x < 0, -x, x) if s.signed else x)
        s.o = stdlib.new_container(eng, st, 'out')
        if s.form == 'out':
            stdlib.mk_string(eng, st, s.o, z3.BitVec('oldlen', 64))
            st.pc.add(z3.ULT(z3.BitVec('oldlen', 64), c64(1 << 62)))
        if s.signed:
            for k in range(1, 20):
                s.N.unfold(st.pc, c64(k)) if False else None
        s.inputs = {'x': s.x}
        if s.form == 'pad':
            s.len = z3.BitVec('len', 64)
            s.c = z3.BitVec('c', 8)
            st.pc.add(z3.ULT(s.len, c64(1 << 60)))
            s.inputs.update(len=s.len, c=s.c)
            if getattr(s, 'bounded', False):
                st.pc.add(z3.ULT(s.len, c64(100)))
            return [s.o, s.x, s.len, s.c]
        return [s.o, s.x]

    def post(s, eng, st, kind, ret):
        if kind != 'ret':
            return [('no-exception', False)]
        c = stdlib.C(eng, st, s.o, create=False).live()
        arr, neg, N = c.arr, s.neg, s.N
        if s.signed and s.w == 64 and eng.valid(st.pc, s.x == BVV(1 << 63, 64)):
            # constant: unfold the definition completely
            q = 1 << 63
            for k in range(20):
                st.pc.add(N.Q(c64(k)) == BVV(q, 64))
                N.unfold(st.pc, c64(k))
                q //= 10
            st.pc.add(N.Nat == 19)
            n = num(simp(c.n))
            if n == 20:
                return [('length', c.n == N.Nat + 1)] + [('digit-%d' % k, arr.rd(c64(19 - k), st.pc) == BVV(48 + (1 << 63) // 10 ** k % 10, 8)) for k in range(19)] + [('sign', arr.rd(c64(0), st.pc) == 45)]
        n = simp(c.n)
        if s.form != 'pad':
            return s.text_goals(eng, st, n, lambda i: arr.rd(i, st.pc), neg)
        # padded: sign, padding, canonical digits; length is max(len, natural length)
        ng = z3.If(neg, c64(1), c64(0))
        j = z3.BitVec('j', 64)
        tot = N.Nat + ng
        v = arr.rd(simp(n - 1 - j), st.pc)
        return [('length', n == z3.If(z3.UGT(s.len, tot), s.len, tot)),
                ('digits', z3.Implies(z3.ULT(j, N.Nat), v == N.dig(st.pc, j))),
                ('padding', z3.Implies(z3.And(z3.UGE(j, N.Nat), z3.ULT(j, n - ng)), v == s.c)),
                ('sign', z3.Implies(neg, arr.rd(c64(0), st.pc) == 45))]


class Raw(Base):
    """itohex / itobin into a caller buffer of exactly len characters, any len"""

    def __init__(s, w, base):
        s.w, s.base = w, base
        s.sh = base.bit_length() - 1

    def loop_mode(s, eng, st, f, h):
        return 'inv'

    def setup(s, eng, st):
        s.x = z3.BitVec('x', s.w)
        s.up = z3.Bool('up')
        s.n = z3.BitVec('len', 64)
        st.pc.add(z3.ULT(s.n, c64(1 << 60)))
        if getattr(s, 'bounded', False):
            st.pc.add(z3.ULT(s.n, c64(9)))
        s.r = eng.array_region(st, 'out', 1, s.n)
        s.inputs = {'x': s.x, 'up': s.up, 'len': s.n}
        return [Ptr(s.r.rid, Lin(0)), s.n, s.x] + ([s.up] if s.base == 16 else [])

    def digit(s, i):
        """character i from the right; zero beyond the width"""
        w = max(s.w, 64)
        x = zx(s.x, w)
        sh = z3.If(z3.ULT(i, c64(s.w)), i * s.sh, c64(s.w * 2))
        v = z3.If(z3.ULT(sh, c64(w)), z3.LShR(x, sh), BVV(0, w)) & (s.base - 1)
        d8 = zx(v, 8)
        if s.base == 16:
            return z3.If(z3.ULT(d8, 10), d8 + 48, d8 + z3.If(s.up, BVV(55, 8), BVV(87, 8)))
        return d8 + 48

    def rest(s, k, w):
        x = zx(s.x, 64)
        sh = z3.If(z3.ULT(k, c64(s.w)), k * s.sh, c64(s.w * 2))
        return zx(z3.If(z3.ULT(sh, c64(64)), z3.LShR(x, sh), c64(0)), w)

    def loop(s, ctx):
        out = linear_cands(ctx)
        n = s.n
        out.append(Cand('k<=len', lambda v: U(v['k'], n)))
        for h in ctx.ints():
            w = ctx.info[h]['w']
            out.append(Cand('%s=rest(k)' % h, lambda v, h=h, w=w: v[h] == s.rest(v['k'], w)))
        for h in ctx.arrs(s.r.rid):
            out.append(QCand('written(%s)' % h, h, lambda v, j, x: z3.Implies(z3.And(z3.ULT(j, n), z3.UGE(j, n - v['k'])), x == s.digit(n - 1 - j))))
            out.append(QCand('fwritten(%s)' % h, h, lambda v, j, x: z3.Implies(z3.ULT(j, v['k']), x == s.digit(n - 1 - j))))
        return out

    def post(s, eng, st, kind, ret):
        if kind != 'ret':
            return [('no-exception', False)]
        j = z3.BitVec('j', 64)
        return [('digits', z3.Implies(z3.ULT(j, s.n), st.arrs[(s.r.rid, 0)].rd(simp(s.n - 1 - j), st.pc) == s.digit(j)))]


class Str(Raw):
    """itohex / itobin into a string"""

    def __init__(s, w, base, form):
        Raw.__init__(s, w, base)
        s.form = form

    def setup(s, eng, st):
        s.x = z3.BitVec('x', s.w)
        s.up, s.wz = z3.Bool('up'), z3.Bool('wz')
        s.o = stdlib.new_container(eng, st, 'out')
        if s.form == 'out':
            stdlib.mk_string(eng, st, s.o, z3.BitVec('oldlen', 64))
            st.pc.add(z3.ULT(z3.BitVec('oldlen', 64), c64(1 << 62)))
        s.inputs = {'x': s.x, 'up': s.up, 'wz': s.wz}
        return [s.o, s.x] + ([s.up] if s.base == 16 else []) + [s.wz]

    def loop(s, ctx):
        c = stdlib.C(ctx.eng, ctx.st, s.o, create=False).live()
        s.n = c.n
        s.r = ctx.eng.regions[c.rid]
        return Raw.loop(s, ctx)

    def post(s, eng, st, kind, ret):
        if kind != 'ret':
            return [('no-exception', False)]
        c = stdlib.C(eng, st, s.o, create=False).live()
        N = s.w // s.sh
        nat = c64(1)
        for k in range(s.w):
            nat = z3.If(z3.Extract(k, k, s.x) == 1, c64(k // s.sh + 1), nat)
        want = z3.If(s.wz, c64(N), nat)
        j = z3.BitVec('j', 64)
        return [('length', c.n == want),
                ('digits', z3.Implies(z3.ULT(j, c.n), c.arr.rd(simp(c.n - 1 - j), st.pc) == s.digit(j)))]


class Buf(Cut):
    """uintToDec/Hex/Bin, intToDec: right aligned in a caller buffer, 0 when it does not fit"""

    def __init__(s, w, base, signed=False):
        s.w, s.base, s.signed = w, base, signed
        s.W = 64 if signed else w

    def setup(s, eng, st):
        s.x = z3.BitVec('x', s.w)
        s.up = z3.Bool('up')
        s.n = z3.BitVec('len', 64)
        st.pc.add(z3.ULT(s.n, c64(1 << 40)))
        s.r = eng.array_region(st, 'buf', 1, s.n)
        s.inputs = {'x': s.x, 'up': s.up, 'len': s.n}
        if getattr(s, 'bounded', False):
            st.pc.add(z3.ULT(s.n, c64(24)))
        s.N = Num(s.base, s.W, s.up)
        if s.signed:
            x = sx(s.x, 64)
            s.neg = x < 0
            # INT_MIN of a type narrower than 64 bits is outside the precondition of this internal helper
            if s.w < 64:
                st.pc.add(s.x != BVV(1 << (s.w - 1), s.w))
            s.N.assume(st.pc, z3.If(x < 0, -x, x))
        else:
            s.neg = z3.BoolVal(False)
            s.N.assume(st.pc, s.x)
        return [Ptr(s.r.rid, Lin(0)), s.n, s.x] + ([s.up] if s.base == 16 else [])

    def post(s, eng, st, kind, ret):
        if kind != 'ret':
            return [('no-exception', False)]
        N, neg = s.N, s.neg
        ng = z3.If(neg, c64(1), c64(0))
        a = st.arrs[(s.r.rid, 0)]
        if s.signed and s.w == 64 and eng.valid(st.pc, s.x == BVV(1 << 63, 64)):
            st.pc.add(N.Nat == 19)
            q = 1 << 63
            for k in range(20):
                st.pc.add(N.Q(c64(k)) == BVV(q, 64))
                q //= 10
            return [('size-or-zero', ret == z3.If(z3.ULE(c64(20), s.n), c64(20), c64(0)))] + \
                [('digit-%d' % k, z3.Implies(ret != 0, a.rd(simp(s.n - 1 - k), st.pc) == BVV(48 + (1 << 63) // 10 ** k % 10, 8))) for k in range(19)] + \
                [('sign', z3.Implies(ret != 0, a.rd(simp(s.n - 20), st.pc) == 45))]
        N.unfold(st.pc, s.n)
        tot = N.Nat + ng
        j = z3.BitVec('j', 64)
        return [('size-or-zero', ret == z3.If(U(tot, s.n), tot, c64(0))),
                ('digits', z3.Implies(z3.And(ret != 0, z3.ULT(j, N.Nat)), a.rd(simp(s.n - 1 - j), st.pc) == N.dig(st.pc, j))),
                ('sign', z3.Implies(z3.And(ret != 0, neg), a.rd(simp(s.n - ret), st.pc) == 45))]


def targets(tier):
    out = []
    for ct, (w, sg) in IT.items():
        for fn, form in (('w_itoa', 'out'), ('w_itoa_r', 'ret'), ('w_pad', 'pad')):
            out.append(Target('itoa<%s>/%s' % (ct, form), fn, lambda w=w, sg=sg, form=form: Dec(w, sg, form), defs=('ITYPE=' + ct,), hfn='dec/%d/%d' % (w, sg), weight=w))
    for ct, w in UT.items():
        for base, nm in ((16, 'hex'), (2, 'bin')):
            for form in ('out', 'ret'):
                out.append(Target('ito%s<%s>/%s' % (nm, ct, form), 'w_%s%s' % (nm, '' if form == 'out' else '_r'), lambda w=w, base=base, form=form: Str(w, base, form),
                                  defs=('UTYPE=' + ct,), hfn='%s/%d' % (nm, w), weight=w))
            out.append(Target('ito%s<%s>/buffer' % (nm, ct), 'w_%s_c' % nm, lambda w=w, base=base: Raw(w, base), defs=('UTYPE=' + ct,), hfn='%s/%d' % (nm, w), weight=w))
        for base, nm in ((10, 'dec'), (16, 'hex'), (2, 'bin')):
            out.append(Target('uintTo%s<%s>' % (nm, ct), 'w_u' + nm, lambda w=w, base=base: Buf(w, base), defs=('UINT=' + ct,), hfn='%s/%d%s' % (nm, w, '/0' if base == 10 else ''), weight=w))
    for ct, w in (('int', 32), ('long long', 64)):
        out.append(Target('intToDec<%s>' % ct, 'w_sdec', lambda w=w: Buf(w, 10, True), defs=('STYPE=' + ct,), hfn='dec/%d/1' % w, weight=w))
    return out
