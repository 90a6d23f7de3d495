"""BitVectorT: a sequence of bits packed into blocks"""
from specs.lib import *
from vf import stdlib
import re
from vf.engine import by_parts
TU = 'bitvec.cpp'
HARNESS = 'P11.cpp'
BUDGET = 300
QB = 31   # block counts below 2^QB
ASSUMPTIONS = ['std::vector and std::copy obey their contracts (vf/stdlib.py)', 'vectors have fewer than 2^31 blocks', 'appending a vector to itself is not covered']

APP = re.compile(r'^cybozu::BitVectorT<[\w ]+>::append\([\w ]+ const\*, unsigned long\)$')
EXT = re.compile(r'^cybozu::BitVectorT<[\w ]+>::extract\([\w ]+\*, unsigned long, unsigned long\) const$')
CALLS = re.compile(APP.pattern + '|' + EXT.pattern)


class BV(Spec):
    lax_index = True

    def __init__(s, u, fn, far=False):
        s.u, s.fn, s.far = u, fn, far
        s.e, s.lg = u // 8, u.bit_length() - 1
        s.by_parts = s.lg
        s.first_to = 15000 if fn[:7] == 'extract' else 5000
        s.contracts = {APP: s.c_append, EXT: s.c_extract} if fn in ('appendv', 'extractv') else {}

    # ---- block arithmetic
    def q(s, n):
        e = by_parts(n, s.lg)
        return simp(z3.LShR(n, s.lg)) if e is None else e

    def r(s, n):
        return simp(n & (s.u - 1))

    def blocks(s, n):
        return s.q(simp(n + (s.u - 1)))

    def mask(s, r):
        """lowest r bits (r < u)"""
        return (BVV(1, s.u) << zx(r, s.u)) - 1

    def cut(s, rd, n):
        """blocks of the first n bits of rd, zero behind them"""
        def f(i):
            q = s.q(n)
            return z3.If(z3.ULT(i, q), rd(i), z3.If(i == q, rd(i) & s.mask(s.r(n)), BVV(0, s.u)))
        return f

    def appended(s, A, L, B):
        """block i of the L bits A followed by the bits B (both zero behind their end)"""
        q, r = s.q(L), s.r(L)
        sh, rv = zx(r, s.u), zx(simp(s.u - r), s.u)

        def f(i):
            lo = z3.If(z3.ULT(i, q), BVV(0, s.u), B(simp(i - q)) << sh)
            hi = z3.If(z3.Or(z3.ULE(i, q), r == 0), BVV(0, s.u), z3.LShR(B(simp(i - q - 1)), rv))
            return A(i) | lo | hi
        return f

    def extracted(s, A, pos, n):
        q, r = s.q(pos), s.r(pos)
        sh, rv = zx(r, s.u), zx(simp(s.u - r), s.u)
        return s.cut(lambda i: z3.LShR(A(simp(q + i)), sh) | z3.If(r == 0, BVV(0, s.u), A(simp(q + i + 1)) << rv), n)

    def bit(s, rd, b):
        return z3.Extract(0, 0, z3.LShR(rd(s.q(b)), zx(s.r(b), s.u)))

    def size(s, name):
        """a bit count, as block number and position in the block"""
        r = z3.BitVec(name + '.r', s.lg)
        return z3.Concat(BVV(0, 64 - QB - s.lg), z3.BitVec(name + '.q', QB), r)

    # ---- contracts used by the callers of the pointer forms (proved as the targets appendp and extractp)
    def c_append(s, eng, st, a, x):
        p, src, n = a
        if src.r is not None:
            r = eng.regions[src.r]
            have = eng.nelem(st, r)
            eng.oblige(st, 'callee-source-readable', z3.Or(n == 0, z3.And(src.o.bv() == 0, z3.ULE(s.blocks(n), have))))
            rd = lambda i: st.arrs[(r.rid, 0)].rd(i, None)
        else:
            eng.oblige(st, 'callee-source-readable', n == 0)
            rd = lambda i: BVV(0, s.u)
        L, nb, old = s.now(eng, st, p)
        T = simp(L + n)
        F = s.appended(s.cut(old, L), L, s.cut(rd, n))
        new = ABase('appended', s.e)
        new.facts.append(lambda i, v, sink: z3.Implies(z3.ULT(i, s.blocks(T)), v == F(i)))
        eng.store_n(st, p, T, 8)
        stdlib.C(eng, st, Ptr(p.r, p.o.add(Lin(8))), s.e).set(s.blocks(T), new)
        return [(st, 'ret', None)]

    def c_extract(s, eng, st, a, x):
        p, dst, pos, n = a
        L, nb, rd = s.now(eng, st, p)
        bad = z3.And(n != 0, z3.Or(z3.UGT(pos, L), z3.UGT(n, L - pos)))
        outs = []
        if eng.check(st.pc, [bad]) != 'unsat':
            s2 = st.clone()
            s2.pc.add(bad)
            outs.append((s2, 'throw', None))
        if eng.check(st.pc, [z3.Not(bad)]) == 'unsat':
            return outs
        st.pc.add(z3.Not(bad))
        r = eng.regions[dst.r]
        eng.oblige(st, 'callee-destination-writable', z3.Or(n == 0, z3.And(dst.o.bv() == 0, z3.ULE(s.blocks(n), eng.nelem(st, r)))))
        old = st.arrs[(r.rid, 0)]
        D = s.extracted(s.cut(rd, L), pos, n)
        new = ABase('extracted', s.e)
        new.facts.append(lambda i, v, sink: v == z3.If(z3.ULT(i, s.blocks(n)), D(i), old.rd(i, None)))
        st.arrs[(r.rid, 0)] = new
        eng.wlog.append(('arr', r.rid, 0))
        return outs + [(st, 'ret', None)]

    # ---- objects
    def obj(s, eng, st, name):
        L = s.size('len' + name)
        st.pc.add(z3.ULT(L, c64(1 << QB)))
        a = ABase('blk' + name, s.e)
        n = s.blocks(L)
        last, r = s.q(L), s.r(L)
        a.facts.append(lambda i, v, sink: z3.Implies(z3.And(i == last, r != 0), v & ~s.mask(r) == 0))
        p = stdlib.new_container(eng, st, name, 32)
        st.cells[p.r][0] = (8, L)
        stdlib.mk_vector(eng, st, Ptr(p.r, Lin(8)), s.e, n, a)
        s.inputs['len' + name] = L
        s.inputs['blk' + name] = ('bytes', a, n)
        A = lambda i: z3.If(z3.ULT(i, n), a.rd(i, None), BVV(0, s.u))
        return p, L, a, A

    def now(s, eng, st, p):
        """(length, number of blocks, block reader)"""
        c = stdlib.C(eng, st, Ptr(p.r, Lin(8)), s.e)
        arr = c.arr
        return eng.cell_load(st, eng.regions[p.r], 0, 8), c.n, lambda i: arr.rd(i, st.pc)

    def setup(s, eng, st):
        s.inputs, s.cases = {}, []
        s.j = z3.BitVec('j', 64)
        s.p, s.L, s.a, s.A = s.obj(eng, st, '')
        st.pc.add(s.tail0(s.a.rd(s.q(s.L), None), s.L))
        fn = s.fn
        s.x = s.size('x') if fn[:7] == 'extract' and not s.far else z3.BitVec('x', 64)
        s.n = s.size('n') if not s.far else z3.BitVec('n', 64)
        if s.far:
            # an argument so large that the range is outside every vector
            st.pc.add(z3.UGE(s.n, c64(1 << QB)) if fn == 'appendi' else z3.Or(z3.UGE(s.x, c64(1 << QB)), z3.UGE(s.n, c64(1 << QB))))
        args = [s.p]
        if fn in ('init', 'appendp', 'copybit', 'shl'):
            s.inputs['n'] = s.n
            st.pc.add(z3.ULT(s.n, c64(1 << QB)))
            s.s = ABase('src', s.e)
            nb = s.blocks(s.n)
            s.inputs['src'] = ('bytes', s.s, nb)
            s.sr = eng.array_region(st, 'src', s.e, nb, s.s, ro=True)
            s.B = s.cut(lambda i: s.s.rd(i, None), s.n)
            args += [Ptr(s.sr.rid, Lin(0)), s.n]
            if fn in ('copybit', 'shl'):
                s.d0 = ABase('dst', s.e)
                s.dr = eng.array_region(st, 'dst', s.e, nb, s.d0)
                args = [Ptr(s.dr.rid, Lin(0)), Ptr(s.sr.rid, Lin(0)), s.n]
            if fn == 'shl':
                s.sh, s.ext = z3.BitVec('sh', 64), z3.BitVec('ext', s.u)
                s.inputs.update(sh=s.sh, ext=s.ext)
                args += [s.sh, s.ext]
        elif fn == 'appendi':
            s.inputs.update(x=s.x, n=s.n)
            args += [s.x, s.n]
            xt = zx(s.x, s.u)
            s.B = lambda i: z3.If(i == 0, z3.If(s.n == s.u, xt, xt & s.mask(s.n)), BVV(0, s.u))
        elif fn in ('appendv', 'eq', 'ne'):
            s.p2, s.L2, s.a2, s.A2 = s.obj(eng, st, '2')
            st.pc.add(s.tail0(s.a2.rd(s.q(s.L2), None), s.L2))
            args += [s.p2]
            s.B, s.n = s.A2, s.L2
        elif fn in ('get', 'set', 'reset', 'setb'):
            s.inputs['i'] = s.x
            args += [s.x]
            if fn == 'setb':
                s.b = z3.BitVec('b', 8)
                st.pc.add(z3.ULE(s.b, 1))
                s.inputs['b'] = s.b
                args += [s.b == 1]
        elif fn == 'resize':
            st.pc.add(z3.ULT(s.n, c64(1 << QB)))
            s.inputs['n'] = s.n
            args += [s.n]
        elif fn[:7] == 'extract':
            s.inputs.update(pos=s.x, n=s.n)
            if fn == 'extractp':
                nb = c64(0) if s.far else s.blocks(s.n)
                s.dr = eng.array_region(st, 'dst', s.e, nb)
                args += [Ptr(s.dr.rid, Lin(0))]
                if not s.far:
                    st.pc.add(z3.ULT(s.n, c64(1 << QB)))
            elif fn == 'extractv':
                s.p2, s.L2, s.a2, s.A2 = s.obj(eng, st, '2')
                args += [s.p2]
                st.pc.add(z3.ULT(s.n, c64(1 << QB)))
            args += [s.x, s.n]
            s.D = s.extracted(s.A, s.x, s.n)
        if s.fn in ('appendp', 'appendv', 'appendi'):
            s.F = s.appended(s.A, s.L, s.B)
        elif s.fn == 'init':
            s.F = s.B
        elif s.fn == 'resize':
            s.F = s.cut(s.A, s.n)
        elif s.fn in ('extractp', 'extractv', 'extracti'):
            s.F = s.D
        return args

    def tail0(s, v, L):
        return z3.Implies(s.r(L) != 0, v & ~s.mask(s.r(L)) == 0)

    def loop(s, ctx):
        out = linear_cands(ctx)
        fn = s.fn
        nb = s.blocks(s.n)
        for nm, L in (('blocks', nb), ('blocks-1', simp(nb - 1)), ('n/u', s.q(s.n)), ('blocks-2', simp(nb - 2))):
            out.append(Cand('k<=' + nm, lambda v, L=L: U(v['k'], L)))
        if fn[:7] == 'extract':
            m = s.blocks(simp(s.n + s.r(s.x)))
            out.append(Cand('k<=srcN-2', lambda v: U(v['k'], simp(m - 2))))
            out.append(Cand('k<=srcN-1', lambda v: U(v['k'], simp(m - 1))))
        q = s.q(s.L)
        srcs = {'extractp': [('a', s.A, s.q(s.x), 1)], 'extractv': [('a', s.A, s.q(s.x), 1)]}.get(fn, [])
        if fn in ('appendp', 'appendv', 'shl'):
            srcs = [('src-down', s.B, simp(nb - 1), -1), ('src-up', s.B, c64(0), 1)]
        for h in ctx.ints(s.u):
            for nm, rd, at, d in srcs:
                out.append(Cand('%s=%s[k]' % (h, nm), lambda v, h=h, rd=rd, at=at, d=d: v[h] == rd(simp(at + v['k'] * d))))
        for h in ctx.arrs():
            i0 = ctx.ini[h]
            base = q if fn[:6] == 'append' else c64(0)
            F = s.F if fn not in ('copybit', 'shl') else s.G
            for nm, w in (('up', lambda v, j: z3.And(z3.UGE(j, base), z3.ULT(j, base + v['k']))),
                          ('down', lambda v, j: z3.And(z3.UGE(j, base), z3.UGT(j, base + nb - 1 - v['k']), z3.ULT(j, base + nb))),
                          ('down1', lambda v, j: z3.And(z3.UGT(j, base + nb - 2 - v['k']), z3.ULT(j, base + nb)))):
                out.append(QCand('%s-written-%s' % (h, nm), h, lambda v, j, x, w=w: z3.Implies(w(v, j), x == F(j))))
                out.append(QCand('%s-kept-%s' % (h, nm), h, lambda v, j, x, w=w, i0=i0: z3.Implies(z3.Not(w(v, j)), x == i0.rd(j, None))))
        return out

    def G(s, j):
        """blocks of the free functions CopyBit and ShiftLeftBit"""
        if s.fn == 'copybit':
            return s.B(j)
        sh = zx(s.sh, s.u)
        lo = s.B(j) << sh
        hi = z3.If(z3.Or(j == 0, s.sh == 0), BVV(0, s.u), z3.LShR(s.B(simp(j - 1)), s.u - sh))
        return lo | hi | z3.If(j == 0, s.ext, BVV(0, s.u))

    def same(s, eng, st):
        L, n, rd = s.now(eng, st, s.p)
        return [('length-kept', L == s.L), ('blocks-kept', n == s.blocks(s.L)), ('bits-kept', z3.Implies(z3.ULT(s.j, n), rd(s.j) == s.A(s.j)))]

    def post(s, eng, st, kind, ret):
        fn, j = s.fn, s.j
        if kind != 'ret':
            bad = None
            if fn in ('get', 'set', 'reset', 'setb'):
                bad = z3.UGE(s.x, s.L)
            elif fn in ('extractp', 'extractv'):
                bad = z3.And(s.n != 0, z3.Or(z3.UGT(s.x, s.L), z3.UGT(s.n, s.L - s.x)))
            elif fn == 'extracti':
                bad = z3.And(s.n != 0, z3.Or(z3.UGT(s.n, c64(s.u)), z3.UGT(s.x, s.L), z3.UGT(s.n, s.L - s.x)))
            elif fn == 'appendi':
                bad = z3.UGT(s.n, c64(s.u))
            elif fn == 'shl':
                bad = z3.And(s.n != 0, z3.UGE(s.sh, c64(s.u)))
                return [('raises-only-when-told', bad)]
            if bad is None:
                return [('no-exception', False)]
            return [('raises-only-when-told', bad)] + s.same(eng, st)
        if fn in ('copybit', 'shl'):
            d = st.arrs[(s.dr.rid, 0)]
            o = [('blocks', z3.Implies(z3.ULT(j, s.blocks(s.n)), d.rd(j, st.pc) == s.G(j)))]
            if fn == 'shl':
                r = s.r(s.n)
                top = s.B(simp(s.blocks(s.n) - 1))
                o.append(('accepted', z3.Or(s.n == 0, z3.ULT(s.sh, c64(s.u)))))
                o.append(('carry-out', ret == z3.If(z3.Or(s.n == 0, s.sh == 0), BVV(0, s.u), z3.LShR(top, s.u - zx(s.sh, s.u)))))
            return o
        if fn == 'get':
            return [('in-range', z3.ULT(s.x, s.L)), ('bit', ret == (s.bit(s.A, s.x) == 1))] + s.same(eng, st)
        if fn == 'size':
            return [('size', ret == s.L)] + s.same(eng, st)
        if fn in ('eq', 'ne'):
            r = ret if fn == 'eq' else z3.Not(ret)
            w = st.g.get('witness')
            o = [('equal-means-same-length', z3.Implies(r, s.L == s.L2)), ('equal-means-same-bits', z3.Implies(z3.And(r, z3.ULT(j, s.blocks(s.L))), s.A(j) == s.A2(j)))]
            o.append(('different-means-some-bit-or-length', z3.Implies(z3.Not(r), z3.Or(s.L != s.L2, s.cut(s.A, s.L)(w) != s.cut(s.A2, s.L2)(w) if w is not None else False))))
            return o
        if fn == 'extracti':
            full = s.D(c64(0))
            return [('in-range', z3.Or(s.n == 0, z3.And(z3.ULE(s.x, s.L), z3.ULE(s.n, s.L - s.x), z3.ULE(s.n, c64(s.u))))), ('bits', ret == z3.If(s.n == 0, BVV(0, s.u), full))] + s.same(eng, st)
        if fn in ('extractp', 'extractv'):
            o = [('in-range', z3.Or(s.n == 0, z3.And(z3.ULE(s.x, s.L), z3.ULE(s.n, s.L - s.x))))] + s.same(eng, st)
            if fn == 'extractp':
                d = st.arrs.get((s.dr.rid, 0))
                return o + [('bits', z3.Implies(z3.ULT(j, s.blocks(s.n)), d.rd(j, st.pc) == s.D(j)))] if not s.far else o
            L, n, rd = s.now(eng, st, s.p2)
            return o + [('length', L == s.n), ('block-count', n == s.blocks(s.n)), ('bits', z3.Implies(z3.ULT(j, n), rd(j) == s.D(j)))]
        L, n, rd = s.now(eng, st, s.p)
        if fn == 'clear':
            return [('empty', z3.And(L == 0, n == 0))]
        if fn in ('set', 'reset', 'setb'):
            one = BVV(1, s.u) << zx(s.r(s.x), s.u)
            on, off = s.A(j) | one, s.A(j) & ~one
            new = on if fn == 'set' else off if fn == 'reset' else z3.If(s.b == 1, on, off)
            return [('in-range', z3.ULT(s.x, s.L)), ('length-kept', z3.And(L == s.L, n == s.blocks(s.L))),
                    ('bits', z3.Implies(z3.ULT(j, n), rd(j) == z3.If(j == s.q(s.x), new, s.A(j))))]
        T = {'init': s.n, 'resize': s.n}.get(fn, simp(s.L + s.n))
        o = [('length', L == T), ('block-count', n == s.blocks(T)), ('bits', z3.Implies(z3.ULT(j, n), rd(j) == s.F(j)))]
        if fn == 'appendi':
            o.append(('accepted', z3.ULE(s.n, c64(s.u))))
        return o

    def lemmas(s, eng):
        """the block formulas are the bit-level statements, and leave nothing behind the last bit"""
        if s.far:
            return
        b = s.size('b')
        lim = [z3.ULT(x, c64(1 << QB)) for x in (s.L, s.n, b)]
        fn = s.fn
        fa, fb = UF('A', 64, s.u), UF('B', 64, s.u)
        A, B = s.cut(fa, s.L), s.cut(fb, s.n)
        if fn == 'appendp':
            F = s.appended(A, s.L, B)
            T = simp(s.L + s.n)
            yield 'bits-of-the-whole', lim + [z3.ULT(b, T)], s.bit(F, b) == z3.If(z3.ULT(b, s.L), s.bit(fa, b), s.bit(fb, simp(b - s.L)))
            yield 'nothing-behind-the-end', lim + [s.r(T) != 0], F(s.q(T)) & ~s.mask(s.r(T)) == 0
        elif fn == 'extractp':
            F = s.extracted(A, s.x, s.n)
            h = lim + [z3.ULE(s.x, s.L), z3.ULE(s.n, s.L - s.x)]
            yield 'bits-of-the-part', h + [z3.ULT(b, s.n)], s.bit(F, b) == s.bit(fa, simp(b + s.x))
            yield 'nothing-behind-the-end', h + [s.r(s.n) != 0], F(s.q(s.n)) & ~s.mask(s.r(s.n)) == 0
        elif fn in ('init', 'resize'):
            F = s.cut(fa if fn == 'init' else A, s.n)
            yield 'bits', lim + [z3.ULT(b, s.n)], s.bit(F, b) == (s.bit(fa, b) if fn == 'init' else z3.If(z3.ULT(b, s.L), s.bit(fa, b), BVV(0, 1)))
            yield 'nothing-behind-the-end', lim + [s.r(s.n) != 0], F(s.q(s.n)) & ~s.mask(s.r(s.n)) == 0


FNS = 'init resize get set reset setb clear size appendp appendi appendv extractp extracti extractv eq ne copybit shl'.split()


def targets(tier):
    return [Target('BitVectorT<uint%d_t> %s' % (u, f), 'bv%d_%s' % (u, f), lambda u=u, f=f: BV(u, f), hfn='%s%d' % (f, u), weight=3 if f in ('appendp', 'extractp') else 1, noinline=CALLS if f in ('appendv', 'extractv') else None)
            for u in (64, 8) for f in FNS] + \
        [Target('BitVectorT<uint%d_t> %s far' % (u, f), 'bv%d_%s' % (u, f), lambda u=u, f=f: BV(u, f, True), hfn='%s%d' % (f, u)) for u in (64, 8) for f in ('extractp', 'extracti', 'appendi')]
