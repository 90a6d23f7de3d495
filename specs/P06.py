"""SHA-1, SHA-256, SHA-512: FIPS 180-4 digest of the concatenation of everything fed, for any chunking"""
import os
import re
from specs.lib import *
from vf.engine import AFn, ATable, bv64, Dead
from vf import stdlib
TU = 'sha.cpp'
HARNESS = 'P06.cpp'
BUDGET = 300
HFLAGS = [os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'P06_ssl.cpp'), '-lcrypto', '-lpthread']
SMALL = ('L', 'n', 'mdSize')
ASSUMPTIONS = ['messages are shorter than 2^58 bytes', 'the built-in implementation (CYBOZU_DONT_USE_OPENSSL) is verified; the OpenSSL wrapper is not',
               'the caller of a block function sees it through the contract h(k+1) = compress(h(k), block k); the contract itself is proved against FIPS 180-4 as Sha*::round']


def primes(n):
    out, p = [], 2
    while len(out) < n:
        if all(p % q for q in out):
            out.append(p)
        p += 1
    return out


def iroot(n, k):
    lo, hi = 0, 1 << (n.bit_length() // k + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= n:
            lo = m
        else:
            hi = m - 1
    return lo


def frac(p, k, bits):
    return iroot(p << (bits * k), k) & ((1 << bits) - 1)


class P:
    pass


S1, S256, S512 = P(), P(), P()
S1.name, S1.B, S1.W, S1.n, S1.LB = 'Sha1', 64, 32, 5, 8
S1.iv = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0]
S1.K = [0x5a827999] * 20 + [0x6ed9eba1] * 20 + [0x8f1bbcdc] * 20 + [0xca62c1d6] * 20
for S, W, R, B, LB in ((S256, 32, 64, 64, 8), (S512, 64, 80, 128, 16)):
    S.name, S.B, S.W, S.n, S.LB = 'Sha%d' % (W * 8), B, W, 8, LB
    S.iv = [frac(p, 2, W) for p in primes(8)]
    S.K = [frac(p, 3, W) for p in primes(R)]
S256.rot = ((2, 13, 22), (6, 11, 25), (7, 18, 3), (17, 19, 10))
S512.rot = ((28, 34, 39), (14, 18, 41), (1, 8, 7), (19, 61, 6))
rl, rr = z3.RotateLeft, z3.RotateRight


def compress(p, h, m):
    """FIPS 180-4 compression of the block words m"""
    w = list(m)
    if p is S1:
        for t in range(16, 80):
            w.append(rl(w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16], 1))
        a, b, c, d, e = h
        for t in range(80):
            f = (b & c) ^ (~b & d) if t < 20 else (b ^ c ^ d if t < 40 or t >= 60 else (b & c) ^ (b & d) ^ (c & d))
            T = rl(a, 5) + f + e + w[t] + BVV(p.K[t], 32)
            a, b, c, d, e = T, a, rl(b, 30), c, d
        return [x + y for x, y in zip(h, (a, b, c, d, e))]
    s0, s1, g0, g1 = p.rot
    S = lambda x, r: rr(x, r[0]) ^ rr(x, r[1]) ^ rr(x, r[2])
    G = lambda x, r: rr(x, r[0]) ^ rr(x, r[1]) ^ z3.LShR(x, r[2])
    for t in range(16, len(p.K)):
        w.append(G(w[t - 2], g1) + w[t - 7] + G(w[t - 15], g0) + w[t - 16])
    a, b, c, d, e, f, g, hh = h
    for t in range(len(p.K)):
        T1 = hh + S(e, s1) + ((e & f) ^ (~e & g)) + BVV(p.K[t], p.W) + w[t]
        T2 = S(a, s0) + ((a & b) ^ (a & c) ^ (b & c))
        a, b, c, d, e, f, g, hh = T1 + T2, a, b, c, d + T1, e, f, g
    return [x + y for x, y in zip(h, (a, b, c, d, e, f, g, hh))]


class Base(Spec):
    path_max = 4000

    def __init__(s, p):
        s.p = p

    def obj(s, eng, st, name='h'):
        p = s.p
        L = layout(eng)
        s.size, s.oT, s.oR, s.oB, s.oH = L[:5]
        segs = [(s.oB, s.oB + p.B, 1), (s.oH, s.oH + p.n * p.W // 8, p.W // 8)]
        if p is S1:
            s.oK, s.oD, s.oF = L[5:8]
            segs += [(s.oK, s.oK + 320, 4), (s.oD, s.oD + 20, 4)]
        else:
            s.oK = L[5]
        segs.sort()
        r = eng.new_region(name, 'obj', size=s.size, segs=tuple(segs))
        s.seg = {lo: i for i, (lo, hi, e) in enumerate(segs)}
        st.cells[r.rid] = {}
        for lo, hi, e in segs:
            st.arrs[(r.rid, s.seg[lo])] = ABase(name + '.%d' % lo, e)
        s.r = r
        return Ptr(r.rid, Lin(0))

    def cell(s, eng, st, off, n=8):
        return eng.cell_load(st, s.r, off, n)

    def arr(s, st, off):
        return st.arrs[(s.r.rid, s.seg[off])]

    def setarr(s, st, off, a):
        st.arrs[(s.r.rid, s.seg[off])] = a

    def ready(s, eng, st):
        """constants in the object"""
        p = s.p
        if p is S1:
            s.setarr(st, s.oK, ATable(p.K, 4))
            st.cells[s.r.rid][s.oF] = (1, BVV(0, 8))
        else:
            t = eng.array_region(st, 'k', p.W // 8, BVV(len(p.K), 64), ATable(p.K, p.W // 8), ro=True)
            st.cells[s.r.rid][s.oK] = (8, Ptr(t.rid, Lin(0)))

    def const_posts(s, eng, st):
        """the constants are the FIPS ones"""
        p = s.p
        if p is S1:
            a = s.arr(st, s.oK)
            return [('round-constant-%d' % i, a.rd(c64(i), st.pc) == BVV(k, 32)) for i, k in enumerate(p.K)] + [('not-finished', s.cell(eng, st, s.oF, 1) == 0)]
        q = eng.load_n(st, Ptr(s.r.rid, Lin(s.oK)), 8, True)
        if not isinstance(q, Ptr):
            return [('round-constants', False)]
        return [('round-constant-%d' % i, eng.load_n(st, Ptr(q.r, q.o.add(Lin(i * p.W // 8))), p.W // 8) == BVV(k, p.W)) for i, k in enumerate(p.K)]

    def fresh_posts(s, eng, st):
        p = s.p
        return [('total-zero', s.cell(eng, st, s.oT) == 0), ('buffer-empty', s.cell(eng, st, s.oR) == 0)] + \
            [('initial-state-%d' % i, s.arr(st, s.oH).rd(c64(i), st.pc) == BVV(v, p.W)) for i, v in enumerate(p.iv)]


class Ctor(Base):
    def setup(s, eng, st):
        return [s.obj(eng, st)]

    def post(s, eng, st, kind, ret):
        if kind != 'ret':
            return [('no-exception', False)]
        return s.fresh_posts(eng, st) + s.const_posts(eng, st)


class Round(Base):
    simp_lim = 3
    unroll_max = 200
    """the block function is the FIPS compression function"""

    def setup(s, eng, st):
        p = s.p
        o = s.obj(eng, st)
        s.ready(eng, st)
        s.T = z3.BitVec('total', 64)
        st.cells[s.r.rid][s.oT] = (8, s.T)
        s.h = s.arr(st, s.oH)
        b = eng.array_region(st, 'buf', 1, BVV(p.B, 64), ro=True)
        s.b = st.arrs[(b.rid, 0)]
        s.inputs = None
        return [o, Ptr(b.rid, Lin(0))]

    def post(s, eng, st, kind, ret):
        p = s.p
        if kind != 'ret':
            return [('no-exception', False)]
        wb = p.W // 8
        m = [z3.Concat(*[s.b.rd(c64(i * wb + j), st.pc) for j in range(wb)]) for i in range(16)]
        h0 = [s.h.rd(c64(i), st.pc) for i in range(p.n)]
        want = compress(p, h0, m)
        got = [s.arr(st, s.oH).rd(c64(i), st.pc) for i in range(p.n)]
        return [('compression', z3.Concat(*got) == z3.Concat(*want)), ('total', s.cell(eng, st, s.oT) == s.T + p.B)]


class Feed(Base):
    """update / digest against the abstract message"""

    def __init__(s, p, what, inplace=False):
        s.p, s.what, s.inplace = p, what, inplace
        s.contracts = {re.compile(r'^cybozu::%s::round\(' % p.name): s.round}
        if what != 'update':
            s.contracts[re.compile(r'^cybozu::%s::update\((char|void) const\*, unsigned long\)' % p.name)] = s.update

    def setup(s, eng, st):
        p = s.p
        o = s.obj(eng, st)
        s.ready(eng, st)
        s.sh = p.B.bit_length() - 1
        s.L, s.n = z3.BitVecs('L n', 64)
        st.pc.add(z3.ULT(s.L, c64(1 << 58)))
        st.pc.add(z3.ULT(s.n, c64(1 << 58)))
        s.T = s.L + s.n
        if getattr(s, 'bounded', False):
            st.pc.add(z3.ULT(s.n, c64(3 * p.B)))
        s.M = UF('M', 64, 8)
        s.H = UF('H', 64, 64, p.W)
        r = s.L & (p.B - 1)
        st.cells[s.r.rid][s.oT] = (8, simp(s.L - r))
        st.cells[s.r.rid][s.oR] = (8, simp(r))
        buf = ABase('roundBuf', 1)
        buf.facts.append(lambda j, v, sink: z3.Implies(z3.ULT(j, r), v == s.M(simp(s.L - r + j))))
        s.setarr(st, s.oB, buf)
        s.setarr(st, s.oH, AFn(lambda j, sink: s.H(z3.LShR(s.L, s.sh), j), p.W // 8))
        st.g['blk'] = simp(z3.LShR(s.L, s.sh))
        if s.what != 'update' and s.what != 'update_s':
            s.NB = z3.LShR(s.T + p.LB, s.sh) + 1
        s.inputs = {'L': s.L, 'n': s.n}
        inp = AFn(lambda j, sink: s.M(simp(s.L + j)), 1)
        if s.what.endswith('_s'):
            a = stdlib.new_container(eng, st, 'in')
            stdlib.mk_string(eng, st, a, s.n, inp)
            data = [a]
        else:
            ir = eng.array_region(st, 'in', 1, s.n, inp, ro=True)
            data = [Ptr(ir.rid, Lin(0)), s.n]
        if s.what.startswith('update'):
            return [o] + data
        if p is not S1 and s.what == 'digest':
            s.mdn = z3.BitVec('mdSize', 64)
            st.pc.add(z3.ULT(s.mdn, c64(1 << 58)))
            s.inputs['mdSize'] = s.mdn
            if s.inplace:
                st.pc.add(z3.ULE(s.n, s.mdn))
                s.md = eng.array_region(st, 'md', 1, s.mdn, inp)
                return [Ptr(s.md.rid, Lin(0)), s.mdn, o, Ptr(s.md.rid, Lin(0)), s.n]
            s.md = eng.array_region(st, 'md', 1, s.mdn)
            return [Ptr(s.md.rid, Lin(0)), s.mdn, o] + data
        s.out = stdlib.new_container(eng, st, 'out')
        return [s.out, o] + data

    def round(s, eng, st, args, x):
        """contract: requires the state after blk blocks and block blk of the message; ensures the state after blk+1 blocks"""
        p = s.p
        this, buf = args
        if this.r != s.r.rid or this.o.const() != 0:
            raise Undecided('block function on another object')
        k = st.g['blk']
        loc = eng.locate(st, buf, 1, 'round')
        if loc[0] != 'arr':
            raise Undecided('block outside an array')
        _, r, seg, rel = loc
        n, e = eng.seg_n(st, r, seg)
        if e != 1:
            raise Undecided('block of wide elements')
        b = rel.bv()
        eng.oblige(st, 'block-in-bounds', z3.And(z3.ULE(b, n), z3.ULE(c64(p.B), n - b)))
        j = eng.fresh('j', 64)
        st2 = st
        v = st.arrs[(r.rid, seg)].rd(simp(b + j), st.pc)
        ib = simp(k * p.B + j)
        inb = z3.ULT(j, c64(p.B))
        if s.what.startswith('update'):
            eng.oblige(st, 'block-is-next-of-message', z3.Implies(inb, v == s.M(ib)))
        else:
            end = s.NB * p.B
            eng.oblige(st, 'block-is-next-of-message', z3.Implies(z3.And(inb, z3.ULT(ib, s.T)), v == s.M(ib)))
            eng.oblige(st, 'padding-one-bit', z3.Implies(z3.And(inb, ib == s.T), v == 0x80))
            eng.oblige(st, 'padding-zeros', z3.Implies(z3.And(inb, z3.UGT(ib, s.T), z3.ULT(ib, end - 8)), v == 0))
            eng.oblige(st, 'block-of-message', z3.ULT(k, s.NB))
            ln = [st.arrs[(r.rid, seg)].rd(simp(b + (p.B - 8 + q)), st.pc) for q in range(8)]
            eng.oblige(st, 'padding-length', z3.Implies(k + 1 == s.NB, z3.Concat(*ln) == s.T * 8))
        i = eng.fresh('i', 64)
        eng.oblige(st, 'state-of-previous-block', z3.Implies(z3.ULT(i, c64(p.n)), s.arr(st, s.oH).rd(i, st.pc) == s.H(k, i)))
        k2 = simp(k + 1)
        eng.set_g(st, 'blk', k2)
        eng.set_arr(st, s.r.rid, s.seg[s.oH], AFn(lambda q, sink: s.H(k2, q), p.W // 8))
        eng.store_n(st, Ptr(s.r.rid, Lin(s.oT)), simp(s.cell(eng, st, s.oT) + p.B), 8)
        return [(st, 'ret', None)]

    def update(s, eng, st, args, x):
        """contract (proved as Sha*::update): the bytes are appended to the message"""
        p = s.p
        this, buf, n = args
        if this.r != s.r.rid or this.o.const() != 0 or 'fed' in st.g:
            raise Undecided('update of another object, or twice')
        eng.set_g(st, 'fed', z3.BoolVal(True))
        eng.oblige(st, 'all-bytes-fed', bv64(n) == s.n)
        j = eng.fresh('j', 64)
        if buf.r is not None:
            loc = eng.locate(st, buf, 1, 'update')
            if loc[0] != 'arr':
                raise Undecided('data outside an array')
            _, r, seg, rel = loc
            eng.oblige(st, 'data-fed', z3.Implies(z3.ULT(j, s.n), st.arrs[(r.rid, seg)].rd(simp(rel.bv() + j), st.pc) == s.M(simp(s.L + j))))
        else:
            eng.oblige(st, 'data-fed', s.n == 0)
        i = eng.fresh('i', 64)
        rr_ = s.L & (p.B - 1)
        eng.oblige(st, 'update-pre', z3.And(s.cell(eng, st, s.oT) == s.L - rr_, s.cell(eng, st, s.oR) == rr_))
        eng.oblige(st, 'update-pre-buffer', z3.Implies(z3.ULT(j, rr_), s.arr(st, s.oB).rd(j, st.pc) == s.M(simp(s.L - rr_ + j))))
        eng.oblige(st, 'update-pre-state', z3.Implies(z3.ULT(i, c64(p.n)), s.arr(st, s.oH).rd(i, st.pc) == s.H(z3.LShR(s.L, s.sh), i)))
        r2 = simp(s.T & (p.B - 1))
        eng.store_n(st, Ptr(s.r.rid, Lin(s.oT)), simp(s.T - r2), 8)
        eng.store_n(st, Ptr(s.r.rid, Lin(s.oR)), r2, 8)
        nb = ABase('roundBuf2', 1)
        nb.facts.append(lambda j, v, sink: z3.Implies(z3.ULT(j, r2), v == s.M(simp(s.T - r2 + j))))
        eng.set_arr(st, s.r.rid, s.seg[s.oB], nb)
        k = simp(z3.LShR(s.T, s.sh))
        eng.set_arr(st, s.r.rid, s.seg[s.oH], AFn(lambda q, sink: s.H(k, q), p.W // 8))
        eng.set_g(st, 'blk', k)
        return [(st, 'ret', None)]

    def loop(s, ctx):
        p = s.p
        out = linear_cands(ctx)
        for h, d in ctx.info.items():
            if d['kind'] in ('int', 'gint', 'ptr') or (d['kind'] == 'cell' and d.get('w') == 64):
                for stp in (p.B, -p.B, 1):
                    out.append(Cand('%s=init%+d*k' % (h, stp), lambda v, h=h, stp=stp: v[h] == ctx.ini[h] + v['k'] * stp))
        out.append(Cand('k<=n/B', lambda v: U(v['k'], z3.LShR(s.n, s.sh))))
        out.append(Cand('k<=T/B', lambda v: U(v['k'], z3.LShR(s.T, s.sh))))
        if 'g:blk' in ctx.info:
            out.append(Cand('blk<=T/B', lambda v: U(v['g:blk'], z3.LShR(s.T, s.sh))))
            for h in ctx.arrs(s.r.rid):
                if ctx.info[h]['seg'] == s.seg[s.oH]:
                    out.append(QCand('state(%s)' % h, h, lambda v, j, x: z3.Implies(z3.ULT(j, c64(p.n)), x == s.H(v['g:blk'], j))))
        return out

    def post(s, eng, st, kind, ret):
        p = s.p
        if kind != 'ret':
            return [('no-exception', False)]
        j = z3.BitVec('j', 64)
        if s.what.startswith('update'):
            r = s.T & (p.B - 1)
            return [('total', s.cell(eng, st, s.oT) == s.T - r), ('buffered', s.cell(eng, st, s.oR) == r),
                    ('buffer', z3.Implies(z3.ULT(j, r), s.arr(st, s.oB).rd(j, st.pc) == s.M(simp(s.T - r + j)))),
                    ('state', z3.Implies(z3.ULT(j, c64(p.n)), s.arr(st, s.oH).rd(j, st.pc) == s.H(z3.LShR(s.T, s.sh), j)))] + s.kept(eng, st)
        wb = p.W // 8
        nb = p.n * wb
        if p is not S1 and s.what == 'digest':
            small = eng.valid(st.pc, z3.ULT(s.mdn, c64(nb)))
            if small:
                return [('too-small-is-refused', ret == 0)]
        last = simp(st.g['blk'])
        g = [('all-blocks-hashed', last == s.NB)]
        word = s.H(last, z3.LShR(j, wb.bit_length() - 1))
        want = zx(z3.LShR(word, zx((wb - 1 - (j & (wb - 1))) * 8, p.W)), 8)
        if p is not S1 and s.what == 'digest':
            return g + [('size', ret == nb), ('room', z3.UGE(s.mdn, c64(nb))),
                        ('digest', z3.Implies(z3.ULT(j, c64(nb)), st.arrs[(s.md.rid, 0)].rd(j, st.pc) == want))]
        c = stdlib.C(eng, st, s.out, create=False).live()
        g += [('length', c.n == nb)] + [('digest-%d' % i, c.arr.rd(c64(i), st.pc) == simp(z3.substitute(want, (j, c64(i))))) for i in range(nb)]
        if p is S1:
            g += s.fresh_posts(eng, st) + s.kept(eng, st)
        return g

    def kept(s, eng, st):
        return s.const_posts(eng, st)


class Get(Base):
    """Sha1::get delivers the stored digest"""

    def setup(s, eng, st):
        o = s.obj(eng, st)
        s.out = eng.array_region(st, 'out', 1, BVV(20, 64))
        s.d = s.arr(st, s.oD)
        s.inputs = None
        return [Ptr(s.out.rid, Lin(0)), o]

    def post(s, eng, st, kind, ret):
        if kind != 'ret':
            return [('no-exception', False)]
        a = st.arrs[(s.out.rid, 0)]
        return [('byte-%d' % i, a.rd(c64(i), st.pc) == z3.Extract(8 * (i % 4) + 7, 8 * (i % 4), s.d.rd(c64(i // 4), st.pc))) for i in range(20)]


DUF = {}


def Dk(k):
    if k not in DUF:
        DUF[k] = UF('D%d' % k, 64, 8)
    return DUF[k]


class Stage(Spec):
    """hash objects seen as growing messages: ('len', rid), ('msg', rid) in the ghost state; digests are numbered"""

    def begin(s, eng, st, rid):
        eng.set_g(st, ('len', rid), c64(0))
        eng.set_g(st, ('msg', rid), AFn(lambda j, sink: BVV(0, 8), 1))

    def append(s, eng, st, rid, buf, n):
        n = simp(bv64(n))
        if ('len', rid) not in st.g:
            eng.oblige(st, 'hash-is-initialised', False)
            raise Dead()
        l, m = st.g[('len', rid)], st.g[('msg', rid)]
        if num(n) == 0:
            return
        if buf.r is None:
            eng.oblige(st, 'no-null-data', n == 0)
            return
        loc = eng.locate(st, buf, None, 'update')
        if loc[0] != 'arr':
            raise Undecided('data outside an array')
        _, r, seg, rel = loc
        cap, e = eng.seg_n(st, r, seg)
        b = simp(rel.bv())
        eng.oblige(st, 'data-in-bounds', z3.And(z3.ULE(b, cap * e), z3.ULE(n, cap * e - b)))
        a = st.arrs[(r.rid, seg)]
        if e != 1:
            raise Undecided('wide data')
        eng.set_g(st, ('len', rid), simp(l + n))
        eng.set_g(st, ('msg', rid), AFn(lambda j, sink: z3.If(z3.ULT(j, l), m.rd(j, sink), a.rd(simp(b + (j - l)), sink)), 1))

    def finish(s, eng, st, rid, md, size):
        k = st.g.get('stages', 0)
        st.g['stages'] = k + 1
        st.g[('stage', k)] = (st.g[('len', rid)], st.g[('msg', rid)])
        del st.g[('len', rid)]
        loc = eng.locate(st, md, None, 'digest')
        if loc[0] != 'arr':
            raise Undecided('digest outside an array')
        _, r, seg, rel = loc
        cap, e = eng.seg_n(st, r, seg)
        b = simp(rel.bv())
        eng.oblige(st, 'digest-in-bounds', z3.And(z3.ULE(b, cap), z3.ULE(c64(size), cap - b)))
        old = st.arrs[(r.rid, seg)]
        D = Dk(k)
        eng.set_arr(st, r.rid, seg, AFn(lambda j, sink: z3.If(z3.ULT(j - b, c64(size)), D(simp(j - b)), old.rd(j, sink)), 1))


class Hmac(Stage):
    def __init__(s):
        s.contracts = {re.compile(r'^cybozu::Sha256::Sha256\(\)'): s.c_ctor, re.compile(r'^cybozu::Sha256::clear\('): s.c_ctor, re.compile(r'^cybozu::Sha256::~Sha256\('): s.c_dtor,
                       re.compile(r'^cybozu::Sha256::update\(void const\*'): s.c_update, re.compile(r'^cybozu::Sha256::digest\(void\*, unsigned long, void const\*'): s.c_digest}

    def c_ctor(s, eng, st, args, x):
        s.begin(eng, st, args[0].r)
        return [(st, 'ret', None)]

    def c_dtor(s, eng, st, args, x):
        return [(st, 'ret', None)]

    def c_update(s, eng, st, args, x):
        s.append(eng, st, args[0].r, args[1], args[2])
        return [(st, 'ret', None)]

    def c_digest(s, eng, st, args, x):
        this, md, mdn, buf, n = args
        eng.oblige(st, 'digest-buffer-size', z3.UGE(bv64(mdn), c64(32)))
        s.append(eng, st, this.r, buf, n)
        s.finish(eng, st, this.r, md, 32)
        return [(st, 'ret', c64(32))]

    def setup(s, eng, st):
        s.ks, s.n = z3.BitVecs('keySize n', 64)
        for v in (s.ks, s.n):
            st.pc.add(z3.ULT(v, c64(1 << 50)))
        s.out = eng.array_region(st, 'hmac', 1, c64(32))
        k = eng.array_region(st, 'key', 1, s.ks, ro=True)
        m = eng.array_region(st, 'msg', 1, s.n, ro=True)
        s.key, s.msg = st.arrs[(k.rid, 0)], st.arrs[(m.rid, 0)]
        s.inputs = {'key': ('bytes', s.key, s.ks), 'msg': ('bytes', s.msg, s.n)}
        return [Ptr(s.out.rid, Lin(0)), Ptr(k.rid, Lin(0)), s.ks, Ptr(m.rid, Lin(0)), s.n]

    def loop(s, ctx):
        out = linear_cands(ctx)
        out.append(Cand('k<=64', lambda v: U(v['k'], c64(64))))
        for h in ctx.arrs():
            d = ctx.info[h]
            if d['kind'] == 'arr' and d['esz'] == 1:
                ini = d['init']
                for c in (0x36, 0x5c, 0x36 ^ 0x5c):
                    out.append(QCand('%s^%x' % (h, c), h, lambda v, j, x, ini=ini, c=c: x == z3.If(z3.ULT(j, v['k']), ini.rd(j, v.st.pc) ^ c, ini.rd(j, v.st.pc))))
        return out

    def post(s, eng, st, kind, ret):
        if kind != 'ret':
            return [('no-exception', False)]
        j = z3.BitVec('j', 64)
        ns = st.g.get('stages', 0)
        long_ = ns == 3
        if ns not in (2, 3):
            return [('hash-stages', False)]
        g = []
        D0 = Dk(0)
        if long_:
            l, m = st.g[('stage', 0)]
            g += [('key-hashed-when-long', z3.UGT(s.ks, c64(64))), ('key-hash-length', l == s.ks), ('key-hash-data', z3.Implies(z3.ULT(j, s.ks), m.rd(j, st.pc) == s.key.rd(j, st.pc)))]
            K0 = z3.If(z3.ULT(j, c64(32)), D0(j), BVV(0, 8))
        else:
            g += [('key-used-when-short', z3.ULE(s.ks, c64(64)))]
            K0 = z3.If(z3.ULT(j, s.ks), s.key.rd(j, st.pc), BVV(0, 8))
        l, m = st.g[('stage', ns - 2)]
        g += [('inner-length', l == s.n + 64), ('inner-key', z3.Implies(z3.ULT(j, c64(64)), m.rd(j, st.pc) == K0 ^ 0x36)),
              ('inner-message', z3.Implies(z3.ULT(j, s.n), m.rd(simp(j + 64), st.pc) == s.msg.rd(j, st.pc)))]
        l, m = st.g[('stage', ns - 1)]
        g += [('outer-length', l == 96), ('outer-key', z3.Implies(z3.ULT(j, c64(64)), m.rd(j, st.pc) == K0 ^ 0x5c)),
              ('outer-message', z3.Implies(z3.ULT(j, c64(32)), m.rd(simp(j + 64), st.pc) == Dk(ns - 2)(j)))]
        g += [('result', z3.Implies(z3.ULT(j, c64(32)), st.arrs[(s.out.rid, 0)].rd(j, st.pc) == Dk(ns - 1)(j)))]
        return g


class Ssl(Stage):
    """the OpenSSL-backed classes against assumed EVP contracts"""

    def __init__(s, p, what):
        s.p, s.what = p, what
        s.nb = p.n * p.W // 8
        s.contracts = {re.compile('^' + k + '$'): v for k, v in dict(EVP_MD_CTX_new=s.e_new, EVP_get_digestbyname=s.e_name, EVP_MD_CTX_reset=s.e_reset, EVP_DigestInit_ex=s.e_init,
                       EVP_DigestUpdate=s.e_update, EVP_DigestFinal_ex=s.e_final, EVP_MD_CTX_free=s.e_free, fprintf=s.e_printf).items()}

    def e_printf(s, eng, st, args, x):
        return [(st, 'ret', BVV(0, 32))]

    def e_new(s, eng, st, args, x):
        return [(st, 'ret', Ptr(s.ctx.rid, Lin(0)))]

    def e_name(s, eng, st, args, x):
        b = []
        for i in range(20):
            c = num(simp(eng.load_n(st, Ptr(args[0].r, args[0].o.add(Lin(i))), 1)))
            if c == 0:
                break
            b.append(c)
        if bytes(b).decode('latin1').lower().replace('-', '') == s.p.name.lower():
            return [(st, 'ret', Ptr(s.alg.rid, Lin(0)))]
        eng.oblige(st, 'digest-name', False)
        raise Dead()

    def ctxarg(s, eng, st, p):
        if not isinstance(p, Ptr) or p.r != s.ctx.rid:
            eng.oblige(st, 'context-pointer', False)
            raise Dead()
        return p.r

    def e_reset(s, eng, st, args, x):
        rid = s.ctxarg(eng, st, args[0])
        st.g.pop(('len', rid), None)
        return [(st, 'ret', BVV(1, 32))]

    def e_free(s, eng, st, args, x):
        s.ctxarg(eng, st, args[0])
        eng.oblige(st, 'context-freed-once', 'freed' not in st.g)
        eng.set_g(st, 'freed', z3.BoolVal(True))
        return [(st, 'ret', None)]

    def e_init(s, eng, st, args, x):
        rid = s.ctxarg(eng, st, args[0])
        if not isinstance(args[1], Ptr) or args[1].r != s.alg.rid:
            eng.oblige(st, 'digest-algorithm', False)
        s.begin(eng, st, rid)
        return [(st, 'ret', BVV(1, 32))]

    def e_update(s, eng, st, args, x):
        s.append(eng, st, s.ctxarg(eng, st, args[0]), args[1], args[2])
        return [(st, 'ret', BVV(1, 32))]

    def e_final(s, eng, st, args, x):
        s.finish(eng, st, s.ctxarg(eng, st, args[0]), args[1], s.nb)
        if args[2].r is not None:
            eng.store_n(st, args[2], BVV(s.nb, 32), 4)
        return [(st, 'ret', BVV(1, 32))]

    def setup(s, eng, st):
        s.ctx = eng.new_region('EVP_MD_CTX', 'obj', size=8, segs=())
        s.alg = eng.new_region('EVP_MD', 'obj', size=8, segs=())
        r = s.r = eng.new_region('h', 'obj', size=16, segs=())
        for q in (s.ctx, s.alg, r):
            st.cells[q.rid] = {}
        o = Ptr(r.rid, Lin(0))
        s.inputs = None
        if s.what == 'ctor':
            return [o]
        st.cells[r.rid][0] = (8, Ptr(s.ctx.rid, Lin(0)))
        st.cells[r.rid][8] = (8, Ptr(s.alg.rid, Lin(0)))
        if s.what in ('clear', 'dtor'):
            return [o]
        s.L, s.n = z3.BitVecs('L n', 64)
        for v in (s.L, s.n):
            st.pc.add(z3.ULT(v, c64(1 << 58)))
        s.M = UF('M', 64, 8)
        s.inputs = {'L': s.L, 'n': s.n}
        st.g[('len', s.ctx.rid)] = s.L
        st.g[('msg', s.ctx.rid)] = AFn(lambda j, sink: s.M(j), 1)
        inp = AFn(lambda j, sink: s.M(simp(s.L + j)), 1)
        if s.what.endswith('_s'):
            a = stdlib.new_container(eng, st, 'in')
            stdlib.mk_string(eng, st, a, s.n, inp)
            data = [a]
        else:
            ir = eng.array_region(st, 'in', 1, s.n, inp, ro=True)
            data = [Ptr(ir.rid, Lin(0)), s.n]
        if s.what.startswith('update'):
            return [o] + data
        if s.what == 'digest':
            s.mdn = z3.BitVec('mdSize', 64)
            st.pc.add(z3.ULT(s.mdn, c64(1 << 58)))
            s.inputs['mdSize'] = s.mdn
            s.md = eng.array_region(st, 'md', 1, s.mdn)
            return [Ptr(s.md.rid, Lin(0)), s.mdn, o] + data
        s.out = stdlib.new_container(eng, st, 'out')
        return [s.out, o] + data

    def post(s, eng, st, kind, ret):
        if kind != 'ret':
            return [('no-exception', False)]
        if s.what == 'dtor':
            return [('context-freed', 'freed' in st.g)]
        cx = ('len', s.ctx.rid)
        if s.what in ('ctor', 'clear'):
            a, b = [eng.load_n(st, Ptr(s.r.rid, Lin(k)), 8, True) for k in (0, 8)]
            return [('context', isinstance(a, Ptr) and a.r == s.ctx.rid), ('algorithm', isinstance(b, Ptr) and b.r == s.alg.rid), ('empty-message', st.g[cx] == 0 if cx in st.g else False)]
        j = z3.BitVec('j', 64)
        T = s.L + s.n
        if s.what.startswith('update'):
            if cx not in st.g:
                return [('message-kept', False)]
            return [('length', st.g[cx] == T), ('message', z3.Implies(z3.ULT(j, T), st.g[('msg', s.ctx.rid)].rd(j, st.pc) == s.M(j)))]
        if s.what == 'digest' and eng.valid(st.pc, z3.ULT(s.mdn, c64(s.nb))):
            return [('too-small-is-refused', ret == 0)]
        if st.g.get('stages', 0) != 1:
            return [('one-digest', False)]
        l, m = st.g[('stage', 0)]
        D = Dk(0)
        g = [('length', l == T), ('message', z3.Implies(z3.ULT(j, T), m.rd(j, st.pc) == s.M(j)))]
        if s.what == 'digest':
            return g + [('size', ret == s.nb), ('digest', z3.Implies(z3.ULT(j, c64(s.nb)), st.arrs[(s.md.rid, 0)].rd(j, st.pc) == D(j)))]
        c = stdlib.C(eng, st, s.out, create=False).live()
        return g + [('size', c.n == s.nb), ('digest', z3.Implies(z3.ULT(j, c64(s.nb)), c.arr.rd(j, st.pc) == D(j)))]


def targets(tier):
    out = []
    for p in (S1, S256, S512):
        defs = ('T_=' + p.name,)
        nl = re.compile(r'^cybozu::%s::round\(' % p.name)
        nu = re.compile(r'^cybozu::%s::(round\(|update\((char|void) const\*, unsigned long\))' % p.name)
        if p is S1:
            defs = ('T_=Sha1', 'SHA1')
        out.append(Target(p.name + '::' + p.name, 'w_ctor', lambda p=p: Ctor(p), defs=defs, hfn=p.name))
        out.append(Target(p.name + '::round', 'w_round', lambda p=p: Round(p), defs=defs, hfn=p.name, weight=50))
        fs = ['update', 'update_s', 'digest', 'digest_s'] + ([] if p is S1 else ['digest_r'])
        for f in fs:
            out.append(Target('%s::%s' % (p.name, f), 'w_' + f, lambda p=p, f=f: Feed(p, f), defs=defs, hfn=p.name, noinline=nl if f == 'update' else nu, weight=20))
        if p is not S1:
            out.append(Target(p.name + '::digest(in place)', 'w_digest', lambda p=p: Feed(p, 'digest', True), defs=defs, hfn=p.name, noinline=nu, weight=20))
            for f in ['ctor', 'clear', 'dtor', 'update', 'update_s', 'digest', 'digest_s', 'digest_r']:
                out.append(Target('%s::%s (OpenSSL)' % (p.name, f), 'w_' + f, lambda p=p, f=f: Ssl(p, f), defs=defs + ('USE_SSL',), hfn=p.name))
        if p is S1:
            out.append(Target('Sha1::get', 'w_get', lambda p=p: Get(p), defs=defs, hfn=p.name))
        else:
            out.append(Target(p.name + '::clear', 'w_clear', lambda p=p: Ctor(p), defs=defs, hfn=p.name))
    nl = re.compile(r'^cybozu::Sha256::')
    for ssl in ((), ('USE_SSL',)):
        out.append(Target('hmac256' + (' (OpenSSL)' if ssl else ''), 'w_hmac', lambda: Hmac(), defs=('T_=Sha256', 'HMAC') + ssl, hfn='hmac256', noinline=nl, weight=5))
    return out
