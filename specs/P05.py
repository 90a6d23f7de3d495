"""deterministic generators: published recurrence, and block reads deliver exactly the consecutive outputs"""
from specs.lib import *
TU = 'prng.cpp'
HARNESS = 'P05.cpp'
BUDGET = 200
ASSUMPTIONS = ['requests are shorter than 2^58 elements', 'inline assembly "rorl %cl" of Pcg32 rotates right by cl mod 32']
rl, rr = z3.RotateLeft, z3.RotateRight


class Gen:
    """k state words of width w; step(state) -> (state', output of width ow)"""


class Xor(Gen):
    name, k, w, ow = 'XorShift', 4, 32, 32
    seeds = [123456789, 362436069, 521288629, 88675123]

    def init(s, a):
        return [z3.If(x == 0, BVV(d, 32), x) for x, d in zip(a, s.seeds)]

    def step(s, v):
        x, y, z, w = v
        t = x ^ (x << 11)
        n = (w ^ z3.LShR(w, 19)) ^ (t ^ z3.LShR(t, 8))
        return [y, z, w, n], n


class X128(Gen):
    name, k, w, ow = 'XorShift128Plus', 2, 64, 64
    seeds = [123456789, 987654321]

    def init(s, a):
        return a

    def step(s, v):
        s1, s0 = v
        s1 = s1 ^ (s1 << 23)
        n = s1 ^ s0 ^ z3.LShR(s1, 18) ^ z3.LShR(s0, 5)
        return [s0, n], n + s0


class Xoro(X128):
    name = 'Xoroshiro128Plus'

    def step(s, v):
        s0, s1 = v
        r = s0 + s1
        s1 = s1 ^ s0
        return [rl(s0, 55) ^ s1 ^ (s1 << 14), rl(s1, 36)], r


class Pcg(Gen):
    name, k, w, ow = 'Pcg32', 1, 64, 32
    seeds = [0x185706b82c2e03f8]

    def init(s, a):
        return a

    def step(s, v):
        o = v[0]
        x = zx(z3.LShR(z3.LShR(o, 18) ^ o, 27), 32)
        return [o * 6364136223846793005 + 0x6d], rr(x, zx(z3.LShR(o, 59), 32))


class S(Spec):
    def __init__(s, g, what):
        s.g, s.what = g, what

    def setup(s, eng, st):
        g = s.g
        r = eng.new_region('g', 'obj', size=g.k * g.w // 8)
        s.s0 = [z3.BitVec('s%d' % i, g.w) for i in range(g.k)]
        st.cells[r.rid] = {i * g.w // 8: (g.w // 8, x) for i, x in enumerate(s.s0)}
        s.r = r
        P = Ptr(r.rid, Lin(0))
        s.inputs = {'s%d' % i: x for i, x in enumerate(s.s0)}
        if s.what in ('ctor', 'init'):
            s.a = [z3.BitVec('a%d' % i, g.w) for i in range(g.k)]
            s.inputs = {'a%d' % i: x for i, x in enumerate(s.a)}
            return [P] + s.a
        if not s.what.startswith('read'):
            return [P]
        s.esz = 1 if s.what[4:] == 'b' else int(s.what[4:]) // 8
        s.n = z3.BitVec('n', 64)
        st.pc.add(z3.ULT(s.n, c64(1 << 58)))
        if getattr(s, 'bounded', False):
            st.pc.add(U(s.n, c64(9)))
        s.inputs['n'] = s.n
        s.arg = s.n
        if g.name != 'Pcg32' and s.esz > g.ow // 8:
            # the block is a sequence of output-sized pieces
            s.n, s.esz = simp(s.n * (s.esz * 8 // g.ow)), g.ow // 8
        s.buf = eng.array_region(st, 'p', s.esz, s.n)
        s.first = None
        s.Q = [UF('st%d' % i, 64, g.w) for i in range(g.k)]
        s.O = UF('out', 64, g.ow)
        for q, x in zip(s.Q, s.s0):
            st.pc.add(q(c64(0)) == x)
        s.unfold(st.pc, c64(0))
        if getattr(s, 'bounded', False):
            for k in range(1, 73):
                s.unfold(st.pc, c64(k))
        if s.what == 'readb':
            s.b = eng.new_region('b', 'obj', size=1)
            st.cells[s.b.rid] = {0: (1, eng.fresh('b0', 8))}
            return [P, Ptr(s.b.rid, Lin(0)), Ptr(s.buf.rid, Lin(0)), s.arg]
        return [P, Ptr(s.buf.rid, Lin(0)), s.arg]

    def loop_mode(s, eng, st, f, h):
        # the block loop is cut; the tail after it is shorter than one output
        if s.first in (None, (f.name, h)):
            s.first = (f.name, h)
            return 'inv'
        s.unroll_max = 10
        return 'unroll'

    def unfold(s, sink, k):
        k = simp(k)
        key = ('prng', k.get_id())
        if key in sink.keys:
            return
        sink.keys[key] = k
        n, o = s.g.step([q(k) for q in s.Q])
        sink.add(z3.And(*[q(simp(k + 1)) == x for q, x in zip(s.Q, n)] + [s.O(k) == o]))

    # outputs used per block step: a Pcg32 read of elements takes one or two outputs per element, the byte form one per byte;
    # the XorShift family serves any element type from consecutive output bytes
    def elem(s, j):
        g, e = s.g, s.esz
        if g.name == 'Pcg32':
            if e == 1:
                return zx(s.O(j), 8)
            if e == 4:
                return s.O(j)
            return z3.Concat(s.O(simp(2 * j)), s.O(simp(2 * j + 1)))
        ob = g.ow // 8
        if e == ob:
            return s.O(j)
        if e < ob:
            r = ob // e
            v = s.O(z3.LShR(j, (r - 1).bit_length()))
            sh = zx((j & (r - 1)) * (8 * e), g.ow)
            return zx(z3.LShR(v, sh), 8 * e)
        return z3.Concat(s.O(simp(2 * j + 1)), s.O(simp(2 * j)))

    def outputs(s):
        """number of outputs consumed by n elements"""
        g, e = s.g, s.esz
        if g.name == 'Pcg32':
            return s.n * 2 if e == 8 else s.n
        ob = g.ow // 8
        if e >= ob:
            return s.n * (e // ob)
        r = ob // e
        return z3.LShR(s.n + (r - 1), (r - 1).bit_length())

    def loop(s, ctx):
        out = linear_cands(ctx)
        g, e = s.g, s.esz
        tot = s.n
        for m in (1, 2):
            lim = s.n * m
            for name, L in (('n*%d' % m, lim), ('n/2', z3.LShR(s.n, 1)), ('n/4', z3.LShR(s.n, 2)), ('n/8', z3.LShR(s.n, 3))):
                out.append(Cand('k<=' + name, lambda v, L=L: U(v['k'], L)))

        def hdr(v, st):
            for d in range(3):
                s.unfold(st.pc, v['k'] + d)
                s.unfold(st.pc, v['k'] * 2 + d)
        ctx.on_header = hdr
        for mul in (1, 2):
            for h in ctx.info:
                if ctx.info[h]['kind'] in ('int', 'cell') and ctx.info[h]['w'] == g.w:
                    for i, q in enumerate(s.Q):
                        out.append(Cand('%s=st%d(%dk)' % (h, i, mul), lambda v, h=h, q=q, mul=mul: v[h] == q(simp(v['k'] * mul))))
            if mul == 1:
                for h in ctx.ints(32) + ctx.ints(64):
                    pass
        for h in ctx.arrs(s.buf.rid):
            for nm, per in (('1', 1), ('2', 2), ('4', 4), ('8', 8)):
                out.append(QCand('filled-%s-per-step(%s)' % (nm, h), h, lambda v, j, x, per=per: z3.Implies(z3.And(z3.ULT(j, v['k'] * per), z3.ULT(j, s.n)), x == s.elem(j))))
            # half an element per step: the low half of the element being written
            if e == 8 and g.ow == 32:
                out.append(QCand('filled-half-per-step(%s)' % h, h, lambda v, j, x: z3.Implies(z3.And(z3.ULT(j, s.n), z3.ULT(j * 2 + 1, v['k'])), x == s.elem(j))))
        return out

    def post(s, eng, st, kind, ret):
        g = s.g
        if kind != 'ret':
            return [('no-exception', False)]
        now = [eng.cell_load(st, s.r, i * g.w // 8, g.w // 8) for i in range(g.k)]
        if s.what in ('def', 'initd'):
            return [('seed-%d' % i, x == BVV(d, g.w)) for i, (x, d) in enumerate(zip(now, g.seeds))]
        if s.what in ('ctor', 'init'):
            return [('seed-%d' % i, x == d) for i, (x, d) in enumerate(zip(now, g.init(s.a)))]
        if not s.what.startswith('read'):
            v, o = g.step(s.s0)
            if s.what == 'get32':
                want = zx(o, 32)
            elif s.what == 'call':
                want = zx(o, 64)
            elif g.ow == 64:
                want = o
            else:
                v, o2 = g.step(v)
                want = z3.Concat(o, o2)
            return [('output', ret == want)] + [('state-%d' % i, x == y) for i, (x, y) in enumerate(zip(now, v))]
        j = z3.BitVec('j', 64)
        T = simp(s.outputs())
        s.unfold(st.pc, T)
        s.unfold(st.pc, T - 1)
        out = [('element', z3.Implies(z3.ULT(j, s.n), st.arrs[(s.buf.rid, 0)].rd(j, st.pc) == s.elem(j)))]
        out += [('state-%d' % i, x == q(T)) for i, (x, q) in enumerate(zip(now, s.Q))]
        if s.what == 'readb':
            out.append(('reports-success', eng.cell_load(st, s.b, 0, 1) == 1))
        return out


def targets(tier):
    out = []
    for G in (Xor, X128, Xoro, Pcg):
        for w in ['ctor', 'def', 'get32', 'get64', 'call', 'read8', 'read32', 'read64'] + ([] if G is Pcg else ['init', 'initd', 'readb']):
            out.append(Target('%s::%s' % (G.name, w), 'w_' + w, lambda G=G, w=w: S(G(), w), defs=('G_=' + G.name, 'K_=%d' % G.k), hfn=G.name, weight=9 if 'read' in w else 1))
    return out
