"""non-cryptographic hashes: FNV-1a and SipHash-2-4 of any sequence"""
from specs.lib import *
TU = 'hash.cpp'
HARNESS = 'P04.cpp'
BUDGET = 150
ASSUMPTIONS = ['sequences are shorter than 2^60 bytes']


class Fnv(Spec):
    def __init__(s, w, esz, signed, form):
        s.w, s.esz, s.signed, s.form = w, esz, signed, form

    def step(s, v, x):
        x = (sx if s.signed else zx)(x, s.w)
        return (v ^ x) * BVV(16777619 if s.w == 32 else 1099511628211, s.w)

    def setup(s, eng, st):
        s.n = n = z3.BitVec('n', 64)
        s.v = z3.BitVec('v', s.w)
        st.pc.add(z3.ULT(n, c64(1 << 58)))
        s.V = UF('fnv', 64, s.w)
        s.arr = ABase('p', s.esz)
        s.arr.facts.append(lambda i, x, sink: z3.Implies(z3.ULT(i, n), s.V(simp(i + 1)) == s.step(s.V(i), x)))
        if getattr(s, 'bounded', False):
            st.pc.add(U(n, c64(4)))
        r = eng.array_region(st, 'p', s.esz, n, s.arr, ro=True)
        s.rid = r.rid
        basis = BVV(2166136261 if s.w == 32 else 14695981039346656037, s.w)
        st.pc.add(s.V(c64(0)) == (basis if s.form == 'd' else z3.If(s.v == 0, basis, s.v)))
        s.inputs = {'n': n, 'v': s.v if s.form != 'd' else 0, 'p': ('bytes', s.arr, n)}
        P = Ptr(r.rid, Lin(0))
        if s.form == 'r':
            return [P, Ptr(r.rid, lin_of(n, s.esz)), s.v]
        return [P, n] + ([s.v] if s.form == '' else [])

    def loop(s, ctx):
        out = linear_cands(ctx)
        out.append(Cand('k<=n', lambda v: U(v['k'], s.n)))
        for h in ctx.ptrs(s.rid) + ctx.ints(64):
            out.append(Cand('%s<=n' % h, lambda v, h=h: U(v[h], s.n)))
        for h in ctx.ints(s.w):
            out.append(Cand('%s=fnv(k)' % h, lambda v, h=h: v[h] == s.V(v['k'])))
        ctx.on_header = lambda v, st: s.arr.rd(v['k'], st.pc)
        return out

    def post(s, eng, st, kind, ret):
        if kind != 'ret':
            return [('no-exception', False)]
        for k in range(5 if getattr(s, 'bounded', False) else 0):
            s.arr.rd(c64(k), st.pc)
        r = s.V(s.n)
        return [('hash', ret == (r if s.w == 32 else r ^ z3.LShR(r, 32)))]


def rotl(x, n):
    return z3.RotateLeft(x, n)


def sipround(v):
    v0, v1, v2, v3 = v
    v0 = v0 + v1; v1 = rotl(v1, 13); v1 = v1 ^ v0; v0 = rotl(v0, 32)
    v2 = v2 + v3; v3 = rotl(v3, 16); v3 = v3 ^ v2
    v0 = v0 + v3; v3 = rotl(v3, 21); v3 = v3 ^ v0
    v2 = v2 + v1; v1 = rotl(v1, 17); v1 = v1 ^ v2; v2 = rotl(v2, 32)
    return [v0, v1, v2, v3]


def absorb(v, m):
    v = [v[0], v[1], v[2], v[3] ^ m]
    v = sipround(sipround(v))
    return [v[0] ^ m, v[1], v[2], v[3]]


class Sip(Spec):
    def __init__(s, form):
        s.form = form

    def setup(s, eng, st):
        s.n = n = z3.BitVec('n', 64)
        s.k0, s.k1 = z3.BitVecs('k0 k1', 64)
        st.pc.add(z3.ULT(n, c64(1 << 60)))
        if s.form == 'd':
            k0, k1 = c64(0x0706050403020100), c64(0x0f0e0d0c0b0a0908)
        else:
            k0, k1 = s.k0, s.k1
        s.V = [UF('sip%d' % i, 64, 64) for i in range(4)]
        s.arr = ABase('p', 1)
        if getattr(s, 'bounded', False):
            st.pc.add(U(n, c64(17)))
        r = eng.array_region(st, 'p', 1, n, s.arr, ro=True)
        s.rid = r.rid
        init = [k0 ^ 0x736f6d6570736575, k1 ^ 0x646f72616e646f6d, k0 ^ 0x6c7967656e657261, k1 ^ 0x7465646279746573]
        for V, i in zip(s.V, init):
            st.pc.add(V(c64(0)) == i)
        s.inputs = {'n': n, 'k0': k0, 'k1': k1, 'p': ('bytes', s.arr, n)}
        if getattr(s, 'bounded', False):
            s.unfold(st.pc, c64(0))
            s.unfold(st.pc, c64(1))
        return [Ptr(r.rid, Lin(0)), n] + ([k0, k1] if s.form != 'd' else [])

    def word(s, sink, k):
        b = [s.arr.rd(simp(k * 8 + i), sink) for i in range(8)]
        return z3.Concat(*b[::-1])

    def unfold(s, sink, k):
        key = ('sip', k.get_id())
        if key in sink.keys:
            return
        sink.keys[key] = k
        nv = absorb([V(k) for V in s.V], s.word(sink, k))
        sink.add(z3.Implies(z3.ULT(k, z3.LShR(s.n, 3)), z3.And(*[V(simp(k + 1)) == x for V, x in zip(s.V, nv)])))

    def loop(s, ctx):
        out = linear_cands(ctx)
        out.append(Cand('k<=n/8', lambda v: U(v['k'], z3.LShR(s.n, 3))))
        for h in ctx.ints(64):
            for i, V in enumerate(s.V):
                out.append(Cand('%s=v%d(k)' % (h, i), lambda v, h=h, V=V: v[h] == V(v['k'])))
        ctx.on_header = lambda v, st: s.unfold(st.pc, v['k'])
        return out

    def post(s, eng, st, kind, ret):
        if kind != 'ret':
            return [('no-exception', False)]
        K = z3.LShR(s.n, 3)
        lv = leaves(ret, 64)
        K = pin(eng, st, K, lv + [a[0] for f in st.pc.l for a in apps(f, s.V)])
        t = s.n & 7
        c = pinv(eng, st, t, 0, 7)
        t = t if c is None else c64(c)
        w = s.n << 56
        for i in range(7):
            w = w | simp(z3.If(z3.UGT(t, c64(i)), zx(s.arr.rd(simp(K * 8 + i), st.pc), 64) << (8 * i), c64(0)))
        v = absorb([pin(eng, st, V(K), lv) for V in s.V], w)
        v[2] = v[2] ^ 0xff
        for i in range(4):
            v = sipround(v)
        return [('siphash-2-4', ret == v[0] ^ v[1] ^ v[2] ^ v[3])]


def targets(tier):
    out = []
    for ct, esz, sg in (('char', 1, True), ('unsigned char', 1, False), ('uint16_t', 2, False), ('uint32_t', 4, False)):
        for w in (32, 64):
            for form in ('', 'r', 'd'):
                if form != '' and esz > 1:
                    continue
                out.append(Target('hash%d<%s>%s' % (w, ct, {'': '', 'r': ' range', 'd': ' default basis'}[form]), 'w_h%d%s' % (w, form), lambda w=w, esz=esz, sg=sg, form=form: Fnv(w, esz, sg, form),
                                  defs=('T_=' + ct,), hfn='fnv%d/%d/%d' % (w, esz, sg)))
    for form in ('', 'd'):
        out.append(Target('siphash24' + (' default key' if form else ''), 'w_sip' + form, lambda form=form: Sip(form), defs=('SIP',), hfn='sip'))
    return out
