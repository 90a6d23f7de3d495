"""base64: RFC 4648 text of the whole input, and its inverse, for any chunking"""
from specs.streams import *
TU = 'base64.cpp'
HARNESS = 'P07.cpp'
BUDGET = 400
SMALL = ('N',)
ASSUMPTIONS = ['streams are seen through their contracts: an input delivers its bytes in order in pieces of any size and returns 0 only at its end, an output accepts everything']
ALPHA = [ord(c) for c in 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/']


def ch(v):
    """alphabet character of a 6-bit value (given in 8 bits)"""
    return z3.If(z3.ULT(v, 26), v + 65, z3.If(z3.ULT(v, 52), v + 71, z3.If(z3.ULT(v, 62), v - 4, z3.If(v == 62, BVV(43, 8), BVV(47, 8)))))


def val(c):
    """value of a character, 255 when it is not in the alphabet"""
    return z3.If(rng(c, 65, 90), c - 65, z3.If(rng(c, 97, 122), c - 71, z3.If(rng(c, 48, 57), c + 4, z3.If(c == 43, BVV(62, 8), z3.If(c == 47, BVV(63, 8), BVV(255, 8))))))


class B64(Streams):
    """the text is specified by recursion on the input position i: R phase, P column, S output offset, C carried bits"""

    def __init__(s, what):
        Streams.__init__(s)
        s.what = what
        s.T, s.T0 = None, UF('alphabet', 8, 8)

    def setup(s, eng, st):
        a, o = s.objs(eng, st)
        for g, (t, init, const, kind) in eng.m.globals.items():
            if const and kind == 'def' and getattr(init, 'k', '') == 'cstr' and list(init.v) == ALPHA + [0]:
                eng.global_ptr(st, g)
        s.R, s.P, s.S, s.C = UF('phase', 64, 64), UF('column', 64, 64), UF('offset', 64, 64), UF('carry', 64, 8)
        z = c64(0)
        st.pc.add(z3.And(s.R(z) == 0, s.P(z) == 0, s.S(z) == 0, s.C(z) == 0))
        s.inputs = {'M': ('bytes', s.arrM, s.N)}
        if s.what == 'enc':
            s.L, s.mode = z3.BitVec('maxLine', 64), z3.BitVec('mode', 32)
            st.pc.add(z3.ULE(s.mode, 2))
            s.inputs['maxLine'] = s.L
            s.inputs['mode'] = s.mode
            args = [o, a, s.L, s.mode]
        else:
            s.L, s.mode = c64(76), BVV(1, 32)
            args = [o, a]
        if getattr(s, 'bounded', False):
            st.pc.add(z3.ULE(s.N, c64(7)))
            for k in range(8):
                s.unfold(st.pc, c64(k))
        if s.what != 'dec':
            s.tail(st.pc)
        s.unfold(st.pc, z)
        return args

    def opaque_table(s, vals, e):
        if s.what != 'dec' and e == 1 and vals == ALPHA + [0]:
            s.T = s.T0
            return AFn(lambda j, sink: z3.If(z3.ULT(j, c64(64)), s.T(zx(j, 8)), BVV(0, 8)), 1)

    def ch(s, v):
        return s.T(v) if s.T else ch(v)

    def eol(s, sink, at, cond):
        """end of line at offset at when cond; -> its length"""
        crlf = s.mode == 1
        n = z3.If(z3.Or(z3.Not(cond), s.mode == 2), c64(0), z3.If(crlf, c64(2), c64(1)))
        sink.add(z3.Implies(z3.And(cond, crlf), z3.And(s.E(at) == 13, s.E(simp(at + 1)) == 10)))
        sink.add(z3.Implies(z3.And(cond, s.mode == 0), s.E(at) == 10))
        return n

    def unfold(s, sink, i):
        i = simp(i)
        key = ('b64', i.get_id())
        if key in sink.keys:
            return
        sink.keys[key] = i
        i1 = simp(i + 1)
        r, p, o, c, m = s.R(i), s.P(i), s.S(i), s.C(i), s.M(i)
        inr = z3.ULT(i, s.N)
        if s.what == 'dec':
            v = val(m)
            skip = v == 255
            out = z3.If(r == 1, c | z3.LShR(v, 4), z3.If(r == 2, c | z3.LShR(v, 2), c | v))
            sink.add(z3.Implies(inr, z3.If(skip, z3.And(s.R(i1) == r, s.C(i1) == c, s.S(i1) == o), z3.And(
                s.R(i1) == ((r + 1) & 3), s.S(i1) == z3.If(r == 0, o, o + 1), z3.Or(r == 0, s.E(o) == out),
                s.C(i1) == z3.If(r == 0, v << 2, z3.If(r == 1, (v & 15) << 4, (v & 3) << 6))))))
            sink.add(z3.Implies(z3.ULE(i, s.N), s.facts(i)))
            return
        w = z3.If(r == 2, c64(2), c64(1))
        v0 = z3.If(r == 0, z3.LShR(m, 2), z3.If(r == 1, c | z3.LShR(m, 4), c | z3.LShR(m, 6)))
        t = []
        t.append(s.R(i1) == z3.If(r == 2, c64(0), r + 1))
        t.append(s.C(i1) == z3.If(r == 0, (m & 3) << 4, (m & 15) << 2))
        t.append(s.E(o) == s.ch(v0))
        t.append(z3.Implies(r == 2, s.E(simp(o + 1)) == s.ch(m & 63)))
        full = z3.And(s.L != 0, p + w == s.L)
        t.append(s.P(i1) == z3.If(full, c64(0), p + w))
        sub = Sub()
        e = s.eol(sub, simp(o + w), full)
        t += sub.l
        t.append(s.S(i1) == o + w + e)
        sink.add(z3.Implies(inr, z3.And(*t)))
        sink.add(z3.Implies(z3.ULE(i, s.N), s.facts(i)))

    def facts(s, i):
        """consequences of the recursion, proved by induction in lemmas()"""
        r, p, o, c = s.R(i), s.P(i), s.S(i), s.C(i)
        if s.what == 'dec':
            return z3.And(z3.ULE(r, c64(3)), z3.ULE(o, i))
        lines = z3.And(s.L != 0, z3.ULE(s.L, c64(128)), (s.L & 3) == 0)
        return z3.And(z3.ULE(r, c64(2)), z3.Implies(lines, z3.And((p & 3) == r, z3.ULT(p, s.L))), z3.ULE(o, i * 4),
                      z3.Implies(r == 1, (c & 0xcf) == 0), z3.Implies(r == 2, (c & 0xc3) == 0))

    def lemmas(s, eng):
        z, i = c64(0), z3.BitVec('i', 64)
        sub = Sub()
        sub.keys = {}
        f = s.facts
        s.facts = lambda i: z3.BoolVal(True)
        s.unfold(sub, i)
        s.facts = f
        start = [s.R(z) == 0, s.P(z) == 0, s.S(z) == 0, s.C(z) == 0]
        yield 'facts-at-0', start, f(z)
        yield 'facts-step', sub.l + [z3.ULT(s.N, c64(1 << 56)), z3.ULT(i, s.N), f(i)], f(simp(i + 1))

    def tail(s, sink):
        n = s.N
        r, p, o, c = s.R(n), s.P(n), s.S(n), s.C(n)
        sink.add(s.facts(n))
        sink.add(z3.Implies(r != 0, z3.And(s.E(o) == s.ch(c), s.E(simp(o + 1)) == 61)))
        sink.add(z3.Implies(r == 1, s.E(simp(o + 2)) == 61))
        w = z3.If(r == 0, c64(0), z3.If(r == 1, c64(3), c64(2)))
        e = s.eol(sink, simp(o + w), z3.And(s.L != 0, p + w != 0))
        s.total = simp(o + w + e)

    def on_read(s, eng, st, ip, r):
        s.unfold(st.pc, ip)

    def loop(s, ctx):
        out = linear_cands(ctx)
        g0 = ctx.st.g
        kk = lambda v: simp(g(v, 'base') + v['k'])
        ii = lambda v: g(v, 'ip')

        def g(v, n):
            return v['g:' + n] if 'g:' + n in v.vals else g0[n]
        reading = 'g:ip' in ctx.info
        at = ii if reading else kk
        nm = 'ip' if reading else 'base+k'

        def hdr(v, st):
            s.unfold(st.pc, at(v))
            i1 = simp(at(v) + 1)
            st.pc.add(z3.Implies(z3.ULE(i1, s.N), s.facts(i1)))
        ctx.on_header = hdr
        out.append(Cand('ip<=N', lambda v: z3.ULE(ii(v), s.N)))
        if not reading:
            out.append(Cand('base+k<=ip', lambda v: z3.ULE(v['k'], ii(v) - g(v, 'base'))))
            out.append(Cand('S-op<=4k', lambda v: z3.ULE(s.S(at(v)) - g(v, 'op'), v['k'] * 4)))
        else:
            out.append(Cand('op=S', lambda v: g(v, 'op') == s.S(ii(v))))
        out.append(Cand('S-op<1024', lambda v: z3.ULT(s.S(at(v)) - g(v, 'op'), c64(1024))))
        for h in ctx.info:
            d = ctx.info[h]
            if d['kind'] in ('int', 'cell') and d['w'] in (64, 32, 8):
                w = d['w']
                for n, f in (('phase', s.R), ('column', s.P), ('carry', s.C)):
                    if n == 'column' and s.what == 'dec':
                        continue
                    if n == 'carry':
                        fn = lambda v, h=h, f=f, w=w: z3.Implies(s.R(at(v)) != 0, v[h] == zx(f(at(v)), w))
                    elif n == 'phase':
                        fn = lambda v, h=h, f=f, w=w: v[h] == zx(f(at(v)), w)
                    else:
                        fn = lambda v, h=h, f=f, w=w: z3.Implies(s.L != 0, v[h] == zx(f(at(v)), w))
                    out.append(Cand('%s=%s(%s)' % (h, n, nm), fn))
                out.append(Cand('%s=S-op' % h, lambda v, h=h, w=w: v[h] == zx(s.S(at(v)) - g(v, 'op'), w)))
        for h in ctx.arrs():
            if ctx.info[h]['esz'] == 1 and ctx.info[h]['kind'] == 'arr':
                out.append(QCand('text(%s)' % h, h, lambda v, j, x: z3.Implies(z3.ULT(j, s.S(at(v)) - g(v, 'op')), x == s.E(simp(g(v, 'op') + j)))))
        return out

    def post(s, eng, st, kind, ret):
        op = st.g['op']
        if s.what == 'dec':
            if kind != 'ret':
                return [('no-exception', False)]
            return [('whole-input-read', st.g['ip'] == s.N), ('whole-output-written', op == s.S(s.N))]
        ok = z3.And(z3.ULE(s.L, c64(128)), (s.L & 3) == 0)
        if kind != 'ret':
            return [('only-bad-line-sizes-are-refused', z3.Not(ok)), ('nothing-written', op == 0)]
        return [('line-size', ok), ('whole-input-read', st.g['ip'] == s.N), ('whole-text-written', op == s.total)]


class Sub:
    def __init__(s):
        s.l = []

    def add(s, f):
        s.l.append(f)


def targets(tier):
    return [Target('EncodeToBase64', 'w_enc', lambda: B64('enc'), hfn='enc', weight=9), Target('EncodeToBase64 default', 'w_enc_def', lambda: B64('enc_def'), hfn='enc', weight=9),
            Target('DecodeFromBase64', 'w_dec', lambda: B64('dec'), hfn='dec', weight=9)]
