"""text -> integer: exact value or rejection (atoi, hextoi)"""
from specs.lib import *

TU = 'atoi.cpp'
HARNESS = 'P01.cpp'
BUDGET = 200
CT = {'signed char': (8, True), 'unsigned char': (8, False), 'short': (16, True), 'unsigned short': (16, False), 'int': (32, True),
      'unsigned int': (32, False), 'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False)}
HT = dict(CT)
HT['char'] = (8, True)
ASSUMPTIONS = ['the text is either given with its length or is NUL terminated in readable memory',
               'lemma used: once a prefix is malformed or too large so is the whole text (its induction step is an obligation)']


class S(Spec):
    def __init__(s, kind, w, signed, form):
        s.kind, s.w, s.signed, s.form = kind, w, signed, form
        s.W = w + 8
        s.base = 10 if kind == 'atoi' else 16
        s.val = UF('val', 64, s.W)
        s.bad = UF('bad', 64, 0)
        s.unroll_max = 25

    def digit(s, c):
        w = s.W
        d = zx(c, w) if w > 8 else c
        dec = rng(c, 48, 57)
        if s.base == 10:
            return dec, d - 48
        up, lo = rng(c, 65, 70), rng(c, 97, 102)
        return z3.Or(dec, up, lo), z3.If(dec, d - 48, z3.If(up, d - 55, d - 87))

    def inf(s):
        return BVV(-1, s.W)

    def stepv(s, v, c):
        ok, d = s.digit(c)
        n = v * s.base + d
        return z3.If(z3.Or(v == s.inf(), z3.UGT(v, BVV(1 << s.w, s.W))), s.inf(), z3.If(z3.UGT(n, BVV(1 << s.w, s.W)), s.inf(), n))

    def setup(s, eng, st):
        s.E = z3.BitVec('E', 64)
        s.ready = False
        n = z3.BitVec('n', 64)
        z = s.form in ('z', 'zx')
        nelem = s.E + 1 if z else n
        s.arr = ABase('p', 1)
        if z:
            st.pc.add(z3.ULT(s.E, c64(1 << 62)))
            st.pc.add(s.arr.f(s.E) == 0)
            nn = c64(2 ** 64 - 1)
        else:
            st.pc.add(z3.ULT(n, c64(1 << 62)))
            st.pc.add(U(s.E, n))
            st.pc.add(z3.Or(s.E == n, s.arr.f(s.E) == 0))
            nn = n
        if getattr(s, 'bounded', False):
            st.pc.add(U(nelem, c64(5)))
            s.unroll_max = 8
        E = s.E
        s.arr.facts.append(lambda i, v, sink: z3.Implies(z3.ULT(i, E), v != 0))
        s.arr.facts.append(lambda i, v, sink: s.step_fact(i, v) if s.ready else z3.BoolVal(True))
        r = eng.array_region(st, 'p', 1, nelem, s.arr, ro=True)
        s.rid = r.rid
        b = eng.new_region('b', 'obj', size=1)
        st.cells[b.rid] = {0: (1, eng.fresh('b0', 8))}
        s.b = b
        p0 = s.arr.f(c64(0))
        if s.kind == 'atoi' and s.signed:
            s.s0 = z3.If(z3.And(z3.UGT(E, 0), p0 == 45), c64(1), c64(0))
        else:
            s.s0 = c64(0)
        st.pc.add(z3.Implies(U(s.s0, E), z3.And(s.val(s.s0) == 0, z3.Not(s.bad(s.s0)))))
        s.inputs = {'n': nn, 'p': ('bytes', s.arr, nelem), 'w': s.w, 'signed': int(s.signed), 'form': s.form}
        s.ready = True
        for k in range(10 if getattr(s, 'bounded', False) else 2):
            s.unfold(st.pc, c64(k))
        P = Ptr(r.rid, Lin(0))
        B = Ptr(b.rid, Lin(0))
        return {'b': [B, P, n], 'x': [P, n], 'z': [B, P], 'zx': [P]}[s.form]

    def unfold(s, sink, q):
        s.arr.rd(q, sink)

    def step_fact(s, q, c):
        """definition of the spec functions at position q, and the monotonicity lemma there"""
        ok, d = s.digit(c)
        q1 = simp(q + 1)
        f = [z3.Implies(z3.And(z3.UGE(q, s.s0), z3.ULT(q, s.E)),
                        z3.And(s.val(q1) == s.stepv(s.val(q), c), s.bad(q1) == z3.Or(s.bad(q), z3.Not(ok))))]
        for t in (q, q1):
            f.append(z3.Implies(z3.And(z3.UGE(t, s.s0), U(t, s.E)), z3.And(z3.Implies(s.bad(t), s.bad(s.E)), U(s.val(t), s.val(s.E)))))
        return z3.And(*f)

    def lemmas(s, eng):
        v, c = z3.BitVec('lv', s.W), z3.BitVec('lc', 8)
        ok, d = s.digit(c)
        inv = z3.Or(v == s.inf(), U(v, BVV(1 << s.w, s.W)))
        n = s.stepv(v, c)
        return [('value-monotone-step', [inv, ok], z3.And(z3.UGE(n, v), z3.Or(n == s.inf(), U(n, BVV(1 << s.w, s.W)))))]

    def loop(s, ctx):
        out = linear_cands(ctx)
        pos = ctx.ptrs(s.rid) + ctx.ints(64)
        s_ = s

        def hint(v):
            pass
        ctx.on_header = lambda v, st: [s_.unfold(st.pc, v[h]) for h in pos]
        for h in pos:
            out.append(Cand('%s<=end' % h, lambda v, h=h: U(v[h], s.E)))
            out.append(Cand('%s>=start' % h, lambda v, h=h: z3.UGE(v[h], s.s0)))
            out.append(Cand('wellformed(%s)' % h, lambda v, h=h: z3.Not(s.bad(v[h]))))
            out.append(Cand('zero(%s)' % h, lambda v, h=h: s.val(v[h]) == 0))
            for x, d in ctx.info.items():
                if d['kind'] == 'int' and x != h:
                    out.append(Cand('%s=value(%s)' % (x, h), lambda v, h=h, x=x: (zx(v[x], s.W) if v[x].size() <= s.W else v[x]) == (s.val(v[h]) if v[x].size() <= s.W else zx(s.val(v[h]), v[x].size()))))
                    out.append(Cand('%s=-value(%s)' % (x, h), lambda v, h=h, x=x: v[x] == zx(-s.val(v[h]), v[x].size())))
                    if d['w'] == 64:
                        out.append(Cand('%s+%s=n' % (x, h), lambda v, h=h, x=x: v[x] + v[h] == ctx.ini[x] + ctx.ini[h]))
            for lim in {s.limit(), s.limit() - 1}:
                out.append(Cand('value(%s)<=%d' % (h, lim), lambda v, h=h, lim=lim: U(s.val(v[h]), BVV(lim, s.W))))
        return out

    def limit(s):
        return (1 << (s.w - 1)) if s.signed else (1 << s.w) - 1

    def spec_ok(s):
        v = s.val(s.E)
        neg = s.s0 == 1
        if s.kind == 'atoi':
            mx = z3.If(neg, BVV(1 << (s.w - 1), s.W), BVV((1 << (s.w - 1)) - 1, s.W)) if s.signed else BVV((1 << s.w) - 1, s.W)
        else:
            mx = BVV((1 << (s.w - 1)) - 1 if s.signed else (1 << s.w) - 1, s.W)
        return z3.And(z3.UGT(s.E, s.s0), z3.Not(s.bad(s.E)), U(v, mx))

    def post(s, eng, st, kind, ret):
        ok = s.spec_ok()
        v = s.val(s.E)
        val = zx(z3.If(s.s0 == 1, -v, v), s.w)
        out = []
        if kind == 'throw':
            out.append(('raises-only-on-bad-text', z3.Not(ok)))
            return out
        if s.form in ('b', 'z'):
            flag = eng.cell_load(st, s.b, 0, 1)
            out.append(('flag-tells-validity', flag == z3.If(ok, BVV(1, 8), BVV(0, 8))))
            out.append(('value-exact', z3.Implies(ok, ret == val)))
            out.append(('zero-when-rejected', z3.Implies(z3.Not(ok), ret == 0)))
        else:
            out.append(('accepts-only-valid', ok))
            out.append(('value-exact', z3.Implies(ok, ret == val)))
        return out


def targets(tier):
    out = []
    for kind, tt in (('atoi', CT), ('hextoi', HT)):
        for ct, (w, sg) in tt.items():
            for form in ('b', 'x', 'z', 'zx'):
                out.append(Target('%s<%s>/%s' % (kind, ct, form), 'w_%s_%s' % (kind, form), lambda k=kind, w=w, sg=sg, form=form: S(k, w, sg, form),
                                  defs=('%s=%s' % ('TYPE' if kind == 'atoi' else 'HTYPE', ct),), hfn='%s/%d/%d' % (kind, w, sg), weight=w))
    return out
