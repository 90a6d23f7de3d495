"""string operations: white space, case folding, case-insensitive comparison and search, splitting"""
import re
from specs.lib import *
from vf import stdlib
from vf.engine import bv64
TU = 'strop.cpp'
HARNESS = 'P12.cpp'
BUDGET = 200
SMALL = ('N', 'n', 'm')
ASSUMPTIONS = ['std::string obeys its contract (vf/stdlib.py)']
CAP = 1 << 40


def boolv(b):
    return b if z3.is_bool(b) else b != 0


def space(c):
    if c.size() == 8:
        return z3.Or(c == 0x20, c == 9)
    return z3.Or(rng(c, 9, 0xd), rng(c, 0x2000, 0x200a), *[c == x for x in (0x20, 0x85, 0xa0, 0x1680, 0x180e, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000, 0xfeff)])


def lower(c):
    return z3.If(rng(c, 0x41, 0x5a), c + 32, c)


def upper(c):
    return z3.If(rng(c, 0x61, 0x7a), c - 32, c)


def nl(c):
    return z3.Or(c == 10, c == 13)


class One(Spec):
    def __init__(s, w, f):
        s.w, s.f = w, f

    def setup(s, eng, st):
        s.c = z3.BitVec('c', s.w)
        s.inputs = {'c': s.c}
        return [s.c]

    def post(s, eng, st, kind, ret):
        if kind != 'ret':
            return [('no-exception', False)]
        if s.f == 'isspace':
            return [('white-space', boolv(ret) == space(s.c))]
        return [('folded', ret == (lower if s.f == 'lower' else upper)(s.c))]


class Trim(Spec):
    """B first non-space, E behind the last non-space"""

    def __init__(s, w, f):
        s.w, s.f = w, f

    def setup(s, eng, st):
        e = s.w // 8
        N, B, E = s.N, s.B, s.E = z3.BitVecs('N B E', 64)
        strip = s.f == 'strip'
        st.pc.add(z3.And(z3.ULT(N, c64(CAP)), z3.ULE(B, N), z3.ULE(E, N), z3.ULE(B, E), B == 0 if strip else (B == N) == (B == E)))

        def facts(i, v, sink):
            if strip:
                return z3.And(z3.Implies(z3.And(z3.UGE(i, E), z3.ULT(i, N)), nl(v)), z3.Implies(i + 1 == E, z3.Not(nl(v))))
            return z3.And(z3.Implies(z3.ULT(i, B), space(v)), z3.Implies(z3.And(i == B, z3.ULT(B, N)), z3.Not(space(v))),
                          z3.Implies(z3.And(z3.UGE(i, E), z3.ULT(i, N)), space(v)), z3.Implies(z3.And(i + 1 == E, z3.ULT(B, N)), z3.Not(space(v))))
        s.a = ABase('M', e)
        s.a.facts.append(facts)
        s.inputs = {'M': ('bytes', s.a, N)}
        if s.f in ('skip', 'pos'):
            r = eng.array_region(st, 'p', e, N, s.a, ro=True)
            s.rid = r.rid
            if s.f == 'skip':
                return [Ptr(r.rid, Lin(0)), Ptr(r.rid, lin_of(N, e))]
            s.pe = eng.new_region('end', 'obj', size=8)
            st.cells[s.pe.rid] = {0: (8, Ptr(r.rid, lin_of(N, e)))}
            return [Ptr(r.rid, Lin(0)), Ptr(s.pe.rid, Lin(0))]
        p = stdlib.new_container(eng, st, 'str')
        c = stdlib.mk_string(eng, st, p)
        c.set(N, s.a)
        s.rid, s.P = c.rid, p
        if s.f == 'trimcopy':
            s.P = stdlib.new_container(eng, st, 'out')
            return [s.P, p]
        return [p]

    def loop(s, ctx):
        out = linear_cands(ctx)
        e = s.w // 8
        bounds = [('B', s.B), ('E', s.E), ('N', s.N), ('E-B', s.E - s.B)]
        for h in ctx.ptrs(s.rid) + ctx.ints(64):
            for nm, b in bounds:
                out.append(Cand('%s<=%s' % (h, nm), lambda v, h=h, b=b: z3.ULE(v[h], b)))
                out.append(Cand('%s>=%s' % (h, nm), lambda v, h=h, b=b: z3.UGE(v[h], b)))
        for nm, b in bounds:
            out.append(Cand('k<=%s' % nm, lambda v, b=b: z3.ULE(v['k'], b)))
        for h in ctx.arrs():
            if ctx.info[h]['kind'] == 'arr' and ctx.info[h]['esz'] == e:
                out.append(QCand('moved(%s)' % h, h, lambda v, j, x: z3.If(z3.ULT(j, v['k']), x == s.a.rd(simp(s.B + j), v.st.pc), z3.Implies(z3.ULT(j, s.N), x == s.a.rd(j, v.st.pc)))))
        return out

    def post(s, eng, st, kind, ret):
        if kind != 'ret':
            return [('no-exception', False)]
        sink = st.pc
        if s.f == 'skip':
            return [('first-other-character', z3.And(ret.r == s.rid, ret.o.bv() == s.B * (s.w // 8)) if isinstance(ret, Ptr) else False)]
        if s.f == 'pos':
            q = eng.cell_load(st, s.pe, 0, 8, True)
            return [('begin', ret.o.bv() == s.B * (s.w // 8)), ('end', q.o.bv() == s.E * (s.w // 8))]
        c = stdlib.C(eng, st, s.P, s.w // 8, create=False).live()
        j = z3.BitVec('j', 64)
        return [('length', c.n == s.E - s.B), ('text', z3.Implies(z3.ULT(j, s.E - s.B), c.arr.rd(j, sink) == s.a.rd(simp(s.B + j), sink)))]


class Case(Spec):
    """ToLower / ToUpper"""

    def __init__(s, f):
        s.f = f
        s.fold = lower if 'lower' in f else upper

    def setup(s, eng, st):
        N = s.N = z3.BitVec('N', 64)
        st.pc.add(z3.ULT(N, c64(CAP)))
        s.a = ABase('M', 1)
        s.inputs = {'M': ('bytes', s.a, N)}
        p = stdlib.new_container(eng, st, 'str')
        c = stdlib.mk_string(eng, st, p)
        c.set(N, s.a)
        s.n0 = c64(0)
        s.a0 = None
        if s.f.endswith('1'):
            s.P = p
            return [p]
        s.P = stdlib.new_container(eng, st, 'out')
        old = z3.BitVec('m', 64)
        st.pc.add(z3.ULT(old, c64(CAP)))
        s.a0 = ABase('old', 1)
        stdlib.mk_string(eng, st, s.P, old, s.a0)
        s.app = z3.BitVec('app', 1) if False else z3.Bool('app')
        s.n0 = z3.If(s.app, old, c64(0))
        s.inputs['old'] = ('bytes', s.a0, old)
        s.inputs['app'] = z3.If(s.app, BVV(1, 8), BVV(0, 8))
        return [s.P, p, s.app]

    def loop(s, ctx):
        out = linear_cands(ctx)
        out.append(Cand('k<=N', lambda v: z3.ULE(v['k'], s.N)))
        for h in ctx.ptrs():
            out.append(Cand('%s=n0+k' % h, lambda v, h=h: v[h] == s.n0 + v['k']))
            out.append(Cand('%s=k' % h, lambda v, h=h: v[h] == v['k']))
        for h in ctx.arrs():
            if ctx.info[h]['kind'] == 'arr' and ctx.info[h]['esz'] == 1:
                def q(v, j, x):
                    f = z3.Implies(z3.ULT(j - s.n0, v['k']), x == s.fold(s.a.rd(simp(j - s.n0), v.st.pc)))
                    if s.a0 is None:
                        return z3.And(f, z3.Implies(z3.And(z3.UGE(j, v['k']), z3.ULT(j, s.N)), x == s.a.rd(j, v.st.pc)))
                    return z3.And(f, z3.Implies(z3.ULT(j, s.n0), x == s.a0.rd(j, v.st.pc)))
                out.append(QCand('folded(%s)' % h, h, q))
        return out

    def post(s, eng, st, kind, ret):
        if kind != 'ret':
            return [('no-exception', False)]
        c = stdlib.C(eng, st, s.P, 1, create=False).live()
        j = z3.BitVec('j', 64)
        out = [('length', c.n == s.n0 + s.N), ('text', z3.Implies(z3.ULT(j, s.N), c.arr.rd(simp(s.n0 + j), st.pc) == s.fold(s.a.rd(j, st.pc))))]
        if s.a0 is not None:
            out.append(('kept', z3.Implies(z3.ULT(j, s.n0), c.arr.rd(j, st.pc) == s.a0.rd(j, st.pc))))
        return out


class Cmp(Spec):
    """D: first place where the folded texts differ"""

    def __init__(s, w, f, w2=None):
        s.w, s.f, s.w2 = w, f, w2 or w

    def setup(s, eng, st):
        s.n, s.m, s.D = z3.BitVecs('n m D', 64)
        s.FA, s.FB = UF('fa', 64, s.w), UF('fb', 64, s.w)
        if s.f == 'start':
            s.m = c64(3)
        s.min = z3.If(z3.ULE(s.n, s.m), s.n, s.m)
        if s.f != 'cmp' and s.f != 'cmps' and s.f != 'start':
            s.min = s.n
        st.pc.add(z3.And(z3.ULT(s.n, c64(CAP)), z3.ULT(s.m, c64(CAP)), z3.ULE(s.D, s.min), z3.Implies(z3.ULT(s.D, s.min), s.FA(s.D) != s.FB(s.D))))
        s.a, s.b = ABase('A', s.w // 8), ABase('B', s.w2 // 8)
        s.a.facts.append(lambda i, v, sink: s.FA(i) == lower(v))
        s.b.facts.append(lambda i, v, sink: s.FB(i) == sx(lower(v), s.w))
        s.inputs = {'A': ('bytes', s.a, s.n), 'B': ('bytes', s.b, s.m)}
        if s.f in ('cmp', 'eq'):
            x = eng.array_region(st, 'a', s.w // 8, s.n, s.a, ro=True)
            y = eng.array_region(st, 'b', s.w2 // 8, s.m, s.b, ro=True)
            return [Ptr(x.rid, Lin(0)), s.n, Ptr(y.rid, Lin(0)), s.m]

        def mk(nm, n, a):
            p = stdlib.new_container(eng, st, nm)
            stdlib.mk_string(eng, st, p).set(n, a)
            return p
        if s.f == 'start':
            lit = lambda i: z3.If(i == 0, BVV(0x61, 8), z3.If(i == 1, BVV(0x62, 8), BVV(0x40, 8)))
            s.inputs = {'A': ('bytes', s.a, s.n)}
            s.FB = lit
            st.pc.add(z3.Implies(z3.ULT(s.D, s.min), s.FA(s.D) != lit(s.D)))
            for i in range(3):
                st.pc.add(z3.Implies(z3.ULT(c64(i), s.D), s.FA(c64(i)) == lit(c64(i))))
            return [mk('a', s.n, s.a)]
        if s.f == 'eqp':
            y = eng.array_region(st, 'b', 1, simp(s.m + 1), s.b, ro=True)
            s.b.facts.append(lambda i, v, sink: z3.And(z3.Implies(z3.ULT(i, s.m), v != 0), z3.Implies(i == s.m, v == 0)))
            return [mk('a', s.n, s.a), Ptr(y.rid, Lin(0))]
        return [mk('a', s.n, s.a), mk('b', s.m, s.b)]

    def loop(s, ctx):
        out = linear_cands(ctx)

        def hdr(v, st):
            st.pc.add(z3.Implies(z3.ULT(v['k'], s.D), s.FA(v['k']) == s.FB(v['k'])))
            st.g['it'] = v['k']
        ctx.on_header = hdr
        out.append(Cand('k<=D', lambda v: z3.ULE(v['k'], s.D)))
        out.append(Cand('k<=min', lambda v: z3.ULE(v['k'], s.min)))
        if s.f == 'eqp':
            out.append(Cand('k<=m', lambda v: z3.ULE(v['k'], s.m)))
            for h in ctx.ints(64) + ctx.ptrs():
                out.append(Cand('%s<=m' % h, lambda v, h=h: z3.ULE(v[h], s.m)))
        return out

    def post(s, eng, st, kind, ret):
        if kind != 'ret':
            return [('no-exception', False)]
        if s.f.startswith('cmp'):
            one, mone, zero = BVV(1, 32), BVV(-1, 32), BVV(0, 32)
            want = z3.If(z3.ULT(s.D, s.min), z3.If(s.FA(s.D) < s.FB(s.D), mone, one), z3.If(z3.ULT(s.n, s.m), mone, z3.If(z3.UGT(s.n, s.m), one, zero)))
            return [('order', ret == want)]
        want = z3.And(z3.UGE(s.n, 3), s.D == 3) if s.f == 'start' else z3.And(s.n == s.m, s.D == s.n)
        return [('equal', boolv(ret) == want)]


class Split(Spec):
    """F(i): next separator at or behind i (all ones: none); C(k): where piece k starts"""

    def __init__(s, keep):
        s.keep = keep
        S = stdlib.STR
        s.contracts = {re.compile(r'^Out::push_back\('): s.c_push, re.compile(r'^Out::clear\('): s.c_clear,
                       re.compile(S + r'find(?:_first_of)?\(char, unsigned long\) const$'): s.c_find}

    def setup(s, eng, st):
        N = s.N = z3.BitVec('N', 64)
        s.c, s.max = z3.BitVec('c', 8), z3.BitVec('max', 64)
        st.pc.add(z3.ULT(N, c64(CAP)))
        s.F, s.C = UF('F', 64, 64), UF('C', 64, 64)
        st.pc.add(z3.And(s.C(c64(0)) == 0, s.F(N) == c64(-1)))
        s.a = ABase('M', 1)
        s.a.facts.append(lambda i, v, sink: z3.Implies(z3.ULT(i, N), s.F(i) == z3.If(v == s.c, i, s.F(simp(i + 1)))))
        s.a.facts.append(lambda i, v, sink: s.fact(i))
        s.inputs = {'M': ('bytes', s.a, N), 'c': s.c, 'max': s.max}
        p = stdlib.new_container(eng, st, 'str')
        stdlib.mk_string(eng, st, p).set(N, s.a)
        o = eng.new_region('out', 'obj', size=8)
        st.g['np'] = c64(0)
        st.g['done'] = BVV(0, 8)
        st.g['clr'] = BVV(0, 8)
        s.unfold(st.pc, c64(0))
        return [Ptr(o.rid, Lin(0)), p, s.c, s.max]

    def fact(s, i):
        f = s.F(i)
        return z3.Implies(z3.ULE(i, s.N), z3.Or(f == c64(-1), z3.And(z3.UGE(f, i), z3.ULT(f, s.N))))

    def lemmas(s, eng):
        # the bound of F follows from its definition by induction from the end of the text
        i, f1, v = z3.BitVecs('i f1 v', 64)
        f = z3.If(v == 0, i, f1)
        yield 'next-separator-bound', [z3.ULT(i, s.N), z3.ULT(s.N, c64(CAP)), z3.Or(f1 == c64(-1), z3.And(z3.UGE(f1, i + 1), z3.ULT(f1, s.N)))], z3.Or(f == c64(-1), z3.And(z3.UGE(f, i), z3.ULT(f, s.N)))

    def unfold(s, sink, k):
        k = simp(k)
        c = s.C(k)
        sink.add(z3.Implies(z3.ULE(c, s.N), s.fact(c)))
        sink.add(z3.Implies(s.F(c) != c64(-1), s.C(simp(k + 1)) == s.F(c) + 1))

    def last(s, k):
        return z3.Or(s.F(s.C(k)) == c64(-1), k == s.max - 1)

    def c_find(s, eng, st, a, x):
        o = stdlib.S(eng, st, a[0])
        eng.oblige(st, 'find-in-the-text', z3.And(o.n == s.N, a[1] == s.c))
        st.pc.add(z3.Implies(z3.ULE(a[2], s.N), s.fact(a[2])))
        return [(st, 'ret', z3.If(z3.ULE(a[2], s.N), s.F(a[2]), c64(-1)))]

    def c_push(s, eng, st, a, x):
        o = stdlib.S(eng, st, a[1])
        k = st.g['np']
        s.unfold(st.pc, k)
        end = z3.If(s.last(k), s.N, s.F(s.C(k)))
        j = eng.fresh('j', 64)
        eng.oblige(st, 'no-piece-after-the-last', st.g['done'] == 0)
        eng.oblige(st, 'piece-length', o.n == end - s.C(k))
        got = o.arr.rd(j, st.pc)
        eng.oblige(st, 'piece-text', z3.Implies(z3.ULT(j, o.n), got == s.a.rd(simp(s.C(k) + j), st.pc)))
        st.g['done'] = z3.If(s.last(k), BVV(1, 8), BVV(0, 8))
        st.g['np'] = simp(k + 1)
        for kk in ('np', 'done'):
            eng.wlog.append(('g', kk))
        return [(st, 'ret', None)]

    def c_clear(s, eng, st, a, x):
        eng.oblige(st, 'cleared-first', z3.And(st.g['np'] == 0, z3.BoolVal(not s.keep)))
        st.g['clr'] = BVV(1, 8)
        eng.wlog.append(('g', 'clr'))
        return [(st, 'ret', None)]

    def loop(s, ctx):
        out = linear_cands(ctx)

        def hdr(v, st):
            s.unfold(st.pc, v['k'])
        ctx.on_header = hdr
        for h in ctx.ints(64) + ctx.ptrs():
            out.append(Cand('%s=C' % h, lambda v, h=h: v[h] == s.C(v['k'])))
        out.append(Cand('C<=N', lambda v: z3.ULE(s.C(v['k']), s.N)))
        out.append(Cand('k<=C', lambda v: z3.ULE(v['k'], s.C(v['k']))))
        for h in ctx.ints(8):
            if h.startswith('g:'):
                out.append(Cand('%s=0' % h, lambda v, h=h: v[h] == 0))
                out.append(Cand('%s=1' % h, lambda v, h=h: v[h] == 1))
        return out

    def post(s, eng, st, kind, ret):
        if kind != 'ret':
            return [('no-exception', False)]
        return [('count', ret == st.g['np']), ('all-pieces', st.g['done'] == 1), ('cleared', st.g['clr'] == (0 if s.keep else 1))]


class Find(Spec):
    """P: first place of the target or the first place where it does not fit any more; W(p): a place where the text from p < P differs from the target"""

    def __init__(s, nul, string):
        s.nul, s.string = nul, string

    def setup(s, eng, st):
        N, n, P = s.N, s.n, s.P = z3.BitVecs('N n P', 64)
        s.W, s.LM, s.LT = UF('W', 64, 64), UF('LM', 64, 8), UF('LT', 64, 8)
        st.pc.add(z3.And(z3.ULT(N, c64(CAP)), z3.ULT(n, c64(CAP)), z3.ULE(P, N + 1)))
        s.found = z3.ULE(P + n, N)
        st.pc.add(z3.Implies(z3.Not(s.found), P == z3.If(z3.UGT(n, N), c64(0), N - n + 1)))
        s.a, s.t = ABase('M', 1), ABase('T', 1)
        s.a.facts.append(lambda i, v, sink: z3.And(s.LM(i) == lower(v), z3.Implies(z3.And(s.found, z3.UGE(i, P), z3.ULT(i - P, n)), lower(v) == s.LT(simp(i - P)))))
        s.t.facts.append(lambda i, v, sink: s.LT(i) == lower(v))
        s.inputs = {'M': ('bytes', s.a, N), 'T': ('bytes', s.t, n)}
        st.g['p'] = c64(0)
        y = eng.array_region(st, 't', 1, simp(n + 1) if s.nul else n, s.t, ro=True)
        if s.nul:
            s.t.facts.append(lambda i, v, sink: z3.And(z3.Implies(z3.ULT(i, n), v != 0), z3.Implies(i == n, v == 0)))
        s.strlen = (lambda eng, st, p: n if p.r == y.rid and p.o.const() == 0 else None) if s.nul else None
        if s.nul:
            s.contracts = {'strlen': lambda eng, st, a, x: [(st, 'ret', s.strlen(eng, st, a[0]))]}
        te = NULL if s.nul else Ptr(y.rid, lin_of(n, 1))
        T = [Ptr(y.rid, Lin(0)), te]
        if s.string:
            p = stdlib.new_container(eng, st, 'str')
            c = stdlib.mk_string(eng, st, p)
            c.set(N, s.a)
            s.rid = c.rid
            return [p] + T
        r = eng.array_region(st, 'p', 1, N, s.a, ro=True)
        s.rid = r.rid
        return [Ptr(r.rid, Lin(0)), Ptr(r.rid, lin_of(N, 1))] + T

    def unfold(s, sink, p):
        w = s.W(p)
        sink.add(z3.Implies(z3.ULT(p, s.P), z3.And(z3.ULT(w, s.n), z3.ULE(p + s.n, s.N), s.LM(simp(p + w)) != s.LT(w))))

    def loop(s, ctx):
        out = linear_cands(ctx)

        def hdr(v, st):
            for h in ctx.ptrs(s.rid):
                st.g['p'] = v[h]
            s.unfold(st.pc, st.g['p'])
        ctx.on_header = hdr
        for h in ctx.ptrs(s.rid) + ctx.ints(64):
            for nm, b in (('P', s.P), ('n', s.n), ('N', s.N)):
                out.append(Cand('%s<=%s' % (h, nm), lambda v, h=h, b=b: z3.ULE(v[h], b)))
        for nm, b in (('P', s.P), ('n', s.n)):
            out.append(Cand('k<=%s' % nm, lambda v, b=b: z3.ULE(v['k'], b)))
        out.append(Cand('k<=W', lambda v: z3.Implies(z3.ULT(v.st.g['p'], s.P), z3.ULE(v['k'], s.W(v.st.g['p'])))))
        for h in ctx.arrs():
            if ctx.info[h]['kind'] == 'arr' and ctx.info[h]['esz'] == 1:
                out.append(QCand('folded(%s)' % h, h, lambda v, j, x: z3.And(z3.Implies(z3.ULT(j, v['k']), x == lower(s.t.rd(j, v.st.pc))), z3.Implies(z3.And(z3.UGE(j, v['k']), z3.ULT(j, s.n)), x == s.t.rd(j, v.st.pc)))))
        return out

    def post(s, eng, st, kind, ret):
        if kind != 'ret':
            return [('no-exception', False)]
        if s.string:
            return [('first-occurrence', ret == z3.If(z3.And(s.found, s.N != 0), s.P, c64(-1)))]
        if ret.r is None:
            return [('not-found', z3.Not(s.found))]
        return [('first-occurrence', z3.And(s.found, ret.o.bv() == s.P) if ret.r == s.rid else False)]


def targets(tier):
    out = []
    for w in (8, 32):
        T = 'char' if w == 8 else 'Char'
        for f, n in (('isspace', 'IsSpace'), ('lower', 'tolower'), ('upper', 'toupper')):
            out.append(Target('%s<%s>' % (n, T), 'so%d_%s' % (w, f), lambda w=w, f=f: One(w, f), hfn='%s%d' % (f, w)))
        out.append(Target('SkipSpace<%s>' % T, 'so%d_skip' % w, lambda w=w: Trim(w, 'skip'), hfn='skip%d' % w))
        out.append(Target('GetTrimPosition<%s>' % T, 'so%d_pos' % w, lambda w=w: Trim(w, 'pos'), hfn='pos%d' % w))
        out.append(Target('CaseCompare<%s>' % T, 'so%d_cmp' % w, lambda w=w: Cmp(w, 'cmp'), hfn='cmp%d' % w))
        out.append(Target('CaseEqual<%s>' % T, 'so%d_eq' % w, lambda w=w: Cmp(w, 'eq'), hfn='eq%d' % w))
    out.append(Target('CaseEqual<Char,char>', 'so328_eq', lambda: Cmp(32, 'eq', 8), hfn='eq328'))
    for f, n in (('trim', 'Trim'), ('trimcopy', 'TrimCopy'), ('strip', 'Strip')):
        out.append(Target('%s(std::string)' % n, 'so8_' + f, lambda f=f: Trim(8, f), hfn=f))
    for f, n in (('tolower', 'ToLower'), ('toupper', 'ToUpper')):
        out.append(Target('%s(out, in)' % n, 'so8_' + f, lambda f=f: Case(f), hfn=f))
        out.append(Target('%s(in place)' % n, 'so8_' + f + '1', lambda f=f: Case(f + '1'), hfn=f + '1'))
    for f, n in (('cmps', 'CaseCompare(std::string)'), ('eqs', 'CaseEqual(std::string)'), ('eqp', 'CaseEqual(std::string, char*)'), ('start', 'CaseEqualStartWith')):
        out.append(Target(n, 'so8_' + f, lambda f=f: Cmp(8, f), hfn=f))
    for nul in (0, 1):
        for q in (0, 1):
            out.append(Target('CaseFind' + ('(std::string)' if q else '') + (' NUL' if nul else ''), 'so8_find' + 's' * q, lambda nul=nul, q=q: Find(nul, q), hfn='find' + 's' * q + 'z' * nul))
    out.append(Target('Split', 'so8_split', lambda: Split(False), hfn='split'))
    out.append(Target('Split(keep)', 'so8_splitk', lambda: Split(True), hfn='splitk'))
    return out
