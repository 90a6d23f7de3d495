"""streams: exactly the bytes, in order, from any source that delivers them piecewise"""
from specs.streams import *
from vf import stdlib
TU = 'stream.cpp'
HARNESS = 'P09.cpp'
BUDGET = 200
SMALL = ('N', 'n', 'n1', 'n2', 'pre')
ASSUMPTIONS = ['a user-supplied input stream returns 0 from readSome only at its end (or for a zero request)', 'std::string obeys its contract (vf/stdlib.py)']


class Io(Streams):
    """free functions over abstract streams"""

    def __init__(s, fn):
        Streams.__init__(s)
        s.fn = fn

    def setup(s, eng, st):
        a, o = s.objs(eng, st)
        f = s.fn
        st.g['failed'] = z3.BoolVal(False)
        s.inputs = {'M': ('bytes', s.arrM, s.N)}
        s.n = z3.BitVec('n', 64)
        st.pc.add(z3.ULT(s.n, c64(1 << 48)))
        s.b = eng.new_region('b', 'obj', size=1)
        st.cells[s.b.rid] = {0: (1, BVV(7, 8))}
        B = Ptr(s.b.rid, Lin(0))
        s.i0 = z3.BitVec('pre', 64)
        st.pc.add(z3.ULE(s.i0, s.N))
        st.g['ip'] = s.i0
        s.inputs['pre'] = s.i0
        if 'Char' in f and 'read' in f:
            s.c = eng.array_region(st, 'c', 1, c64(1), ABase('c', 1))
            return [Ptr(s.c.rid, Lin(0)), a]
        if 'read' in f:
            s.inputs['n'] = s.n
            s.c = eng.array_region(st, 'buf', 1, s.n, ABase('buf', 1))
            s.c0 = st.arrs[(s.c.rid, 0)]
            C = Ptr(s.c.rid, Lin(0))
            return ([B] if f == 'read_b' else []) + [C, s.n, a]
        if 'Char' in f:
            s.ch = z3.BitVec('c', 8)
            s.inputs['c'] = s.ch
            st.pc.add(s.E(c64(0)) == s.ch)
            s.n = c64(1)
            return ([B] if f.endswith('_b') else []) + [o, s.ch]
        s.inputs = {'M': ('bytes', AFn(lambda j, sink: s.E(j), 1), s.n)}
        s.c = eng.array_region(st, 'src', 1, s.n, AFn(lambda j, sink: s.E(j), 1), ro=True)
        return ([B] if f.endswith('_b') else []) + [o, Ptr(s.c.rid, Lin(0)), s.n]

    def loop(s, ctx):
        g0 = ctx.st.g

        def ip(v):
            return v['g:ip'] if 'g:ip' in v.vals else g0['ip']
        out = [Cand('ip<=N', lambda v: z3.ULE(ip(v), s.N)), Cand('ip>=pre', lambda v: z3.UGE(ip(v), s.i0)), Cand('ip-pre<=n', lambda v: z3.ULE(ip(v) - s.i0, s.n))]
        for h in ctx.ptrs(s.c.rid):
            out.append(Cand('%s=ip-pre' % h, lambda v, h=h: v[h] == ip(v) - s.i0))
        for h in ctx.ints(64):
            out.append(Cand('%s=n-got' % h, lambda v, h=h: v[h] == s.n - (ip(v) - s.i0)))
            out.append(Cand('%s=got' % h, lambda v, h=h: v[h] == ip(v) - s.i0))
        for h in ctx.arrs(s.c.rid):
            out.append(QCand('bytes', h, lambda v, j, x: z3.Implies(z3.ULT(j, ip(v) - s.i0), x == s.M(simp(s.i0 + j)))))
        return out

    def post(s, eng, st, kind, ret):
        f = s.fn
        g = st.g
        if 'write' in f:
            if kind != 'ret':
                return [('no-exception', False)]
            out = []
            if f.endswith('_b'):
                b = eng.cell_load(st, s.b, 0, 1)
                out.append(('flag', z3.If(g['failed'], b == 0, b == 1)))
            out.append(('all-written', z3.Or(g['failed'], g['op'] == s.n)))
            return out
        left = s.N - s.i0
        j = z3.BitVec('j', 64)
        a = st.arrs[(s.c.rid, 0)]
        if 'Char' in f:
            if kind != 'ret':
                return [('no-exception', False)]
            ok = ret if z3.is_bool(ret) else ret != 0
            return [('true-unless-at-end', ok == (left != 0)), ('position', g['ip'] == z3.If(ok, s.i0 + 1, s.i0)), ('byte', z3.Implies(ok, a.rd(c64(0), st.pc) == s.M(s.i0)))]
        if 'Some' in f:
            if kind != 'ret':
                return [('no-exception', False)]
            return [('count', ret == g['ip'] - s.i0), ('bytes', z3.Implies(z3.ULT(j, ret), a.rd(j, st.pc) == s.M(simp(s.i0 + j)))), ('at-most-n', z3.ULE(ret, s.n)),
                    ('zero-only-at-end', (ret == 0) == z3.Or(s.n == 0, left == 0))]
        enough = z3.ULE(s.n, left)
        if kind != 'ret':
            return [('raises-only-when-too-short', z3.And(f == 'read', z3.Not(enough)))]
        ok = z3.BoolVal(True)
        out = []
        if f == 'read_b':
            b = eng.cell_load(st, s.b, 0, 1)
            ok = b == 1
            out.append(('flag', b == z3.If(enough, BVV(1, 8), BVV(0, 8))))
        out += [('whole-block', z3.Implies(ok, enough)), ('position', z3.Implies(ok, g['ip'] == s.i0 + s.n)), ('bytes', z3.Implies(z3.And(ok, z3.ULT(j, s.n)), a.rd(j, st.pc) == s.M(simp(s.i0 + j))))]
        return out


class Mem(Spec):
    """the concrete streams: two calls from construction (the first leads to every reachable position)"""

    def __init__(s, fn):
        s.fn = fn

    def setup(s, eng, st):
        f = s.fn
        s.N, s.n1, s.n2 = z3.BitVecs('N n1 n2', 64)
        for v in (s.N, s.n1, s.n2):
            st.pc.add(z3.ULT(v, c64(1 << 48)))
        s.a, s.d1, s.d2 = ABase('M', 1), ABase('b1', 1), ABase('b2', 1)
        inp = f in ('mis', 'sis')
        s.r1 = eng.array_region(st, 'b1', 1, s.n1, s.d1, ro=not inp)
        s.r2 = eng.array_region(st, 'b2', 1, s.n2, s.d2, ro=not inp)
        s.rr = eng.array_region(st, 'r', 8, c64(4), ABase('r', 8))
        s.inputs = {'M': ('bytes', s.a, s.N), 'n1': s.n1, 'n2': s.n2}
        if not inp:
            s.inputs = {'M': ('bytes', s.a, s.N), 'b1': ('bytes', s.d1, s.n1), 'b2': ('bytes', s.d2, s.n2)}
        if f.startswith('s'):
            p = stdlib.new_container(eng, st, 'str')
            c = stdlib.mk_string(eng, st, p)
            c.set(s.N, s.a)
            s.P = p
            head = [p]
        else:
            s.m = eng.array_region(st, 'mem', 1, s.N, s.a, ro=inp)
            head = [Ptr(s.m.rid, Lin(0)), s.N]
        return head + [Ptr(s.r1.rid, Lin(0)), s.n1, Ptr(s.r2.rid, Lin(0)), s.n2, Ptr(s.rr.rid, Lin(0))]

    def post(s, eng, st, kind, ret):
        f = s.fn
        j = z3.BitVec('j', 64)
        mn = lambda a, b: z3.If(z3.ULT(a, b), a, b)
        if f in ('mis', 'sis'):
            if kind != 'ret':
                return [('no-exception', False)]
            r = [st.arrs[(s.rr.rid, 0)].rd(c64(i), st.pc) for i in range(4)]
            k1 = mn(s.n1, s.N)
            k2 = mn(s.n2, s.N - k1)
            a1, a2 = st.arrs[(s.r1.rid, 0)], st.arrs[(s.r2.rid, 0)]
            return [('count1', r[0] == k1), ('pos1', r[1] == k1), ('count2', r[2] == k2), ('pos2', r[3] == k1 + k2),
                    ('bytes1', z3.Implies(z3.ULT(j, s.n1), a1.rd(j, st.pc) == z3.If(z3.ULT(j, k1), s.a.rd(j, st.pc), s.d1.rd(j, st.pc)))),
                    ('bytes2', z3.Implies(z3.ULT(j, s.n2), a2.rd(j, st.pc) == z3.If(z3.ULT(j, k2), s.a.rd(simp(k1 + j), st.pc), s.d2.rd(j, st.pc))))]
        if f.startswith('s'):
            k1, k2, base = s.n1, s.n2, s.N
            ok1 = ok2 = z3.BoolVal(True)
            c = stdlib.C(eng, st, s.P, 1, create=False).live()
            a, total = c.arr, c.n
        else:
            ok1 = z3.ULE(s.n1, s.N)
            k1 = z3.If(ok1, s.n1, c64(0))
            ok2 = z3.ULE(s.n2, s.N - k1)
            k2 = z3.If(ok2, s.n2, c64(0))
            base = c64(0)
            a, total = st.arrs[(s.m.rid, 0)], None
        if kind != 'ret':
            return [('raises-only-when-full', z3.And(f == 'mos', z3.Not(ok2)))]
        r = [st.arrs[(s.rr.rid, 0)].rd(c64(i), st.pc) for i in range(4)]
        b = lambda c: z3.If(c, c64(1), c64(0))
        rel = j - base
        want = z3.If(z3.ULT(rel, k1), s.d1.rd(rel, st.pc), z3.If(z3.ULT(rel - k1, k2), s.d2.rd(simp(rel - k1), st.pc), s.a.rd(j, st.pc)))
        out = [('flag1', r[0] == b(ok1)), ('pos1', r[1] == base + k1), ('flag2', r[2] == b(ok2)), ('pos2', r[3] == base + k1 + k2)]
        lim = s.N if total is None else base + k1 + k2
        out.append(('contents', z3.Implies(z3.ULT(j, lim), a.rd(j, st.pc) == want)))
        if total is not None:
            out.append(('length', total == base + k1 + k2))
        return out


def targets(tier):
    out = [Target('cybozu::' + l, 'w_' + f, lambda f=f: Io(f), hfn=f) for f, l in (
        ('read_b', 'read(bool*)'), ('read', 'read'), ('readSome', 'readSome'), ('readChar', 'readChar'), ('tag_readSome', 'InputStreamTag::readSome'), ('tag_readChar', 'InputStreamTag::readChar'),
        ('tag_write', 'OutputStreamTag::write'), ('write', 'write'), ('write_b', 'write(bool*)'), ('writeChar', 'writeChar'), ('writeChar_b', 'writeChar(bool*)'))]
    for f, l in (('mis', 'MemoryInputStream'), ('sis', 'StringInputStream'), ('mos_b', 'MemoryOutputStream::write(bool*)'), ('mos', 'MemoryOutputStream::write'), ('sos_b', 'StringOutputStream')):
        out.append(Target(l, 'w_' + f, lambda f=f: Mem(f), hfn=f))
    return out
