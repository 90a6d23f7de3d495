"""bit scan, population count, masks, byte order"""
from specs.lib import *
TU = 'bits.cpp'
HARNESS = 'P03.cpp'
BUDGET = 100
T8 = {'unsigned char': 8, 'unsigned short': 16, 'unsigned int': 32, 'unsigned long': 64, 'unsigned long long': 64, 'int': 32, 'long long': 64}
ASSUMPTIONS = ['bsf and bsr are only asked about non-zero values, makeBitMask64 about widths below 64 (their documented domain)']


class Base(Spec):
    unroll_max = 80

    def loop_mode(s, eng, st, f, h):
        return 'unroll'

    def bitat(s, x, i):
        return z3.Extract(0, 0, z3.LShR(x, i)) == 1


class Scan(Base):
    def __init__(s, w, rev):
        s.w, s.rev = w, rev

    def setup(s, eng, st):
        s.x = z3.BitVec('x', s.w)
        st.pc.add(s.x != 0)
        s.inputs = {'x': s.x}
        return [s.x]

    def post(s, eng, st, kind, ret):
        if kind != 'ret':
            return [('no-exception', False)]
        want = BVV(0, 32)
        for i in (range(s.w) if s.rev else reversed(range(s.w))):
            want = z3.If(z3.Extract(i, i, s.x) == 1, BVV(i, 32), want)
        return [('index-of-%s-set-bit' % ('highest' if s.rev else 'lowest'), ret == want)]


class Pop(Base):
    def __init__(s, w):
        s.w = w

    def setup(s, eng, st):
        s.x = z3.BitVec('x', s.w)
        s.inputs = {'x': s.x}
        return [s.x]

    def post(s, eng, st, kind, ret):
        return [('number-of-set-bits', ret == sum([z3.ZeroExt(31, z3.Extract(i, i, s.x)) for i in range(s.w)][1:], z3.ZeroExt(31, z3.Extract(0, 0, s.x))))]


class Mask(Base):
    def __init__(s, w):
        s.w = w

    def setup(s, eng, st):
        s.x = z3.BitVec('x', s.w)
        st.pc.add(z3.ULT(s.x, BVV(64, s.w)))
        s.inputs = {'x': s.x}
        return [s.x]

    def post(s, eng, st, kind, ret):
        return [('bit-%d' % i, (z3.Extract(i, i, ret) == 1) == z3.UGT(s.x, BVV(i, s.w))) for i in range(64)]


class Get(Base):
    def __init__(s, n, be):
        s.n, s.be = n, be

    def setup(s, eng, st):
        r = eng.array_region(st, 'p', 1, s.n)
        s.a = st.arrs[(r.rid, 0)]
        s.inputs = {'p': ('bytes', s.a, s.n)}
        return [Ptr(r.rid, Lin(0))]

    def post(s, eng, st, kind, ret):
        if kind != 'ret':
            return [('no-exception', False)]
        b = [s.a.rd(c64(i), st.pc) for i in range(s.n)]
        return [('value', ret == z3.Concat(*(b if s.be else b[::-1])))]


class Set(Base):
    def __init__(s, n, be):
        s.n, s.be = n, be

    def setup(s, eng, st):
        s.r = eng.array_region(st, 'p', 1, s.n)
        s.x = z3.BitVec('x', s.n * 8)
        s.inputs = {'x': s.x}
        return [Ptr(s.r.rid, Lin(0)), s.x]

    def post(s, eng, st, kind, ret):
        if kind != 'ret':
            return [('no-exception', False)]
        a = st.arrs[(s.r.rid, 0)]
        b = [a.rd(c64(i), st.pc) for i in range(s.n)]
        return [('bytes', s.x == z3.Concat(*(b if s.be else b[::-1])))]


class Swap(Base):
    def __init__(s, n):
        s.n = n

    def setup(s, eng, st):
        s.x = z3.BitVec('x', s.n * 8)
        s.inputs = {'x': s.x}
        return [s.x]

    def post(s, eng, st, kind, ret):
        return [('reversed', ret == z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, s.x) for i in range(s.n)]))]


def targets(tier):
    out = []
    for ct, w in T8.items():
        for rev, nm in ((False, 'bsf'), (True, 'bsr')):
            out.append(Target('%s<%s>' % (nm, ct), 'w_' + nm, lambda w=w, rev=rev: Scan(w, rev), defs=('T_=' + ct,), hfn='%s/%d' % (nm, w)))
    for ct, w in (('uint32_t', 32), ('uint64_t', 64)):
        out.append(Target('popcnt<%s>' % ct, 'w_popcnt', lambda w=w: Pop(w), defs=('P_=' + ct,), hfn='popcnt/%d' % w))
    for ct, w in (('int', 32), ('uint32_t', 32), ('size_t', 64)):
        out.append(Target('makeBitMask64<%s>' % ct, 'w_mask', lambda w=w: Mask(w), defs=('M_=' + ct,), hfn='mask/%d' % w))
    for var, defs in (('little endian host', ('E_',)), ('portable', ('E_', 'CYBOZU_ENDIAN_UNKNOWN=0', 'CYBOZU_ENDIAN_LITTLE=1', 'CYBOZU_ENDIAN_BIG=2', 'CYBOZU_ENDIAN=0'))):
        for n in (2, 4, 8):
            for be in (False, True):
                e = 'be' if be else 'le'
                v = '' if len(defs) == 1 else '/p'
                out.append(Target('Get%dbitAs%s (%s)' % (n * 8, e.upper(), var), 'w_get%d%s' % (n * 8, e), lambda n=n, be=be: Get(n, be), defs=defs, hfn='get%d%s' % (n * 8, e)))
                out.append(Target('Set%dbitAs%s (%s)' % (n * 8, e.upper(), var), 'w_set%d%s' % (n * 8, e), lambda n=n, be=be: Set(n, be), defs=defs, hfn='set%d%s' % (n * 8, e)))
    for n in (2, 4, 8):
        out.append(Target('byteSwap%d' % (n * 8), 'w_swap%d' % (n * 8), lambda n=n: Swap(n), defs=('E_',), hfn='swap%d' % (n * 8)))
    return out
