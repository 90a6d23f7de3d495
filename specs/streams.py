"""contracts of abstract streams: an input delivers its bytes M(0..N) in pieces of any size, an output checks every byte against E"""
import re
from specs.lib import *
from vf.engine import AFn, bv64, Dead


class Streams(Spec):
    def __init__(s):
        s.contracts = {re.compile(r'^In::readSome\('): s.c_read, re.compile(r'^Out::write\(void const\*'): s.c_write, re.compile(r'^Out::write\(bool\*'): s.c_writeb}

    def objs(s, eng, st):
        s.N = z3.BitVec('N', 64)
        st.pc.add(z3.ULT(s.N, c64(1 << 56)))
        s.M, s.E = UF('M', 64, 8), UF('E', 64, 8)
        s.arrM = AFn(lambda j, sink: s.M(j), 1)
        s.ri = eng.new_region('is', 'obj', size=1)
        s.ro_ = eng.new_region('os', 'obj', size=1)
        for r in (s.ri, s.ro_):
            st.cells[r.rid] = {}
        st.g['ip'] = c64(0)      # bytes delivered so far
        st.g['base'] = c64(0)    # bytes delivered before the last piece
        st.g['op'] = c64(0)      # bytes written so far
        return Ptr(s.ri.rid, Lin(0)), Ptr(s.ro_.rid, Lin(0))

    def c_read(s, eng, st, args, x):
        this, buf, n = args
        n = bv64(n)
        if this.r != s.ri.rid:
            raise Undecided('other input stream')
        r = eng.fresh('got', 64)
        ip = st.g['ip']
        st.pc.add(z3.And(z3.ULE(r, n), z3.ULE(r, s.N - ip), (r == 0) == z3.Or(n == 0, ip == s.N)))
        if getattr(s, 'bounded', False):
            st.pc.add(z3.ULE(r, c64(4)))
        if num(simp(n)) != 0:
            if buf.r is None:
                eng.oblige(st, 'no-null-deref:readSome', n == 0)
            else:
                loc = eng.locate(st, buf, None, 'readSome')
                if loc[0] == 'cell' and num(simp(n)) == 1:
                    old = eng.cell_load(st, loc[1], loc[2], 1)
                    eng.cell_store(st, loc[1], loc[2], simp(z3.If(r == 1, s.M(ip), old)), 1)
                elif loc[0] != 'arr':
                    raise Undecided('buffer outside an array')
                else:
                    _, rg, seg, rel = loc
                    cap, e = eng.seg_n(st, rg, seg)
                    if e != 1:
                        raise Undecided('wide buffer')
                    b = simp(rel.bv())
                    if cap is not None:
                        eng.oblige(st, 'buffer-in-bounds', z3.And(z3.ULE(b, cap), z3.ULE(n, cap - b)))
                    old = st.arrs[(rg.rid, seg)]
                    eng.set_arr(st, rg.rid, seg, AFn(lambda j, sink: z3.If(z3.ULT(j - b, r), s.M(simp(ip + (j - b))), old.rd(j, sink)), 1))
        eng.set_g(st, 'base', ip)
        eng.set_g(st, 'ip', simp(ip + r))
        s.on_read(eng, st, ip, r)
        return [(st, 'ret', r)]

    def c_xread(s, eng, st, args, x):
        """contract of cybozu::read (proved in P09): exactly n bytes or an exception"""
        buf, n, this = args
        n = simp(bv64(n))
        if this.r != s.ri.rid:
            raise Undecided('other input stream')
        ip = st.g['ip']
        enough = z3.ULE(n, s.N - ip)
        outs = []
        if eng.check(st.pc, [z3.Not(enough)]) != 'unsat':
            st2 = st.clone()
            st2.pc.add(z3.Not(enough))
            eng.set_g(st2, 'ip', eng.fresh('ip', 64))
            outs.append((st2, 'throw', None))
        if eng.check(st.pc, [enough]) == 'unsat':
            return outs
        st.pc.add(enough)
        loc = eng.locate(st, buf, None, 'read')
        c = num(n)
        if loc[0] == 'cell':
            if c is None or c > 8:
                raise Undecided('read into scalars')
            v = [s.M(simp(ip + i)) for i in range(c)]
            eng.cell_store(st, loc[1], loc[2], simp(z3.Concat(*v[::-1])) if c > 1 else v[0], c)
        else:
            _, rg, seg, rel = loc
            cap, e = eng.seg_n(st, rg, seg)
            q = rel.div(e)
            if q is None:
                raise Undecided('unaligned buffer')
            q = simp(q.bv())
            m = simp(z3.LShR(n, e.bit_length() - 1))
            if e > 1:
                eng.oblige(st, 'whole-elements', n & (e - 1) == 0)
            if cap is not None:
                eng.oblige(st, 'buffer-in-bounds', z3.And(z3.ULE(q, cap), z3.ULE(m, cap - q)))
            old = st.arrs[(rg.rid, seg)]
            el = lambda j: z3.Concat(*[s.M(simp(ip + (j - q) * e + i)) for i in range(e)][::-1]) if e > 1 else s.M(simp(ip + (j - q)))
            eng.set_arr(st, rg.rid, seg, AFn(lambda j, sink: z3.If(z3.ULT(j - q, m), el(j), old.rd(j, sink)), e))
        eng.set_g(st, 'base', ip)
        eng.set_g(st, 'ip', simp(ip + n))
        s.on_read(eng, st, ip, n)
        return outs + [(st, 'ret', None)]

    def on_read(s, eng, st, ip, r):
        pass

    def on_write(s, eng, st, op, n):
        pass

    def put(s, eng, st, buf, n):
        n = simp(bv64(n))
        op = st.g['op']
        if num(n) == 0:
            return
        s.on_write(eng, st, op, n)
        if buf.r is None:
            eng.oblige(st, 'no-null-deref:write', n == 0)
            return
        j = eng.fresh('j', 64)
        loc = eng.locate(st, buf, None, 'write')
        if loc[0] == 'cell':
            c = num(n)
            if c is None or c > 16:
                raise Undecided('write of scalars')
            for i in range(c):
                eng.oblige(st, 'output-byte', eng.load_n(st, Ptr(buf.r, buf.o.add(Lin(i))), 1) == s.E(simp(op + i)))
        else:
            _, rg, seg, rel = loc
            cap, e = eng.seg_n(st, rg, seg)
            a = st.arrs[(rg.rid, seg)]
            if e != 1:
                q = rel.div(e)
                if q is None:
                    raise Undecided('unaligned wide buffer')
                q = simp(q.bv())
                sh = e.bit_length() - 1
                m = simp(z3.LShR(n, sh))
                eng.oblige(st, 'whole-elements', n & (e - 1) == 0)
                if cap is not None:
                    eng.oblige(st, 'output-in-bounds', z3.And(z3.ULE(q, cap), z3.ULE(m, cap - q)))
                x = a.rd(simp(q + j), st.pc)
                for i in range(e):
                    eng.oblige(st, 'output-byte', z3.Implies(z3.ULT(j, m), z3.Extract(8 * i + 7, 8 * i, x) == s.E(simp(op + j * e + i))))
                eng.set_g(st, 'op', simp(op + n))
                return
            b = simp(rel.bv())
            if cap is not None:
                eng.oblige(st, 'output-in-bounds', z3.And(z3.ULE(b, cap), z3.ULE(n, cap - b)))
            a = st.arrs[(rg.rid, seg)]
            if num(n) is not None and num(n) <= 16:
                for i in range(num(n)):
                    eng.oblige(st, 'output-byte', a.rd(simp(b + i), st.pc) == s.E(simp(op + i)))
            else:
                eng.oblige(st, 'output-byte', z3.Implies(z3.ULT(j, n), a.rd(simp(b + j), st.pc) == s.E(simp(op + j))))
        eng.set_g(st, 'op', simp(op + n))

    def c_write(s, eng, st, args, x):
        this, buf, n = args
        if this.r != s.ro_.rid:
            raise Undecided('other output stream')
        s.put(eng, st, buf, n)
        return [(st, 'ret', None)]

    def c_writeb(s, eng, st, args, x):
        this, pb, buf, n = args
        if this.r != s.ro_.rid:
            raise Undecided('other output stream')
        st2 = st.clone()
        s.put(eng, st, buf, n)
        eng.store_n(st, pb, BVV(1, 8), 1)
        eng.store_n(st2, pb, BVV(0, 8), 1)
        eng.set_g(st2, 'failed', z3.BoolVal(True))
        return [(st, 'ret', None), (st2, 'ret', None)]
