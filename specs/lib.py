"""shared pieces of the contracts"""
import z3
from vf.engine import *
from vf.engine import Spec, Cand, QCand, BVV, simp, num, Ptr, Lin, NULL, ABase, lin_of
from vf.runner import Target

U = z3.ULE
LT = z3.ULT


def zx(v, w):
    d = w - v.size()
    if d == 0:
        return v
    if d < 0:
        return z3.Extract(w - 1, 0, v)
    return z3.ZeroExt(d, v)


def sx(v, w):
    d = w - v.size()
    return v if d == 0 else (z3.SignExt(d, v) if d > 0 else z3.Extract(w - 1, 0, v))


def c64(n):
    return BVV(n, 64)


def rng(v, lo, hi):
    """lo <= v <= hi unsigned"""
    return z3.And(z3.UGE(v, BVV(lo, v.size())), z3.ULE(v, BVV(hi, v.size())))


class UF:
    n = 0

    def __init__(s, name, *ws):
        UF.n += 1
        s.f = z3.Function('%s#%d' % (name, UF.n), *[z3.BitVecSort(w) if w else z3.BoolSort() for w in ws])

    def __call__(s, *a):
        return s.f(*a)


def uniq(l):
    seen, out = set(), []
    for c in l:
        if c.name not in seen:
            seen.add(c.name)
            out.append(c)
    return out


def linear_cands(ctx, bounds=()):
    """generic: every counter moves linearly with the iteration count"""
    out = []
    for h, d in ctx.info.items():
        if d['kind'] in ('int', 'gint', 'ptr'):
            w = d['w']
            for st in (1, -1, 2, 3, 4, 8, -2, -4, -8):
                out.append(Cand('%s=init%+d*k' % (h, st), lambda v, h=h, st=st, w=w: v[h] == d2(v, ctx, h) + zx(v['k'], w) * st))
    return out


def d2(v, ctx, h):
    return ctx.ini[h]


def apps(e, fs):
    """argument tuples of applications of the functions fs inside e"""
    names = {f.f.name() for f in fs}
    seen, out, todo = set(), [], [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() in names:
            out.append([x.arg(i) for i in range(x.num_args())])
        todo.extend(x.children())
    return out


def pin(eng, st, want, found):
    """the term of found that provably equals want, or want"""
    seen = set()
    for t in found:
        if t.get_id() not in seen:
            seen.add(t.get_id())
            if t.sort() == want.sort() and eng.valid(st.pc, t == want):
                return t
    return want


def pinv(eng, st, want, lo, hi):
    for c in range(lo, hi + 1):
        if eng.valid(st.pc, want == BVV(c, want.size())):
            return c
    return None


def leaves(e, w=None):
    seen, out, todo = set(), [], [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.num_args() == 0:
            if not z3.is_bv_value(x) and z3.is_bv(x) and (w is None or x.size() == w):
                out.append(x)
        todo.extend(x.children())
    return out


def layout(eng):
    """the vf_layout table (sizeof / offsetof values) of the instantiation unit"""
    from vf.engine import State
    t = eng.m.globals['vf_layout'][0]
    st = State()
    p = eng.global_ptr(st, 'vf_layout')
    return [num(simp(eng.load_n(st, Ptr(p.r, p.o.add(Lin(8 * i))), 8))) for i in range(eng.m.size(t) // 8)]
