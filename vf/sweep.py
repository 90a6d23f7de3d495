"""equivalence of two large bit-vector terms by bottom-up merging of provably equal subterms.
Sound: a merged class is replaced by a fresh constant only after its members were proved equal; hypotheses are not used."""
import random
import time
import z3

DEBUG = False


def kids(t):
    return [t.arg(i) for i in range(t.num_args())]


def topo(roots):
    seen, out = set(), []
    for r in roots:
        st = [(r, False)]
        while st:
            t, done = st.pop()
            if done:
                out.append(t)
                continue
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            st.append((t, True))
            if is_op(t):
                for c in kids(t):
                    if c.get_id() not in seen:
                        st.append((c, False))
    return out


OPS = {z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BMUL, z3.Z3_OP_BXOR, z3.Z3_OP_BOR, z3.Z3_OP_BAND, z3.Z3_OP_BNOT, z3.Z3_OP_BNEG, z3.Z3_OP_CONCAT, z3.Z3_OP_EXTRACT,
       z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR, z3.Z3_OP_BASHR, z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ROTATE_LEFT, z3.Z3_OP_ROTATE_RIGHT, z3.Z3_OP_EXT_ROTATE_LEFT, z3.Z3_OP_EXT_ROTATE_RIGHT}


def is_op(t):
    return z3.is_bv(t) and t.num_args() > 0 and t.decl().kind() in OPS


def ev(t, v):
    w = t.size()
    m = (1 << w) - 1
    k = t.decl().kind()
    a = [v[c.get_id()] for c in kids(t)]
    if k == z3.Z3_OP_BADD:
        return sum(a) & m
    if k == z3.Z3_OP_BSUB:
        return (a[0] - sum(a[1:])) & m
    if k == z3.Z3_OP_BMUL:
        r = 1
        for x in a:
            r = r * x & m
        return r
    if k in (z3.Z3_OP_BXOR, z3.Z3_OP_BOR, z3.Z3_OP_BAND):
        r = a[0]
        for x in a[1:]:
            r = r ^ x if k == z3.Z3_OP_BXOR else (r | x if k == z3.Z3_OP_BOR else r & x)
        return r
    if k == z3.Z3_OP_BNOT:
        return ~a[0] & m
    if k == z3.Z3_OP_BNEG:
        return -a[0] & m
    if k == z3.Z3_OP_CONCAT:
        r = 0
        for c, x in zip(kids(t), a):
            r = (r << c.size()) | x
        return r
    if k == z3.Z3_OP_EXTRACT:
        hi, lo = t.params()
        return (a[0] >> lo) & m
    if k == z3.Z3_OP_BSHL:
        return (a[0] << a[1]) & m if a[1] < w else 0
    if k == z3.Z3_OP_BLSHR:
        return a[0] >> a[1] if a[1] < w else 0
    if k == z3.Z3_OP_BASHR:
        s = a[0] - (1 << w) if a[0] >> (w - 1) else a[0]
        return (s >> min(a[1], w)) & m
    if k == z3.Z3_OP_ZERO_EXT:
        return a[0]
    if k == z3.Z3_OP_SIGN_EXT:
        cw = t.arg(0).size()
        return (a[0] - (1 << cw) if a[0] >> (cw - 1) else a[0]) & m
    n = (a[1] if k in (z3.Z3_OP_EXT_ROTATE_LEFT, z3.Z3_OP_EXT_ROTATE_RIGHT) else t.params()[0]) % w
    if k in (z3.Z3_OP_ROTATE_RIGHT, z3.Z3_OP_EXT_ROTATE_RIGHT):
        n = (w - n) % w
    return ((a[0] << n) | (a[0] >> (w - n))) & m


def equal(a, b, limit=150.0, minw=32, pc=()):
    """True if a == b is valid; None if not shown"""
    t0 = time.time()
    aa = {t.get_id(): t for t in topo([a]) if not is_op(t) and z3.is_bv(t) and not z3.is_bv_value(t)}
    ba = {t.get_id(): t for t in topo([b]) if not is_op(t) and z3.is_bv(t) and not z3.is_bv_value(t)}
    oa = [t for i, t in aa.items() if i not in ba]
    ob = [t for i, t in ba.items() if i not in aa]
    if len(oa) * len(ob) > 3000:
        return None
    if oa and ob and pc:
        # atoms of one side that the hypotheses identify with atoms of the other side
        sol = z3.Solver()
        sol.set('timeout', 1500)
        sol.add(*pc)
        sub = []
        for y in ob:
            for x in oa:
                if x.sort() == y.sort() and (x.num_args() == 0 or y.num_args() == 0 or x.decl().eq(y.decl())):
                    sol.push()
                    sol.add(x != y)
                    r = sol.check()
                    sol.pop()
                    if r == z3.unsat:
                        sub.append((y, x))
                        break
        if sub:
            b = z3.substitute(b, *sub)
    if a.eq(b):
        return True
    if a.eq(b):
        return True
    order = topo([a, b])
    rnd = random.Random(12345)
    sims = []
    for _ in range(4):
        v = {}
        for t in order:
            if z3.is_bv_value(t):
                v[t.get_id()] = t.as_long()
            elif not z3.is_bv(t):
                v[t.get_id()] = 0
            elif is_op(t):
                v[t.get_id()] = ev(t, v)
            else:
                v[t.get_id()] = rnd.getrandbits(t.size())
        sims.append(v)
    sig = {t.get_id(): (t.size(),) + tuple(v[t.get_id()] for v in sims) for t in order if z3.is_bv(t)}
    if sig[a.get_id()] != sig[b.get_id()]:
        return None
    cls = {}
    cnt = {}
    for t in order:
        if z3.is_bv(t):
            cnt[sig[t.get_id()]] = cnt.get(sig[t.get_id()], 0) + 1
    absn = {}     # term id -> abstraction
    rep = {}      # signature -> (rep term expansion, var)
    defs = {}
    n = 0
    for t in order:
        i = t.get_id()
        if not is_op(t):
            absn[i] = t
            if z3.is_bv(t) and not z3.is_bv_value(t):
                rep.setdefault(sig[i], (t, t))
            continue
        e = t.decl()(*[absn[c.get_id()] for c in kids(t)])
        absn[i] = e
        if t.size() < minw or (cnt[sig[i]] < 2 and i not in (a.get_id(), b.get_id())):
            continue
        r = rep.get(sig[i])
        if r is None:
            n += 1
            x = z3.BitVec('sw!%d' % n, t.size())
            rep[sig[i]] = (e, x)
            defs[x.get_id()] = e
            absn[i] = x if cnt[sig[i]] > 1 else e
            continue
        re_, x = r
        if z3.simplify(e).eq(z3.simplify(re_)) or z3.simplify(e).eq(x):
            absn[i] = x
            continue
        if time.time() - t0 > limit:
            return None
        sol = z3.SolverFor('QF_BV')
        sol.set('timeout', 3000)
        sol.add(e != re_)
        c = sol.check()
        # again with the definitions of the merged subterms, one level at a time
        front, need, lvl = [e, re_], set(), 0
        while c == z3.sat and lvl < 6 and front:
            lvl += 1
            nxt = []
            todo = front
            while todo:
                y = todo.pop()
                j = y.get_id()
                if j in need:
                    continue
                need.add(j)
                if j in defs:
                    sol.add(y == defs[j])
                    nxt.append(defs[j])
                todo.extend(kids(y))
            front = nxt
            c = sol.check()
        if DEBUG:
            print('sweep', c, t.size(), str(e)[:300].replace('\n', ' '), '|||', str(re_)[:300].replace('\n', ' '))
        if c == z3.unsat:
            absn[i] = x
    return True if absn[a.get_id()].eq(absn[b.get_id()]) else None
