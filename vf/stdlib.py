"""Assumed contracts of std::string and std::vector (trivially copyable elements).

A container object is opaque; its elements live in a buffer region of their own whose length is a ghost variable.
size() < 2^57 (an x86-64 address space holds no more) is part of the representation.  Iterators and references are positions in that buffer;
invalidation by reallocation is not modelled.
"""
import re
import z3
from . import engine
from .engine import Undecided, Ptr, Lin, lin_of, BVV, num, simp, ABase, ACopy, AFill, AStore, AConst, Dead, Arr

NULLPTR = engine.NULL


class C:
    """handle of a container object in a state"""

    def __init__(s, eng, st, p, esz=1, create=True):
        if not isinstance(p, Ptr) or p.r is None or p.o.const() is None:
            raise Undecided('container behind a computed pointer')
        s.eng, s.st = eng, st
        conts = eng.__dict__.setdefault('conts', {})
        k = (p.r, p.o.const())
        s.key = k
        if k not in conts:
            if not create:
                raise Undecided('container without contents')
            r = eng.new_region('buf.%s.%d' % (eng.regions[p.r].name, k[1]), 'arr', esz=esz, nelem=None)
            r.nelem = ('len', r.rid)
            r.cont = k
            conts[k] = (r.rid, esz)
        s.rid, s.esz = conts[k]
        s.nul = 0

    def live(s):
        if ('len', s.rid) not in s.st.g:
            raise Undecided('container used before construction')
        return s

    @property
    def n(s):
        s.live()
        return s.st.g[('len', s.rid)]

    @property
    def arr(s):
        return s.st.arrs[(s.rid, 0)]

    def set(s, n, arr=None, string=None):
        n = simp(n)
        s.st.g[('len', s.rid)] = n
        s.eng.wlog.append(('g', ('len', s.rid)))
        if arr is not None:
            if string is not False and s.is_str():
                arr = AStore(arr, n, BVV(0, 8 * s.esz))
            s.st.arrs[(s.rid, 0)] = arr
            s.eng.wlog.append(('arr', s.rid, 0))

    def is_str(s):
        return getattr(s.eng.regions[s.rid], 'isstr', False)

    def ptr(s, i=None):
        return Ptr(s.rid, Lin(0) if i is None else lin_of(simp(i), s.esz))


WIDTH = [1]     # character size of the string class whose contract is being applied


def mk_string(eng, st, p, n=None, arr=None):
    e = WIDTH[0]
    c = C(eng, st, p, e)
    if c.esz != e:
        raise Undecided('character size')
    eng.regions[c.rid].isstr = True
    if arr is None and n is not None and num(simp(n)) == 0:
        arr = AConst(BVV(0, 8 * e), e)
    if n is not None:
        c.set(n, arr if arr is not None else ABase('str', e))
    return c


def chr_(v):
    w = 8 * WIDTH[0]
    return v if v.size() == w else simp(z3.Extract(w - 1, 0, v))


def mk_vector(eng, st, p, esz, n=None, arr=None):
    c = C(eng, st, p, esz)
    if n is not None:
        c.set(n, arr if arr is not None else ABase('vec', esz))
    return c


def new_container(eng, st, name, size=32):
    """a container object supplied by the caller of the function under contract"""
    r = eng.new_region(name, 'obj', size=size)
    st.cells[r.rid] = {}
    return Ptr(r.rid, Lin(0))


def cstr_len(eng, st, p):
    """length of a constant C string"""
    h = getattr(eng.spec, 'strlen', None)
    if h:
        n = h(eng, st, p)
        if n is not None:
            return n
    r = eng.regions[p.r]
    o = p.o.const()
    a = st.arrs.get((r.rid, 0))
    if o is not None and a is None and r.name.startswith('@'):
        v = num(simp(eng.load_n(st, p, 1)))
        if v == 0:
            return BVV(0, 64)
    if o is None or a is None or r.kind != 'arr':
        raise Undecided('strlen')
    for k in range(o, o + 4096):
        v = num(simp(a.rd(BVV(k, 64), st.pc)))
        if v is None:
            raise Undecided('strlen of symbolic text')
        if v == 0:
            return BVV(k - o, 64)
    raise Undecided('strlen')


def src_range(eng, st, p, n, esz=1):
    """(array of esz elements, first index) of n elements at p, with the bounds obligation"""
    n = simp(n)
    if num(n) == 0:
        return AConst(BVV(0, 8 * esz), esz), BVV(0, 64)
    if p.r is None:
        eng.oblige(st, 'no-null-deref:range', n == 0)
        return AConst(BVV(0, 8 * esz), esz), BVV(0, 64)
    if num(n) == 1 and esz == 1:
        # a single character (possibly a local variable)
        v = eng.load_n(st, p, 1)
        return AConst(v, 1), BVV(0, 64)
    loc = eng.locate(st, p, None, 'range')
    if loc[0] == 'cell':
        raise Undecided('range of scalars')
    r, seg, rel = loc[1:]
    q, k = eng.range_elems(st, r, seg, rel, simp(n * esz), 'range')
    a = st.arrs[(r.rid, seg)]
    e = eng.seg_n(st, r, seg)[1]
    if q is None:
        raise Undecided('unaligned range')
    if e != esz:
        if e > esz:
            return engine.conv(a, esz), simp(q * (e // esz))
        raise Undecided('element size')
    return a, q


def put(arr, at, n, src, s0):
    c = num(simp(n))
    if c is not None and c <= 48:
        vals = [src.rd(simp(s0 + k), None) for k in range(c)]
        for k, v in enumerate(vals):
            arr = AStore(arr, simp(at + k), v)
        return arr
    return ACopy(arr, at, n, src, s0)


def putf(eng, st, arr, at, n, src, s0):
    c = num(simp(n))
    if c is not None and c <= 48:
        vals = [src.rd(simp(s0 + k), st.pc) for k in range(c)]
        for k, v in enumerate(vals):
            arr = AStore(arr, simp(at + k), v)
        return arr
    return ACopy(arr, at, n, src, s0)


def limit(eng, st, n):
    """lengths stay below what the address space holds (otherwise the container raises)"""
    st.pc.add(z3.ULT(n, BVV(1 << 57, 64)))


def append(eng, st, c, src, s0, n):
    old = c.n
    nn = simp(old + n)
    limit(eng, st, nn)
    limit(eng, st, n)
    a = putf(eng, st, c.arr, old, n, src, s0)
    c.set(nn, a)


def assign(eng, st, c, src, s0, n):
    limit(eng, st, n)
    a = putf(eng, st, AConst(BVV(0, 8 * c.esz), c.esz), BVV(0, 64), n, src, s0)
    c.set(n, a)


def ret(st, v=None):
    return [(st, 'ret', v)]


# ---------------------------------------------------------------- std::string
def S(eng, st, p):
    return mk_string(eng, st, p)


def s_ctor(eng, st, a, x):
    mk_string(eng, st, a[0], BVV(0, 64))
    return ret(st)


def s_ctor_copy(eng, st, a, x):
    o = S(eng, st, a[1])
    c = S(eng, st, a[0])
    arr, n = o.arr, o.n
    c.set(n, arr)
    return ret(st, a[0])


def s_ctor_move(eng, st, a, x):
    r = s_ctor_copy(eng, st, a, x)
    S(eng, st, a[1]).set(BVV(0, 64), AConst(BVV(0, 8 * WIDTH[0]), WIDTH[0]))
    return r


def s_ctor_pn(eng, st, a, x):
    src, s0 = src_range(eng, st, a[1], a[2], WIDTH[0])
    assign(eng, st, S(eng, st, a[0]), src, s0, a[2])
    return ret(st)


def s_ctor_p(eng, st, a, x):
    n = cstr_len(eng, st, a[1])
    src, s0 = src_range(eng, st, a[1], n, WIDTH[0])
    assign(eng, st, S(eng, st, a[0]), src, s0, n)
    return ret(st)


def s_ctor_nc(eng, st, a, x):
    c = S(eng, st, a[0])
    limit(eng, st, a[1])
    c.set(a[1], AConst(chr_(a[2]), WIDTH[0]))
    return ret(st)


def s_ctor_range(eng, st, a, x):
    n = simp(ptr_diff(a[2], a[1]))
    src, s0 = src_range(eng, st, a[1], n, WIDTH[0])
    assign(eng, st, S(eng, st, a[0]), src, s0, n)
    return ret(st)


def ptr_diff(e, b):
    if e.r != b.r:
        raise Undecided('range of two objects')
    if WIDTH[0] > 1:
        q = e.o.sub(b.o).div(WIDTH[0])
        if q is None:
            raise Undecided('unaligned range')
        return q.bv()
    return e.o.sub(b.o).bv()


def s_substr(eng, st, a, x):
    """result, this, pos, n"""
    o = S(eng, st, a[1])
    n, arr = o.n, o.arr
    outs = []
    bad = z3.UGT(a[2], n)
    if eng.check(st.pc, [bad]) != 'unsat':
        s2 = st.clone()
        s2.pc.add(bad)
        outs.append((s2, 'throw', None))
    if eng.check(st.pc, [z3.Not(bad)]) == 'unsat':
        return outs
    st.pc.add(z3.Not(bad))
    k = simp(z3.If(z3.ULT(a[3], n - a[2]), a[3], n - a[2]))
    assign(eng, st, S(eng, st, a[0]), arr, a[2], k)
    return outs + ret(st)


def s_substr_ctor(eng, st, a, x):
    return s_substr(eng, st, a, x)


def s_dtor(eng, st, a, x):
    return ret(st)


def s_assign_pn(eng, st, a, x):
    src, s0 = src_range(eng, st, a[1], a[2], WIDTH[0])
    assign(eng, st, S(eng, st, a[0]), src, s0, a[2])
    return ret(st, a[0])


def s_assign_p(eng, st, a, x):
    n = cstr_len(eng, st, a[1])
    return s_assign_pn(eng, st, [a[0], a[1], n], x)


def s_assign_range(eng, st, a, x):
    return s_assign_pn(eng, st, [a[0], a[1], simp(ptr_diff(a[2], a[1]))], x)


def s_append_range(eng, st, a, x):
    return s_append_pn(eng, st, [a[0], a[1], simp(ptr_diff(a[2], a[1]))], x)


def s_append_pn(eng, st, a, x):
    src, s0 = src_range(eng, st, a[1], a[2], WIDTH[0])
    append(eng, st, S(eng, st, a[0]), src, s0, a[2])
    return ret(st, a[0])


def s_append_p(eng, st, a, x):
    return s_append_pn(eng, st, [a[0], a[1], cstr_len(eng, st, a[1])], x)


def s_append_s(eng, st, a, x):
    o = S(eng, st, a[1])
    append(eng, st, S(eng, st, a[0]), o.arr, BVV(0, 64), o.n)
    return ret(st, a[0])


def s_append_nc(eng, st, a, x):
    append(eng, st, S(eng, st, a[0]), AConst(chr_(a[2]), WIDTH[0]), BVV(0, 64), a[1])
    return ret(st, a[0])


def s_push(eng, st, a, x):
    v = chr_(a[1])
    append(eng, st, S(eng, st, a[0]), AConst(v, WIDTH[0]), BVV(0, 64), BVV(1, 64))
    return ret(st, a[0])


def s_resize(eng, st, a, x):
    c = S(eng, st, a[0])
    old = c.n
    nn = simp(a[1])
    limit(eng, st, nn)
    v = chr_(a[2]) if len(a) > 2 else BVV(0, 8 * WIDTH[0])
    # fills only when growing
    fill = AFill(c.arr, old, simp(z3.If(z3.ULT(old, nn), nn - old, BVV(0, 64))), v)
    c.set(nn, fill)
    return ret(st)


def s_clear(eng, st, a, x):
    c = S(eng, st, a[0])
    c.set(BVV(0, 64), c.arr)
    return ret(st)


def s_size(eng, st, a, x):
    return ret(st, S(eng, st, a[0]).n)


def s_empty(eng, st, a, x):
    return ret(st, simp(S(eng, st, a[0]).n == 0))


def s_data(eng, st, a, x):
    return ret(st, S(eng, st, a[0]).live().ptr())


def s_end(eng, st, a, x):
    c = S(eng, st, a[0])
    return ret(st, c.ptr(c.n))


def s_at(eng, st, a, x):
    c = S(eng, st, a[0])
    eng.oblige(st, 'in-bounds:string-index', z3.ULE(a[1], c.n))
    return ret(st, c.ptr(a[1]))


def s_back(eng, st, a, x):
    c = S(eng, st, a[0])
    eng.oblige(st, 'in-bounds:string-back', c.n != 0)
    return ret(st, c.ptr(c.n - 1))


def s_plus(kind):
    def h(eng, st, a, x):
        d, l, r = a
        def part(k, v):
            if k == 's':
                o = S(eng, st, v)
                return o.arr, BVV(0, 64), o.n
            if k == 'p':
                n = cstr_len(eng, st, v)
                q, q0 = src_range(eng, st, v, n, WIDTH[0])
                return q, q0, n
            return AConst(chr_(v), WIDTH[0]), BVV(0, 64), BVV(1, 64)
        A, B = part(kind[0], l), part(kind[1], r)
        c = S(eng, st, d)
        assign(eng, st, c, *A)
        append(eng, st, c, *B)
        return ret(st)
    return h


def s_swap(eng, st, a, x):
    p, q = S(eng, st, a[0]), S(eng, st, a[1])
    pn, pa, qn, qa = p.n, p.arr, q.n, q.arr
    p.set(qn, qa)
    q.set(pn, pa)
    return ret(st)


STR = r'^(?:.* )?std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>::'
CS = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?> const&'
MS = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>&&'
AL = r'std::allocator<char> const&'
IT = r'(?:char const\*|char\*|__gnu_cxx::__normal_iterator<char(?: const)?\*, std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?> ?>|__gnu_cxx::__normal_iterator<char(?: const)?\*, std::vector<char, std::allocator<char> ?> ?>)'
TAB = [
    (r'basic_string\(\)$', s_ctor),
    (r'basic_string\(%s\)$' % AL, s_ctor),
    (r'basic_string\(%s\)$' % CS, s_ctor_copy),
    (r'basic_string\(%s\)$' % MS, s_ctor_move),
    (r'basic_string\(char const\*, unsigned long, %s\)$' % AL, s_ctor_pn),
    (r'basic_string(?:<[^()]*>)?\(char const\*, %s\)$' % AL, s_ctor_p),
    (r'basic_string(?:<[^()]*>)?\(unsigned long, char, %s\)$' % AL, s_ctor_nc),
    (r'basic_string\(%s, unsigned long, unsigned long\)$' % CS, s_substr_ctor),
    (r'basic_string<.*>\(%s, %s, %s\)$' % (IT, IT, AL), s_ctor_range),
    (r'~basic_string\(\)$', s_dtor),
    (r'(?:assign|replace)\(char const\*, unsigned long\)$', s_assign_pn),
    (r'(?:assign|operator=)\(char const\*\)$', s_assign_p),
    (r'assign<.*>\(%s, %s\)$' % (IT, IT), s_assign_range),
    (r'(?:assign|operator=)\(%s\)$' % CS, s_ctor_copy),
    (r'operator=\(%s\)$' % MS, s_ctor_move),
    (r'append\(char const\*, unsigned long\)$', s_append_pn),
    (r'append<.*>\(%s, %s\)$' % (IT, IT), s_append_range),
    (r'(?:append|operator\+=)\(char const\*\)$', s_append_p),
    (r'(?:append|operator\+=)\(%s\)$' % CS, s_append_s),
    (r'append\(unsigned long, char\)$', s_append_nc),
    (r'(?:push_back|operator\+=)\(char\)$', s_push),
    (r'resize\(unsigned long(?:, char)?\)$', s_resize),
    (r'reserve\(unsigned long\)$', lambda e, st, a, x: ret(st)),
    (r'clear\(\)$', s_clear),
    (r'(?:size|length)\(\) const$', s_size),
    (r'empty\(\) const$', s_empty),
    (r'(?:c_str|data)\(\)(?: const)?$', s_data),
    (r'(?:begin|cbegin)\(\)(?: const)?$', s_data),
    (r'(?:end|cend)\(\)(?: const)?$', s_end),
    (r'operator\[\]\(unsigned long\)(?: const)?$', s_at),
    (r'back\(\)(?: const)?$', s_back),
    (r'swap\(.*\)$', s_swap),
    (r'substr\(unsigned long, unsigned long\) const$', s_substr),
]
SS = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>'
LIBS = [(re.compile(STR + p), h) for p, h in TAB]
OPP = r'^%s std::operator\+<char, std::char_traits<char>, std::allocator<char> ?>\(' % SS
LIBS += [
    (re.compile(OPP + r'%s(?: const&|&&), %s(?: const&|&&)\)$' % (SS, SS)), s_plus('ss')),
    (re.compile(OPP + r'char const\*, %s(?: const&|&&)\)$' % SS), s_plus('ps')),
    (re.compile(OPP + r'%s(?: const&|&&), char const\*\)$' % SS), s_plus('sp')),
    (re.compile(OPP + r'%s(?: const&|&&), char\)$' % SS), s_plus('sc')),
    (re.compile(OPP + r'char, %s(?: const&|&&)\)$' % SS), s_plus('cs')),
    (re.compile(r'^(?:std::|__gnu_cxx::)(?:new_|__new_)?allocator<.*>::~?(?:new_|__new_)?allocator\('), lambda e, st, a, x: ret(st)),
]

# ---------------------------------------------------------------- std::vector of scalars
SZ = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8,
      'long long': 8, 'unsigned long long': 8, 'float': 4, 'double': 8}


def vsize(eng, T):
    if T in SZ:
        return SZ[T]
    h = getattr(eng.spec, 'elem_size', {})
    if T in h:
        return h[T]
    raise Undecided('vector of ' + T)


def V(fn):
    def h(eng, st, a, x, m=None):
        return fn(eng, st, a, x, vsize(eng, m))
    return h


def v_ctor(eng, st, a, x, e):
    mk_vector(eng, st, a[0], e, BVV(0, 64), AConst(BVV(0, 8 * e), e))
    return ret(st)


def v_ctor_n(eng, st, a, x, e):
    limit(eng, st, a[1])
    mk_vector(eng, st, a[0], e, a[1], AConst(BVV(0, 8 * e), e))
    return ret(st)


def v_copy(eng, st, a, x, e):
    o, c = C(eng, st, a[1], e), C(eng, st, a[0], e)
    c.set(o.n, o.arr)
    return ret(st, a[0])


def v_move(eng, st, a, x, e):
    v_copy(eng, st, a, x, e)
    C(eng, st, a[1], e).set(BVV(0, 64), AConst(BVV(0, 8 * e), e))
    return ret(st, a[0])


def v_resize(eng, st, a, x, e):
    c = C(eng, st, a[0], e)
    old, nn = c.n, simp(a[1])
    limit(eng, st, nn)
    v = eng.load_n(st, a[2], e) if len(a) > 2 else BVV(0, 8 * e)
    if num(simp(old)) == 0:
        c.set(nn, AConst(v, e))
    else:
        c.set(nn, AFill(c.arr, old, simp(z3.If(z3.ULT(old, nn), nn - old, BVV(0, 64))), v))
    return ret(st)


def v_push(eng, st, a, x, e):
    c = C(eng, st, a[0], e)
    v = eng.load_n(st, a[1], e)
    old = c.n
    limit(eng, st, old + 1)
    c.set(simp(old + 1), AStore(c.arr, old, v))
    return ret(st, c.ptr(old))


def v_pop(eng, st, a, x, e):
    c = C(eng, st, a[0], e)
    eng.oblige(st, 'in-bounds:vector-pop', c.n != 0)
    c.set(simp(c.n - 1), c.arr)
    return ret(st)


def v_size(eng, st, a, x, e):
    return ret(st, C(eng, st, a[0], e).n)


def v_empty(eng, st, a, x, e):
    return ret(st, simp(C(eng, st, a[0], e).n == 0))


def v_data(eng, st, a, x, e):
    return ret(st, C(eng, st, a[0], e).live().ptr())


def v_end(eng, st, a, x, e):
    c = C(eng, st, a[0], e)
    return ret(st, c.ptr(c.n))


def v_at(eng, st, a, x, e):
    c = C(eng, st, a[0], e)
    # &v[0] of an empty vector (and &v[v.size()]) only forms an address; an access through it is checked on its own
    eng.oblige(st, 'in-bounds:vector-index', (z3.ULE if getattr(eng.spec, 'lax_index', False) else z3.ULT)(a[1], c.n))
    return ret(st, c.ptr(a[1]))


def v_back(eng, st, a, x, e):
    c = C(eng, st, a[0], e)
    eng.oblige(st, 'in-bounds:vector-back', c.n != 0)
    return ret(st, c.ptr(c.n - 1))


def v_clear(eng, st, a, x, e):
    c = C(eng, st, a[0], e)
    c.set(BVV(0, 64), c.arr)
    return ret(st)


def v_swap(eng, st, a, x, e):
    p, q = C(eng, st, a[0], e), C(eng, st, a[1], e)
    pn, pa, qn, qa = p.n, p.arr, q.n, q.arr
    p.set(qn, qa)
    q.set(pn, pa)
    return ret(st)


def v_eq(neg):
    """equal exactly when the sizes and all elements agree; a difference has a witness"""
    def h(eng, st, a, x, e):
        p, q = C(eng, st, a[0], e), C(eng, st, a[1], e)
        r = eng.fresh_bool('vec.eq')
        w = eng.fresh('vec.diff', 64)
        st.g['witness'] = w
        A, B, n = p.arr, q.arr, p.n
        st.pc.add(z3.Implies(r, n == q.n))
        for j in [getattr(eng.spec, 'j', None), w]:
            if j is not None:
                st.pc.add(z3.Implies(z3.And(r, z3.ULT(j, n)), A.rd(j, st.pc) == B.rd(j, st.pc)))
        st.pc.add(z3.Implies(z3.Not(r), z3.Or(n != q.n, z3.And(z3.ULT(w, n), A.rd(w, st.pc) != B.rd(w, st.pc)))))
        return ret(st, z3.Not(r) if neg else r)
    return h


def a_copy(eng, st, a, x, e):
    """std::copy / std::copy_n of trivially copyable elements"""
    n = a[1].o.sub(a[0].o) if a[1].r == a[0].r else None
    if n is None:
        raise Undecided('std::copy of two objects')
    nb = simp(n.bv())
    if num(nb) != 0:
        eng.memcpy(st, a[2], a[0], nb)
    return ret(st, Ptr(a[2].r, a[2].o.add(n)))


VT = [
    (r'vector\(\)$', v_ctor),
    (r'vector\(unsigned long, std::allocator<.*> const&\)$', v_ctor_n),
    (r'vector\(std::vector<.*> const&\)$', v_copy),
    (r'vector\(std::vector<.*>&&\)$', v_move),
    (r'operator=\(std::vector<.*> const&\)$', v_copy),
    (r'operator=\(std::vector<.*>&&\)$', v_move),
    (r'~vector\(\)$', lambda e, st, a, x, z: ret(st)),
    (r'resize\(unsigned long(?:, .*const&)?\)$', v_resize),
    (r'(?:push_back\(.*\)|emplace_back<.*>\(.*\))$', v_push),
    (r'pop_back\(\)$', v_pop),
    (r'reserve\(unsigned long\)$', lambda e, st, a, x, z: ret(st)),
    (r'clear\(\)$', v_clear),
    (r'size\(\) const$', v_size),
    (r'empty\(\) const$', v_empty),
    (r'(?:data|begin|cbegin)\(\)(?: const)?$', v_data),
    (r'(?:end|cend)\(\)(?: const)?$', v_end),
    (r'(?:operator\[\]|at)\(unsigned long\)(?: const)?$', v_at),
    (r'front\(\)(?: const)?$', v_data),
    (r'back\(\)(?: const)?$', v_back),
    (r'swap\(.*\)$', v_swap),
]
VP = r'^(?:.* )?std::vector<([\w: ]+?), std::allocator<\1> ?>::'
VLIBS = [(re.compile(VP + p), h) for p, h in VT]
VV = r'\(std::vector<.*> const&, std::vector<.*> const&\)$'
VLIBS += [(re.compile(r'^bool std::operator==<([\w: ]+?), std::allocator<\1> ?>' + VV), v_eq(False)),
          (re.compile(r'^bool std::operator!=<([\w: ]+?), std::allocator<\1> ?>' + VV), v_eq(True)),
          (re.compile(r'^[\w: ]+\* std::copy<([\w: ]+?)(?: const)?\*, \1\*>\('), a_copy)]


WIDE = [('unsigned short', 2), ('char16_t', 2), ('wchar_t', 4), ('char32_t', 4)]


def wide(h, w):
    def f(*a):
        WIDTH[0] = w
        try:
            return h(*a)
        finally:
            WIDTH[0] = 1
    return f


def lookup(dem):
    for pat, h in LIBS:
        if pat.search(dem):
            return h
    for t, w in WIDE:
        if 'basic_string<%s, ' % t in dem:
            d = dem.replace(t, 'char')
            for pat, h in LIBS:
                if pat.search(d):
                    return wide(h, w)
    for pat, h in VLIBS:
        m = pat.search(dem)
        if m:
            T = m.group(1)
            return lambda eng, st, a, x, h=h, T=T: h(eng, st, a, x, vsize(eng, T))
    return None
