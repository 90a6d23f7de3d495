"""Parser for the textual LLVM IR that clang emits from /repo's headers (LLVM 18, opaque pointers)."""
import re

TOK = re.compile(r'''
  (?P<ws>[ \t]+)
 |(?P<cstr>c"(?:[^"])*")
 |(?P<local>%"[^"]*"|%[\w.$\-]+)
 |(?P<glob>@"[^"]*"|@[\w.$\-]+)
 |(?P<meta>![\w.]*(?:\([^()]*\))?)
 |(?P<attr>\#\d+)
 |(?P<comdat>\$"[^"]*"|\$[\w.$\-]+)
 |(?P<num>-?0x[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+)
 |(?P<dots>\.\.\.)
 |(?P<word>[A-Za-z_.][\w.]*)
 |(?P<str>"[^"]*")
 |(?P<p><\{|\}>|[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError('tok %r' % s[i:i + 40])
        i = m.end()
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group()))
    return out


class Ty:
    __slots__ = ('k', 'a', 'b')

    def __init__(s, k, a=None, b=None):
        s.k = k
        s.a = a
        s.b = b

    def __repr__(s):
        return '%s(%s,%s)' % (s.k, s.a, s.b)


PTR = Ty('ptr')
VOID = Ty('void')


def I(n):
    return Ty('i', n)


class Val:
    """operand: k in local, glob, int, null, undef, zero, cstr, arr, struct, cexpr, meta, float"""
    __slots__ = ('k', 'ty', 'v', 'x')

    def __init__(s, k, ty, v=None, x=None):
        s.k = k
        s.ty = ty
        s.v = v
        s.x = x

    def __repr__(s):
        return 'V(%s %r)' % (s.k, s.v)


class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'line')

    def __init__(s, op, res=None, ty=None, a=(), x=None, line=''):
        s.op = op
        s.res = res
        s.ty = ty
        s.a = a
        s.x = x
        s.line = line


class Block:
    def __init__(s, name):
        s.name = name
        s.ins = []
        s.phis = []


class Func:
    def __init__(s, name):
        s.name = name
        s.params = []   # (name, Ty, attrs)
        s.blocks = {}
        s.order = []
        s.ret = None
        s.loops = None


def unq(t):
    t = t[1:]
    if t.startswith('"'):
        t = t[1:-1]
    return t


class P:
    def __init__(s, toks, mod, line=''):
        s.t = toks
        s.i = 0
        s.m = mod
        s.line = line

    def peek(s, o=0):
        return s.t[s.i + o] if s.i + o < len(s.t) else ('eof', '')

    def nx(s):
        r = s.peek()
        s.i += 1
        return r

    def acc(s, v):
        if s.peek()[1] == v:
            s.i += 1
            return True
        return False

    def exp(s, v):
        r = s.nx()
        if r[1] != v:
            raise SyntaxError('expected %r got %r in %r' % (v, r, s.line))

    def type(s):
        k, v = s.nx()
        if k == 'word':
            if v == 'ptr':
                if s.peek()[1] == 'addrspace':
                    s.i += 4
                t = PTR
            elif v == 'void':
                t = VOID
            elif v[0] == 'i' and v[1:].isdigit():
                t = Ty('i', int(v[1:]))
            elif v in ('float', 'double', 'x86_fp80', 'half', 'fp128'):
                t = Ty('f', v)
            elif v in ('metadata', 'label', 'token', 'opaque'):
                t = Ty(v)
            else:
                raise SyntaxError('type %r in %r' % (v, s.line))
        elif k == 'local':
            t = Ty('named', unq(v))
        elif v == '[':
            n = int(s.nx()[1])
            s.exp('x')
            e = s.type()
            s.exp(']')
            t = Ty('arr', n, e)
        elif v == '{':
            t = Ty('st', s.tlist('}'), False)
        elif v == '<{':
            t = Ty('st', s.tlist('}>'), True)
        elif v == '<':
            n = int(s.nx()[1])
            s.exp('x')
            e = s.type()
            s.exp('>')
            t = Ty('vec', n, e)
        else:
            raise SyntaxError('type %r in %r' % (v, s.line))
        # function type
        while s.peek()[1] == '(' and t.k != 'x':
            # only consume if this is a function type: lookahead for type list
            j = s.i
            try:
                s.i += 1
                args = []
                if not s.acc(')'):
                    while True:
                        if s.acc('...'):
                            args.append('...')
                        else:
                            args.append(s.type())
                            s.skip_attrs()
                        if s.acc(')'):
                            break
                        s.exp(',')
                t = Ty('fn', t, args)
            except SyntaxError:
                s.i = j
                break
        return t

    def tlist(s, close):
        r = []
        if s.acc(close):
            return r
        while True:
            r.append(s.type())
            if s.acc(close):
                return r
            s.exp(',')

    ATTR = set('''noundef nonnull align dereferenceable dereferenceable_or_null sret byval zeroext signext noalias
     nocapture readonly readnone writeonly returned immarg inreg nest swiftself dead_on_unwind writable captures range
     noreturn nounwind allocptr allocalign noext nofpclass inalloca preallocated elementtype initializes'''.split())

    def skip_attrs(s):
        a = []
        while True:
            k, v = s.peek()
            if k == 'word' and v in s.ATTR:
                s.i += 1
                if s.peek()[1] == '(':
                    d = 0
                    while True:
                        q = s.nx()[1]
                        if q == '(':
                            d += 1
                        elif q == ')':
                            d -= 1
                            if d == 0:
                                break
                elif v == 'align':
                    s.i += 1
                a.append(v)
            elif k == 'attr':
                s.i += 1
            else:
                return a

    def val(s, ty):
        k, v = s.nx()
        if k == 'local':
            return Val('local', ty, unq(v))
        if k == 'glob':
            return Val('glob', ty, unq(v))
        if k == 'num':
            if ty.k == 'f':
                return Val('float', ty, v)
            return Val('int', ty, int(v, 0))
        if k == 'cstr':
            b = bytearray()
            q = v[2:-1]
            i = 0
            while i < len(q):
                if q[i] == '\\':
                    b.append(int(q[i + 1:i + 3], 16))
                    i += 3
                else:
                    b.append(ord(q[i]))
                    i += 1
            return Val('cstr', ty, bytes(b))
        if k == 'meta':
            if v == '!' :
                # inline metadata  !{...} or !"..."
                pass
            return Val('meta', ty, v)
        if k == 'word':
            if v == 'true':
                return Val('int', ty, 1)
            if v == 'false':
                return Val('int', ty, 0)
            if v == 'null':
                return Val('null', ty)
            if v in ('undef', 'poison'):
                return Val('undef', ty)
            if v == 'zeroinitializer':
                return Val('zero', ty)
            if v == 'none':
                return Val('undef', ty)
            if v == 'getelementptr':
                fl = []
                while s.peek()[0] == 'word' and s.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    s.nx()
                s.exp('(')
                t = s.type()
                s.exp(',')
                args = []
                while True:
                    if s.acc('inrange'):
                        if s.peek()[1] == '(':
                            while s.nx()[1] != ')':
                                pass
                    at = s.type()
                    args.append(s.val(at))
                    if s.acc(')'):
                        break
                    s.exp(',')
                return Val('cexpr', ty, 'getelementptr', (t, args))
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
                s.exp('(')
                t = s.type()
                a = s.val(t)
                s.exp('to')
                t2 = s.type()
                s.exp(')')
                return Val('cexpr', t2, v, a)
            if v in ('add', 'sub', 'mul', 'shl', 'xor', 'and', 'or', 'lshr', 'ashr'):
                while s.peek()[0] == 'word':
                    s.nx()
                s.exp('(')
                t = s.type()
                a = s.val(t)
                s.exp(',')
                t = s.type()
                b = s.val(t)
                s.exp(')')
                return Val('cexpr', ty, v, (a, b))
            if v == 'splat':
                s.exp('(')
                t = s.type()
                a = s.val(t)
                s.exp(')')
                return Val('arr', ty, [a] * ty.a)
            if v in ('blockaddress', 'dso_local_equivalent', 'no_cfi'):
                return Val('undef', ty)
        if v == '[':
            return Val('arr', ty, s.vlist(']'))
        if v == '<' :
            return Val('arr', ty, s.vlist('>'))
        if v == '{':
            return Val('struct', ty, s.vlist('}'))
        if v == '<{':
            return Val('struct', ty, s.vlist('}>'))
        raise SyntaxError('value %r in %r' % (v, s.line))

    def vlist(s, close):
        r = []
        if s.acc(close):
            return r
        while True:
            t = s.type()
            r.append(s.val(t))
            if s.acc(close):
                return r
            s.exp(',')

    def tval(s):
        t = s.type()
        s.skip_attrs()
        return s.val(t)


BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor'.split())
FBIN = set('fadd fsub fmul fdiv frem fneg fcmp'.split())
CAST = set('zext sext trunc bitcast ptrtoint inttoptr fptoui fptosi uitofp sitofp fpext fptrunc addrspacecast'.split())
FLAGS = set('nsw nuw exact inbounds disjoint nneg fast nnan ninf nsz arcp contract afn reassoc nusw samesign'.split())


class Module:
    def __init__(s):
        s.types = {}
        s.globals = {}
        s.funcs = {}
        s.decls = set()

    # ---- layout
    def rt(s, t):
        while t.k == 'named':
            t = s.types[t.a]
        return t

    def align(s, t):
        t = s.rt(t)
        if t.k == 'i':
            b = (t.a + 7) // 8
            p = 1
            while p < b:
                p *= 2
            return min(p, 16)
        if t.k == 'ptr':
            return 8
        if t.k == 'f':
            return {'float': 4, 'double': 8, 'x86_fp80': 16, 'half': 2, 'fp128': 16}[t.a]
        if t.k in ('arr',):
            return s.align(t.b)
        if t.k == 'vec':
            return s.size(t)
        if t.k == 'st':
            if t.b:
                return 1
            return max([s.align(x) for x in t.a] or [1])
        raise NotImplementedError(t.k)

    def size(s, t):
        t = s.rt(t)
        if t.k == 'i':
            b = (t.a + 7) // 8
            al = s.align(t)
            return (b + al - 1) // al * al
        if t.k == 'ptr':
            return 8
        if t.k == 'f':
            return {'float': 4, 'double': 8, 'x86_fp80': 16, 'half': 2, 'fp128': 16}[t.a]
        if t.k in ('arr',):
            return t.a * s.size(t.b)
        if t.k == 'vec':
            return t.a * ((s.rt(t.b).a + 7) // 8 if s.rt(t.b).k == 'i' else s.size(t.b))
        if t.k == 'st':
            o, al = 0, 1
            for x in t.a:
                a = 1 if t.b else s.align(x)
                al = max(al, a)
                o = (o + a - 1) // a * a + s.size(x)
            return (o + al - 1) // al * al
        raise NotImplementedError(t.k)

    def offset(s, t, i):
        t = s.rt(t)
        o = 0
        for j, x in enumerate(t.a):
            a = 1 if t.b else s.align(x)
            o = (o + a - 1) // a * a
            if j == i:
                return o
            o += s.size(x)
        raise IndexError


def parse(text):
    m = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        l = lines[i]
        i += 1
        if not l or l[0] in ';!' or l.startswith(('source_filename', 'target', 'attributes', '$', 'module asm', 'declare')):
            if l.startswith('declare'):
                mm = re.search(r'@("[^"]*"|[\w.$\-]+)\(', l)
                m.decls.add(unq('@' + mm.group(1)))
            continue
        if l[0] == '%':
            nm, rest = l.split(' = type ', 1)
            if rest.startswith('opaque'):
                m.types[unq(nm)] = Ty('st', [], False)
                continue
            p = P(tokenize(rest), m, l)
            m.types[unq(nm)] = p.type()
            continue
        if l[0] == '@':
            toks = tokenize(l)
            p = P(toks, m, l)
            nm = unq(p.nx()[1])
            p.exp('=')
            const = False
            ext = False
            alias = False
            while True:
                k, v = p.peek()
                if v in ('global', 'constant'):
                    const = v == 'constant'
                    p.nx()
                    break
                if v == 'alias':
                    alias = True
                    p.nx()
                    break
                if v in ('external', 'extern_weak'):
                    ext = True
                p.nx()
                if v in ('thread_local', 'addrspace') and p.peek()[1] == '(':
                    while p.nx()[1] != ')':
                        pass
            t = p.type()
            if alias:
                p.exp(',')
                p.type()
                m.globals[nm] = (t, p.val(PTR), True, 'alias')
                continue
            init = None if ext else p.val(t)
            m.globals[nm] = (t, init, const, 'ext' if ext else 'def')
            continue
        if l.startswith('define'):
            f = parse_header(l, m)
            cur = None
            while True:
                l = lines[i]
                i += 1
                if l == '}':
                    break
                if not l or l.lstrip().startswith(';'):
                    continue
                if l[0] != ' ':
                    mm = re.match(r'("[^"]*"|[\w.$\-]+):', l)
                    nm = mm.group(1)
                    if nm.startswith('"'):
                        nm = nm[1:-1]
                    cur = Block(nm)
                    f.blocks[nm] = cur
                    f.order.append(nm)
                    continue
                if cur is None:
                    cur = Block(str(len(f.params)))
                    f.blocks[cur.name] = cur
                    f.order.append(cur.name)
                # join continued lines
                s = l
                if re.search(r'\b(switch|invoke|landingpad)\b', s):
                    if ' switch ' in s or s.strip().startswith('switch'):
                        while ']' not in s:
                            s += ' ' + lines[i]
                            i += 1
                    elif 'invoke ' in s and ' unwind label' not in s:
                        s += ' ' + lines[i]
                        i += 1
                    elif 'landingpad' in s:
                        while re.match(r'\s+(catch|cleanup|filter)\b', lines[i]):
                            s += ' ' + lines[i].strip()
                            i += 1
                ins = parse_ins(s, m)
                if ins is None:
                    continue
                if ins.op == 'phi':
                    cur.phis.append(ins)
                else:
                    cur.ins.append(ins)
            m.funcs[f.name] = f
            continue
        raise SyntaxError(l[:200])
    return m


def parse_header(l, m):
    mm = re.search(r'@("[^"]*"|[\w.$\-]+)\(', l)
    f = Func(unq('@' + mm.group(1)))
    pre = l[:mm.start()]
    body = l[mm.end():]
    toks = tokenize(body)
    p = P(toks, m, l)
    if not p.acc(')'):
        while True:
            if p.acc('...'):
                p.exp(')')
                break
            t = p.type()
            # attrs with types, remember sret/byval
            at = p.skip_attrs()
            k, v = p.peek()
            nm = None
            if k == 'local':
                nm = unq(v)
                p.nx()
            else:
                nm = str(len(f.params))
            f.params.append((nm, t, at))
            if p.acc(')'):
                break
            p.exp(',')
    # return type: last type token before name
    words = tokenize(pre.replace('define', '', 1))
    # find a suffix that parses as type
    for j in range(len(words)):
        q = P(words[j:], m, l)
        try:
            t = q.type()
            if q.i == len(q.t):
                f.ret = t
                break
        except Exception:
            pass
    return f


def parse_ins(l, m):
    # drop metadata suffix
    l0 = l
    l = re.sub(r', ![\w.]+ ![\w.]+', '', l)
    l = re.sub(r', ![\w.]+ !\{[^}]*\}', '', l)
    if 'metadata' in l and 'call void @llvm.' in l:
        return None
    toks = tokenize(l)
    p = P(toks, m, l)
    res = None
    if p.peek()[0] == 'local' and p.peek(1)[1] == '=':
        res = unq(p.nx()[1])
        p.nx()
    op = p.nx()[1]
    if op in ('tail', 'musttail', 'notail'):
        op = p.nx()[1]
    fl = []
    while p.peek()[0] == 'word' and p.peek()[1] in FLAGS:
        fl.append(p.nx()[1])
    if op in BIN:
        t = p.type()
        a = p.val(t)
        p.exp(',')
        b = p.val(t)
        return Ins(op, res, t, (a, b), fl, l0)
    if op in FBIN:
        return Ins('float', res, None, (), None, l0)
    if op == 'icmp':
        pr = p.nx()[1]
        t = p.type()
        a = p.val(t)
        p.exp(',')
        b = p.val(t)
        return Ins('icmp', res, t, (a, b), pr, l0)
    if op in CAST:
        a = p.tval()
        p.exp('to')
        t = p.type()
        return Ins(op, res, t, (a,), fl, l0)
    if op == 'freeze':
        a = p.tval()
        return Ins('freeze', res, a.ty, (a,), None, l0)
    if op == 'select':
        c = p.tval()
        p.exp(',')
        a = p.tval()
        p.exp(',')
        b = p.tval()
        return Ins('select', res, a.ty, (c, a, b), None, l0)
    if op == 'alloca':
        p.acc('inalloca')
        t = p.type()
        cnt = None
        if p.acc(','):
            if p.peek()[1] != 'align':
                cnt = p.tval()
        return Ins('alloca', res, t, (cnt,), None, l0)
    if op == 'load':
        p.acc('atomic')
        p.acc('volatile')
        t = p.type()
        p.exp(',')
        a = p.tval()
        return Ins('load', res, t, (a,), None, l0)
    if op == 'store':
        p.acc('atomic')
        p.acc('volatile')
        v = p.tval()
        p.exp(',')
        a = p.tval()
        return Ins('store', None, v.ty, (v, a), None, l0)
    if op == 'getelementptr':
        t = p.type()
        p.exp(',')
        args = [p.tval()]
        while p.acc(','):
            args.append(p.tval())
        return Ins('getelementptr', res, t, args, None, l0)
    if op == 'phi':
        t = p.type()
        inc = []
        while True:
            p.exp('[')
            v = p.val(t)
            p.exp(',')
            b = unq(p.nx()[1])
            p.exp(']')
            inc.append((v, b))
            if not p.acc(','):
                break
        return Ins('phi', res, t, inc, None, l0)
    if op == 'br':
        if p.peek()[1] == 'label':
            p.nx()
            return Ins('br', None, None, (), [unq(p.nx()[1])], l0)
        c = p.tval()
        p.exp(',')
        p.exp('label')
        a = unq(p.nx()[1])
        p.exp(',')
        p.exp('label')
        b = unq(p.nx()[1])
        return Ins('condbr', None, None, (c,), [a, b], l0)
    if op == 'switch':
        v = p.tval()
        p.exp(',')
        p.exp('label')
        d = unq(p.nx()[1])
        p.exp('[')
        cases = []
        while not p.acc(']'):
            c = p.tval()
            p.exp(',')
            p.exp('label')
            cases.append((c.v, unq(p.nx()[1])))
        return Ins('switch', None, v.ty, (v,), (d, cases), l0)
    if op == 'ret':
        t = p.type()
        if t.k == 'void':
            return Ins('ret', None, t, (), None, l0)
        return Ins('ret', None, t, (p.val(t),), None, l0)
    if op == 'unreachable':
        return Ins('unreachable', None, None, (), None, l0)
    if op == 'resume':
        return Ins('resume', None, None, (), None, l0)
    if op == 'landingpad':
        cl = re.findall(r'\b(cleanup|catch ptr [^ ,]+|filter)', l)
        return Ins('landingpad', res, None, (), cl, l0)
    if op in ('extractvalue',):
        a = p.tval()
        idx = []
        while p.acc(','):
            idx.append(int(p.nx()[1]))
        return Ins('extractvalue', res, None, (a,), idx, l0)
    if op == 'insertvalue':
        a = p.tval()
        p.exp(',')
        b = p.tval()
        idx = []
        while p.acc(','):
            idx.append(int(p.nx()[1]))
        return Ins('insertvalue', res, a.ty, (a, b), idx, l0)
    if op in ('call', 'invoke'):
        while p.peek()[0] == 'word' and p.peek()[1] in ('fastcc', 'ccc', 'coldcc'):
            p.nx()
        while True:
            at = p.skip_attrs()
            if p.peek()[0] == 'word' and p.peek()[1] in FLAGS:
                p.nx()
                continue
            break
        t = p.type()
        rt = t.a if t.k == 'fn' else t
        k, v = p.nx()
        if k == 'glob':
            callee = Val('glob', PTR, unq(v))
        elif k == 'local':
            callee = Val('local', PTR, unq(v))
        elif v == 'asm':
            mm = re.match(r'.*?asm (?:sideeffect )?(?:inteldialect )?("[^"]*"), ("[^"]*")\(', l)
            if not mm:
                return Ins('asm', res, rt, (), l0, l0)
            while p.peek()[1] != '(':
                p.nx()
            callee = Val('asm', PTR, mm.group(1)[1:-1] + '|' + mm.group(2)[1:-1])
        else:
            p.i -= 1
            callee = p.val(PTR)
        p.exp('(')
        args = []
        if not p.acc(')'):
            while True:
                at = p.type()
                p.skip_attrs()
                if at.k == 'metadata':
                    # skip until , or ) at depth 0
                    d = 0
                    while not (d == 0 and p.peek()[1] in (',', ')')):
                        q = p.nx()[1]
                        if q in '([{':
                            d += 1
                        if q in ')]}':
                            d -= 1
                    args.append(Val('undef', at))
                else:
                    args.append(p.val(at))
                if p.acc(')'):
                    break
                p.exp(',')
        x = None
        if op == 'invoke':
            mm = re.search(r'to label (%"[^"]*"|%[\w.$\-]+) unwind label (%"[^"]*"|%[\w.$\-]+)', l)
            x = (unq(mm.group(1)), unq(mm.group(2)))
        return Ins(op, res, rt, (callee, args), x, l0)
    if op in ('fence',):
        return None
    return Ins('unsupported', res, None, (), op, l0)


def find_loops(f):
    """natural loops: {header: set(body)}"""
    if f.loops is not None:
        return f.loops
    succ = {}
    for b in f.order:
        succ[b] = succs(f.blocks[b])
    entry = f.order[0]
    # reachable, postorder
    seen = {entry}
    post = []
    st = [(entry, iter(succ[entry]))]
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succ[s])))
                break
        else:
            post.append(b)
            st.pop()
    rpo = post[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    pred = {b: [] for b in rpo}
    for b in rpo:
        for s in succ[b]:
            pred[s].append(b)
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [q for q in pred[b] if q in idom]
            x = ps[0]
            for q in ps[1:]:
                a, c = x, q
                while a != c:
                    while num[a] > num[c]:
                        a = idom[a]
                    while num[c] > num[a]:
                        c = idom[c]
                x = a
            if idom.get(b) != x:
                idom[b] = x
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == entry:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in succ[b]:
            if dom(s, b):
                body = loops.setdefault(s, {s})
                w = [b]
                while w:
                    x = w.pop()
                    if x not in body:
                        body.add(x)
                        w.extend(pred[x])
    f.loops = loops
    return loops


def succs(b):
    t = b.ins[-1]
    if t.op in ('br', 'condbr'):
        return list(t.x)
    if t.op == 'switch':
        return [t.x[0]] + [c[1] for c in t.x[1]]
    if t.op == 'invoke':
        return list(t.x)
    return []


def rpo(f):
    if getattr(f, 'rpo_', None) is None:
        seen = set()
        post = []
        entry = f.order[0]
        seen.add(entry)
        # visit loop exits first so that they come last in reverse post order
        loops = find_loops(f)

        def depth(b):
            return sum(1 for h, body in loops.items() if b in body)
        st = [(entry, iter(sorted(succs(f.blocks[entry]), key=depth)))]
        while st:
            b, it = st[-1]
            for q in it:
                if q not in seen:
                    seen.add(q)
                    st.append((q, iter(sorted(succs(f.blocks[q]), key=depth))))
                    break
            else:
                post.append(b)
                st.pop()
        f.rpo_ = {b: i for i, b in enumerate(reversed(post))}
    return f.rpo_


def _uses(v, out):
    if v is None:
        return
    if isinstance(v, Val):
        if v.k == 'local':
            out.add(v.v)
        elif v.k in ('arr', 'struct'):
            for x in v.v:
                _uses(x, out)
        return
    if isinstance(v, (list, tuple)):
        for x in v:
            _uses(x, out)


def live_in(f):
    """registers live at the start of each block, after its phis are assigned"""
    if getattr(f, 'live_', None) is not None:
        return f.live_
    use, deff = {}, {}
    for n, b in f.blocks.items():
        u, d = set(), set()
        for x in b.ins:
            q = set()
            _uses(x.a, q)
            u |= q - d
            if x.res:
                d.add(x.res)
        use[n], deff[n] = u, d
    live = {n: set(use[n]) for n in f.blocks}
    ch = True
    while ch:
        ch = False
        for n in reversed(f.order):
            out = set()
            for q in succs(f.blocks[n]):
                b = f.blocks[q]
                out |= live[q] - {ph.res for ph in b.phis}
                for ph in b.phis:
                    for v, pb in ph.a:
                        if pb == n:
                            _uses(v, out)
            new = use[n] | (out - deff[n])
            if not new <= live[n]:
                live[n] |= new
                ch = True
    # phis defined here stay live only if used below: they are in live already when used
    f.live_ = live
    return live
