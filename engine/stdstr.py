"""Contracts of std::string: a string is a length and its bytes; every modification gives it new storage,
so that pointers into a modified string are invalid."""
import z3
from vc import *
from vc import B, Eq
from lib import *

ASSUME = 'std::string operations satisfy their standard specification (exceptions for lack of memory are not followed)'
SN = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>'
MAXS = 1 << 46


def str_at(p):
    if not isinstance(p, Ptr) or p.obj is None or is_sym(p.off):
        raise Unsupported('string object %r' % (p,))
    return p.obj, p.off


def str_state(st, o, off=0):
    c = st.mem.get((o, ('c', off)))
    n = st.mem.get((o, ('c', off + 8)))
    if c is None or n is None or not isinstance(c[1], Ptr):
        raise Unsupported('uninitialised string in %s' % o)
    return c[1].obj, n[1]


def str_bytes(eng, st, p):
    """(length, byte(j)) of a string"""
    if isinstance(p, Ptr) and p.obj is not None and p.obj.tags.get('strings'):
        if p.obj in st.dead:
            eng.oblige(st, 'string in storage that is gone', False, 'lifetime')
            raise PathEnd()
        i, c = eng.elem(st, p)
        if c:
            raise Unsupported('inside a string object')
        eng.in_bounds(st, p, 32, 'string element')
        n = z3.Select(eng.getghost(st, p.obj, 'slen'), i)
        m = z3.Select(eng.getghost(st, p.obj, 'sbytes'), i)
        return n, (lambda j: z3.Select(m, j))
    o, off = str_at(p)
    b, n = str_state(st, o, off)
    m = eng.getmap(st, b, 0, I8)
    return n, (lambda j: z3.Select(m, j))


def str_new(eng, st, name, n, byte=None):
    """storage of a string of n bytes followed by a zero"""
    b = Obj(eng.fresh_name(name), 'str', n + 1, stride=1, count=n + 1)
    if byte is None:
        m = eng.getmap(st, b, 0, I8)
        st.assume(z3.Select(m, n) == 0)
        return b
    if not is_sym(n) and n <= 16:
        m = eng.getmap(st, b, 0, I8)
        for j in range(n):
            m = z3.Store(m, j, byte(z3.IntVal(j)))
        st.mem[(b, ('m', 0, 1, False))] = z3.Store(m, n, 0)
        return b
    m = eng.getmap(st, b, 0, I8)
    j = z3.Int(eng.fresh_name('js'))
    st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(m, j) == byte(j)), patterns=[z3.Select(m, j)]))
    st.assume(z3.Select(m, n) == 0)
    return b


def str_set(eng, st, p, n, byte, name='str'):
    o, off = str_at(p)
    old = st.mem.get((o, ('c', off)))
    b = str_new(eng, st, name, n, byte)
    if old is not None and isinstance(old[1], Ptr) and old[1].obj is not None and old[1].obj.kind == 'str':
        if old[1].obj not in eng.opts.get('keep_str', ()):
            st.dead[old[1].obj] = 'string modification'
    st.mem[(o, ('c', off))] = (PTR, Ptr(b, 0))
    st.mem[(o, ('c', off + 8))] = (I64, n)
    st.writes.add((o, ('c', off)))
    st.writes.add((o, ('c', off + 8)))
    return b


def str_param(eng, st, name, limit=MAXS):
    """an arbitrary string object"""
    o = Obj(name, 'param', 32)
    n = z3.Int(name + '.length')
    st.assume(z3.And(n >= 0, n < limit))
    b = str_new(eng, st, name + '.bytes', n)
    st.mem[(o, ('c', 0))] = (PTR, Ptr(b, 0))
    st.mem[(o, ('c', 8))] = (I64, n)
    m = eng.getmap(st, b, 0, I8)
    j = z3.Int(name + '.j')
    st.assume(FA([j], z3.And(z3.Select(m, j) >= 0, z3.Select(m, j) < 256), pats=[z3.Select(m, j)]))
    return o, n, (lambda k: z3.Select(m, k))


def range_bytes(eng, st, p, n, what):
    """bytes [p, p+n) of memory"""
    if p.obj is None:
        eng.oblige(st, '%s: null pointer only with no bytes' % what, Eq(n, 0))
        return lambda j: z3.IntVal(0)
    if not (not is_sym(n) and n == 0):
        eng.in_bounds_range(st, p, n, what)
    if p.obj.stride == 1:
        m = eng.getmap(st, p.obj, 0, I8)
        off = p.off
        return lambda j: z3.Select(m, off + j)
    if not is_sym(n) and n <= 64 and not is_sym(p.off):
        vals = [eng.load(st, Ptr(p.obj, p.off + k), I8) for k in range(n)]

        def f(j):
            r = z3.IntVal(0)
            for k, v in enumerate(vals):
                r = z3.If(j == k, v, r)
            return r
        return f
    raise Unsupported('bytes of %s' % p.obj)


def cstr_len(eng, st, p, what):
    """length of a zero-terminated byte string at p"""
    o = p.obj
    if o is None:
        eng.oblige(st, 'no null string (%s)' % what, False)
        raise PathEnd()
    if o.stride is None and not is_sym(p.off):
        for k in range(0, 4096):
            if o.size is not None and p.off + k >= o.size:
                break
            v = eng.load(st, Ptr(o, p.off + k), I8)
            if is_sym(v):
                break
            if v == 0:
                return k
        raise Unsupported('strlen of %s' % o)
    m = eng.getmap(st, o, 0, I8)
    if not is_sym(p.off):
        for k in range(0, 4096):
            v = z3.simplify(z3.Select(m, p.off + k))
            if not z3.is_int_value(v):
                break
            if v.as_long() == 0:
                return k
    n = z3.Int(eng.fresh_name('strlen'))
    j = z3.Int(eng.fresh_name('jz'))
    z = o.tags.get('zero_at', o.count - 1 if o.kind == 'str' else None)
    if z is None:
        eng.oblige(st, 'the bytes given to %s end with a zero' % what, False)
        raise PathEnd()
    eng.oblige(st, '%s: pointer to a zero-terminated string' % what, z3.And(B(p.off >= 0), B(p.off <= z)))
    st.assume(z3.And(n >= 0, z3.Select(m, p.off + n) == 0, p.off + n < o.count))
    st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(m, p.off + j) != 0), patterns=[z3.Select(m, p.off + j)]))
    return n


def string_contracts(eng):
    eng.assumptions.add(ASSUME)
    S = SN + '::'
    A = eng.contract
    c = lambda v: v if is_sym(v) else z3.IntVal(v)

    def lit(b):
        return lambda j: c(b)

    def ctor0(eng, st, fn, args):
        str_set(eng, st, args[0], 0, lit(0))

    def ctor_copy(eng, st, fn, args):
        n, f = str_bytes(eng, st, args[1])
        str_set(eng, st, args[0], n, f)

    def ctor_move(eng, st, fn, args):
        n, f = str_bytes(eng, st, args[1])
        str_set(eng, st, args[0], n, f)
        str_set(eng, st, args[1], 0, lit(0))

    def ctor_cstr(eng, st, fn, args):
        n = cstr_len(eng, st, args[1], 'string constructor')
        str_set(eng, st, args[0], n, range_bytes(eng, st, args[1], n, 'string constructor'))

    def ctor_ptr(eng, st, fn, args):
        str_set(eng, st, args[0], args[2], range_bytes(eng, st, args[1], args[2], 'string constructor'))

    def ctor_fill(eng, st, fn, args):
        str_set(eng, st, args[0], args[1], lit(args[2]))

    def dtor(eng, st, fn, args):
        o, off = str_at(args[0])
        b, n = str_state(st, o, off)
        if b in st.dead:
            eng.oblige(st, 'a string is destroyed once', False, 'lifetime')
            raise PathEnd()
        st.dead[b] = 'string destruction'

    def assign(eng, st, fn, args):
        n, f = str_bytes(eng, st, args[1])
        if str_at(args[0]) == str_at(args[1]):
            return args[0]
        str_set(eng, st, args[0], n, f)
        return args[0]

    def assign_move(eng, st, fn, args):
        assign(eng, st, fn, args)
        if str_at(args[0]) != str_at(args[1]):
            str_set(eng, st, args[1], 0, lit(0))
        return args[0]

    def assign_cstr(eng, st, fn, args):
        n = cstr_len(eng, st, args[1], 'string assignment')
        str_set(eng, st, args[0], n, range_bytes(eng, st, args[1], n, 'string assignment'))
        return args[0]

    def assign_char(eng, st, fn, args):
        str_set(eng, st, args[0], 1, lit(args[1]))
        return args[0]

    def assign_ptr(eng, st, fn, args):
        str_set(eng, st, args[0], args[2], range_bytes(eng, st, args[1], args[2], 'string assignment'))
        return args[0]

    def extend(eng, st, p, k, g):
        n, f = str_bytes(eng, st, p)
        str_set(eng, st, p, n + k, lambda j: z3.If(j < n, f(j), g(j - n)))
        return p

    def append_str(eng, st, fn, args):
        n, f = str_bytes(eng, st, args[1])
        return extend(eng, st, args[0], n, f)

    def append_cstr(eng, st, fn, args):
        n = cstr_len(eng, st, args[1], 'string append')
        return extend(eng, st, args[0], n, range_bytes(eng, st, args[1], n, 'string append'))

    def append_ptr(eng, st, fn, args):
        return extend(eng, st, args[0], args[2], range_bytes(eng, st, args[1], args[2], 'string append'))

    def append_fill(eng, st, fn, args):
        return extend(eng, st, args[0], args[1], lit(args[2]))

    def append_char(eng, st, fn, args):
        return extend(eng, st, args[0], 1, lit(args[1]))

    def push(eng, st, fn, args):
        extend(eng, st, args[0], 1, lit(args[1]))

    def size(eng, st, fn, args):
        return str_bytes(eng, st, args[0])[0]

    def empty(eng, st, fn, args):
        return Eq(str_bytes(eng, st, args[0])[0], 0)

    def data(eng, st, fn, args):
        o, off = str_at(args[0])
        return Ptr(str_state(st, o, off)[0], 0)

    def end(eng, st, fn, args):
        o, off = str_at(args[0])
        b, n = str_state(st, o, off)
        return Ptr(b, n)

    def index(eng, st, fn, args):
        o, off = str_at(args[0])
        b, n = str_state(st, o, off)
        eng.oblige(st, 'string index in range', And(B(args[1] >= 0), B(args[1] <= n)))
        return Ptr(b, args[1])

    def at(eng, st, fn, args):
        o, off = str_at(args[0])
        b, n = str_state(st, o, off)
        # out of range throws
        ok = B(args[1] < n)
        if not eng.feasible(st, ok):
            return []
        st.assume(ok)
        return Ptr(b, args[1])

    def back(eng, st, fn, args):
        o, off = str_at(args[0])
        b, n = str_state(st, o, off)
        eng.oblige(st, 'back() of a string that is not empty', B(n > 0))
        return Ptr(b, n - 1)

    def clear(eng, st, fn, args):
        str_set(eng, st, args[0], 0, lit(0))

    def resize(eng, st, fn, args):
        n, f = str_bytes(eng, st, args[0])
        ch = args[2] if len(args) > 2 else 0
        # larger sizes than max_size() throw
        lim = B(args[1] <= MAXS)
        if not eng.feasible(st, lim):
            return []
        st.assume(lim)
        str_set(eng, st, args[0], args[1], lambda j: z3.If(j < n, f(j), c(ch)))

    def reserve(eng, st, fn, args):
        n, f = str_bytes(eng, st, args[0])
        str_set(eng, st, args[0], n, f)

    def sub(eng, st, d, s, pos, k):
        n, f = str_bytes(eng, st, s)
        ok = B(pos <= n)     # otherwise out_of_range
        if not eng.feasible(st, ok):
            return False
        st.assume(ok)
        ln = z3.If(B(k < n - pos), c(k), n - pos)
        ln = z3.simplify(ln) if is_sym(ln) else ln
        if is_sym(ln) and z3.is_int_value(ln):
            ln = ln.as_long()
        str_set(eng, st, d, ln, lambda j: f(j + pos))
        return True

    def substr(eng, st, fn, args):
        # returned through a hidden first argument
        if not sub(eng, st, args[0], args[1], args[2], args[3]):
            return []

    def ctor_sub(eng, st, fn, args):
        if not sub(eng, st, args[0], args[1], args[2], args[3] if len(args) > 3 else MAXS):
            return []

    def find_char(eng, st, fn, args):
        n, f = str_bytes(eng, st, args[0])
        ch, pos = args[1], args[2] if len(args) > 2 else 0
        return eng_find(eng, st, n, lambda j: f(j) == ch, pos, args[0])

    def find_set(neg):
        def h(eng, st, fn, args):
            n, f = str_bytes(eng, st, args[0])
            if args[1].obj is not None and str_ok(st, args[1]):
                k, g = str_bytes(eng, st, args[1])
            else:
                k = cstr_len(eng, st, args[1], 'find')
                g = range_bytes(eng, st, args[1], k, 'find')
            if is_sym(k):
                raise Unsupported('find_first_of a symbolic set')
            cs = [g(z3.IntVal(i)) for i in range(k)]
            pred = lambda j: z3.Or([f(j) == x for x in cs] + [False])
            return eng_find(eng, st, n, (lambda j: z3.Not(pred(j))) if neg else pred, args[2] if len(args) > 2 else 0, args[0])
        return h

    def str_ok(st, p):
        return isinstance(p, Ptr) and not is_sym(p.off) and (p.obj, ('c', p.off)) in st.mem and (p.obj, ('c', p.off + 8)) in st.mem

    def eng_find(eng, st, n, pred, pos, what):
        """smallest position >= pos with pred, or npos: two cases"""
        outs = []
        j = z3.Int(eng.fresh_name('jf'))
        s1, s2 = st.copy(), st
        r = z3.Int(eng.fresh_name('found'))
        s1.assume(z3.And(r >= pos, r < n, pred(r)))
        s1.assume(z3.ForAll([j], z3.Implies(z3.And(j >= pos, j < r), z3.Not(pred(j))), patterns=pats(pred(j))))
        s2.assume(z3.ForAll([j], z3.Implies(z3.And(j >= pos, j < n), z3.Not(pred(j))), patterns=pats(pred(j))))
        if eng.feasible(s1, z3.BoolVal(True)):
            outs.append((s1, r))
        outs.append((s2, (1 << 64) - 1))
        for s, r in outs:
            if eng.opts.get('find_hook'):
                eng.opts['find_hook'](eng, s, what, pos, r)
        return outs

    def pats(t):
        sel = []

        def w(x):
            if z3.is_select(x):
                sel.append(x)
            for y in x.children():
                w(y)
        w(t)
        return sel[:1]

    def equal_n(eng, st, n1, f1, n2, f2):
        r = z3.Bool(eng.fresh_name('streq'))
        j, k = z3.Int(eng.fresh_name('je')), z3.Int(eng.fresh_name('differ'))
        st.assume(z3.Implies(r, z3.And(B(Eq(n1, n2)), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n1), f1(j) == f2(j))))))
        st.assume(z3.Implies(z3.And(z3.Not(r), B(Eq(n1, n2))), z3.And(k >= 0, k < n1, f1(k) != f2(k))))
        return r

    def eq(neg, cstr):
        def h(eng, st, fn, args):
            n1, f1 = str_bytes(eng, st, args[0])
            if cstr:
                n2 = cstr_len(eng, st, args[1], 'comparison')
                f2 = range_bytes(eng, st, args[1], n2, 'comparison')
            else:
                n2, f2 = str_bytes(eng, st, args[1])
            if not is_sym(n2) and n2 <= 16:
                r = z3.And([B(Eq(n1, n2))] + [f1(z3.IntVal(i)) == f2(z3.IntVal(i)) for i in range(n2)])
            else:
                r = equal_n(eng, st, n1, f1, n2, f2)
            return z3.Not(r) if neg else r
        return h

    def find_str(eng, st, fn, args):
        n, f = str_bytes(eng, st, args[0])
        if isinstance(args[1], Ptr) and args[1].obj is not None and str_ok(st, args[1]):
            k, g = str_bytes(eng, st, args[1])
        else:
            k = cstr_len(eng, st, args[1], 'find')
            g = range_bytes(eng, st, args[1], k, 'find')
        if is_sym(k):
            raise Unsupported('find of a string of any length')
        if k == 1:
            x = g(z3.IntVal(0))
            return eng_find(eng, st, n, lambda j: f(j) == x, args[2], args[0])
        raise Unsupported('find of a longer string')

    def insert_cstr(eng, st, fn, args):
        n, f = str_bytes(eng, st, args[0])
        pos = args[1]
        k = cstr_len(eng, st, args[2], 'insert')
        g = range_bytes(eng, st, args[2], k, 'insert')
        ok = B(pos <= n)     # otherwise out_of_range
        if not eng.feasible(st, ok):
            return []
        st.assume(ok)
        str_set(eng, st, args[0], n + k, lambda j: z3.If(j < pos, f(j), z3.If(j < pos + k, g(j - pos), f(j - k))))
        return args[0]

    def append_range(eng, st, fn, args):
        a, b = args[1], args[2]
        if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and a.obj is not None):
            raise Unsupported('append of a range')
        k = b.off - a.off
        eng.oblige(st, 'append: a range that does not end before it begins', B(k >= 0) if is_sym(k) else k >= 0)
        return extend(eng, st, args[0], k, range_bytes(eng, st, a, k, 'append'))

    def compare_at(eng, st, fn, args):
        n, f = str_bytes(eng, st, args[0])
        pos, k = args[1], args[2]
        m, g = str_bytes(eng, st, args[3])
        ok = B(pos <= n)     # otherwise out_of_range
        if not eng.feasible(st, ok):
            return []
        st.assume(ok)
        ln = z3.If(B(k < n - pos), c(k), n - pos)
        same = equal_n(eng, st, ln, lambda j: f(j + pos), m, g)
        r = z3.Int(eng.fresh_name('compare'))
        st.assume(z3.And(r >= 0, r < 1 << 32, same == (r == 0)))
        return r

    def swap(eng, st, fn, args):
        a, b = str_at(args[0]), str_at(args[1])
        for d in (0, 8):
            x, y = st.mem[(a[0], ('c', a[1] + d))], st.mem[(b[0], ('c', b[1] + d))]
            st.mem[(a[0], ('c', a[1] + d))], st.mem[(b[0], ('c', b[1] + d))] = y, x
            st.writes.add((a[0], ('c', a[1] + d)))
            st.writes.add((b[0], ('c', b[1] + d)))

    def plus(kind):
        def h(eng, st, fn, args):
            def part(p, k):
                if k == 's':
                    return str_bytes(eng, st, p)
                if k == 'c':
                    return 1, lit(p)
                n = cstr_len(eng, st, p, 'operator+')
                return n, range_bytes(eng, st, p, n, 'operator+')
            n1, f1 = part(args[1], kind[0])
            n2, f2 = part(args[2], kind[1])
            str_set(eng, st, args[0], n1 + n2, lambda j: z3.If(j < n1, f1(j), f2(j - n1)))
        return h
    ST = SN + r' const&'
    AL = r'std::allocator<char> const&'
    A(r'^%sbasic_string\(\)$' % S, ctor0)
    A(r'^%sbasic_string\(%s\)$' % (S, AL), ctor0)
    A(r'^%sbasic_string\(%s\)$' % (S, ST), ctor_copy)
    A(r'^%sbasic_string\(%s&&\)$' % (S, SN), ctor_move)
    A(r'^%sbasic_string(<.*>)?\(char const\*, %s\)$' % (S, AL), ctor_cstr)
    A(r'^%sbasic_string\(char const\*, unsigned long, %s\)$' % (S, AL), ctor_ptr)
    A(r'^%sbasic_string\(unsigned long, char, %s\)$' % (S, AL), ctor_fill)
    A(r'^%sbasic_string\(%s, unsigned long(, unsigned long)?\)$' % (S, ST), ctor_sub)
    A(r'^%s~basic_string\(\)$' % S, dtor)
    A(r'^%s(operator=|assign)\(%s\)$' % (S, ST), assign)
    A(r'^%s(operator=|assign)\(%s&&\)$' % (S, SN), assign_move)
    A(r'^%s(operator=|assign)\(char const\*\)$' % S, assign_cstr)
    A(r'^%soperator=\(char\)$' % S, assign_char)
    A(r'^%sassign\(char const\*, unsigned long\)$' % S, assign_ptr)
    A(r'^%s(append|operator\+=)\(%s\)$' % (S, ST), append_str)
    A(r'^%s(append|operator\+=)\(char const\*\)$' % S, append_cstr)
    A(r'^%sappend\(char const\*, unsigned long\)$' % S, append_ptr)
    A(r'^%sappend\(unsigned long, char\)$' % S, append_fill)
    A(r'^%soperator\+=\(char\)$' % S, append_char)
    A(r'^%spush_back\(char\)$' % S, push)
    A(r'^%s(size|length)\(\) const$' % S, size)
    A(r'^%sempty\(\) const$' % S, empty)
    A(r'^%s(data|c_str|begin|cbegin)\(\)( const)?$' % S, data)
    A(r'^%s(end|cend)\(\)( const)?$' % S, end)
    A(r'^%soperator\[\]\(unsigned long\)( const)?$' % S, index)
    A(r'^%sat\(unsigned long\)( const)?$' % S, at)
    A(r'^%sback\(\)( const)?$' % S, back)
    A(r'^%sclear\(\)$' % S, clear)
    A(r'^%sresize\(unsigned long(, char)?\)$' % S, resize)
    A(r'^%sreserve\(' % S, reserve)
    A(r'^%ssubstr\(unsigned long, unsigned long\) const$' % S, substr)
    A(r'^%sfind\(char, unsigned long\) const$' % S, find_char)
    A(r'^%sfind_first_of\((char const\*|%s), unsigned long\) const$' % (S, ST), find_set(False))
    A(r'^%sfind_first_not_of\((char const\*|%s), unsigned long\) const$' % (S, ST), find_set(True))
    A(r'^%sfind\((char const\*|%s), unsigned long\) const$' % (S, ST), find_str)
    A(r'^%sinsert\(unsigned long, char const\*\)$' % S, insert_cstr)
    A(r'%sappend<__gnu_cxx::__normal_iterator<char( const)?\*, .*\)$' % S.lstrip('^'), append_range)
    A(r'^%scompare\(unsigned long, unsigned long, %s\) const$' % (S, ST), compare_at)
    A(r'^%sswap\(%s&\)$' % (S, SN), swap)
    A(r'^bool std::operator==<char, std::char_traits<char>, std::allocator<char> ?>\(%s, %s\)$' % (ST, ST), eq(False, False))
    A(r'^bool std::operator==<char>\(%s, %s\)$' % (ST, ST), eq(False, False))
    A(r'^bool std::operator==<char, std::char_traits<char>, std::allocator<char> ?>\(%s, char const\*\)$' % ST, eq(False, True))
    A(r'^bool std::operator!=<char, std::char_traits<char>, std::allocator<char> ?>\(%s, %s\)$' % (ST, ST), eq(True, False))
    A(r'^bool std::operator!=<char, std::char_traits<char>, std::allocator<char> ?>\(%s, char const\*\)$' % ST, eq(True, True))
    for a, k in ((ST, 's'), (SN + '&&', 's'), (r'char const\*', 'p'), ('char', 'c')):
        for b, l in ((ST, 's'), (SN + '&&', 's'), (r'char const\*', 'p'), ('char', 'c')):
            if 's' in (k, l):
                A(r'^%s std::operator\+<char, std::char_traits<char>, std::allocator<char> ?>\(%s, %s\)$' % (SN, a, b), plus(k + l))
    A(r'^std::allocator<char>::(~)?allocator\(', h_nop)
    A(r'^strlen$', lambda eng, st, fn, args: cstr_len(eng, st, args[0], 'strlen'))


def string_invs(L):
    """strings modified in a loop: storage matches the length"""
    out = []
    for key, (p, p0) in sorted(L.ptrs.items(), key=lambda kv: str(kv[0])):
        if key[0] == 'phi' or p.obj.kind != 'str' or p0.obj.kind != 'str':
            continue
        o, k = key
        if k[0] != 'c' or (o, ('c', k[1] + 8)) not in L.st.mem:
            continue     # an iterator
        n = L.st.mem[(o, ('c', k[1] + 8))][1]
        m = L.eng.getmap(L.st, p.obj, 0, I8)
        nm = 'string %s+%d' % (o.name, k[1])
        out.append((nm + ' storage', And(B(Eq(p.obj.count, n + 1)), B(n >= 0))))
        out.append((nm + ' terminated', z3.Select(m, n) == 0))
    return out


CTYPE = {
    'isprint': lambda c: z3.And(c >= 32, c < 127),
    'isxdigit': lambda c: z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 70), z3.And(c >= 97, c <= 102)),
    'isblank': lambda c: z3.Or(c == 32, c == 9),
    'isspace': lambda c: z3.Or(c == 32, z3.And(c >= 9, c <= 13)),
    'isdigit': lambda c: z3.And(c >= 48, c <= 57),
    'isalpha': lambda c: z3.Or(z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122)),
    'isalnum': lambda c: z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122)),
    'isupper': lambda c: z3.And(c >= 65, c <= 90),
    'islower': lambda c: z3.And(c >= 97, c <= 122),
    'iscntrl': lambda c: z3.Or(z3.And(c >= 0, c < 32), c == 127),
    'isascii': lambda c: z3.And(c >= 0, c < 128),
}
CTYPE_ASSUME = 'the ctype functions classify as in the "C" locale and accept -128 to 255, as the GNU C library documents'


def ctype_contracts(eng):
    eng.assumptions.add(CTYPE_ASSUME)

    def arg(eng, st, v, what):
        c = eng.signed(st, v, 32)
        eng.oblige(st, '%s is given a character' % what, And(B(c >= -128), B(c <= 255)), 'pre')
        return B_int(c)

    def pred(name, p):
        def h(eng, st, fn, args):
            c = eng.signed(st, args[0], 32)
            c = arg(eng, st, args[0], name) if name != 'isascii' else B_int(c)
            r = z3.Int(eng.fresh_name(name))
            st.assume(z3.And(r >= 0, r < 1 << 31, p(c) == (r != 0)))
            return r
        return h
    for name, p in CTYPE.items():
        eng.contract(r'^%s$' % name, pred(name, p))

    def conv(name, lo, hi, d):
        def h(eng, st, fn, args):
            c = arg(eng, st, args[0], name)
            r = z3.Int(eng.fresh_name(name))
            st.assume(r == z3.If(z3.And(c >= lo, c <= hi), c + d, z3.If(c < 0, c + (1 << 32), c)))
            return r
        return h
    eng.contract(r'^toupper$', conv('toupper', 97, 122, -32))
    eng.contract(r'^tolower$', conv('tolower', 65, 90, 32))


def string_vector(eng):
    """std::vector<std::string>: lengths and bytes of the elements as ghost maps"""
    import stdvec
    gs = eng.opts.setdefault('ghost_sorts', {})
    gs['slen'] = z3.IntSort()
    gs['sbytes'] = z3.ArraySort(z3.IntSort(), z3.IntSort())
    T = stdvec.VecType('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >', 32,
                       [('val', 0, 'slen'), ('val', 0, 'sbytes')])
    T.tags = {'strings': True}

    def read(eng, st, p):
        if p.obj is not None and p.obj.tags.get('strings'):
            i, c = eng.elem(st, p)
            eng.in_bounds(st, p, 32, 'string element')
            return [z3.Select(eng.getghost(st, p.obj, 'slen'), i), z3.Select(eng.getghost(st, p.obj, 'sbytes'), i)]
        o, off = str_at(p)
        b, n = str_state(st, o, off)
        return [B_int(n), eng.getmap(st, b, 0, I8)]
    T.read = read
    stdvec.vector_contracts(eng, T)
    return T
