"""Assumed contracts of std::vector (ISO C++), used when the code under verification stores its
data in one.  The three words of the object are used as: pointer to the storage, number of
elements, capacity.  Nothing but these contracts reads them."""
import re
import z3
from vc import *

ASSUME = 'std::vector obeys its ISO C++ specification (size, indexing, push_back, resize, reserve, clear, assignment); every growing operation may move the elements'


class VecType:
    """el: element class/type name as demangled; fields: [('int', off, type) | ('val', off, ghostname)]"""

    def __init__(self, cname, stride, fields, mark=None, default=None):
        self.cname, self.stride, self.fields, self.mark, self.default = cname, stride, fields, mark, default


def vec_state(st, o, off):
    p, n, c = (st.mem.get((o, ('c', off + k))) for k in (0, 8, 16))
    if p is None or n is None:
        raise Unsupported('vector used before construction')
    return p[1], n[1], c[1]


def vec_set(st, o, off, p, n, c):
    for k, t, v in ((0, PTR, p), (8, I64, n), (16, I64, c)):
        st.mem[(o, ('c', off + k))] = (t, v)
        st.writes.add((o, ('c', off + k)))


def vec_setsize(st, o, off, n):
    st.mem[(o, ('c', off + 8))] = (I64, n)
    st.writes.add((o, ('c', off + 8)))


def new_buf(eng, st, T, cap, name='vecbuf'):
    o = eng.new_obj(st, name, 'heap', cap * T.stride, stride=T.stride, count=cap)
    o.tags.update(getattr(T, 'tags', {}))
    return o


def field_get(eng, st, o, f):
    return eng.getmap(st, o, f[1], f[2]) if f[0] == 'int' else eng.getghost(st, o, f[2])


def field_set(eng, st, o, f, m):
    if f[0] == 'int':
        eng.setmap(st, o, f[1], f[2], m)
    else:
        eng.setghost(st, o, f[2], m)


def read_elem(eng, st, T, p):
    """the field values of the element p points to (in an array, or a stand-alone object)"""
    if getattr(T, 'read', None):
        return T.read(eng, st, p)
    eng.in_bounds(st, p, T.stride, 'element')
    o = p.obj
    if o.stride is None and o.kind in ('stack', 'heap', 'param') and not is_sym(o.size) and o.size >= T.stride and not is_sym(p.off):
        out = []
        for f in T.fields:
            if f[0] == 'int':
                out.append(eng.load(st, eng.ptr_add(p, f[1]), f[2]))
            else:
                out.append(z3.Select(eng.getghost(st, o, f[2]), p.off + f[1]))
        return out
    i, c = eng.elem(st, p)
    if c:
        raise Unsupported('misaligned element')
    return [z3.Select(field_get(eng, st, o, f), i) for f in T.fields]


def map_lambda(eng, st, T, src, dst, fn):
    """dst := element-wise function of src's maps: fn(field, j, old) -> term"""
    j = z3.Int(eng.fresh_name('jv'))
    for f in T.fields:
        m = field_get(eng, st, src, f) if src is not None else None
        nm = z3.Const(eng.fresh_name('vm'), (m.sort() if m is not None else field_get(eng, st, dst, f).sort()))
        v = fn(f, j, z3.Select(m, j) if m is not None else None)
        if v is not None:
            st.assume(z3.ForAll([j], z3.Select(nm, j) == v, patterns=[z3.Select(nm, j)]))
        field_set(eng, st, dst, f, nm)


def share_maps(eng, st, T, src, dst):
    for f in T.fields:
        field_set(eng, st, dst, f, field_get(eng, st, src, f))


def vector_contracts(eng, T):
    eng.assumptions.add(ASSUME)
    c = re.escape(T.cname)
    V = r'^std::vector<%s, std::allocator<%s ?> ?>::' % (c, c)

    def at(p):
        if not isinstance(p, Ptr) or p.obj is None or is_sym(p.off):
            raise Unsupported('vector object %r' % (p,))
        return p.obj, p.off

    def mark(st, i):
        if T.mark is not None:
            st.assume(T.mark(B_int(i)))

    def ctor(eng, st, fn, args):
        o, off = at(args[0])
        vec_set(st, o, off, NULL, 0, 0)

    def size(eng, st, fn, args):
        return vec_state(st, *at(args[0]))[1]

    def cap(eng, st, fn, args):
        return vec_state(st, *at(args[0]))[2]

    def empty(eng, st, fn, args):
        return Eq(vec_state(st, *at(args[0]))[1], 0)

    def index(eng, st, fn, args):
        p, n, _ = vec_state(st, *at(args[0]))
        i = args[1]
        eng.oblige(st, 'vector index in range', z3.And(B(i >= 0), B(i < n)) if is_sym(i) or is_sym(n) else 0 <= i < n)
        if p.obj is None:
            raise PathEnd()
        mark(st, i)
        return Ptr(p.obj, i * T.stride)

    def front(eng, st, fn, args):
        return index(eng, st, fn, [args[0], 0])

    def back(eng, st, fn, args):
        return index(eng, st, fn, [args[0], vec_state(st, *at(args[0]))[1] - 1])

    def clear(eng, st, fn, args):
        o, off = at(args[0])
        vec_setsize(st, o, off, 0)

    def kill(st, p):
        if p.obj is not None:
            st.dead[p.obj] = 'reallocation of the vector'
            st.writes.add((p.obj, ('free',)))

    def grown(eng, st, n):
        cap = z3.Int(eng.fresh_name('cap'))
        st.assume(z3.And(cap >= n, cap < (1 << 60)))
        return cap

    def push(eng, st, fn, args):
        o, off = at(args[0])
        p, n, _ = vec_state(st, o, off)
        vals = read_elem(eng, st, T, args[1])
        b = new_buf(eng, st, T, grown(eng, st, n + 1))
        for f, v in zip(T.fields, vals):
            if p.obj is not None:
                m = field_get(eng, st, p.obj, f)
            else:
                m = field_get(eng, st, b, f)
            field_set(eng, st, b, f, z3.Store(m, n, v))
        mark(st, n)
        kill(st, p)
        vec_set(st, o, off, Ptr(b, 0), n + 1, b.count)

    def pop(eng, st, fn, args):
        o, off = at(args[0])
        _, n, _ = vec_state(st, o, off)
        eng.oblige(st, 'pop_back of a non-empty vector', n > 0)
        vec_setsize(st, o, off, n - 1)

    def reserve(eng, st, fn, args):
        o, off = at(args[0])
        p, n, cp = vec_state(st, o, off)
        c2 = grown(eng, st, n)
        st.assume(z3.And(c2 >= args[1]))
        b = new_buf(eng, st, T, c2)
        if p.obj is not None:
            share_maps(eng, st, T, p.obj, b)
        kill(st, p)
        vec_set(st, o, off, Ptr(b, 0), n, c2)

    def resize(eng, st, fn, args):
        o, off = at(args[0])
        p, n, cp = vec_state(st, o, off)
        m = args[1]
        if len(args) > 2:
            if not isinstance(args[2], Ptr):
                vals = [args[2]]
            else:
                vals = read_elem(eng, st, T, args[2])
        elif T.default is not None:
            vals = T.default
        else:
            raise Unsupported('resize of opaque elements')
        b = new_buf(eng, st, T, grown(eng, st, m))
        if p.obj is None:
            j = z3.Int(eng.fresh_name('jv'))
            for f, v in zip(T.fields, vals):
                old = field_get(eng, st, b, f)
                field_set(eng, st, b, f, z3.K(old.sort().domain(), B_int(v)))
        else:
            byf = {id(f): v for f, v in zip(T.fields, vals)}
            map_lambda(eng, st, T, p.obj, b, lambda f, j, old: z3.If(j < n, old, B_int(byf[id(f)])))
        kill(st, p)
        vec_set(st, o, off, Ptr(b, 0), m, b.count)

    def copyto(eng, st, dst, src):
        p, n, cp = vec_state(st, *src)
        b = new_buf(eng, st, T, grown(eng, st, n))
        if p.obj is not None:
            share_maps(eng, st, T, p.obj, b)
        vec_set(st, dst[0], dst[1], Ptr(b, 0), n, b.count)

    def assign(eng, st, fn, args):
        d, s = at(args[0]), at(args[1])
        if d == s:
            return args[0]
        old = vec_state(st, *d)[0]
        copyto(eng, st, d, s)
        kill(st, old)
        return args[0]

    def copyctor(eng, st, fn, args):
        copyto(eng, st, at(args[0]), at(args[1]))

    def dtor(eng, st, fn, args):
        o, off = at(args[0])
        p, n, cp = vec_state(st, o, off)
        if p.obj is not None and p.obj in st.dead:
            eng.oblige(st, 'vector destroyed once', False)
        kill(st, p)

    def swap(eng, st, fn, args):
        a, b = at(args[0]), at(args[1])
        x, y = vec_state(st, *a), vec_state(st, *b)
        vec_set(st, a[0], a[1], *y)
        vec_set(st, b[0], b[1], *x)

    def begin(eng, st, fn, args):
        p, n, _ = vec_state(st, *at(args[0]))
        return Ptr(p.obj, 0)

    def end(eng, st, fn, args):
        p, n, _ = vec_state(st, *at(args[0]))
        return Ptr(p.obj, n * T.stride) if p.obj is not None else Ptr(None, 0)
    for rx, h in ((r'vector\(\)$', ctor), (r'size\(\) const$', size), (r'capacity\(\) const$', cap), (r'empty\(\) const$', empty),
                  (r'operator\[\]\(unsigned long\)( const)?$', index), (r'at\(unsigned long\)( const)?$', index), (r'front\(\)( const)?$', front), (r'back\(\)( const)?$', back), (r'clear\(\)$', clear),
                  (r'push_back\(%s ?(const)? ?&&?\)$' % c, push), (r'emplace_back<.*>\(.*\)$', push), (r'pop_back\(\)$', pop), (r'reserve\(unsigned long\)$', reserve),
                  (r'resize\(unsigned long(, .*)?\)$', resize), (r'operator=\(.* const&\)$', assign),
                  (r'vector\(std::vector<.*> const&\)$', copyctor), (r'~vector\(\)$', dtor), (r'swap\(.*\)$', swap),
                  (r'c?begin\(\)( const)?$', begin), (r'c?end\(\)( const)?$', end)):
        eng.contract(V + rx, h)
