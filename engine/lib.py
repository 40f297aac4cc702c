"""Contracts assumed for the parts of the C++ runtime and standard library the code under
verification calls (the trusted library contracts), plus helpers shared by specifications."""
import z3
from vc import *

ASSUME_NEW = 'operator new returns a fresh block of the requested size (at most 2^47 bytes) or throws; delete frees it'
MAXOBJ = 1 << 47


def h_new(eng, st, fn, args):
    n = args[0]
    if isinstance(n, PInt):
        raise Unsupported('new of pointer size')
    if is_sym(n):
        st.assume(n <= MAXOBJ if eng.mode == 'int' else z3.ULE(n, MAXOBJ))
    o = eng.new_obj(st, 'new', 'heap', n)
    lay = eng.opts.get('alloc_layout')
    if lay and lay(eng, st, o):
        pass
    elif is_sym(n):
        o.tags['untyped'] = True
    eng.assumptions.add(ASSUME_NEW)
    return Ptr(o, 0)


def h_delete(eng, st, fn, args):
    eng.free(st, args[0])
    return None


def h_nop(eng, st, fn, args):
    return None


def std_contracts(eng):
    eng.contract(r'^operator new(\[\])?\(unsigned long\)$', h_new)
    eng.contract(r'^operator delete(\[\])?\(void\*(, unsigned long)?\)$', h_delete)
    eng.contract(r'^malloc$', h_new)
    eng.contract(r'^free$', h_delete)


class Kind:
    """an opaque element type known only through the contracts of its special members"""

    def __init__(self, cname, tag, size, trivial_default=False):
        self.cname, self.tag, self.size = cname, tag, size


def ghost_slot(eng, st, p, kind, what):
    """pointer to an opaque element -> (object, index); checks bounds and liveness of the storage"""
    if not isinstance(p, Ptr):
        raise Unsupported('opaque element pointer %r' % (p,))
    eng.in_bounds(st, p, kind.size, what)
    o = p.obj
    if o.stride is None and o.tags.get('untyped'):
        eng.set_layout(o, kind.size)
        o.ghost = kind.tag
        o.tags['kind'] = kind
    if o.stride is None and o.kind in ('stack', 'heap') and o.size == kind.size:
        o.stride, o.count, o.ghost = kind.size, 1, kind.tag
        o.tags['kind'] = kind
    if o.tags.get('embed'):
        # opaque elements embedded in the elements of a larger array / struct
        return o.tags['embed'](eng, st, p, kind)
    if o.stride != kind.size:
        raise Unsupported('opaque %s accessed inside %s (stride %s)' % (kind.cname, o, o.stride))
    if o.ghost is None:
        o.ghost = kind.tag
        o.tags['kind'] = kind
    i, c = eng.elem(st, p)
    if c:
        raise Unsupported('misaligned opaque element')
    return o, i, 'alive', 'val'


def opaque_contracts(eng, kind):
    c = re.escape(kind.cname)
    gs = eng.opts.setdefault('ghost_sorts', {})
    gs.setdefault('alive', z3.BoolSort())
    gs.setdefault('val', z3.IntSort())

    def copy_ctor(eng, st, fn, args):
        so, si, sa, sv = ghost_slot(eng, st, args[1], kind, 'copied-from element')
        eng.oblige(st, 'copy source is a live element', z3.Select(eng.getghost(st, so, sa), si), 'lifetime')
        do, di, da, dv = ghost_slot(eng, st, args[0], kind, 'constructed element')
        fresh_storage(eng, st, do, da)
        eng.oblige(st, 'no live element is overwritten by construction', z3.Not(z3.Select(eng.getghost(st, do, da), di)), 'lifetime')
        v = z3.Select(eng.getghost(st, so, sv), si)
        eng.setghost(st, do, dv, z3.Store(eng.getghost(st, do, dv), di, v))
        eng.setghost(st, do, da, z3.Store(eng.getghost(st, do, da), di, True))
        return None

    def def_ctor(eng, st, fn, args):
        do, di, da, dv = ghost_slot(eng, st, args[0], kind, 'constructed element')
        fresh_storage(eng, st, do, da)
        eng.oblige(st, 'no live element is overwritten by construction', z3.Not(z3.Select(eng.getghost(st, do, da), di)), 'lifetime')
        eng.setghost(st, do, dv, z3.Store(eng.getghost(st, do, dv), di, default_value(kind)))
        eng.setghost(st, do, da, z3.Store(eng.getghost(st, do, da), di, True))
        return None

    def dtor(eng, st, fn, args):
        do, di, da, dv = ghost_slot(eng, st, args[0], kind, 'destroyed element')
        fresh_storage(eng, st, do, da)
        eng.oblige(st, 'only live elements are destroyed', z3.Select(eng.getghost(st, do, da), di), 'lifetime')
        eng.setghost(st, do, da, z3.Store(eng.getghost(st, do, da), di, False))
        return None

    def assign(eng, st, fn, args):
        so, si, sa, sv = ghost_slot(eng, st, args[1], kind, 'assigned-from element')
        do, di, da, dv = ghost_slot(eng, st, args[0], kind, 'assigned element')
        eng.oblige(st, 'assignment source is a live element', z3.Select(eng.getghost(st, so, sa), si), 'lifetime')
        eng.oblige(st, 'assignment target is a live element', z3.Select(eng.getghost(st, do, da), di), 'lifetime')
        v = z3.Select(eng.getghost(st, so, sv), si)
        eng.setghost(st, do, dv, z3.Store(eng.getghost(st, do, dv), di, v))
        return args[0]
    n = kind.cname.split('::')[-1]
    eng.contract(r'^%s::%s\(%s const&\)$' % (c, n, c), copy_ctor)
    eng.contract(r'^%s::%s\(\)$' % (c, n), def_ctor)
    eng.contract(r'^%s::~%s\(\)$' % (c, n), dtor)
    eng.contract(r'^%s::operator=\(%s const&\)$' % (c, c), assign)
    eng.assumptions.add('element type: copies equal their source, special members touch nothing else and do not throw')


def default_value(kind):
    return z3.Int('default_%s' % kind.tag)


def fresh_storage(eng, st, o, an='alive'):
    """storage obtained from new / the stack holds no live element yet"""
    if o.kind in ('heap', 'stack') and not o.tags.get('alive_init') and (o, ('g', an)) not in st.mem:
        st.mem[(o, ('g', an))] = z3.K(z3.IntSort(), z3.BoolVal(False))
        return
    if o.kind in ('heap', 'stack') and (o, ('g', an)) not in st.mem:
        st.mem[(o, ('g', an))] = z3.K(z3.IntSort(), z3.BoolVal(False))


def on_free_alive(eng, st, o):
    """deallocating storage that still holds a live element leaks it"""
    if not o.ghost:
        return
    if (o, ('g', 'alive')) not in st.mem and o in st.allocs:
        return
    j = z3.Int(eng.fresh_name('jfree'))
    eng.oblige(st, 'no live element in deallocated storage',
               z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < o.count), z3.Not(z3.Select(eng.getghost(st, o, 'alive'), j)))), 'lifetime')


def elem_obj(eng, st, name, kind, alive=True):
    """a stand-alone live element owned by the caller"""
    o = Obj(name, 'param', kind.size, stride=kind.size, count=1, ghost=kind.tag)
    o.tags['kind'] = kind
    if alive:
        eng.setghost(st, o, 'alive', z3.Store(eng.getghost(st, o, 'alive'), 0, True))
    return o


def elem_val(eng, st, o, i=0):
    return z3.Select(eng.getghost(st, o, 'val'), i)


def setcell(st, o, off, ty, v):
    st.mem[(o, ('c', off))] = (ty, v)


def cell(st, o, off):
    c = st.mem.get((o, ('c', off)))
    return None if c is None else c[1]


def const_of(mod, name):
    c = mod.global_init(name)
    return c.val
