"""Semantics of the Python operations the verifier accepts (the trusted
operator models).  Every operation returns its value together with

* guards: [(condition, exception name)] - the operation raises the exception
  when the condition is false (in specifications guards are ignored), and
* facts: formulas that hold for the symbols the operation introduced.
"""
import z3

from .values import (Sc, NoneV, NONE, Opt, Maybe, Tup, Ref, Py, Opaque, CList,
                     CDict, CSet, Ty, INT, BOOL, STR, REAL, ANY, Unsupported,
                     fresh, parse_ty)

BOXES = ('str', 'int', 'bool', 'real')


class R(object):
    __slots__ = ('v', 'guards', 'facts')

    def __init__(self, v, guards=(), facts=()):
        self.v = v
        self.guards = list(guards)
        self.facts = list(facts)


def AND(xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if not xs:
        return z3.BoolVal(True)
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def OR(xs):
    xs = list(xs)
    if not xs:
        return z3.BoolVal(False)
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


class Ops(object):
    def __init__(self, sorts):
        self.lb = {}
        self.so = sorts

    # -- construction ------------------------------------------------------
    def const(self, v):
        if v is None:
            return NONE
        if isinstance(v, bool):
            return Sc(BOOL, z3.BoolVal(v), v)
        if isinstance(v, int):
            return Sc(INT, z3.IntVal(v), v)
        if isinstance(v, float):
            return Sc(REAL, z3.RealVal(repr(v)), v)
        if isinstance(v, str):
            return Sc(STR, self.so.lit(v), v)
        if isinstance(v, tuple):
            return Tup([self.const(x) for x in v])
        raise Unsupported('constant %r' % (v,))

    def int_(self, t):
        return Sc(INT, t)

    def bool_(self, t):
        return Sc(BOOL, t)

    # -- places ------------------------------------------------------------
    def get(self, st, place):
        k = place[0]
        if k == 'cell':
            return st.cells[place[1]]
        if k == 'val':
            return place[1]
        if k == 'field':
            _, obj, attr = place
            ty, arr = st.heap_attr(attr)
            return self.unpack_container(z3.Select(arr, obj), ty)
        if k == 'item':
            _, parent, key = place
            c = self.get(st, parent)
            if isinstance(c, CList):
                return self.unpack_container(z3.Select(c.arr, key), c.et)
            return self.unpack_container(z3.Select(c.val, key), c.vt)
        raise Unsupported('place %r' % (place,))

    def put(self, st, place, c):
        k = place[0]
        if k == 'cell':
            st.cells[place[1]] = c
        elif k == 'field':
            _, obj, attr = place
            ty, arr = st.heap_attr(attr)
            st.set_heap(attr, z3.Store(arr, obj,
                                       self.pack_container(c, ty)))
        elif k == 'item':
            _, parent, key = place
            p = self.get(st, parent)
            if isinstance(p, CList):
                n = CList(p.et, p.n, z3.Store(
                    p.arr, key, self.pack_container(c, p.et)))
            else:
                n = CDict(p.kt, p.vt, p.dom, z3.Store(
                    p.val, key, self.pack_container(c, p.vt)), p.keys)
            self.put(st, parent, n)
        else:
            raise Unsupported('write to immutable place')

    def unpack_container(self, t, ty):
        s = self.so.sort(ty)
        if ty.k == 'list':
            return CList(ty.a[0], s.len(t), s.arr(t))
        if ty.k == 'dict':
            return CDict(ty.a[0], ty.a[1], s.dom(t), s.val(t))
        if ty.k == 'odict':
            return CDict(ty.a[0], ty.a[1], s.dom(t), s.val(t),
                         CList(ty.a[0], s.n(t), s.ks(t)))
        if ty.k == 'set':
            return CSet(ty.a[0], t)
        raise Unsupported('container of type %r' % (ty,))

    def pack_container(self, c, ty):
        s = self.so.sort(ty)
        if ty.k == 'list':
            if not isinstance(c, CList):
                raise Unsupported('expected list')
            c = self.typed(c, ty)
            if c.et != ty.a[0]:
                raise Unsupported('list type mismatch %r %r' % (c.et, ty))
            return s.mk(c.n, c.arr)
        if ty.k == 'dict':
            c = self.typed(c, ty)
            return s.mk(c.dom, c.val)
        if ty.k == 'odict':
            c = self.typed(c, ty)
            return s.mk(c.dom, c.val, c.keys.n, c.keys.arr)
        if ty.k == 'set':
            c = self.typed(c, ty)
            return c.mem
        raise Unsupported('pack container %r' % (ty,))

    def typed(self, c, ty):
        """Give a still untyped empty container the given type."""
        if isinstance(c, CList) and c.et is None:
            et = ty.a[0]
            return CList(et, c.n, fresh('arr', z3.ArraySort(
                z3.IntSort(), self.so.sort(et))))
        if isinstance(c, CDict) and c.kt is None:
            return self.empty_dict(ty.a[0], ty.a[1], ty.k == 'odict')
        if isinstance(c, CDict) and ty.k == 'odict' and c.keys is None:
            raise Unsupported('unordered dict where order is specified')
        if isinstance(c, CSet) and c.et is None:
            return CSet(ty.a[0], z3.K(self.so.sort(ty.a[0]),
                                      z3.BoolVal(False)))
        return c

    def empty_dict(self, kt, vt, ordered=False):
        ks = self.so.sort(kt)
        keys = None
        if ordered:
            keys = CList(kt, z3.IntVal(0), fresh('ks', z3.ArraySort(
                z3.IntSort(), ks)))
        return CDict(kt, vt, z3.K(ks, z3.BoolVal(False)),
                     fresh('val', z3.ArraySort(ks, self.so.sort(vt))), keys)

    # -- packing -----------------------------------------------------------
    def box(self, v):
        so = self.so
        if isinstance(v, NoneV):
            return so.NULL, []
        if isinstance(v, Opt):
            t, f = self.box(v.v)
            return z3.If(v.isnone, so.NULL, t), f
        if isinstance(v, Sc):
            if v.ty.k in ('obj', 'any'):
                return v.t, []
            srt = v.t.sort()
            b = so.uf('box_' + v.ty.k, srt, so.Obj)
            u = so.uf('unbox_' + v.ty.k, so.Obj, srt)
            kd = so.uf('boxkind', so.Obj, z3.IntSort())
            x = z3.Const('x!box', srt)
            so.fact('box_' + v.ty.k, z3.ForAll(
                [x], z3.And(u(b(x)) == x,
                            kd(b(x)) == BOXES.index(v.ty.k) + 1),
                patterns=[b(x)]))
            so.fact('boxnull', kd(so.NULL) == 0)
            return b(v.t), []
        raise Unsupported('boxing %r' % (v,))

    def pack(self, st, v, ty):
        """SV -> z3 term of sort(ty)."""
        so = self.so
        if ty.k == 'box':
            return self.pack_box(st, v, ty)
        if isinstance(v, Opaque):
            return fresh('opq', so.sort(ty))
        if isinstance(v, Maybe):
            s = so.sort(ty)
            return z3.If(v.missing, s.none,
                         s.some(self.pack(st, v.v, ty.a[0])))
        if ty.k == 'maybe':
            return so.sort(ty).some(self.pack(st, v, ty.a[0]))
        if ty.k == 'any':
            return self.box(v)[0]
        if ty.k == 'opt':
            if ty.a[0].k in ('obj', 'any'):
                return self.box(v)[0]
            s = so.sort(ty)
            if isinstance(v, NoneV):
                return s.none
            if isinstance(v, Opt):
                return z3.If(v.isnone, s.none,
                             s.some(self.pack(st, v.v, ty.a[0])))
            return s.some(self.pack(st, v, ty.a[0]))
        if isinstance(v, Sc):
            if v.ty.k == 'bool' and ty.k == 'int':
                return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
            if v.ty.k == 'int' and ty.k == 'real':
                return z3.ToReal(v.t)
            if so.sort(v.ty) != so.sort(ty):
                raise Unsupported('type mismatch: %r used as %r' % (v.ty, ty))
            return v.t
        if isinstance(v, NoneV) and ty.k == 'obj':
            return so.NULL
        if isinstance(v, Opt) and ty.k == 'obj':
            return self.box(v)[0]
        if isinstance(v, Ref):
            return self.pack_container(self.get(st, v.place), ty)
        if isinstance(v, Tup):
            if ty.k == 'tuple':
                if len(v.items) != len(ty.a):
                    raise Unsupported('tuple arity')
                return so.sort(ty).mk(*[self.pack(st, i, a) for i, a in
                                        zip(v.items, ty.a)])
            if ty.k == 'list':
                return self.pack_container(self.tup_list(st, v, ty.a[0]), ty)
        if isinstance(v, Opt) and hasattr(st, 'eng') and \
                not st.eng.feasible(st, v.isnone):
            return self.pack(st, v.v, ty)
        raise Unsupported("pack %r as %r" % (v, ty))

    def pack_box(self, st, v, ty):
        """A list object of its own (held in several places at once): its
        elements are an attribute of a new object."""
        an = ty.a[0]
        if isinstance(v, Sc) and v.ty.k in ('obj', 'any', 'box'):
            return v.t
        if isinstance(v, Ref) and v.place[0] == 'field' and \
                v.place[2] == an:
            return v.place[1]
        if isinstance(v, Ref) and v.place[0] == 'val':
            raise Unsupported('list object in two places')
        inner = self.eng.attr_type(an)
        t = self.pack(st, v, inner)
        o = fresh('newlist', self.so.Obj)
        born = an.split('.')[0] + '.born'
        st.assume(o != self.so.NULL)
        st.assume_class(o, Ty('obj', (an.split('.')[0],)))
        _, b = st.heap_attr(born)
        st.assume(z3.Not(z3.Select(b, o)))
        st.set_heap(born, z3.Store(b, o, z3.BoolVal(True)))
        _, a = st.heap_attr(an)
        st.set_heap(an, z3.Store(a, o, t))
        if isinstance(v, Ref):
            self.eng.repoint(st, v.place, ('field', o, an), inner)
        return o

    def unpack(self, t, ty, parent=None, key=None):
        so = self.so
        if ty.k in ('int', 'bool', 'str', 'real', 'any', 'obj'):
            return Sc(ty, t)
        if ty.k == 'box':
            return Ref(('field', t, ty.a[0]), self.eng.attr_type(ty.a[0]))
        if ty.k == 'opt':
            if ty.a[0].k in ('obj', 'any'):
                return Opt(t == so.NULL, Sc(ty.a[0], t))
            s = so.sort(ty)
            return Opt(s.is_none(t), self.unpack(s.v(t), ty.a[0]))
        if ty.k == 'maybe':
            s = so.sort(ty)
            return Maybe(s.is_none(t), self.unpack(s.v(t), ty.a[0]))
        if ty.k == 'tuple':
            s = so.sort(ty)
            return Tup([self.unpack(getattr(s, 'f%d' % i)(t), a)
                        for i, a in enumerate(ty.a)])
        if ty.k in ('list', 'dict', 'odict', 'set'):
            if parent is not None:
                return Ref(('item', parent, key), ty)
            return Ref(('val', self.unpack_container(t, ty)), ty)
        raise Unsupported('unpack %r' % (ty,))

    def tup_list(self, st, v, et=None):
        if et is None:
            et = self.type_of(v.items[0]) if v.items else None
        if et is None:
            return CList(None, z3.IntVal(0), None)
        arr = fresh('arr', z3.ArraySort(z3.IntSort(), self.so.sort(et)))
        for i, x in enumerate(v.items):
            arr = z3.Store(arr, i, self.pack(st, x, et))
        return CList(et, z3.IntVal(len(v.items)), arr)

    def type_of(self, v):
        if isinstance(v, Sc):
            return v.ty
        if isinstance(v, Opt):
            return Ty('opt', (self.type_of(v.v),))
        if isinstance(v, Ref):
            if v.ty is not None:
                return v.ty
        if isinstance(v, Tup):
            return Ty('tuple', [self.type_of(x) for x in v.items])
        if isinstance(v, NoneV):
            return ANY
        raise Unsupported('type of %r' % (v,))

    def clist(self, st, v, et=None):
        """Any list-like SV as a CList value."""
        if isinstance(v, Ref):
            c = self.get(st, v.place)
            if isinstance(c, CList):
                if c.et is None and et is not None:
                    c = self.typed(c, Ty('list', (et,)))
                return c
            raise Unsupported('not a list')
        if isinstance(v, Tup):
            return self.tup_list(st, v, et)
        raise Unsupported('not a list: %r' % (v,))

    # -- truth / equality --------------------------------------------------
    def truth(self, st, v):
        so = self.so
        if isinstance(v, NoneV):
            return z3.BoolVal(False)
        if isinstance(v, Opt):
            return z3.And(z3.Not(v.isnone), self.truth(st, v.v))
        if isinstance(v, Sc):
            if v.ty.k == 'bool':
                return v.t
            if self.eng.rec_of(v):
                fs = [self.eng.rec_read(st, v, self.const(k))[0]
                      for k in self.eng.reg.records[v.ty.a[0]]]
                return OR([z3.BoolVal(True) if m is None else z3.Not(m)
                           for m in fs])
            if v.ty.k == 'int':
                return v.t != 0
            if v.ty.k == 'real':
                return v.t != 0
            if v.ty.k == 'str':
                return v.t != so.lit('')
            if v.ty.k == 'obj':
                return z3.BoolVal(True)
            if v.ty.k == 'any':
                f = so.uf('truthy', so.Obj, z3.BoolSort())
                so.fact('truthy_null', z3.Not(f(so.NULL)))
                return f(v.t)
        if isinstance(v, Tup):
            return z3.BoolVal(bool(v.items))
        if isinstance(v, Ref):
            c = self.get(st, v.place)
            if isinstance(c, CList):
                return c.n > 0
            if isinstance(c, CDict):
                if c.kt is None:
                    return z3.BoolVal(False)
                if c.keys is not None:
                    return c.keys.n > 0
                k = z3.Const('k!t', self.so.sort(c.kt))
                return z3.Exists([k], z3.Select(c.dom, k))
            if isinstance(c, CSet):
                if c.et is None:
                    return z3.BoolVal(False)
                k = z3.Const('k!t', self.so.sort(c.et))
                return z3.Exists([k], z3.Select(c.mem, k))
        if isinstance(v, Py):
            if v.kind == 'const':
                return z3.BoolVal(bool(v.key))
            return z3.BoolVal(True)
        raise Unsupported('truth of %r' % (v,))

    def list_eq(self, st, a, b):
        if a.et is None or b.et is None:
            return a.n == b.n if (a.et is None and b.et is None) else \
                (a.n == b.n)
        if a.et != b.et:
            raise Unsupported('list equality %r %r' % (a.et, b.et))
        if a.arr.eq(b.arr):
            return a.n == b.n
        i = fresh('i', z3.IntSort())
        e = self.term_eq(z3.Select(a.arr, i), z3.Select(b.arr, i), a.et)
        return z3.And(a.n == b.n, z3.ForAll([i], z3.Implies(
            z3.And(0 <= i, i < a.n), e)))

    def term_eq(self, x, y, ty):
        if ty.k in ('list', 'dict', 'odict'):
            return self.cont_eq(None, self.unpack_container(x, ty),
                                self.unpack_container(y, ty))
        return x == y

    def cont_eq(self, st, a, b):
        if isinstance(a, CList) and isinstance(b, CList):
            return self.list_eq(st, a, b)
        if isinstance(a, CDict) and isinstance(b, CDict):
            if a.kt is None or b.kt is None:
                o = b if a.kt is None else a
                if o.kt is None:
                    return z3.BoolVal(True)
                k = fresh('k', self.so.sort(o.kt))
                return z3.ForAll([k], z3.Not(z3.Select(o.dom, k)))
            k = fresh('k', self.so.sort(a.kt))
            if a.dom.eq(b.dom) and a.val.eq(b.val):
                return z3.BoolVal(True)
            r = z3.ForAll([k], z3.And(
                z3.Select(a.dom, k) == z3.Select(b.dom, k),
                z3.Implies(z3.Select(a.dom, k), self.term_eq(
                    z3.Select(a.val, k), z3.Select(b.val, k), a.vt))))
            return r
        if isinstance(a, CSet) and isinstance(b, CSet):
            if a.et is None or b.et is None:
                o = b if a.et is None else a
                if o.et is None:
                    return z3.BoolVal(True)
                k = fresh('k', self.so.sort(o.et))
                return z3.ForAll([k], z3.Not(z3.Select(o.mem, k)))
            k = fresh('k', self.so.sort(a.et))
            return z3.ForAll([k], z3.Select(a.mem, k) ==
                             z3.Select(b.mem, k))
        return z3.BoolVal(False)

    def eq(self, st, a, b):
        so = self.so
        F = z3.BoolVal(False)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return fresh('opqeq', z3.BoolSort())
        if isinstance(a, NoneV) and isinstance(b, NoneV):
            return z3.BoolVal(True)
        if isinstance(b, NoneV):
            a, b = b, a
        if isinstance(a, NoneV):
            if isinstance(b, Opt):
                return b.isnone
            if isinstance(b, Sc) and b.ty.k == 'any':
                return b.t == so.NULL
            return F
        if isinstance(a, Opt) and isinstance(b, Opt):
            return z3.If(a.isnone, b.isnone, z3.And(
                z3.Not(b.isnone), self.eq(st, a.v, b.v)))
        if isinstance(b, Opt):
            a, b = b, a
        if isinstance(a, Opt):
            return z3.And(z3.Not(a.isnone), self.eq(st, a.v, b))
        if isinstance(a, Sc) and isinstance(b, Sc):
            ka, kb = a.ty.k, b.ty.k
            if ka == kb or {ka, kb} <= {'obj', 'any'}:
                return a.t == b.t
            if {ka, kb} == {'int', 'bool'}:
                ia = z3.If(a.t, 1, 0) if ka == 'bool' else a.t
                ib = z3.If(b.t, 1, 0) if kb == 'bool' else b.t
                return ia == ib
            if {ka, kb} == {'int', 'real'}:
                return (z3.ToReal(a.t) if ka == 'int' else a.t) == \
                    (z3.ToReal(b.t) if kb == 'int' else b.t)
            if 'any' in (ka, kb):
                return self.box(a)[0] == self.box(b)[0]
            return F
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return F
            return AND([self.eq(st, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Ref) and isinstance(b, Ref):
            return self.cont_eq(st, self.get(st, a.place),
                                self.get(st, b.place))
        if isinstance(b, Ref) and isinstance(a, Tup):
            a, b = b, a
        if isinstance(a, Ref) and isinstance(b, Tup):
            c = self.get(st, a.place)
            if isinstance(c, CList) and b.lst:
                return self.cont_eq(st, c, self.tup_list(st, b, c.et))
            return F
        if isinstance(a, Py) and isinstance(b, Py):
            return z3.BoolVal(a.kind == b.kind and a.key == b.key)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sc) and x.ty.k == 'any' and isinstance(y, Ref):
                c = self.get(st, y.place)
                if isinstance(c, CList) and z3.is_int_value(c.n) and \
                        c.n.as_long() == 0:
                    f = so.uf('is_empty_list', so.Obj, z3.BoolSort())
                    so.fact('eln', z3.Not(f(so.NULL)))
                    g = so.uf('truthy', so.Obj, z3.BoolSort())
                    o = z3.Const('o!el', so.Obj)
                    so.fact('elt', z3.ForAll([o], z3.Implies(
                        f(o), z3.Not(g(o))), patterns=[f(o)]))
                    return f(x.t)
                raise Unsupported('equality any/container')
        if isinstance(a, (Sc, Ref, Tup, Py)) and \
                isinstance(b, (Sc, Ref, Tup, Py)):
            return F
        raise Unsupported('equality of %r and %r' % (a, b))

    def identical(self, st, a, b):
        """`a is b`.  For strings identity is unspecified beyond: identical
        strings are equal, and equal strings of length at most one (and the
        very same symbolic value) are identical."""
        if isinstance(a, NoneV) or isinstance(b, NoneV):
            return R(self.bool_(self.eq(st, a, b)))
        if isinstance(a, Opt) or isinstance(b, Opt):
            av, bv = (x.v if isinstance(x, Opt) else x for x in (a, b))
            r = self.identical(st, av, bv)
            na, nb = (x.isnone if isinstance(x, Opt) else z3.BoolVal(False)
                      for x in (a, b))
            return R(self.bool_(z3.Or(z3.And(na, nb), z3.And(
                z3.Not(na), z3.Not(nb), r.v.t))), r.guards, r.facts)
        if isinstance(a, Sc) and isinstance(b, Sc):
            if a.ty.k == 'str' and b.ty.k == 'str':
                if a.t.eq(b.t):
                    return R(self.bool_(z3.BoolVal(True)))
                r = fresh('is', z3.BoolSort())
                facts = [z3.Implies(r, a.t == b.t)]
                for x in (a, b):
                    if x.c is not None and len(x.c) <= 1:
                        facts.append(r == (a.t == b.t))
                if self.so.mode == 'native':
                    facts.append(z3.Implies(z3.And(
                        a.t == b.t, z3.Length(a.t) <= 1), r))
                return R(self.bool_(r), (), facts)
            if a.ty.k in ('obj', 'any', 'bool', 'int'):
                return R(self.bool_(self.eq(st, a, b)))
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.place == b.place:
                return R(self.bool_(z3.BoolVal(True)))
            if a.place[0] == 'cell' and b.place[0] == 'cell':
                return R(self.bool_(z3.BoolVal(False)))
            raise Unsupported('identity of containers')
        if isinstance(a, Py) or isinstance(b, Py):
            return R(self.bool_(self.eq(st, a, b)))
        if type(a) is not type(b):
            return R(self.bool_(z3.BoolVal(False)))
        raise Unsupported('identity of %r and %r' % (a, b))

    # -- containers ----------------------------------------------------------
    def contains(self, st, x, c):
        if isinstance(c, Tup):
            return AND([]) if False else OR(
                [self.eq(st, x, y) for y in c.items])
        if isinstance(c, Sc) and c.ty.k == 'str':
            if not (isinstance(x, Sc) and x.ty.k == 'str'):
                raise Unsupported('in str')
            if self.so.mode == 'native':
                return z3.Contains(c.t, x.t)
            return self.so.uf('str_contains', self.so.S, self.so.S,
                              z3.BoolSort())(c.t, x.t)
        if isinstance(c, Ref):
            v = self.get(st, c.place)
            if isinstance(v, CList):
                if v.et is None:
                    return z3.BoolVal(False)
                if z3.is_int_value(v.n) and v.n.as_long() <= 4:
                    return OR([self.eq(st, self.unpack(
                        z3.Select(v.arr, j), v.et), x)
                        for j in range(v.n.as_long())])
                i = fresh('i', z3.IntSort())
                return z3.Exists([i], z3.And(
                    0 <= i, i < v.n,
                    self.eq(st, self.unpack(z3.Select(v.arr, i), v.et), x)))
            if isinstance(v, CDict):
                if v.kt is None:
                    return z3.BoolVal(False)
                return z3.Select(v.dom, self.pack(st, x, v.kt))
            if isinstance(v, CSet):
                if v.et is None:
                    return z3.BoolVal(False)
                return z3.Select(v.mem, self.pack(st, x, v.et))
        raise Unsupported('membership in %r' % (c,))

    def lower(self, t):
        """A known lower bound of an integer term, or None."""
        if z3.is_int_value(t):
            return t.as_long()
        e = self.lb.get(t.get_id())
        if e is not None:
            return e[1]
        if not z3.is_app(t):
            return None
        k = t.decl().kind()
        if k == z3.Z3_OP_SEQ_LENGTH:
            return 0
        if k == z3.Z3_OP_ADD:
            ls = [self.lower(c) for c in t.children()]
            return None if None in ls else sum(ls)
        if k == z3.Z3_OP_SUB:
            a, rest = t.arg(0), t.children()[1:]
            la = self.lower(a)
            if la is None or not all(z3.is_int_value(c) for c in rest):
                return None
            return la - sum(c.as_long() for c in rest)
        if k == z3.Z3_OP_ITE:
            ls = [self.lower(t.arg(1)), self.lower(t.arg(2))]
            return None if None in ls else min(ls)
        return None

    def bound_below(self, t, v):
        self.lb[t.get_id()] = (t, v)

    def norm_index(self, i, n):
        lo = self.lower(i)
        if lo is not None and lo >= 0:
            return i
        return z3.If(i < 0, i + n, i)

    def index(self, st, c, i):
        if isinstance(c, Opt):
            r = self.index(st, c.v, i)
            r.guards.insert(0, (z3.Not(c.isnone), 'TypeError'))
            return r
        if isinstance(c, Tup):
            if isinstance(i, Sc) and i.c is not None:
                if -len(c.items) <= i.c < len(c.items):
                    return R(c.items[i.c])
                return R(NONE, [(z3.BoolVal(False), 'IndexError')])
            return self.index(st, Ref(('val', self.tup_list(st, c)), None), i)
        if isinstance(c, Sc) and c.ty.k == 'str':
            if self.so.mode != 'native':
                raise Unsupported('string index in abstract mode')
            n = z3.Length(c.t)
            if i.c is not None:
                j = i.t if i.c >= 0 else n + i.t
            else:
                j = self.norm_index(i.t, n)
            return R(Sc(STR, z3.SubString(c.t, j, 1)),
                     [(z3.And(0 <= j, j < n), 'IndexError')])
        if isinstance(c, Sc) and c.ty.k in ('any', 'obj'):
            if not (isinstance(i, Sc) and i.ty.k == 'int'):
                raise Unsupported('index of opaque object')
            f = self.so.uf('py_item', self.so.Obj, z3.IntSort(), self.so.Obj)
            return R(Sc(ANY, f(c.t, i.t)))
        if isinstance(c, Ref):
            v = self.get(st, c.place)
            if isinstance(v, CList):
                if not (isinstance(i, Sc) and i.ty.k == 'int'):
                    raise Unsupported('list index type')
                if i.c is not None:
                    j = i.t if i.c >= 0 else v.n + i.t
                else:
                    j = self.norm_index(i.t, v.n)
                g = [(z3.And(0 <= j, j < v.n), 'IndexError')]
                if v.et is None:
                    return R(NONE, [(z3.BoolVal(False), 'IndexError')])
                return R(self.unpack(z3.Select(v.arr, j), v.et, c.place, j),
                         g)
            if isinstance(v, CDict):
                if v.kt is None:
                    return R(NONE, [(z3.BoolVal(False), 'KeyError')])
                k = self.pack(st, i, v.kt)
                return R(self.unpack(z3.Select(v.val, k), v.vt, c.place, k),
                         [(z3.Select(v.dom, k), 'KeyError')])
        raise Unsupported('index of %r' % (c,))

    def clip(self, i, n):
        lo = self.lower(i)
        if lo is not None and lo >= 0:
            return z3.If(i > n, n, i)
        j = z3.If(i < 0, z3.If(i + n < 0, z3.IntVal(0), i + n), i)
        return z3.If(j > n, n, j)

    def slice_bounds(self, lo, hi, n):
        a = z3.IntVal(0) if lo is None else (
            z3.If(n < lo.c, n, z3.IntVal(lo.c)) if lo.c is not None and
            lo.c >= 0 else self.clip(lo.t, n))
        b = n if hi is None else self.clip(hi.t, n)
        return a, z3.If(b < a, a, b)

    def slice(self, st, c, lo, hi):
        if isinstance(c, Sc) and c.ty.k == 'str':
            if self.so.mode != 'native':
                raise Unsupported('slice in abstract mode')
            n = z3.Length(c.t)
            a, b = self.slice_bounds(lo, hi, n)
            return R(Sc(STR, z3.SubString(c.t, a, b - a)))
        if isinstance(c, Tup):
            l = lo.c if lo is not None else None
            h = hi.c if hi is not None else None
            if (lo is None or l is not None) and (hi is None or
                                                  h is not None):
                return R(Tup(c.items[l:h], lst=c.lst))
        if isinstance(c, (Ref, Tup)):
            v = self.clist(st, c)
            if lo is None and hi is None:
                return R(v)
            if v.et is None:
                return R(v)
            a, b = self.slice_bounds(lo, hi, v.n)
            if z3.is_int_value(a) and a.as_long() == 0:
                return R(CList(v.et, b, v.arr))
            arr = fresh('slice', v.arr.sort())
            i = fresh('i', z3.IntSort())
            extra = []
            if v.et.k == 'str':
                for sep in getattr(self, 'seps', []):
                    extra += [self.join_t(sep, arr, z3.IntVal(0), z3.simplify(
                        b - a)) == self.join_t(sep, v.arr, a, b)]
                    extra += [z3.Implies(z3.And(a == 1, b == v.n, v.n >= 1),
                                         self.join_t(sep, arr, z3.IntVal(0),
                                                     z3.simplify(b - a)) ==
                                         self.join_t(sep, v.arr, z3.IntVal(1),
                                                     v.n))]
            return R(CList(v.et, z3.simplify(b - a), arr), (), extra + [
                z3.ForAll(
                [i], z3.Implies(z3.And(0 <= i, i < b - a),
                                z3.Select(arr, i) == z3.Select(
                                    v.arr, i + a)),
                patterns=[z3.Select(arr, i)])])
        raise Unsupported('slice of %r' % (c,))

    def concat(self, st, a, b):
        """List concatenation of CLists -> (CList, facts)."""
        if a.et is None:
            return b, []
        if b.et is None:
            return a, []
        if a.et != b.et:
            raise Unsupported('concat of %r and %r lists' % (a.et, b.et))
        if z3.is_int_value(b.n) and b.n.as_long() <= 8:
            arr = a.arr
            for j in range(b.n.as_long()):
                arr = z3.Store(arr, a.n + j, z3.Select(b.arr, j))
            return CList(a.et, z3.simplify(a.n + b.n), arr), []
        if z3.is_int_value(a.n) and a.n.as_long() == 0:
            return b, []
        arr = fresh('cat', a.arr.sort())
        i = fresh('i', z3.IntSort())
        pats = [z3.Select(arr, i)]
        ground = [z3.Select(arr, a.n + j) == z3.simplify(z3.Select(b.arr, j))
                  for j in range(b.n.as_long())] if z3.is_int_value(
                      b.n) and b.n.as_long() <= 64 else []
        if z3.is_const(a.arr) or a.arr.decl().kind() not in (
                z3.Z3_OP_STORE, z3.Z3_OP_ITE, z3.Z3_OP_CONST_ARRAY):
            pats.append(z3.Select(a.arr, i))
        return CList(a.et, a.n + b.n, arr), ground + [
            z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < a.n), z3.Select(
                arr, i) == z3.Select(a.arr, i)),
                patterns=pats),
            z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < b.n), z3.Select(
                arr, i + a.n) == z3.Select(b.arr, i)),
                patterns=[z3.Select(b.arr, i)]),
            z3.ForAll([i], z3.Implies(
                z3.And(a.n <= i, i < a.n + b.n), z3.Select(
                    arr, i) == z3.Select(b.arr, i - a.n)),
                patterns=[z3.Select(arr, i)])]

    def list_insert(self, v, idx, x):
        """insert(idx, x): python clamps the position."""
        p0 = z3.simplify(self.clip(idx, v.n))
        p = p0 if z3.is_int_value(p0) else fresh('at', z3.IntSort())
        arr = fresh('ins', v.arr.sort())
        i = fresh('i', z3.IntSort())
        return CList(v.et, v.n + 1, arr), [p == p0] + [
            z3.Select(arr, p) == x,
            z3.ForAll([i], z3.Implies(i < p, z3.Select(arr, i) == z3.Select(
                v.arr, i)), patterns=[z3.Select(arr, i)]),
            z3.ForAll([i], z3.Implies(i > p, z3.Select(arr, i) == z3.Select(
                v.arr, i - 1)), patterns=[z3.Select(arr, i)]),
            z3.ForAll([i], z3.Implies(i < p, z3.Select(arr, i) == z3.Select(
                v.arr, i)), patterns=[z3.Select(v.arr, i)]),
            z3.ForAll([i], z3.Implies(i >= p, z3.Select(
                arr, i + 1) == z3.Select(v.arr, i)),
                patterns=[z3.Select(v.arr, i)])], p

    def list_remove_at(self, v, p):
        arr = fresh('rem', v.arr.sort())
        i = fresh('i', z3.IntSort())
        return CList(v.et, v.n - 1, arr), [
            z3.ForAll([i], z3.Implies(i < p, z3.Select(arr, i) == z3.Select(
                v.arr, i)), patterns=[z3.Select(arr, i)]),
            z3.ForAll([i], z3.Implies(i >= p, z3.Select(arr, i) == z3.Select(
                v.arr, i + 1)), patterns=[z3.Select(arr, i)]),
            z3.ForAll([i], z3.Implies(i < p, z3.Select(arr, i) == z3.Select(
                v.arr, i)), patterns=[z3.Select(v.arr, i)]),
            z3.ForAll([i], z3.Implies(i > p, z3.Select(
                arr, i - 1) == z3.Select(v.arr, i)),
                patterns=[z3.Select(v.arr, i)])]

    def dict_keys(self, c):
        """The key list of a dictionary (arbitrary order unless ordered)."""
        if c.kt is None:
            return CList(None, z3.IntVal(0), None), []
        if c.keys is not None:
            return c.keys, []
        ks = self.so.sort(c.kt)
        n = fresh('nkeys', z3.IntSort())
        arr = fresh('keys', z3.ArraySort(z3.IntSort(), ks))
        facts = [n >= 0] + self.keys_facts(c.dom, n, arr, ks)
        return CList(c.kt, n, arr), facts

    def keys_facts(self, dom, n, arr, ks):
        pos = z3.Function(fresh('pos', z3.IntSort()).decl().name(), ks,
                          z3.IntSort())
        i = fresh('i', z3.IntSort())
        k = fresh('k', ks)
        named = []
        try:
            z3.ForAll([k], z3.Select(dom, k), patterns=[z3.Select(dom, k)])
        except z3.Z3Exception:      # an `if` cannot occur in a pattern
            d = fresh('dom', dom.sort())
            named, dom = [d == dom], d
        return named + [
            z3.ForAll([k], z3.Implies(z3.Select(dom, k), z3.And(
                0 <= pos(k), pos(k) < n, z3.Select(arr, pos(k)) == k)),
                patterns=[z3.Select(dom, k)]),
            z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
                z3.Select(dom, z3.Select(arr, i)),
                pos(z3.Select(arr, i)) == i)),
                patterns=[z3.Select(arr, i)])]

    def dict_set(self, st, c, k, v):
        """c[k] = v -> (CDict, facts); k, v packed terms."""
        keys = c.keys
        facts = []
        if keys is not None:
            isin = z3.Select(c.dom, k)
            keys = CList(c.kt, z3.If(isin, keys.n, keys.n + 1),
                         z3.If(isin, keys.arr,
                               z3.Store(keys.arr, keys.n, k)))
        return CDict(c.kt, c.vt, z3.Store(c.dom, k, True),
                     z3.Store(c.val, k, v), keys), facts

    # -- strings -------------------------------------------------------------
    def S(self, v):
        if isinstance(v, Sc) and v.ty.k == 'str':
            return v.t
        raise Unsupported('expected str, got %r' % (v,))

    def str_concat(self, a, b):
        if self.so.mode == 'native':
            if a.c is not None and b.c is not None:
                return self.const(a.c + b.c)
            return Sc(STR, z3.Concat(a.t, b.t))
        if a.c is not None and b.c is not None:
            return self.const(a.c + b.c)
        if a.c == '':
            return b
        if b.c == '':
            return a
        f = self.so.uf('str_concat', self.so.S, self.so.S, self.so.S)
        x, y = z3.Const('x!sc', self.so.S), z3.Const('y!sc', self.so.S)
        e = self.so.lit('')
        self.so.fact('str_concat_empty', z3.ForAll([x, y], z3.And(
            (f(x, y) == e) == z3.And(x == e, y == e),
            z3.Implies(y == e, f(x, y) == x),
            z3.Implies(x == e, f(x, y) == y)), patterns=[f(x, y)]))
        return Sc(STR, f(a.t, b.t))

    def _uf_s(self, name, args, out):
        so = self.so
        srts = [x.sort() for x in args]
        return so.uf('str_' + name, *(srts + [out]))(*args)

    def rpart(self, s, sep):
        """rpartition(sep) for a non-empty separator that does not overlap
        itself: (head, found, tail) as total functions of (s, sep)."""
        so = self.so
        a = self._uf_s('rpart0', [s, sep], so.S)
        b = self._uf_s('rpart2', [s, sep], so.S)
        found = z3.Contains(s, sep)
        facts = [z3.If(found, z3.And(s == z3.Concat(a, sep, b),
                                     z3.Not(z3.Contains(b, sep))),
                       z3.And(a == so.lit(''), b == s))]
        return a, found, b, facts

    def part(self, s, sep):
        so = self.so
        a = self._uf_s('part0', [s, sep], so.S)
        b = self._uf_s('part2', [s, sep], so.S)
        found = z3.Contains(s, sep)
        facts = [z3.If(found, z3.And(s == z3.Concat(a, sep, b),
                                     z3.Not(z3.Contains(a, sep))),
                       z3.And(a == s, b == so.lit('')))]
        return a, found, b, facts

    @staticmethod
    def borderfree(s):
        return s and not any(s[:k] == s[-k:] for k in range(1, len(s)))

    def str_count(self, s, sep):
        """Facts about count() of a one-character separator, instantiated at
        the last and the first separator."""
        so = self.so
        cnt = lambda x: self._uf_s('count', [x, sep], z3.IntSort())
        a, found, b, f1 = self.rpart(s, sep)
        facts = f1 + [cnt(s) >= 0, (cnt(s) == 0) == z3.Not(found),
                      cnt(so.lit('')) == 0, cnt(a) >= 0,
                      z3.Implies(found, cnt(s) == cnt(a) + 1),
                      (cnt(a) == 0) == z3.Not(z3.Contains(a, sep))]
        if self.so.mode == 'native':
            facts.append(cnt(s) <= z3.Length(s))
        return cnt(s), facts

    def str_method(self, st, name, s, args):
        so = self.so
        t = self.S(s)
        nat = so.mode == 'native'
        if all(isinstance(a, Sc) and a.c is not None for a in [s] + args) \
                and name in ('startswith', 'endswith', 'lower', 'upper',
                             'strip', 'rstrip', 'lstrip', 'isdigit',
                             'replace', 'count',
                             'partition', 'rpartition'):
            r = getattr(s.c, name)(*[a.c for a in args])
            return R(self.const(r))
        if name in ('startswith', 'endswith'):
            a = args[0]
            alts = a.items if isinstance(a, Tup) else [a]
            if nat:
                f = z3.PrefixOf if name == 'startswith' else z3.SuffixOf
                return R(self.bool_(OR([f(self.S(x), t) for x in alts])))
            return R(self.bool_(OR([self._uf_s(
                name, [t, self.S(x)], z3.BoolSort()) for x in alts])))
        if name in ('partition', 'rpartition'):
            sep = args[0]
            if not nat:
                a = self._uf_s(name + '0', [t, self.S(sep)], so.S)
                b = self._uf_s(name + '1', [t, self.S(sep)], so.S)
                c = self._uf_s(name + '2', [t, self.S(sep)], so.S)
                return R(Tup([Sc(STR, a), Sc(STR, b), Sc(STR, c)]))
            if sep.c is None or not self.borderfree(sep.c):
                raise Unsupported('partition on a computed separator')
            f = self.part if name == 'partition' else self.rpart
            a, found, b, facts = f(t, sep.t)
            return R(Tup([Sc(STR, a),
                          Sc(STR, z3.If(found, sep.t, so.lit(''))),
                          Sc(STR, b)]), (), facts)
        if name == 'replace' and len(args) == 2 and all(
                isinstance(a, Sc) and a.c is not None for a in args) and \
                args[0].c == args[1].c:
            return R(s)
        if name == 'replace':
            old, new = self.S(args[0]), self.S(args[1])
            if len(args) == 3:
                if not nat or args[2].c != 1:
                    raise Unsupported('replace count')
                return R(Sc(STR, z3.Replace(t, old, new)))
            if nat:
                r = self._uf_s('replace_all', [t, old, new], so.S)
                # facts: nothing to replace; exactly one occurrence
                once = z3.Replace(t, old, new)
                i = z3.IndexOf(t, old, 0)
                ol = z3.Length(old)
                pre = z3.SubString(t, 0, i)
                post = z3.SubString(t, i + ol, z3.Length(t) - i - ol)
                facts = [z3.Implies(z3.Not(z3.Contains(t, old)), r == t),
                         z3.Implies(z3.And(ol > 0, z3.Contains(t, old),
                                           z3.Not(z3.Contains(post, old))),
                                    r == z3.Concat(pre, new, post))]
                return R(Sc(STR, r), (), facts)
            return R(Sc(STR, self._uf_s('replace', [t, old, new], so.S)))
        if name == 'count':
            if nat and args[0].c is not None and len(args[0].c) == 1:
                v, f = self.str_count(t, args[0].t)
                return R(self.int_(v), (), f)
            v = self._uf_s('count', [t, self.S(args[0])], z3.IntSort())
            return R(self.int_(v), (), [v >= 0])
        if name == 'split':
            if len(args) != 1:
                raise Unsupported('split arguments')
            sep = self.S(args[0])
            r = self.str_split(t, sep, args[0].c)
            if s.c is not None and args[0].c and isinstance(r.v, CList):
                parts = s.c.split(args[0].c)
                r.facts = list(r.facts) + [r.v.n == len(parts)] + [
                    z3.Select(r.v.arr, i) == self.const(p).t
                    for i, p in enumerate(parts)]
            return r
        if name == 'rsplit' and len(args) == 2 and nat and \
                args[0].c is not None and len(args[0].c) == 1:
            sep, k = args[0].t, args[1].t
            head = self._uf_s('rsplit_head', [t, sep, k], so.S)
            cs, f1 = self.str_count(t, sep)
            ch, f2 = self.str_count(head, sep)
            n = fresh('nsplit', z3.IntSort())
            arr = fresh('rsplit', z3.ArraySort(z3.IntSort(), so.S))
            facts = f1 + f2 + [
                n >= 1, z3.Select(arr, 0) == head,
                z3.Implies(k == 0, z3.And(head == t, n == 1)),
                z3.Implies(z3.And(k >= 1, k <= cs), z3.And(
                    z3.PrefixOf(z3.Concat(head, sep), t), ch == cs - k,
                    n == k + 1)),
                z3.Implies(z3.And(k > cs), z3.And(ch == 0, n == cs + 1,
                                                  z3.PrefixOf(head, t)))]
            return R(CList(STR, n, arr), (), facts)
        if name == 'join':
            c = self.clist(st, args[0], STR)
            if isinstance(args[0], Tup) and nat:
                out = None
                for x in args[0].items:
                    out = x if out is None else self.str_concat(
                        self.str_concat(out, s), x)
                return R(out if out is not None else self.const(''))
            if c.et is None:
                return R(self.const(''))
            return R(Sc(STR, self.join_t(t, c.arr, z3.IntVal(0), c.n)), (),
                     self.join_facts(t, c.arr, z3.IntVal(0), c.n))
        if name == 'rstrip' and nat and len(args) == 1 and args[0].c:
            # t == r + rest, rest over the given characters, r not ending in
            # one of them
            r = self._uf_s('rstrip', [t, self.S(args[0])], so.S)
            n = z3.Length(r)
            rest = z3.SubString(t, n, z3.Length(t) - n)
            facts = [z3.PrefixOf(r, t), t == z3.Concat(r, rest),
                     z3.Or(n == 0, z3.Not(z3.Contains(
                         self.S(args[0]), z3.SubString(r, n - 1, 1)))),
                     z3.Implies(rest != so.lit(''), z3.Contains(
                         self.S(args[0]), z3.SubString(rest, 0, 1)))]
            if args[0].c == '0123456789':
                dig = self.so.uf('py_int_ok', so.S, z3.BoolSort())
                iv = self.so.uf('py_int_of_str', so.S, z3.IntSort())
                isd = self._uf_s('isdigit', [z3.SubString(rest, 0, 1)],
                                 z3.BoolSort())
                facts += [z3.Implies(rest != so.lit(''), z3.And(
                    dig(rest), iv(rest) >= 0, isd))]
            return R(Sc(STR, r), (), facts)
        if name in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'title'):
            return R(Sc(STR, self._uf_s(name, [t] + [self.S(a) for a in args],
                                        so.S)))
        if name in ('isdigit', 'isalpha', 'isidentifier'):
            return R(self.bool_(self._uf_s(name, [t], z3.BoolSort())))
        if name == 'find' and nat and len(args) == 1:
            return R(self.int_(z3.IndexOf(t, self.S(args[0]), 0)))
        if name == 'rfind' and nat and len(args) == 1:
            raise Unsupported('rfind')
        raise Unsupported('str.%s' % name)

    # join(sep, arr, lo, hi): the strings arr[lo..hi) joined with sep
    def join_t(self, sep, arr, lo, hi):
        so = self.so
        self.seps = getattr(self, 'seps', [])
        if not any(sep.eq(x) for x in self.seps):
            self.seps.append(sep)
        return so.uf('str_join', so.S, arr.sort(), z3.IntSort(),
                     z3.IntSort(), so.S)(sep, arr, lo, hi)

    def join_facts(self, sep, arr, lo, hi):
        if self.so.mode != 'native':
            return []
        j = self.join_t(sep, arr, lo, hi)
        rest = self.join_t(sep, arr, z3.simplify(lo + 1), hi)
        return [z3.Implies(hi <= lo, j == self.so.lit('')),
                z3.Implies(hi == lo + 1, j == z3.Select(arr, lo)),
                z3.Implies(hi > lo + 1, j == z3.Concat(
                    z3.Select(arr, lo), sep, rest))]

    def str_split(self, t, sep, csep):
        so = self.so
        nat = so.mode == 'native'
        n = self._uf_s('split_n', [t, sep], z3.IntSort())
        arr = self._uf_s('split_a', [t, sep],
                         z3.ArraySort(z3.IntSort(), so.S))
        zero = z3.IntVal(0)
        facts = [n >= 1, self.join_t(sep, arr, zero, n) == t]
        facts += self.join_facts(sep, arr, zero, n)
        if nat and csep is not None and len(csep) == 1:
            c, f = self.str_count(t, sep)
            i = fresh('i', z3.IntSort())
            facts += f + [n == c + 1, z3.ForAll([i], z3.Implies(
                z3.And(0 <= i, i < n),
                z3.Not(z3.Contains(z3.Select(arr, i), sep))),
                patterns=[z3.Select(arr, i)])]
        return R(CList(STR, n, arr), (), facts)

    def to_str(self, v):
        so = self.so
        if isinstance(v, Sc):
            if v.ty.k == 'str':
                return v, []
            if v.c is not None and v.ty.k in ('int', 'bool'):
                return self.const(str(v.c)), []
            f = so.uf('py_str_' + v.ty.k, v.t.sort(), so.S)
            r = f(v.t)
            facts = []
            if v.ty.k == 'int':
                inv = so.uf('py_int_of_str', so.S, z3.IntSort())
                facts.append(inv(r) == v.t)
            return Sc(STR, r), facts
        return Opaque('str()'), []

    # -- fresh values ----------------------------------------------------------
    def fresh_sv(self, st, ty, name):
        """A fresh symbolic value of a type; containers get a fresh cell."""
        ty = parse_ty(ty)
        so = self.so
        if ty.k == 'none':
            return NONE
        if ty.k == 'opaque':
            return Opaque(name)
        if ty.k in ('int', 'bool', 'str', 'real', 'any'):
            return Sc(ty, fresh(name, so.sort(ty)))
        if ty.k == 'obj':
            t = fresh(name, so.Obj)
            st.assume(t != so.NULL)
            st.assume_class(t, ty)
            return Sc(ty, t)
        if ty.k == 'opt':
            inner = ty.a[0]
            if inner.k in ('obj', 'any'):
                t = fresh(name, so.Obj)
                return Opt(t == so.NULL, Sc(inner, t))
            return Opt(fresh(name + '_none', z3.BoolSort()),
                       self.fresh_sv(st, inner, name))
        if ty.k == 'tuple':
            return Tup([self.fresh_sv(st, a, '%s_%d' % (name, i))
                        for i, a in enumerate(ty.a)])
        if ty.k in ('list', 'dict', 'odict', 'set'):
            c, facts = self.fresh_container(ty, name)
            for f in facts:
                st.assume(f)
            return Ref(('cell', st.new_cell(c)), ty)
        raise Unsupported('fresh value of type %r' % (ty,))

    def fresh_container(self, ty, name):
        so = self.so
        if ty.k == 'list':
            es = so.sort(ty.a[0])
            n = fresh(name + '_len', z3.IntSort())
            self.bound_below(n, 0)
            arr = fresh(name, z3.ArraySort(z3.IntSort(), es))
            return CList(ty.a[0], n, arr), [n >= 0] + self.wf_elems(
                ty.a[0], lambda i: z3.Select(arr, i), z3.IntSort())
        if ty.k in ('dict', 'odict'):
            ks, vs = so.sort(ty.a[0]), so.sort(ty.a[1])
            dom = fresh(name + '_dom', z3.ArraySort(ks, z3.BoolSort()))
            val = fresh(name + '_val', z3.ArraySort(ks, vs))
            keys, facts = None, []
            if ty.k == 'odict':
                n = fresh(name + '_n', z3.IntSort())
                arr = fresh(name + '_ks', z3.ArraySort(z3.IntSort(), ks))
                keys = CList(ty.a[0], n, arr)
                facts = [n >= 0] + self.keys_facts(dom, n, arr, ks)
            facts += self.wf_elems(ty.a[1], lambda k: z3.Select(val, k), ks)
            return CDict(ty.a[0], ty.a[1], dom, val, keys), facts
        if ty.k == 'set':
            return CSet(ty.a[0], fresh(name, z3.ArraySort(
                so.sort(ty.a[0]), z3.BoolSort()))), []
        raise Unsupported('container %r' % (ty,))

    def wf_elems(self, et, sel, isort):
        """Well-formedness of nested elements (lengths are not negative,
        non-nullable references are not null)."""
        i = fresh('i', isort)
        x = sel(i)
        if et.k == 'list':
            s = self.so.sort(et)
            return [z3.ForAll([i], s.len(x) >= 0, patterns=[x])]
        if et.k == 'obj':
            return [z3.ForAll([i], x != self.so.NULL, patterns=[x])]
        if et.k == 'tuple':
            s = self.so.sort(et)
            out = []
            for j, a in enumerate(et.a):
                if a.k == 'list':
                    y = getattr(s, 'f%d' % j)(x)
                    out.append(z3.ForAll([i], self.so.sort(a).len(y) >= 0,
                                         patterns=[y]))
            return out
        return []
