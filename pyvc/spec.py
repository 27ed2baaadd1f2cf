"""Evaluation of contract expressions to first-order formulas.

A contract expression is a Python expression over the parameters, `result`,
local variables (in loop invariants), ghost loop indexes, `old(e)`, the
connectives implies/iff, bounded and unbounded quantifiers written as
all(...)/any(...), macros and specification functions of the registry.  It is
total: partial operations are unconstrained outside their domain, never an
error."""
import ast

import z3

from . import values as V
from .values import (Sc, NoneV, NONE, Opt, Maybe, Tup, Ref, Py, Opaque, CList,
                     CDict, CSet, Ty, INT, BOOL, STR, REAL, ANY, Unsupported,
                     fresh, parse_ty)
from .ops import R, AND, OR

SORTS = {'STR': STR, 'INT': INT, 'BOOL': BOOL, 'OBJ': Ty('obj', ('?',)),
         'ANY': ANY}


class SpecEval(object):
    def __init__(self, eng, st, old, env, bound=None):
        self.eng = eng
        self.o = eng.ops
        self.so = eng.so
        self.st = st
        self.old = old
        self.env = env
        self.bound = dict(bound or {})
        self.facts = []
        self.qvars = []        # enclosing quantified constants

    # a fact about a term that mentions quantified variables must be
    # quantified as well
    def add_facts(self, fs):
        for f in fs:
            if self.qvars:
                vs = [q for q in self.qvars if _mentions(f, q)]
                if vs:
                    self.facts.append(z3.ForAll(vs, f))
                    continue
            self.facts.append(f)

    def take(self, r):
        self.add_facts(r.facts)
        v = r.v
        if isinstance(v, (CList, CDict, CSet)):
            v = Ref(('val', v), None)
        return v

    def ev(self, e):
        m = getattr(self, 'x_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('spec expression %s' % type(e).__name__)
        return m(e)

    def b(self, e):
        return self.o.truth(self.st, self.ev(e))

    def x_Constant(self, e):
        return self.o.const(e.value)

    def x_Name(self, e):
        n = e.id
        if n in self.bound:
            return self.bound[n]
        if n in self.env:
            v = self.env[n]
            if v is None:
                raise KeyError(n)
            return v
        g = '$' + n
        if g in self.st.env:
            return self.st.env[g]
        if n in self.eng.reg.spec_consts:
            return self.o.const(self.eng.reg.spec_consts[n])
        if n in SORTS:
            return Py('sort', n)
        if n == 'proc':
            return Sc(Ty('obj', ('Proc',)), self.so.proc())
        raise KeyError(n)

    def x_Attribute(self, e):
        if isinstance(e.value, ast.Attribute):
            # a constant of the program: module.Class.NAME
            k = self.eng.db.consts.get(ast.unparse(e.value))
            if k is not None and e.attr in k:
                return self.eng.dec_const(k[e.attr])
        v = self.ev(e.value)
        return self.attr(v, e.attr)

    def attr(self, v, name):
        if isinstance(v, Opt):
            v = v.v
        if isinstance(v, Tup) and v.names and name in v.names:
            return v.items[v.names.index(name)]
        if isinstance(v, Sc) and v.ty.k in ('obj', 'any'):
            cls = v.ty.a[0] if v.ty.k == 'obj' and v.ty.a else None
            an = self.eng.attr_alias(cls, name)
            if an is None:
                raise Unsupported('spec attribute %s of %s' % (name, cls))
            ty, arr = self.st.heap_attr(an)
            if ty.k in ('list', 'dict', 'odict', 'set'):
                return Ref(('field', v.t, an), ty)
            r = self.o.unpack(z3.Select(arr, v.t), ty)
            return r.v if isinstance(r, Maybe) else r
        raise Unsupported('spec attribute %s of %r' % (name, v))

    def x_Tuple(self, e):
        return Tup([self.ev(x) for x in e.elts])

    def x_List(self, e):
        vs = [self.ev(x) for x in e.elts]
        if not vs:
            return Ref(('val', CList(None, z3.IntVal(0), None)), None)
        c = self.o.tup_list(self.st, Tup(vs))
        return Ref(('val', c), Ty('list', (c.et,)))

    def x_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return self.o.bool_(z3.Not(self.o.truth(self.st, v)))
        if isinstance(e.op, ast.USub):
            if v.c is not None:
                return self.o.const(-v.c)
            return Sc(v.ty, -v.t)
        raise Unsupported('spec unary')

    def x_BoolOp(self, e):
        vs = [self.ev(x) for x in e.values]
        if all(isinstance(v, Sc) and v.ty.k == 'bool' for v in vs):
            f = AND if isinstance(e.op, ast.And) else OR
            return self.o.bool_(f([v.t for v in vs]))
        # value semantics
        acc = vs[-1]
        for v in reversed(vs[:-1]):
            t = self.o.truth(self.st, v)
            acc = self.ite(t, acc, v) if isinstance(e.op, ast.And) else \
                self.ite(t, v, acc)
        return acc

    def ite(self, c, a, b):
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        if isinstance(a, Sc) and isinstance(b, Sc):
            if a.ty == b.ty or {a.ty.k, b.ty.k} <= {'obj', 'any'}:
                return Sc(a.ty, z3.If(c, a.t, b.t))
            if {a.ty.k, b.ty.k} == {'int', 'real'}:
                ta = z3.ToReal(a.t) if a.ty.k == 'int' else a.t
                tb = z3.ToReal(b.t) if b.ty.k == 'int' else b.t
                return Sc(REAL, z3.If(c, ta, tb))
            if 'any' in (a.ty.k, b.ty.k):
                return Sc(ANY, z3.If(c, self.o.box(a)[0], self.o.box(b)[0]))
            return self.o.bool_(z3.If(c, self.o.truth(self.st, a),
                                      self.o.truth(self.st, b)))
        if isinstance(a, NoneV) and isinstance(b, NoneV):
            return NONE
        if isinstance(a, (NoneV, Opt)) or isinstance(b, (NoneV, Opt)):
            def parts(x):
                if isinstance(x, NoneV):
                    return z3.BoolVal(True), None
                if isinstance(x, Opt):
                    return x.isnone, x.v
                return z3.BoolVal(False), x
            na, va = parts(a)
            nb, vb = parts(b)
            va = vb if va is None else va
            vb = va if vb is None else vb
            if isinstance(va, Sc) and va.ty.k in ('obj', 'any') and \
                    isinstance(vb, Sc):
                t = z3.If(c, z3.If(na, self.so.NULL, va.t),
                          z3.If(nb, self.so.NULL, vb.t))
                return Opt(t == self.so.NULL, Sc(va.ty, t))
            return Opt(z3.If(c, na, nb), self.ite(c, va, vb))
        if isinstance(a, Tup) and isinstance(b, Tup) and \
                len(a.items) == len(b.items):
            return Tup([self.ite(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, (Ref, Tup)) and isinstance(b, (Ref, Tup)):
            x, y = self.o.clist(self.st, a), self.o.clist(self.st, b)
            et = x.et or y.et
            if et is None:
                return a
            x, y = (self.o.typed(q, Ty('list', (et,))) for q in (x, y))
            return Ref(('val', CList(et, z3.If(c, x.n, y.n),
                                     z3.If(c, x.arr, y.arr))),
                       Ty('list', (et,)))
        raise Unsupported('spec conditional of %r and %r' % (a, b))

    def x_IfExp(self, e):
        return self.ite(self.b(e.test), self.ev(e.body), self.ev(e.orelse))

    def x_Compare(self, e):
        vs = [self.ev(x) for x in [e.left] + e.comparators]
        acc = []
        for op, l, r in zip(e.ops, vs, vs[1:]):
            acc.append(self.take(self.eng.compare(self.st, op, l, r)).t)
        return self.o.bool_(AND(acc))

    def x_BinOp(self, e):
        l, r = self.ev(e.left), self.ev(e.right)
        return self.take(self.eng.binop(self.st, e.op, l, r, spec=True))

    def x_Subscript(self, e):
        c = self.ev(e.value)
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower) if e.slice.lower else None
            hi = self.ev(e.slice.upper) if e.slice.upper else None
            if isinstance(c, Opt):
                c = c.v
            return self.take(self.o.slice(self.st, c, lo, hi))
        i = self.ev(e.slice)
        if isinstance(i, Opt):
            i = i.v
        return self.take(self.o.index(self.st, c, i))

    # -- quantifiers -----------------------------------------------------
    def x_GeneratorExp(self, e):
        raise Unsupported('generator outside all/any')

    def quant(self, e, is_all):
        gens = e.generators

        def rec(gi):
            if gi == len(gens):
                return self.b(e.elt)
            g = gens[gi]
            dom = g.iter
            if isinstance(dom, ast.Name) and dom.id in SORTS:
                ty = SORTS[dom.id]
                q = fresh('q', self.so.sort(ty))
                return self.body(g, Sc(ty, q), [], q, rec, gi, is_all, None)
            if isinstance(dom, ast.Call) and isinstance(dom.func, ast.Name) \
                    and dom.func.id == 'objs':
                cls = dom.args[0].value
                q = fresh('q', self.so.Obj)
                return self.body(g, Sc(Ty('obj', (cls,)), q),
                                 [q != self.so.NULL], q, rec, gi, is_all,
                                 None)
            if isinstance(dom, ast.Call) and isinstance(dom.func, ast.Name) \
                    and dom.func.id == 'range':
                a = [self.ev(x) for x in dom.args]
                lo = z3.IntVal(0) if len(a) == 1 else a[0].t
                hi = a[-1].t
                q = fresh('q', z3.IntSort())
                l0 = self.o.lower(lo)
                if l0 is not None:
                    self.o.bound_below(q, l0)
                return self.body(g, Sc(INT, q), [lo <= q, q < hi], q, rec,
                                 gi, is_all, None)
            enum = False
            if isinstance(dom, ast.Call) and isinstance(dom.func, ast.Name) \
                    and dom.func.id == 'enumerate':
                enum = True
                dom = dom.args[0]
            v = self.ev(dom)
            if isinstance(v, Opt):
                v = v.v
            if isinstance(v, Tup):
                outs = []
                for i, x in enumerate(v.items):
                    sv = dict(self.bound)
                    self.bind(g.target, Tup([self.o.const(i), x]) if enum
                              else x)
                    conds = [self.b(c) for c in g.ifs]
                    bd = rec(gi + 1)
                    self.bound = sv
                    outs.append(z3.Implies(AND(conds), bd) if is_all else
                                AND(conds + [bd]))
                return AND(outs) if is_all else OR(outs)
            c = self.o.get(self.st, v.place)
            if isinstance(c, CList):
                if c.et is None:
                    return z3.BoolVal(is_all)
                q = fresh('q', z3.IntSort())
                x = self.o.unpack(z3.Select(c.arr, q), c.et, v.place, q)
                if enum:
                    x = Tup([Sc(INT, q), x])
                return self.body(g, x, [0 <= q, q < c.n], q, rec, gi, is_all,
                                 z3.Select(c.arr, q))
            if isinstance(c, CDict):
                if c.kt is None:
                    return z3.BoolVal(is_all)
                q = fresh('q', self.so.sort(c.kt))
                return self.body(g, self.o.unpack(q, c.kt),
                                 [z3.Select(c.dom, q)], q, rec, gi, is_all,
                                 z3.Select(c.dom, q))
            if isinstance(c, CSet):
                if c.et is None:
                    return z3.BoolVal(is_all)
                q = fresh('q', self.so.sort(c.et))
                return self.body(g, self.o.unpack(q, c.et),
                                 [z3.Select(c.mem, q)], q, rec, gi, is_all,
                                 z3.Select(c.mem, q))
            raise Unsupported('quantifier domain')
        return self.o.bool_(rec(0))

    def bind(self, target, v):
        if isinstance(target, ast.Name):
            self.bound[target.id] = v
        elif isinstance(target, ast.Tuple) and isinstance(v, Tup):
            for t, x in zip(target.elts, v.items):
                self.bind(t, x)
        else:
            raise Unsupported('spec target')

    def body(self, g, v, rng, q, rec, gi, is_all, pat):
        sv = dict(self.bound)
        self.qvars.append(q)
        self.bind(g.target, v)
        conds = rng + [self.b(c) for c in g.ifs]
        bd = rec(gi + 1)
        self.qvars.pop()
        self.bound = sv
        if is_all:
            f = z3.Implies(AND(conds), bd)
            if pat is not None and _mentions(pat, q) and not _is_store(pat):
                # keep the solver's own choice available for nested arrays
                try:
                    return z3.ForAll([q], f, patterns=[pat])
                except z3.Z3Exception:
                    pass
            return z3.ForAll([q], f)
        return z3.Exists([q], AND(conds + [bd]))

    # -- calls -----------------------------------------------------------
    def x_Call(self, e):
        if isinstance(e.func, ast.Attribute):
            recv = self.ev(e.func.value)
            return self.method(recv, e.func.attr,
                               [self.ev(a) for a in e.args])
        n = e.func.id
        m = getattr(self, 'c_' + n, None)
        if m is not None:
            return m(e)
        reg = self.eng.reg
        if n in reg.macros:
            params, body = reg.macros[n]
            vals = [self.ev(a) for a in e.args]
            if len(vals) != len(params):
                raise Unsupported('macro arity %s' % n)
            sub = SpecEval(self.eng, self.st, self.old, {},
                           dict(zip(params, vals)))
            sub.qvars = self.qvars
            sub.facts = self.facts
            return sub.ev(ast.parse(body.strip(), mode='eval').body)
        if n in reg.ufs:
            return self.uf(n, [self.ev(a) for a in e.args])
        raise Unsupported('spec function %s' % n)

    def unfold(self, n):
        """State the axioms of a specification function."""
        for i, a in enumerate(self.eng.reg.axioms.get(n, ())):
            ast_ = _AxSt(self.eng, self.st, n)
            sub = SpecEval(self.eng, ast_, ast_, {})
            f = sub.o.truth(ast_, sub.axiom(a, ast_.hvars))
            for x in sub.facts:
                self.so.fact('axf_%s_%d_%d' % (n, i, x.get_id()), x)
            self.so.fact('ax_%s_%d' % (n, i), f)

    def uf(self, n, vals):
        done = self.eng.__dict__.setdefault('_axioms_done', set())
        if n not in done:
            done.add(n)
            try:
                self.unfold(n)
            except BaseException:
                done.discard(n)
                raise
        tys, rt = self.eng.reg.ufs[n]
        args = []
        for v, t in zip(vals, tys):
            t = parse_ty(t)
            if t.k == 'list':
                c = self.o.clist(self.st, v, t.a[0])
                args += [c.n, c.arr]
            elif isinstance(v, Ref):
                c = self.o.typed(self.o.get(self.st, v.place), t)
                args += [c.dom, c.val] if isinstance(c, CDict) else [c.mem]
            else:
                if isinstance(v, Opt) and t.k not in ('opt', 'any'):
                    v = v.v
                args.append(self.o.pack(self.st, v, t))
        for an in self.eng.reg.reads.get(n, ()):
            args.append(self.st.heap_attr(an)[1])
        rt = parse_ty(rt)
        f = self.so.uf(n, *([a.sort() for a in args] + [self.so.sort(rt)]))
        return self.o.unpack(f(*args), rt)

    def c_old(self, e):
        if self.old is None:
            raise Unsupported('old() here')
        env = self.old.env
        r = self.env.get('result')
        if 'result' not in env and isinstance(r, (Sc, Opt)):
            env = dict(env, result=r)
        sub = SpecEval(self.eng, self.old, self.old, env, self.bound)
        sub.qvars = self.qvars
        sub.facts = self.facts
        return self.freeze(sub.ev(e.args[0]), self.old)

    def c_entry(self, e):
        """Value at loop entry is old() in a loop invariant; entry(e) is the
        value at function entry."""
        fe = self.eng.fn_entry
        sub = SpecEval(self.eng, fe, fe, fe.env, self.bound)
        sub.qvars = self.qvars
        sub.facts = self.facts
        return self.freeze(sub.ev(e.args[0]), fe)

    def axiom(self, a, hvars=()):
        """(params, body, pattern): for all params (and heaps), body."""
        params, body, pat = a
        vs, live = [], []
        s = self.st.blank() if isinstance(self.st, _AxSt) else \
            type(self.st)(self.eng)
        for p in _split(params):
            nm, ty = p.strip().split(':')
            v = self.o.fresh_sv(s, ty.strip(), nm)
            self.bound[nm] = v
            if isinstance(v, Sc):
                vs.append(v.t)
                if v.ty.k == 'obj':
                    live.append(v.t != self.so.NULL)
            elif isinstance(v, Ref):
                c = s.cells[v.place[1]]
                self.bound[nm] = Ref(('val', c), v.ty)
                vs += [c.n, c.arr] if isinstance(c, CList) else \
                    [c.dom, c.val] if isinstance(c, CDict) else [c.mem]
            else:
                raise Unsupported('axiom parameter')
        vs += list(hvars)
        self.qvars += vs
        f = self.b(ast.parse(body.strip(), mode='eval').body)
        p = self.ev(ast.parse(pat.strip(), mode='eval').body)
        self.qvars = self.qvars[:len(self.qvars) - len(vs)]
        pts = [x.place[1] if isinstance(x, Ref) and x.place[0] == 'field'
               else x.t for x in (p.items if isinstance(p, Tup) else [p])]
        # list arguments of the pattern bind (length, array)
        free = [v for v in vs if not any(_mentions(t, v) for t in pts)]
        if free:
            raise Unsupported('axiom pattern does not bind %r' % free)
        f = z3.Implies(AND(live), f) if live else f
        return self.o.bool_(z3.ForAll(vs, f, patterns=[
            z3.MultiPattern(*pts) if len(pts) > 1 else pts[0]]))

    def freeze(self, v, st):
        if isinstance(v, Ref):
            return Ref(('val', self.o.get(st, v.place)), v.ty)
        if isinstance(v, Opt):
            return Opt(v.isnone, self.freeze(v.v, st))
        if isinstance(v, Tup):
            return Tup([self.freeze(x, st) for x in v.items], v.names)
        return v

    def c_implies(self, e):
        a, b = self.b(e.args[0]), self.b(e.args[1])
        return self.o.bool_(z3.Implies(a, b))

    def c_iff(self, e):
        return self.o.bool_(self.b(e.args[0]) == self.b(e.args[1]))

    def c_all(self, e):
        return self.quant(e.args[0], True)

    def c_any(self, e):
        return self.quant(e.args[0], False)

    def c_len(self, e):
        v = self.ev(e.args[0])
        if isinstance(v, Opt):
            v = v.v
        sub = _Cap()
        sub.cells = self.st.cells
        if isinstance(v, Ref):
            c = self.o.get(self.st, v.place)
            if isinstance(c, CDict) and c.kt is not None and c.keys is None:
                raise Unsupported('len of unordered dict in spec')
        return self.eng.len_(self.st, v)

    def c_bool(self, e):
        return self.o.bool_(self.b(e.args[0]))

    def c_str(self, e):
        v, facts = self.o.to_str(self.ev(e.args[0]))
        self.add_facts(facts)
        return v

    def c_int_of(self, e):
        """The integer a text stands for."""
        return Sc(INT, self.so.uf('py_int_of_str', self.so.S, z3.IntSort())(
            self.ev(e.args[0]).t))

    def c_is_none(self, e):
        return self.o.bool_(self.o.eq(self.st, self.ev(e.args[0]), NONE))

    def c_some(self, e):
        """The value of an optional known not to be None."""
        v = self.ev(e.args[0])
        return v.v if isinstance(v, Opt) else v

    def c_isinstance(self, e):
        v = self.ev(e.args[0])
        t = e.args[1]
        names = [t.id] if isinstance(t, ast.Name) else \
            [t.value] if isinstance(t, ast.Constant) else \
            [x.id for x in t.elts]
        return self.o.bool_(self.eng.isinst(self.st, v, names))

    def c_missing(self, e):
        """missing(obj.attr): the attribute does not exist."""
        a = e.args[0]
        v = self.ev(a.value)
        cls = v.ty.a[0] if v.ty.k == 'obj' and v.ty.a else None
        an = self.eng.attr_alias(cls, a.attr)
        ty, arr = self.st.heap_attr(an)
        r = self.o.unpack(z3.Select(arr, v.t), ty)
        return self.o.bool_(r.missing)

    def c_boxed(self, e):
        """A scalar as a value of any type."""
        return Sc(V.ANY, self.o.box(self.ev(e.args[0]))[0])

    def c_haskey(self, e):
        v, k = self.ev(e.args[0]), self.ev(e.args[1])
        return self.o.bool_(self.o.contains(self.st, k, v))

    def c_same_list(self, e):
        a, b = self.ev(e.args[0]), self.ev(e.args[1])
        return self.o.bool_(self.o.eq(self.st, a, b))

    def c_unchanged(self, e):
        """unchanged('attr'): the whole heap map is as in the old state."""
        fs = []
        for a in e.args:
            n = a.value
            _, cur = self.st.heap_attr(n)
            _, old = self.old.heap_attr(n)
            fs.append(cur == old)
        return self.o.bool_(AND(fs))

    def c_only(self, e):
        """only('attr', o1, ...): the heap map changed at most at o1, ..."""
        n = e.args[0].value
        _, cur = self.st.heap_attr(n)
        _, old = self.old.heap_attr(n)
        x = fresh('x', self.so.Obj)
        ex = [x != self.ev(a).t for a in e.args[1:]]
        return self.o.bool_(z3.ForAll([x], z3.Implies(
            AND(ex), z3.Select(cur, x) == z3.Select(old, x)),
            patterns=[z3.Select(cur, x)]))

    def c_count(self, e):
        """count(lambda i: cond, n): number of i < n with cond."""
        lam, n = e.args
        k = fresh('k', z3.IntSort())
        sv = dict(self.bound)
        self.bound[lam.args.args[0].arg] = Sc(INT, k)
        self.qvars.append(k)
        c = self.b(lam.body)
        self.qvars.pop()
        self.bound = sv
        cnt, facts = self.eng.count_fn(k, c, None)
        self.add_facts(facts)
        return Sc(INT, cnt(self.ev(n).t))

    want_src = False

    def filt(self, res, xs, lam, upto, fmap=None):
        """res is the sub-sequence of xs[:upto] whose elements satisfy lam:
        through the counting function of the condition."""
        r = self.o.clist(self.st, res)
        c = self.o.clist(self.st, xs)
        if c.et is None:
            return r.n == 0
        if fmap is None:
            r = self.o.typed(r, Ty('list', (c.et,)))
        elif r.et is None:
            r = self.o.typed(r, Ty('list', (STR,)))
        k = fresh('k', z3.IntSort())
        self.o.bound_below(k, 0)
        place = xs.place if isinstance(xs, Ref) else None
        sv = dict(self.bound)
        self.bound[lam.args.args[0].arg] = self.o.unpack(
            z3.Select(c.arr, k), c.et, place, k)
        self.qvars.append(k)
        cond = self.b(lam.body)
        img = z3.Select(c.arr, k)
        if fmap is not None:
            self.bound[fmap.args.args[0].arg] = self.bound[
                lam.args.args[0].arg]
            img = self.o.pack(self.st, self.ev(fmap.body), r.et)
        self.qvars.pop()
        self.bound = sv
        cnt, facts = self.eng.count_fn(k, cond, None)
        self.add_facts(facts)
        j = fresh('j', z3.IntSort())
        ck = lambda x: z3.substitute(cond, (k, x))
        n = c.n if upto is None else upto
        # every value below cnt(n) is the count at some selected index (an
        # induction consequence of the definition of cnt)
        src = z3.Function('src_' + cnt.name(), z3.IntSort(), z3.IntSort())
        if self.want_src and not any(
                _mentions(cond, q) for q in self.qvars):
            self.add_facts([z3.ForAll([j], z3.Implies(
                z3.And(0 <= j, j < cnt(n), n >= 0),
                z3.And(0 <= src(j), src(j) < n, ck(src(j)),
                       cnt(src(j)) == j)),
                patterns=[src(j)] + (
                    [z3.Select(r.arr, j)] if z3.is_const(r.arr) else []))])
        return z3.And(r.n == cnt(n), z3.ForAll([k], z3.Implies(
            z3.And(0 <= k, k < n, cond),
            z3.Select(r.arr, cnt(k)) == img),
            patterns=[z3.Select(c.arr, k)]))

    def c_filtered(self, e):
        res, xs = self.ev(e.args[0]), self.ev(e.args[1])
        return self.o.bool_(self.filt(res, xs, e.args[2], None))

    def c_filtered_src(self, e):
        """filtered(), with the place every element came from."""
        self.want_src = True
        r = self.c_filtered(e)
        self.want_src = False
        return r

    def c_filtered_map(self, e):
        """filtered_map(res, xs, cond, image[, n])"""
        res, xs = self.ev(e.args[0]), self.ev(e.args[1])
        n = self.ev(e.args[4]).t if len(e.args) > 4 else None
        return self.o.bool_(self.filt(res, xs, e.args[2], n, e.args[3]))

    def c_filtered_prefix(self, e):
        res, xs = self.ev(e.args[0]), self.ev(e.args[1])
        n = self.ev(e.args[3]).t
        return self.o.bool_(self.filt(res, xs, e.args[2], n))

    def c_set(self, e):
        v = self.ev(e.args[0])
        c = self.o.get(self.st, v.place)
        if isinstance(c, CSet):
            return v
        raise Unsupported('spec set()')

    def c_keys(self, e):
        """keys(d): the keys of an ordered dictionary, in order."""
        v = self.ev(e.args[0])
        c = self.o.get(self.st, v.place)
        if not (isinstance(c, CDict) and (c.keys is not None or
                                          c.kt is None)):
            raise Unsupported('keys() of an unordered dictionary')
        ks, facts = self.o.dict_keys(c)
        self.add_facts(facts)
        return Ref(('val', ks), Ty('list', (ks.et,)) if ks.et else None)

    def c_same(self, e):
        """same(a, b): one and the same list object."""
        a, b = [self.box_obj(self.ev(x)) for x in e.args]
        return self.o.bool_(a == b)

    def c_born(self, e):
        """born(x): the list object x exists."""
        v = self.ev(e.args[0])
        an = v.place[2].split('.')[0] + '.born'
        return self.o.bool_(z3.Select(self.st.heap_attr(an)[1],
                                      v.place[1]))

    def box_obj(self, v):
        if isinstance(v, Ref) and v.place[0] == 'field':
            return v.place[1]
        if isinstance(v, Sc) and v.ty.k in ('obj', 'any'):
            return v.t
        raise Unsupported('not a list object')

    def c_at(self, e):
        """at(xs, j): the element at j >= 0 (for patterns)."""
        v, j = self.ev(e.args[0]), self.ev(e.args[1])
        c = self.o.get(self.st, v.place)
        return self.o.unpack(z3.Select(c.arr, j.t), c.et, v.place, j.t)

    def c_trig(self, e):
        return self.ev(e.args[0])

    def c_min(self, e):
        a, b = [self.ev(x) for x in e.args]
        return Sc(a.ty, z3.If(a.t <= b.t, a.t, b.t))

    def c_max(self, e):
        a, b = [self.ev(x) for x in e.args]
        return Sc(a.ty, z3.If(a.t >= b.t, a.t, b.t))

    # -- methods ----------------------------------------------------------
    def method(self, v, name, args):
        if isinstance(v, Opt):
            v = v.v
        args = [a.v if isinstance(a, Opt) else a for a in args]
        if isinstance(v, Sc) and v.ty.k == 'str':
            return self.take(self.o.str_method(self.st, name, v, args))
        if isinstance(v, Ref):
            c = self.o.get(self.st, v.place)
            if isinstance(c, CDict) and name == 'get':
                d = args[1] if len(args) > 1 else NONE
                if c.kt is None:
                    return d
                k = self.o.pack(self.st, args[0], c.kt)
                x = self.o.unpack(z3.Select(c.val, k), c.vt, v.place, k)
                return self.ite(z3.Select(c.dom, k), x, d)
            if isinstance(c, CDict) and name == 'keys':
                return v
        raise Unsupported('spec method %s of %r' % (name, v))


def _split(text):
    out, depth = [''], 0
    for ch in text:
        depth += ch == '['
        depth -= ch == ']'
        if ch == ',' and not depth:
            out.append('')
        else:
            out[-1] += ch
    return out


class _Cap(object):
    pass


class _AxSt(object):
    """The state of an axiom: the heap maps it reads are universally
    quantified, no other is accessible."""

    def __init__(self, eng, st, name):
        self.eng = eng
        self._mk = st._mk if isinstance(st, _AxSt) else type(st)
        self.env = {}
        self.pc = []
        self.cells = {}
        self.heap = {}
        self.hvars = []
        for an in eng.reg.reads.get(name, ()):
            eng.attr_type(an)
            h = fresh('hx_' + an.replace('.', '_'),
                      eng.heap0(an).sort())
            self.heap[an] = h
            self.hvars.append(h)

    def blank(self):
        return self._mk(self.eng)

    def heap_attr(self, an):
        if an not in self.heap:
            raise Unsupported('axiom reads undeclared attribute %s' % an)
        return self.eng.attr_type(an), self.heap[an]

    def assume(self, f):
        pass

    def assume_class(self, t, ty):
        pass

    def new_cell(self, c):
        self.eng.cell_n += 1
        self.cells[self.eng.cell_n] = c
        return self.eng.cell_n


def _mentions(t, q):
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(q):
            return True
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return False


def _is_store(pat):
    """Patterns over interpreted array terms do not match well."""
    if pat.num_args() and z3.is_app(pat):
        a = pat.arg(0)
        return z3.is_app(a) and a.decl().kind() in (
            z3.Z3_OP_STORE, z3.Z3_OP_CONST_ARRAY, z3.Z3_OP_ITE)
    return False
