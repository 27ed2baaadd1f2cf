"""Verification-condition generator: forward symbolic execution of the real
function bodies against contracts, one function at a time."""
import ast
import copy
import builtins as _builtins
import itertools

import z3

from . import values as V
from .values import (Sc, NoneV, NONE, Opt, Maybe, Tup, Ref, Py, Opaque, CList,
                     CDict, CSet, Ty, INT, BOOL, STR, REAL, ANY, Unsupported,
                     fresh, parse_ty, Sorts)
from .ops import Ops, R, AND, OR

NOOP_ROOTS = ('logger', 'logging', 'print', 'warnings')
MAX_PATHS = 4000


class Exc(object):
    def __init__(self, name, payload=None, line=0):
        self.name = name
        self.payload = payload or {}
        self.line = line

    def __repr__(self):
        return 'Exc(%s@%s)' % (self.name, self.line)


class Loop(object):
    def __init__(self, inv=(), decreases=None, types=None, havoc=(),
                 uses=None):
        # uses: which invariants the proof of one of them needs (a hint that
        # is tried first)
        self.uses = uses or {}
        self.inv = dict(inv) if isinstance(inv, dict) else {
            'inv%d' % i: e for i, e in enumerate(inv)}
        self.decreases = decreases
        self.types = types or {}
        self.havoc = list(havoc)


class Contract(object):
    """A contract on one function of /repo (or, trusted, on an external)."""

    def __init__(self, key, params=None, returns='none', requires=(),
                 ensures=None, raises=None, modifies=(), loops=None,
                 case='', strings='native', attrs=None, ghost=None,
                 uses=(), trusted=False, callable_=True, props=(),
                 defs=(), assume_params=None, args=None, locals_=None,
                 inline=(), timeout=None, note='', exc_ensures=None,
                 effects=(), call_requires=None, classes=None,
                 use_cases=None, pure=False, unroll=None, bounded=None,
                 cuts=(), digest=None, witness=None, records=(), decreases=None):
        # measure of a recursive function
        self.decreases = decreases
        # records whose literals occur in the function
        self.records = list(records)
        # locals at exit that witness existentials of the postcondition
        self.witness = dict(witness or {})
        self.cuts = list(cuts)
        self.key = key
        self.case = case
        self.params = dict(params or {})
        self.returns = returns
        self.requires = list(requires)
        self.ensures = dict(ensures or {}) if isinstance(ensures, dict) else \
            {'post%d' % i: e for i, e in enumerate(ensures or ())}
        self.raises = dict(raises or {})
        self.exc_ensures = dict(exc_ensures or {})
        self.modifies = list(modifies)
        self.loops = dict(loops or {})
        self.strings = strings
        self.attrs = dict(attrs or {})
        self.ghost = dict(ghost or {})
        self.uses = list(uses)
        self.trusted = trusted
        self.callable_ = callable_
        self.props = list(props)
        self.args = dict(args or {})
        self.locals_ = dict(locals_ or {})
        self.timeout = timeout
        self.note = note
        self.effects = list(effects)
        self.classes = dict(classes or {})
        self.use_cases = dict(use_cases or {})
        self.pure = pure

    @property
    def name(self):
        return self.key + ('#' + self.case if self.case else '')


class Lemma(object):
    def __init__(self, name, params, requires=(), ensures=(),
                 strings='native', induct=None, uses=(), pattern=None,
                 props=(), trusted=False, note=''):
        self.name = name
        self.params = params
        self.requires = list(requires)
        self.ensures = list(ensures)
        self.strings = strings
        self.induct = induct
        self.uses = list(uses)
        self.pattern = pattern
        self.props = list(props)
        self.trusted = trusted
        self.note = note


class Obl(object):
    def __init__(self, name, kind, hyps, goal, line=0):
        self.name = name
        self.kind = kind
        self.hyps = hyps
        self.goal = goal
        self.line = line
        self.focus = None


class St(object):
    def __init__(self, eng):
        self.eng = eng
        self.env = {}
        self.pc = []
        self.cells = {}
        self.heap = {}
        self.cur_exc = None
        self.depth = 0
        self.frames = []    # variables of the callers of an inlined call

    def copy(self):
        s = St(self.eng)
        s.env = dict(self.env)
        s.frames = [dict(x) for x in self.frames]
        s.pc = list(self.pc)
        s.cells = dict(self.cells)
        s.heap = dict(self.heap)
        s.cur_exc = self.cur_exc
        s.depth = self.depth
        return s

    def assume(self, f):
        if z3.is_true(f):
            return
        self.pc.append(f)

    def assume_class(self, t, ty):
        self.eng.assume_class(self, t, ty)

    def new_cell(self, c):
        self.eng.cell_n += 1
        self.cells[self.eng.cell_n] = c
        return self.eng.cell_n

    def heap_attr(self, attr):
        ty = self.eng.attr_type(attr)
        if attr not in self.heap:
            self.heap[attr] = self.eng.heap0(attr)
        return ty, self.heap[attr]

    def set_heap(self, attr, arr):
        self.heap[attr] = arr


class Ctx(object):
    """Static context of the code being executed: module, class, function."""

    def __init__(self, func, contract=None, toplevel=False):
        self.func = func
        self.module = func.module
        self.contract = contract
        self.toplevel = toplevel
        self.loop_ids = {}
        n = 0
        # names the function assigns (and so are local to it)
        self.assigned = set()
        glob = set()
        for x in _own(func.node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                self.assigned.add(x.id)
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                glob |= set(x.names)
        self.assigned -= glob
        # a name bound in a loop may or may not be bound after havoc
        for x in _own(func.node):
            if isinstance(x, (ast.For, ast.While)):
                for y in ast.walk(x):
                    if isinstance(y, ast.Name) and isinstance(y.ctx,
                                                              ast.Store):
                        self.assigned.discard(y.id)
        for x in _preorder(func.node):
            if isinstance(x, (ast.For, ast.While)):
                self.loop_ids[id(x)] = n
                n += 1


def _own(node):
    for c in ast.iter_child_nodes(node):
        yield c
        if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ListComp,
                              ast.SetComp, ast.DictComp, ast.GeneratorExp,
                              ast.ClassDef)):
            for x in _own(c):
                yield x


def _preorder(node):
    for c in ast.iter_child_nodes(node):
        yield c
        for x in _preorder(c):
            yield x


class Engine(object):
    def __init__(self, db, registry, contract):
        self.db = db
        self.reg = registry
        self.con = contract
        V.reset_names()
        self.so = Sorts(contract.strings)
        self.ops = Ops(self.so)
        self.ops.eng = self
        self.obls = []
        self.cell_n = 0
        self._heap0 = {}
        self.path_n = 0
        self.used = set()          # contracts and lemmas relied upon
        self.trust = set()         # trusted models used
        self.inlined = set()
        self.label_n = {}
        self.inv_tag = {}
        self.spec_old = None
        self.quick = z3.Solver()
        self.quick.set('timeout', 150)
        self.exits = []
        self.in_probe = 0

    # -- schema ------------------------------------------------------------
    def attr_type(self, attr):
        ty = self.con.attrs.get(attr) or self.reg.attrs.get(attr)
        if ty is None:
            raise Unsupported('attribute %s has no declared type' % attr)
        return parse_ty(ty)

    def heap0(self, attr):
        if attr not in self._heap0:
            ty = self.attr_type(attr)
            a = z3.Const('H0_' + attr, z3.ArraySort(self.so.Obj,
                                                    self.so.sort(ty)))
            self._heap0[attr] = a
            o = z3.Const('o!h', self.so.Obj)
            sel = z3.Select(a, o)
            if ty.k == 'list':
                self.so.fact('wf_' + attr, z3.ForAll(
                    [o], self.so.sort(ty).len(sel) >= 0, patterns=[sel]))
                if ty.a[0].k == 'obj':
                    i = z3.Const('i!h', z3.IntSort())
                    x = z3.Select(self.so.sort(ty).arr(sel), i)
                    self.so.fact('wfe_' + attr, z3.ForAll(
                        [o, i], x != self.so.NULL, patterns=[x]))
            if ty.k in ('dict', 'odict') and ty.a[1].k == 'list':
                q = z3.Const('k!h', self.so.sort(ty.a[0]))
                x = z3.Select(self.so.sort(ty).val(sel), q)
                self.so.fact('wfk_' + attr, z3.ForAll(
                    [o, q], self.so.sort(ty.a[1]).len(x) >= 0, patterns=[x]))
            if ty.k == 'obj':
                self.so.fact('wf_' + attr, z3.ForAll(
                    [o], sel != self.so.NULL, patterns=[sel]))
        return self._heap0[attr]

    def assume_class(self, st, t, ty):
        pass

    # -- path conditions -----------------------------------------------------
    def feasible(self, st, extra=None):
        fs = [f for f in st.pc + ([extra] if extra is not None else [])
              if not _has_quant(f)]
        for f in fs:
            if z3.is_false(f):
                return False
        self.quick.push()
        try:
            for f in fs:
                self.quick.add(f)
            for f in self.so.lit_facts():
                self.quick.add(f)
            return self.quick.check() != z3.unsat
        except z3.Z3Exception:
            return True
        finally:
            self.quick.pop()

    def split(self, st, cond):
        sc = z3.simplify(cond) if not _has_quant(cond) else cond
        if z3.is_true(sc):
            return st, None
        if z3.is_false(sc):
            return None, st
        a, b = st, st.copy()
        neg = z3.Not(cond)
        fa, fb = self.feasible(a, cond), self.feasible(b, neg)
        self.path_n += 1
        if self.path_n > MAX_PATHS:
            raise Unsupported('too many paths')
        if not fa and not fb:
            return None, None
        a.assume(cond)
        b.assume(neg)
        return (a if fa else None), (b if fb else None)

    def raise_(self, st, exc, line=0, payload=None):
        self.sink.append((st, Exc(exc, payload, line)))

    def apply(self, st, r, line=0):
        """Apply an operation result: split on its guards, add its facts.
        Returns (state or None, value)."""
        for f in r.facts:
            st.assume(f)
        for cond, exc in r.guards:
            ok, bad = self.split(st, cond)
            if bad is not None:
                self.raise_(bad, exc, line)
            if ok is None:
                return None, None
            st = ok
        return st, r.v

    # -- expressions (code) ----------------------------------------------------
    def ev(self, e, st):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s at line %d' % (
                type(e).__name__, getattr(e, 'lineno', 0)))
        return m(e, st)

    def ev_many(self, es, st):
        """Evaluate several expressions left to right."""
        out = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in out:
                for s2, v in self.ev(e, s):
                    nxt.append((s2, vs + [v]))
            out = nxt
        return out

    def ev_Constant(self, e, st):
        return [(st, self.ops.const(e.value))]

    def ev_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    return [(st, Opaque('f-string'))]
                parts.append(v.value)
        out = []
        for s, vs in self.ev_many(parts, st):
            acc = self.ops.const('')
            bad = False
            for v in vs:
                t, facts = self.ops.to_str(v)
                if isinstance(t, Opaque):
                    bad = True
                    break
                for f in facts:
                    s.assume(f)
                acc = self.ops.str_concat(acc, t)
            out.append((s, Opaque('f-string') if bad else acc))
        return out

    def ev_Name(self, e, st):
        if e.id in st.env:
            v = st.env[e.id]
            if v is None:
                self.raise_(st, 'UnboundLocalError', e.lineno)
                return []
            return [(st, v)]
        if e.id in self.ctx.assigned:
            self.raise_(st, 'UnboundLocalError', e.lineno)
            return []
        return [(st, self.global_name(e.id, self.ctx.module))]

    def global_name(self, name, mod):
        if name in mod.funcs:
            return Py('func', '%s.%s' % (mod.name, name))
        if name in mod.classes:
            return Py('class', '%s.%s' % (mod.name, name))
        if name in self.reg.globals_.get(mod.name, {}):
            return self.reg.globals_[mod.name][name](self)
        c = self.db.consts.get(mod.name, {}).get(name)
        if name in mod.imports:
            imp = mod.imports[name]
            if imp[0] == 'module':
                n = imp[1]
                if n.startswith('nxt.'):
                    n = n[4:]
                return Py('module', n) if n in self.db.modules else \
                    Py('extmod', imp[1])
            base, item = imp[1], imp[2]
            if imp[3]:
                pkg = mod.name.split('.') if mod.is_pkg else \
                    mod.name.split('.')[:-1]
                pkg = [x for x in pkg[:len(pkg) - imp[3] + 1] if x]
                base = '.'.join(pkg + ([base] if base else []))
            elif base.split('.')[0] == 'nxt':
                base = base[4:]
            else:
                return Py('ext', base + '.' + item)
            full = (base + '.' + item) if base else item
            if full in self.db.modules:
                return Py('module', full)
            if base in self.db.modules:
                m = self.db.modules[base]
                if m is mod:
                    raise Unsupported('global %s' % name)
                if item in m.funcs or item in m.classes or \
                        item in m.imports:
                    return self.global_name(item, m)
            if c is not None:
                return self.dec_const(c)
            return Py('ext', full)
        if c is not None:
            if 'l' in c:
                raise Unsupported('module level list %s' % name)
            return self.dec_const(c)
        if hasattr(_builtins, name):
            b = getattr(_builtins, name)
            if isinstance(b, type) and issubclass(b, BaseException):
                return Py('exc', name)
            return Py('builtin', name)
        raise Unsupported('global %s' % name)

    def dec_const(self, c):
        if 'c' in c:
            return self.ops.const(c['c'])
        if 'f' in c:
            return self.ops.const(float(c['f']))
        if 't' in c:
            return Tup([self.dec_const(x) for x in c['t']])
        if 'l' in c:
            return Tup([self.dec_const(x) for x in c['l']], lst=True)
        if 'nt' in c:
            return Tup([self.dec_const(x) for x in c['nt'][1]],
                       names=c['nt'][0])
        raise Unsupported('constant')

    def ev_Attribute(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            out += self.attr(s, v, e.attr, e.lineno)
        return out

    def attr(self, st, v, name, line=0):
        """v.name -> [(st, value)]"""
        if isinstance(v, Opt):
            ok, bad = self.split(st, z3.Not(v.isnone))
            if bad is not None:
                self.raise_(bad, 'AttributeError', line)
            if ok is None:
                return []
            return self.attr(ok, v.v, name, line)
        if isinstance(v, NoneV):
            self.raise_(st, 'AttributeError', line)
            return []
        if isinstance(v, Py):
            if v.kind == 'module':
                return [(st, self.global_name(name,
                                              self.db.modules[v.key]))]
            if v.kind == 'extmod':
                full = v.key + '.' + name
                if full in self.reg.ext_consts:
                    c = self.reg.ext_consts[full]
                    return [(st, c(self) if callable(c) else
                             self.ops.const(c))]
                if full == 'os.environ' and 'Proc.env' in self.reg.attrs:
                    return [(st, Ref(('field', self.so.proc(), 'Proc.env'),
                                     parse_ty(self.reg.attrs['Proc.env'])))]
                if full in ('os.path', 'sys.stdout', 'os.environ'):
                    return [(st, Py('extmod', full))]
                return [(st, Py('ext', full))]
            if v.kind == 'class':
                for ck in self.db.mro(v.key):
                    c = self.db.consts.get(ck, {}).get(name)
                    if c is not None:
                        return [(st, self.dec_const(c))]
                f = self.db.method(v.key, name)
                if f is not None:
                    return [(st, Py('func', f.key, extra=(
                        v if f.klass else None)))]
                if name == '__name__':
                    return [(st, self.ops.const(v.key.split('.')[-1]))]
                # nested: class attribute that is itself a class
                raise Unsupported('class attribute %s.%s' % (v.key, name))
            if v.kind == 'ext':
                return [(st, Py('ext', v.key + '.' + name))]
            if v.kind == 'super':
                return [(st, Py('bound', name, extra=v))]
            if v.kind == 'excval':
                return [(st, v.extra.get(name, Opaque('exc attr')))]
            raise Unsupported('attribute of %r' % (v,))
        if isinstance(v, Tup) and v.names and name in v.names:
            return [(st, v.items[v.names.index(name)])]
        if isinstance(v, Sc) and v.ty.k in ('obj', 'any'):
            cls = v.ty.a[0] if v.ty.k == 'obj' and v.ty.a else None
            if cls and self.db.method(cls, name):
                f = self.db.method(cls, name)
                if f.prop:
                    return self.call_func(st, f, [v], {}, line)
                if f.static:
                    return [(st, Py('func', f.key))]
                return [(st, Py('bound', name, extra=v))]
            if cls and ('%s.%s' % (cls, name) in self.reg.contracts or
                        'ext:%s.%s' % (cls, name) in self.reg.contracts):
                return [(st, Py('bound', name, extra=v))]
            an = self.attr_alias(cls, name)
            if an is None or self.rec_of(v):
                # class level constant through an instance
                if self.rec_of(v):
                    return [(st, Py('bound', name, extra=v))]
                if cls:
                    for ck in self.db.mro(cls):
                        c = self.db.consts.get(ck, {}).get(name)
                        if c is not None:
                            return [(st, self.dec_const(c))]
                    if name in self.reg.class_attrs.get(cls, {}):
                        return [(st, self.reg.class_attrs[cls][name](self))]
                raise Unsupported('attribute %s of %s' % (name, cls))
            return self.read_attr(st, v, an, line)
        if isinstance(v, (Sc, Ref, Tup, Opaque)):
            return [(st, Py('bound', name, extra=v))]
        raise Unsupported('attribute %s of %r' % (name, v))

    def attr_alias(self, cls, name):
        ks = [c.split('.')[-1] + '.' + name for c in self.db.mro(cls)] \
            if cls else []
        for k in ks + [name]:
            if k in self.con.attrs or k in self.reg.attrs:
                return k
        return None

    def read_attr(self, st, v, an, line=0):
        ty, arr = st.heap_attr(an)
        if ty.k in ('list', 'dict', 'odict', 'set'):
            return [(st, Ref(('field', v.t, an), ty))]
        r = self.ops.unpack(z3.Select(arr, v.t), ty)
        if isinstance(r, Maybe):
            ok, bad = self.split(st, z3.Not(r.missing))
            if bad is not None:
                self.raise_(bad, 'AttributeError', line)
            if ok is None:
                return []
            return [(ok, r.v)]
        return [(st, r)]

    def ev_Tuple(self, e, st):
        return [(s, Tup(vs)) for s, vs in self.ev_many(e.elts, st)]

    def ev_List(self, e, st):
        out = []
        for s, vs in self.ev_many(e.elts, st):
            out.append((s, self.new_list(s, vs)))
        return out

    def new_list(self, st, vs):
        if not vs:
            c = CList(None, z3.IntVal(0), None)
            return Ref(('cell', st.new_cell(c)), None)
        if any(isinstance(v, Tup) and v.lst for v in vs):
            return Tup(vs, lst=True)
        try:
            et = self.ops.type_of(vs[0])
            for v in vs[1:]:
                et = self.join_ty(et, v)
            if any(isinstance(v, (NoneV, Opt)) for v in vs) and \
                    et.k not in ('opt', 'any'):
                et = Ty('opt', (et,))
            c = self.ops.tup_list(st, Tup(vs), et)
            return Ref(('cell', st.new_cell(c)), Ty('list', (c.et,)))
        except Unsupported:
            return Tup(vs, lst=True)

    def join_ty(self, et, v):
        t = self.ops.type_of(v)
        if t == et:
            return et
        raise Unsupported('heterogeneous list')

    def ev_Dict(self, e, st):
        if not e.keys:
            c = CDict(None, None, None, None)
            return [(st, Ref(('cell', st.new_cell(c)), None))]
        out = []
        if any(k is None for k in e.keys):
            raise Unsupported('dict unpacking')
        for s, vs in self.ev_many(list(e.keys) + list(e.values), st):
            n = len(e.keys)
            ks, vals = vs[:n], vs[n:]
            kt = self.ops.type_of(ks[0])
            rec = self.rec_literal(ks)
            if rec:
                out.append((s, self.rec_new(s, rec, {
                    k.c: v for k, v in zip(ks, vals)})))
                continue
            try:
                vt = self.ops.type_of(vals[0])
                for v in vals[1:]:
                    if self.ops.type_of(v) != vt:
                        vt = ANY
            except Unsupported:
                vt = ANY
            c = self.ops.empty_dict(kt, vt)
            for k, v in zip(ks, vals):
                if vt.k == 'any' and isinstance(v, (Ref, Tup, Py)):
                    pv = fresh('boxed', self.so.Obj)
                else:
                    pv = self.ops.pack(s, v, vt)
                c, f = self.ops.dict_set(s, c, self.ops.pack(s, k, kt), pv)
            out.append((s, Ref(('cell', s.new_cell(c)),
                               Ty('dict', (kt, vt)))))
        return out

    def rec_literal(self, ks):
        """The record a literal with these keys is one of, if any."""
        names = [k.c for k in ks if isinstance(k, Sc)]
        if len(names) < len(ks) or not all(isinstance(x, str) for x in names):
            return None
        c = self.ctx.contract
        own = getattr(c, 'records', None) or self.con.records
        for n in own or ():
            keys = self.reg.records[n]
            if set(names) <= set(keys) and all(
                    k in names or self.attr_type('%s.%s' % (n, k)).k == 'maybe'
                    for k in keys):
                return n
        return None

    def ev_Set(self, e, st):
        out = []
        for s, vs in self.ev_many(e.elts, st):
            et = self.ops.type_of(vs[0])
            m = z3.K(self.so.sort(et), z3.BoolVal(False))
            for v in vs:
                m = z3.Store(m, self.ops.pack(s, v, et), True)
            out.append((s, Ref(('cell', s.new_cell(CSet(et, m))),
                               Ty('set', (et,)))))
        return out

    def ev_UnaryOp(self, e, st):
        out = []
        for s, v in self.ev(e.operand, st):
            if isinstance(e.op, ast.Not):
                out.append((s, self.ops.bool_(z3.Not(
                    self.ops.truth(s, v)))))
            elif isinstance(e.op, ast.USub) and isinstance(v, Sc):
                c = -v.c if v.c is not None else None
                out.append((s, Sc(v.ty, -v.t if c is None else
                                  z3.IntVal(c) if v.ty.k == 'int' else -v.t,
                                  c)))
            else:
                raise Unsupported('unary operator')
        return out

    def ev_BoolOp(self, e, st):
        is_and = isinstance(e.op, ast.And)
        out = []
        work = [(st, list(e.values))]
        while work:
            s, es = work.pop(0)
            for s2, v in self.ev(es[0], s):
                if len(es) == 1:
                    out.append((s2, v))
                    continue
                t = self.ops.truth(s2, v)
                # pure boolean: build a formula when the rest cannot raise
                a, b = self.split(s2, t)
                go, stop = (a, b) if is_and else (b, a)
                if stop is not None:
                    out.append((stop, self.narrow(v, not is_and)))
                if go is not None:
                    work.append((go, es[1:]))
        return out

    def narrow(self, v, truthy):
        if isinstance(v, Opt) and truthy:
            return v.v
        return v

    def ev_IfExp(self, e, st):
        out = []
        for s, c in self.ev(e.test, st):
            a, b = self.split(s, self.ops.truth(s, c))
            if a is not None:
                out += self.ev(e.body, a)
            if b is not None:
                out += self.ev(e.orelse, b)
        return out

    def ev_Compare(self, e, st):
        out = []
        if len(e.ops) == 1:
            for s, (l, r) in [(s, tuple(vs)) for s, vs in self.ev_many(
                    [e.left, e.comparators[0]], st)]:
                res = self.compare(s, e.ops[0], l, r)
                s2, v = self.apply(s, res, e.lineno)
                if s2 is not None:
                    out.append((s2, v))
            return out
        for s, vs in self.ev_many([e.left] + e.comparators, st):
            acc = []
            for op, l, r in zip(e.ops, vs, vs[1:]):
                res = self.compare(s, op, l, r)
                if acc and res.guards:
                    res = R(res.v, [(z3.Or(z3.Not(AND(acc)), g), x)
                                    for g, x in res.guards], res.facts)
                s, v = self.apply(s, res, e.lineno)
                if s is None:
                    break
                acc.append(v.t)
            if s is not None:
                out.append((s, self.ops.bool_(AND(acc))))
        return out

    def compare(self, st, op, l, r):
        o = self.ops
        if isinstance(op, ast.Eq):
            return R(o.bool_(o.eq(st, l, r)))
        if isinstance(op, ast.NotEq):
            return R(o.bool_(z3.Not(o.eq(st, l, r))))
        if isinstance(op, ast.Is):
            return o.identical(st, l, r)
        if isinstance(op, ast.IsNot):
            x = o.identical(st, l, r)
            return R(o.bool_(z3.Not(x.v.t)), x.guards, x.facts)
        if isinstance(op, (ast.In, ast.NotIn)):
            guards = []
            if isinstance(r, Opt):
                guards = [(z3.Not(r.isnone), 'TypeError')]
                r = r.v
            if self.rec_of(r):
                miss, _ = self.rec_read(st, r, l)
                f = z3.BoolVal(True) if miss is None else z3.Not(miss)
                return R(o.bool_(z3.Not(f) if isinstance(op, ast.NotIn)
                                 else f), guards)
            if isinstance(l, Opt) and isinstance(r, Ref):
                c = o.get(st, r.place)
                t = c.et if not isinstance(c, CDict) else c.kt
                if t is None:
                    f = z3.BoolVal(False)
                elif t.k not in ('opt', 'any', 'obj'):
                    f = z3.And(z3.Not(l.isnone), o.contains(st, l.v, r))
                else:
                    f = o.contains(st, l, r)
            elif isinstance(l, NoneV) and isinstance(r, Ref):
                c = o.get(st, r.place)
                t = c.et if not isinstance(c, CDict) else c.kt
                f = z3.BoolVal(False) if t is None or t.k not in (
                    'opt', 'any') else o.contains(st, l, r)
            else:
                f = o.contains(st, l, r)
            if isinstance(op, ast.NotIn):
                f = z3.Not(f)
            return R(o.bool_(f), guards)
        guards = []
        for x in (l, r):
            if isinstance(x, Opt):
                guards.append((z3.Not(x.isnone), 'TypeError'))
            if isinstance(x, NoneV):
                guards.append((z3.BoolVal(False), 'TypeError'))
                return R(o.bool_(z3.BoolVal(False)), guards)
        l = l.v if isinstance(l, Opt) else l
        r = r.v if isinstance(r, Opt) else r
        if isinstance(l, Sc) and isinstance(r, Sc):
            a, b = l.t, r.t
            if l.ty.k == 'str' and r.ty.k == 'str':
                if self.so.mode == 'native':
                    le = a <= b
                    lt = a < b
                else:
                    f = self.so.uf('str_le', self.so.S, self.so.S,
                                   z3.BoolSort())
                    le = f(a, b)
                    lt = z3.And(f(a, b), a != b)
                    gt_ = z3.And(f(b, a), a != b)
                    m = {ast.Lt: lt, ast.LtE: le, ast.Gt: gt_,
                         ast.GtE: f(b, a)}
                    return R(o.bool_(m[type(op)]), guards)
                m = {ast.Lt: lt, ast.LtE: le, ast.Gt: b < a,
                     ast.GtE: b <= a}
                return R(o.bool_(m[type(op)]), guards)
            if l.ty.k in ('int', 'real', 'bool') and r.ty.k in (
                    'int', 'real', 'bool'):
                def num(x):
                    return z3.If(x.t, 1, 0) if x.ty.k == 'bool' else x.t
                a, b = num(l), num(r)
                m = {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b,
                     ast.GtE: a >= b}
                return R(o.bool_(m[type(op)]), guards)
        raise Unsupported('comparison of %r and %r' % (l, r))

    def ev_BinOp(self, e, st):
        out = []
        for s, (l, r) in [(s, tuple(vs)) for s, vs in self.ev_many(
                [e.left, e.right], st)]:
            res = self.binop(s, e.op, l, r)
            s2, v = self.apply(s, res, e.lineno)
            if s2 is not None:
                out.append((s2, v))
        return out

    def binop(self, st, op, l, r, spec=False):
        o = self.ops
        guards = []
        for x in (l, r):
            if isinstance(x, Opt):
                guards.append((z3.Not(x.isnone), 'TypeError'))
            if isinstance(x, NoneV):
                return R(NONE, [(z3.BoolVal(False), 'TypeError')])
        l = l.v if isinstance(l, Opt) else l
        r = r.v if isinstance(r, Opt) else r
        if isinstance(l, Opaque) or isinstance(r, Opaque):
            return R(Opaque('binop'))
        if isinstance(l, Sc) and isinstance(r, Sc):
            if l.ty.k == 'str' and r.ty.k == 'str' and \
                    isinstance(op, ast.Add):
                return R(o.str_concat(l, r), guards)
            if l.ty.k == 'str' and isinstance(op, ast.Mod):
                return R(Opaque('%-format'))
            if l.ty.k in ('int', 'real') and r.ty.k in ('int', 'real'):
                ty = REAL if 'real' in (l.ty.k, r.ty.k) else INT
                a, b = l.t, r.t
                if ty is REAL:
                    a = z3.ToReal(a) if l.ty.k == 'int' else a
                    b = z3.ToReal(b) if r.ty.k == 'int' else b
                c = None
                if l.c is not None and r.c is not None and ty is INT:
                    if isinstance(op, ast.Add):
                        c = l.c + r.c
                    elif isinstance(op, ast.Sub):
                        c = l.c - r.c
                    elif isinstance(op, ast.Mult):
                        c = l.c * r.c
                    if c is not None:
                        return R(o.const(c), guards)
                if isinstance(op, ast.Add):
                    return R(Sc(ty, a + b), guards)
                if isinstance(op, ast.Sub):
                    return R(Sc(ty, a - b), guards)
                if isinstance(op, ast.Mult):
                    return R(Sc(ty, a * b), guards)
                if isinstance(op, ast.Div):
                    ra = a if ty is REAL else z3.ToReal(a)
                    rb = b if ty is REAL else z3.ToReal(b)
                    return R(Sc(REAL, ra / rb), guards + [
                        (b != 0, 'ZeroDivisionError')])
                if isinstance(op, (ast.FloorDiv, ast.Mod)) and ty is INT \
                        and r.c is not None and r.c > 0:
                    return R(Sc(INT, a / b if isinstance(op, ast.FloorDiv)
                                else a % b), guards)
        if isinstance(l, Sc) and l.ty.k == 'any' or \
                isinstance(r, Sc) and r.ty.k == 'any':
            raise Unsupported('arithmetic on untyped value')
        if isinstance(op, ast.Add) and isinstance(l, (Ref, Tup)) and \
                isinstance(r, (Ref, Tup)):
            if isinstance(l, Tup) and isinstance(r, Tup):
                return R(Tup(l.items + r.items, lst=l.lst), guards)
            et = None
            for x in (l, r):
                if isinstance(x, Ref):
                    c = o.get(st, x.place)
                    if not isinstance(c, CList):
                        raise Unsupported('+ on non lists')
                    et = et or c.et
            a, b = o.clist(st, l, et), o.clist(st, r, et)
            c, facts = o.concat(st, a, b)
            if spec:
                return R(Ref(('val', c), None), guards, facts)
            return R(Ref(('cell', st.new_cell(c)), None), guards, facts)
        if isinstance(l, Ref) and isinstance(r, Ref) and isinstance(
                op, (ast.Sub, ast.BitOr, ast.BitAnd)):
            a, b = o.get(st, l.place), o.get(st, r.place)
            if isinstance(a, CSet) and isinstance(b, CSet):
                return self.set_op(st, {ast.Sub: 'difference',
                                        ast.BitOr: 'union',
                                        ast.BitAnd: 'intersection'}[
                                            type(op)], a, b, spec)
        raise Unsupported('operator %s on %r and %r' % (
            type(op).__name__, l, r))

    def set_op(self, st, name, a, b, spec=False):
        et = a.et or b.et
        if et is None:
            res = CSet(None, None)
            facts = []
        else:
            a = self.ops.typed(a, Ty('set', (et,)))
            b = self.ops.typed(b, Ty('set', (et,)))
            x = fresh('x', self.so.sort(et))
            m = fresh('set', a.mem.sort())
            f = {'union': z3.Or, 'intersection': z3.And,
                 'difference': lambda p, q: z3.And(p, z3.Not(q))}[name]
            facts = [z3.ForAll([x], z3.Select(m, x) == f(
                z3.Select(a.mem, x), z3.Select(b.mem, x)),
                patterns=[z3.Select(m, x)])]
            res = CSet(et, m)
        if spec:
            return R(Ref(('val', res), None), (), facts)
        return R(Ref(('cell', st.new_cell(res)), None), (), facts)

    def ev_Subscript(self, e, st):
        out = []
        if isinstance(e.slice, ast.Slice):
            sl = e.slice
            if sl.step is not None:
                if not (isinstance(sl.step, ast.UnaryOp) or isinstance(
                        sl.step, ast.Constant)):
                    raise Unsupported('slice step')
                step = ast.literal_eval(sl.step)
                if step == -1 and sl.lower is None and sl.upper is None:
                    for s, v in self.ev(e.value, st):
                        out.append((s, self.reversed_(s, v)))
                    return out
                if step != 1:
                    raise Unsupported('slice step')
            es = [e.value] + [x for x in (sl.lower, sl.upper)
                              if x is not None]
            for s, vs in self.ev_many(es, st):
                vs = list(vs)
                c = vs.pop(0)
                lo = vs.pop(0) if sl.lower is not None else None
                hi = vs.pop(0) if sl.upper is not None else None
                lo = None if isinstance(lo, NoneV) else lo
                hi = None if isinstance(hi, NoneV) else hi
                if isinstance(c, Opt):
                    s, _ = self.apply(s, R(NONE, [(z3.Not(c.isnone),
                                                   'TypeError')]), e.lineno)
                    if s is None:
                        continue
                    c = c.v
                r = self.ops.slice(s, c, lo, hi)
                if isinstance(r.v, CList):
                    r.v = Ref(('cell', s.new_cell(r.v)), None)
                s2, v = self.apply(s, r, e.lineno)
                if s2 is not None:
                    out.append((s2, v))
            return out
        for s, (c, i) in [(s, tuple(vs)) for s, vs in self.ev_many(
                [e.value, e.slice], st)]:
            out += self.index_(s, c, i, e.lineno)
        return out

    # -- dictionaries with fixed keys -----------------------------------------
    def rec_of(self, v):
        if isinstance(v, Sc) and v.ty.k == 'obj' and v.ty.a and \
                v.ty.a[0] in self.reg.records:
            return v.ty.a[0]
        return None

    def rec_key(self, v, k):
        n = self.rec_of(v)
        if not (isinstance(k, Sc) and isinstance(k.c, str)):
            raise Unsupported('computed key of a %s' % n)
        if k.c not in self.reg.records[n]:
            raise Unsupported('key %s of a %s' % (k.c, n))
        return '%s.%s' % (n, k.c)

    def rec_read(self, st, v, k):
        """(missing or None, value)"""
        an = self.rec_key(v, k)
        ty, arr = st.heap_attr(an)
        if ty.k in ('list', 'dict', 'odict', 'set'):
            return None, Ref(('field', v.t, an), ty)
        r = self.ops.unpack(z3.Select(arr, v.t), ty)
        if isinstance(r, Maybe):
            return r.missing, r.v
        return None, r

    def rec_get(self, st, v, k, default, line=0):
        miss, x = self.rec_read(st, v, k)
        if miss is None:
            return [(st, x)]
        out = []
        a, b = self.split(st, z3.Not(miss))
        if a is not None:
            out.append((a, x))
        if b is not None:
            if default is None:
                self.raise_(b, 'KeyError', line)
            else:
                out.append((b, default))
        return out

    def rec_set(self, st, v, k, x):
        an = self.rec_key(v, k)
        return self.set_attr(st, v, an.split('.', 1)[1], x)

    def rec_drop(self, st, v, k):
        an = self.rec_key(v, k)
        ty, arr = st.heap_attr(an)
        if ty.k != 'maybe':
            raise Unsupported('removing the key %s' % an)
        st.set_heap(an, z3.Store(arr, v.t, self.so.sort(ty).none))

    def rec_new(self, st, name, items):
        o = fresh('newdict', self.so.Obj)
        v = Sc(Ty('obj', (name,)), o)
        st.assume(o != self.so.NULL)
        st.assume_class(o, v.ty)
        _, b = st.heap_attr(name + '.born')
        st.assume(z3.Not(z3.Select(b, o)))
        st.set_heap(name + '.born', z3.Store(b, o, z3.BoolVal(True)))
        for k in self.reg.records[name]:
            if k in items:
                self.set_attr(st, v, k, items[k])
            else:
                self.rec_drop(st, v, self.ops.const(k))
        return v

    def rec_method(self, st, v, name, args, line):
        if name == 'get':
            return self.rec_get(st, v, args[0], args[1] if len(args) > 1
                                else NONE)
        if name == 'pop':
            out = []
            for s, x in self.rec_get(st, v, args[0], args[1] if len(args) > 1
                                     else None, line):
                self.rec_drop(s, v, args[0])
                out.append((s, x))
            return out
        if name == 'setdefault':
            miss, x = self.rec_read(st, v, args[0])
            if miss is None:
                return [(st, x)]
            out = []
            a, b = self.split(st, z3.Not(miss))
            if a is not None:
                out.append((a, x))
            if b is not None:
                for s in self.rec_set(b, v, args[0], args[1]):
                    out.append((s, args[1]))
            return out
        if name == 'copy':
            n = self.rec_of(v)
            o = self.rec_new(st, n, {})
            for k in self.reg.records[n]:
                an = '%s.%s' % (n, k)
                _, arr = st.heap_attr(an)
                st.set_heap(an, z3.Store(arr, o.t, z3.Select(arr, v.t)))
            return [(st, o)]
        raise Unsupported('%s of a dictionary with fixed keys' % name)

    def index_(self, s, c, i, line=0):
        if isinstance(c, Opt) and self.rec_of(c.v):
            ok, bad = self.split(s, z3.Not(c.isnone))
            if bad is not None:
                self.raise_(bad, 'TypeError', line)
            if ok is None:
                return []
            s, c = ok, c.v
        if self.rec_of(c):
            return self.rec_get(s, c, i, None, line)
        if isinstance(c, Py) and c.kind == 'extmod' and \
                c.key == 'os.environ':
            return self.call_ext(s, 'os.environ.__getitem__', [i], {}, line)
        if isinstance(c, Py) and c.kind == 'ext':
            return self.call_ext(s, c.key + '.__getitem__', [i], {}, line)
        r = self.ops.index(s, c, i)
        s2, v = self.apply(s, r, line)
        return [(s2, v)] if s2 is not None else []

    def reversed_(self, s, v):
        c = self.ops.clist(s, v)
        if c.et is None:
            return Ref(('cell', s.new_cell(c)), None)
        arr = fresh('rev', c.arr.sort())
        i = fresh('i', z3.IntSort())
        s.assume(z3.ForAll([i], z3.Implies(
            z3.And(0 <= i, i < c.n),
            z3.Select(arr, i) == z3.Select(c.arr, c.n - 1 - i)),
            patterns=[z3.Select(arr, i)]))
        if c.arr.decl().kind() in (z3.Z3_OP_UNINTERPRETED,
                                   z3.Z3_OP_DT_ACCESSOR):
            s.assume(z3.ForAll([i], z3.Implies(
                z3.And(0 <= i, i < c.n),
                z3.Select(c.arr, i) == z3.Select(arr, c.n - 1 - i)),
                patterns=[z3.Select(c.arr, i)]))
        return Ref(('cell', s.new_cell(CList(c.et, c.n, arr))),
                   Ty('list', (c.et,)))

    def ev_Lambda(self, e, st):
        return [(st, Py('lambda', None, extra=(e, dict(st.env),
                                               self.ctx)))]

    def ev_Starred(self, e, st):
        raise Unsupported('star expression')

    # -- comprehensions -----------------------------------------------------
    def ev_GeneratorExp(self, e, st):
        return [(st, Py('genexp', None, extra=e))]

    def ev_SetComp(self, e, st):
        out = []
        for s, v in self.ev_ListComp(e, st):
            out += self.bi_set(s, [v], {}, 0)
        return out

    def ev_ListComp(self, e, st):
        if len(e.generators) != 1:
            raise Unsupported('nested comprehension')
        g = e.generators[0]
        out = []
        for s, it in self.ev(g.iter, st):
            conc = self.concrete_items(it)
            if conc is not None:
                out += self.comp_unroll(e, g, s, conc)
                continue
            seq, facts, bind = self.iter_seq(s, it)
            for f in facts:
                s.assume(f)
            out.append((s, self.comp_list(s, e.elt, g, seq, bind)))
        return out

    def comp_unroll(self, e, g, st, items):
        work = [(st, [])]
        saved = {}
        for it in items:
            nxt = []
            for s, acc in work:
                old = {n: s.env.get(n, '!') for n in _names(g.target)}
                self.bind_target(s, g.target, it)
                conds = [(s, True)]
                for c in g.ifs:
                    nc = []
                    for s2, ok in conds:
                        if not ok:
                            nc.append((s2, False))
                            continue
                        for s3, v in self.ev(c, s2):
                            a, b = self.split(s3, self.ops.truth(s3, v))
                            if a is not None:
                                nc.append((a, True))
                            if b is not None:
                                nc.append((b, False))
                    conds = nc
                for s2, ok in conds:
                    rs = self.ev(e.elt, s2) if ok else [(s2, None)]
                    for s3, v in rs:
                        for n, o in old.items():
                            if o == '!':
                                s3.env.pop(n, None)
                            else:
                                s3.env[n] = o
                        nxt.append((s3, acc + ([v] if ok else [])))
            work = nxt
        return [(s, self.new_list(s, acc)) for s, acc in work]

    def pure_eval(self, st, exprs, binder, k, rng, raising=None):
        """Evaluate expressions for a symbolic index k as pure functions of
        it: fresh symbols introduced become functions of k.  Returns packed
        (type, term) per expression and the facts, quantified over k."""
        n0 = V._n[0]
        s = st.copy()
        s.assume(rng)
        base = len(s.pc)
        binder(s)
        saved, self.sink = self.sink, []
        probe, self.in_probe = self.in_probe, self.in_probe
        try:
            results = [(s, [])]
            for e in exprs:
                nr = []
                for s1, acc in results:
                    for s2, v in self.ev(e, s1):
                        nr.append((s2, acc + [v]))
                results = nr
            bad = self.sink
        finally:
            self.sink = saved
        if bad and raising is None:
            raise Unsupported('comprehension body may raise %s' %
                              bad[0][1].name)
        for sb, x in bad:       # for some element, it raises
            sb.env = dict(st.env)
            raising.append((sb, x))
        if not results:
            raise Unsupported('comprehension body never completes')
        for s2, _ in results:
            for a in st.heap:
                if not s2.heap[a].eq(st.heap[a]):
                    raise Unsupported('comprehension with side effects')
            for cl in st.cells:
                if s2.cells[cl] is not st.cells[cl]:
                    raise Unsupported('comprehension with side effects')
        # several paths: merge by their path conditions
        facts = []
        merged = []
        if len(results) == 1:
            s2, vals = results[0]
            facts = s2.pc[base:]
            for v in vals:
                if isinstance(v, Sc) and v.ty.k == 'bool':
                    ty = BOOL
                else:
                    ty = self.ops.type_of(v)
                merged.append((ty, self.ops.pack(s2, v, ty)))
        else:
            tys = [self.ops.type_of(v) for v in results[0][1]]
            terms = [fresh('m', self.so.sort(t)) for t in tys]
            conds = []
            for s2, vals in results:
                pc = s2.pc[base:]
                conds.append(AND(pc + [t == self.ops.pack(s2, v, ty)
                                       for t, v, ty in zip(terms, vals,
                                                           tys)]))
            facts = [OR(conds)]
            merged = list(zip(tys, terms))
        # lift fresh constants to functions of k
        syms = {}
        for t in [m[1] for m in merged] + facts:
            _collect_fresh(t, n0, syms)
        syms.pop(k.decl().name(), None)
        sub = []
        for nm, c in syms.items():
            f = z3.Function(nm + '@', k.sort(), c.sort())
            sub.append((c, f(k)))
        merged = [(ty, z3.substitute(t, *sub)) for ty, t in merged]
        facts = [z3.substitute(f, *sub) for f in facts]
        return merged, facts

    def comp_list(self, st, elt, g, seq, bind, spec=False):
        k = fresh('k', z3.IntSort())
        rng = z3.And(0 <= k, k < seq.n)
        exprs = [elt] + list(g.ifs)
        old = dict(st.env)

        def binder(s):
            bind(s, k, g.target)
        raising = None if spec else []
        merged, facts = self.pure_eval(st, exprs, binder, k, rng, raising)
        st.env = old
        for sb, x in raising or ():
            sb.env = dict(old)
            if self.feasible(sb):
                self.sink.append((sb, x))
        (ety, et), conds = merged[0], [AND([m[1] if m[0].k == 'bool' else
                                           self.term_truth(m)
                                           for m in merged[1:]])]
        if facts:
            st.assume(z3.ForAll([k], z3.Implies(rng, AND(facts))))
        arr = fresh('comp', z3.ArraySort(z3.IntSort(), self.so.sort(ety)))
        if not g.ifs:
            st.assume(z3.ForAll([k], z3.Implies(
                rng, z3.Select(arr, k) == et), patterns=[z3.Select(arr, k)]))
            c = CList(ety, seq.n, arr)
        else:
            cnt, cf = self.count_fn(k, conds[0], seq.n)
            for f in cf:
                st.assume(f)
            n = cnt(seq.n)
            st.assume(z3.ForAll([k], z3.Implies(
                z3.And(rng, conds[0]),
                z3.Select(arr, cnt(k)) == et)))
            src = z3.Function(fresh('src', z3.IntSort()).decl().name(),
                              z3.IntSort(), z3.IntSort())
            j = fresh('j', z3.IntSort())
            ck = lambda x: z3.substitute(conds[0], (k, x))
            ek = lambda x: z3.substitute(et, (k, x))
            st.assume(z3.ForAll([j], z3.Implies(
                z3.And(0 <= j, j < n),
                z3.And(0 <= src(j), src(j) < seq.n, ck(src(j)),
                       cnt(src(j)) == j,
                       z3.Select(arr, j) == ek(src(j)))),
                patterns=[z3.Select(arr, j)]))
            c = CList(ety, n, arr)
        return Ref(('cell', st.new_cell(c)), Ty('list', (ety,)))

    def term_truth(self, m):
        return self.ops.truth(St(self), self.ops.unpack(m[1], m[0]))

    def count_fn(self, k, cond, n):
        """cnt(i) = number of j < i satisfying cond(j).  One function symbol
        per (condition) so that code and specification agree."""
        key = str(z3.simplify(z3.substitute(
            cond, (k, z3.Const('K!', z3.IntSort())))))
        name = 'cnt_%d' % self.reg_count(key)
        cnt = z3.Function(name, z3.IntSort(), z3.IntSort())
        i = fresh('i', z3.IntSort())
        j = fresh('j', z3.IntSort())
        ci = z3.substitute(cond, (k, i))
        facts = [cnt(0) == 0,
                 z3.ForAll([i], z3.Implies(i >= 0, z3.And(
                     cnt(i + 1) == cnt(i) + z3.If(ci, 1, 0),
                     0 <= cnt(i), cnt(i) <= i)), patterns=[cnt(i)]),
                 # monotone: an induction consequence of the definition
                 z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j), z3.And(
                     cnt(i) <= cnt(j),
                     z3.Implies(z3.And(ci, i < j), cnt(i) < cnt(j)))),
                     patterns=[z3.MultiPattern(cnt(i), cnt(j))])]
        return cnt, facts

    def reg_count(self, key):
        d = self.__dict__.setdefault('_cnts', {})
        return d.setdefault(key, len(d))

    # -- iteration ------------------------------------------------------------
    def concrete_items(self, it):
        if isinstance(it, Tup):
            return it.items
        if isinstance(it, Py) and it.kind == 'seq':
            return None
        return None

    def iter_seq(self, st, it):
        """An iterable as (sequence with length .n, facts, binder), where
        binder(state, index, target) binds the loop target."""
        if isinstance(it, Py) and it.kind == 'range':
            lo, hi = it.extra

            class Sq(object):
                n = z3.If(hi > lo, hi - lo, z3.IntVal(0))
                arr = None
                place = None

            def bind(s, k, target):
                self.bind_target(s, target, Sc(INT, k + lo))
            return Sq, [], bind
        if isinstance(it, Py) and it.kind == 'enumerate':
            inner, start = it.extra
            sq, facts, b = self.iter_seq(st, inner)

            def bind(s, k, target):
                if not (isinstance(target, ast.Tuple) and
                        len(target.elts) == 2):
                    raise Unsupported('enumerate target')
                self.bind_target(s, target.elts[0], Sc(INT, k + start))
                b(s, k, target.elts[1])
            return sq, facts, bind
        if isinstance(it, Py) and it.kind == 'items':
            ref = it.extra
            c = self.ops.get(st, ref.place)
            keys, facts = self.ops.dict_keys(c)

            def bind(s, k, target):
                kt = z3.Select(keys.arr, k)
                kv = self.ops.unpack(kt, c.kt)
                # nested containers are live in the iterated dictionary
                vv = self.ops.unpack(z3.Select(c.val, kt), c.vt, ref.place,
                                     kt)
                self.bind_target(s, target, Tup([kv, vv]))
            if keys.et is None:
                keys = CList(ANY, z3.IntVal(0), None)
            sq = _Seq(keys, ref.place)
            return sq, facts, bind
        if isinstance(it, Opt):
            it = it.v
        if isinstance(it, Sc) and it.ty.k == 'str':
            if self.so.mode != 'native':
                raise Unsupported('iterating a string in abstract mode')

            class Sq2(object):
                n = z3.Length(it.t)
                arr = None
                place = None

            def bind(s, k, target):
                self.bind_target(s, target, Sc(STR, z3.SubString(
                    it.t, k, 1)))
            return Sq2, [], bind
        if isinstance(it, Ref):
            c = self.ops.get(st, it.place)
            place = it.place
            facts = []
            if isinstance(c, CDict):
                c, facts = self.ops.dict_keys(c)
            elif isinstance(c, CSet):
                if c.et is None:
                    c = CList(None, z3.IntVal(0), None)
                else:
                    n = fresh('nset', z3.IntSort())
                    ks = self.so.sort(c.et)
                    arr = fresh('elems', z3.ArraySort(z3.IntSort(), ks))
                    facts = [n >= 0] + self.ops.keys_facts(c.mem, n, arr, ks)
                    c = CList(c.et, n, arr)

            def bind(s, k, target):
                if c.et is None:
                    self.bind_target(s, target, Opaque('empty'))
                    return
                self.bind_target(s, target, self.ops.unpack(
                    z3.Select(c.arr, k), c.et, place, k))
            return _Seq(c, place), facts, bind
        if isinstance(it, Tup):
            c = self.ops.tup_list(st, it)

            def bind(s, k, target):
                self.bind_target(s, target, self.ops.unpack(
                    z3.Select(c.arr, k), c.et))
            return _Seq(c, None), [], bind
        raise Unsupported('iteration over %r' % (it,))

    def bind_target(self, st, target, v):
        if isinstance(target, ast.Name):
            st.env[target.id] = v
            return
        if isinstance(target, (ast.Tuple, ast.List)):
            if isinstance(v, Tup) and len(v.items) == len(target.elts):
                for t, x in zip(target.elts, v.items):
                    self.bind_target(st, t, x)
                return
            if isinstance(v, Ref):
                c = self.ops.get(st, v.place)
                if isinstance(c, CList) and z3.is_int_value(c.n) and \
                        c.n.as_long() == len(target.elts):
                    for i, t in enumerate(target.elts):
                        self.bind_target(st, t, self.ops.unpack(
                            z3.Select(c.arr, i), c.et))
                    return
            if isinstance(v, Sc) and v.ty.k == 'any':
                for i, t in enumerate(target.elts):
                    self.bind_target(st, t, self.ops.index(
                        st, v, self.ops.const(i)).v)
                return
        raise Unsupported('assignment target')

    # -- calls ------------------------------------------------------------------
    def ev_Call(self, e, st):
        root = e.func
        while isinstance(root, (ast.Attribute, ast.Call, ast.Subscript)):
            root = root.value if not isinstance(root, ast.Call) else root.func
        if isinstance(root, ast.Name) and root.id in NOOP_ROOTS and \
                root.id not in st.env:
            self.trust.add('logging and printing have no effect')
            return [(st, Opaque('log'))]
        out = []
        for s, fv in self.ev(e.func, st):
            lazy = isinstance(fv, Py) and fv.kind == 'builtin' and \
                fv.key in ('any', 'all', 'sorted', 'sum', 'max', 'min')
            if any(isinstance(a, ast.Starred) for a in e.args) or \
                    any(k.arg is None for k in e.keywords):
                if isinstance(fv, Py) and fv.kind == 'bound' and \
                        fv.key == 'format':
                    out.append((s, Opaque('format')))
                    continue
                raise Unsupported('star arguments')
            for s2, vs in self.ev_many(
                    list(e.args) + [k.value for k in e.keywords], s):
                args = vs[:len(e.args)]
                kw = {k.arg: v for k, v in zip(e.keywords,
                                               vs[len(e.args):])}
                out += self.call(s2, fv, args, kw, e.lineno)
        return out

    def call(self, st, fv, args, kw, line=0):
        if isinstance(fv, Opt):
            ok, bad = self.split(st, z3.Not(fv.isnone))
            if bad is not None:
                self.raise_(bad, 'TypeError', line)
            return self.call(ok, fv.v, args, kw, line) if ok else []
        if isinstance(fv, Sc) and fv.ty.k == 'obj' and fv.ty.a:
            return self.call_method(st, fv, '__call__', args, kw, line)
        if not isinstance(fv, Py):
            raise Unsupported('call of %r' % (fv,))
        if fv.kind == 'func':
            f = self.db.funcs[fv.key]
            if fv.extra is not None:
                args = [fv.extra] + args
            return self.call_func(st, f, args, kw, line)
        if fv.kind == 'class':
            return self.call_class(st, fv, args, kw, line)
        if fv.kind == 'exc':
            return [(st, Py('excval', fv.key, extra={}))]
        if fv.kind == 'bound':
            return self.call_method(st, fv.extra, fv.key, args, kw, line)
        if fv.kind == 'builtin':
            m = getattr(self, 'bi_' + fv.key, None)
            if m is None:
                return self.call_ext(st, fv.key, args, kw, line)
            return m(st, args, kw, line)
        if fv.kind == 'ext':
            return self.call_ext(st, fv.key, args, kw, line)
        if fv.kind == 'lambda':
            e, env, ctx = fv.extra
            s_env = dict(st.env)
            for a, v in zip(e.args.args, args):
                env[a.arg] = v
            st.env = env
            out = []
            for s, v in self.ev(e.body, st):
                s.env = dict(s_env)
                out.append((s, v))
            return out
        if fv.kind == 'localfunc':
            node, env, ctx = fv.extra
            return self.inline(st, _LocalFunc(node, ctx), args, kw, line,
                               closure=True)
        raise Unsupported('call of %r' % (fv,))

    def call_class(self, st, fv, args, kw, line):
        if self.db.is_subclass(fv.key, 'BaseException'):
            payload = {}
            return [(st, Py('excval', fv.key, extra=payload))]
        con = self.reg.contracts.get(fv.key)
        if con:
            return self.call_contract(st, con, None, args, kw, line)
        f = self.db.method(fv.key, '__init__')
        if f is not None:
            # some object; that it is a new one is not used
            o = Sc(Ty('obj', (fv.key,)), fresh('new', self.so.Obj))
            st.assume(o.t != self.so.NULL)
            st.assume_class(o.t, o.ty)
            return [(s, o) for s, _ in self.call_func(st, f, [o] + args, kw,
                                                      line)]
        raise Unsupported('instantiating %s' % fv.key)

    def call_func(self, st, f, args, kw, line):
        con = self.find_contract(f.key)
        if con is not None and con.callable_:
            return self.call_contract(st, con, f, args, kw, line)
        return self.inline(st, f, args, kw, line)

    def find_contract(self, key):
        case = self.con.use_cases.get(key, '')
        return self.reg.contracts.get(key + ('#' + case if case else ''))

    def bind_args(self, st, f, args, kw):
        a = f.node.args
        if a.kwarg and kw:
            pass
        names = [x.arg for x in a.args]
        env = {}
        if len(args) > len(names):
            if not a.vararg:
                raise Unsupported('too many arguments')
            raise Unsupported('varargs')
        for n, v in zip(names, args):
            env[n] = v
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            elif not a.kwarg:
                raise Unsupported('unknown keyword %s' % k)
        defaults = dict(zip(names[len(names) - len(a.defaults):],
                            a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            names.append(x.arg)
            if d is not None:
                defaults[x.arg] = d
        for n in names:
            if n not in env:
                if n not in defaults:
                    raise Unsupported('missing argument %s of %s' % (
                        n, f.key))
                saved = self.ctx
                self.ctx = Ctx(f)
                tmp = st.copy()
                tmp.env = {}
                rs = self.ev(defaults[n], tmp)
                self.ctx = saved
                if len(rs) != 1:
                    raise Unsupported('default argument')
                v = rs[0][1]
                if isinstance(v, Ref):
                    st.cells.update(tmp.cells)
                env[n] = v
        if a.kwarg:
            env[a.kwarg.arg] = Opaque('kwargs')
        if a.vararg:
            env[a.vararg.arg] = Tup([])
        return env

    def inline(self, st, f, args, kw, line, closure=False):
        if st.depth > 6:
            raise Unsupported('inlining depth at %s' % f.key)
        if not closure:
            self.inlined.add(f.key)
        env = self.bind_args(st, f, args, kw)
        caller_env, saved_ctx, saved_sink = st.env, self.ctx, self.sink
        st.env = dict(caller_env, **env) if closure else env
        st.frames = st.frames + [dict(caller_env)]
        st.depth += 1
        self.ctx = Ctx(f)
        if closure:
            # loops of nested functions belong to the enclosing contract
            self.ctx.contract = f.outer.contract
            self.ctx.loop_ids = f.outer.loop_ids
        self.sink = []
        out = []
        try:
            outs = self.exec_block(f.node.body, st)
        finally:
            self.ctx = saved_ctx
            self.sink = saved_sink
        for kind, s, v in outs:
            s.env = s.frames[-1]
            s.frames = s.frames[:-1]
            s.depth -= 1
            if kind == 'ret':
                out.append((s, v))
            elif kind == 'n':
                out.append((s, NONE))
            elif kind == 'exc':
                self.sink.append((s, v))
            else:
                raise Unsupported('break outside loop')
        return out

    def call_contract(self, st, con, f, args, kw, line):
        self.used.add(con.name)
        if f is not None:
            env = self.bind_args(st, f, args, kw)
        else:
            env = {}
            names = list(con.params)
            for n, v in zip(names, args):
                env[n] = v
            if len(args) > len(names):
                if '*' in con.params:
                    pass
                else:
                    raise Unsupported('arguments of %s' % con.key)
            for k, v in kw.items():
                env[k] = v
            for n in names:
                if n not in env:
                    if n in con.args:
                        env[n] = self.ops.const(con.args[n]) if not \
                            isinstance(con.args[n], V.SV) else con.args[n]
                    else:
                        raise Unsupported('argument %s of %s' % (n, con.key))
        # coerce arguments to the declared parameter types
        guards = []
        for n, ty in con.params.items():
            if n in env and ty is not None:
                env[n] = self.coerce_arg(st, env[n], parse_ty(ty), n, con,
                                         guards)
        for n, c in con.args.items():
            if n in env and con.params.get(n) is None and not isinstance(
                    env[n], Opaque):
                v = env[n]
                want = self.ops.const(c)
                if not z3.is_true(z3.simplify(self.ops.eq(st, v, want))):
                    raise Unsupported('%s called outside its contract case '
                                      '(%s)' % (con.key, n))
        old = st.copy()
        old.env = dict(env)
        scope = dict(env)
        for g in guards:
            self.oblige(st, 'pre', '%s:type@%s' % (con.key, line), g, line)
        for i, r in enumerate(con.requires):
            goal, facts = self.spec_bool(r, scope, st, old)
            hs = st.copy()
            for x in facts:
                hs.assume(x)
            self.oblige(hs, 'pre', '%s:%s' % (con.key, i), goal, line)
            st.assume(goal)
        if con.decreases and con.key == self.con.key and self.con.decreases:
            m0, f0 = self.spec(self.con.decreases, self.fn_entry.env,
                               self.fn_entry, self.fn_entry)
            m1, f1 = self.spec(con.decreases, scope, st, old)
            hs = st.copy()
            for x in f0 + f1:
                hs.assume(x)
            self.oblige(hs, 'decreases', 'recursion', z3.And(
                0 <= m1.t, m1.t < m0.t), line)
        elif con.key == self.con.key and not self.con.trusted:
            self.trust.add('recursion of %s ends' % con.key)
        out = []
        # exceptional outcomes
        excs = []
        for exc, cond in con.raises.items():
            if cond in (True, 'True', None, 'maybe'):
                c = fresh('raises', z3.BoolSort())
            else:
                c, facts = self.spec_bool(cond, scope, st, old)
                for x in facts:
                    st.assume(x)
            excs.append((exc, c))
        normal = st
        for exc, c in excs:
            a, b = self.split(normal, c)
            if a is not None:
                a = self.havoc_mod(a, con, scope)
                for i, x in enumerate(con.exc_ensures.get(exc, ())):
                    g, facts = self.spec_bool(x, scope, a, old)
                    for y in facts:
                        a.assume(y)
                    a.assume(g)
                self.raise_(a, exc, line)
            if b is None:
                return out
            normal = b
        s = self.havoc_mod(normal, con, scope)
        if con.returns == 'same':
            res = env[list(con.params)[0]]
        else:
            res = self.ops.fresh_sv(s, con.returns, 'r_' +
                                    con.key.split('.')[-1])
        # a postcondition `result == e` defines the result
        for x in con.ensures.values():
            if isinstance(res, Sc) and x.replace(' ', '').startswith(
                    'result=='):
                e = ast.parse(x.strip(), mode='eval').body
                if isinstance(e, ast.Compare) and len(e.ops) == 1 and \
                        isinstance(e.ops[0], ast.Eq) and \
                        isinstance(e.left, ast.Name) and not any(
                            isinstance(y, ast.Name) and y.id == 'result'
                            for y in ast.walk(e.comparators[0])):
                    v, facts = self.spec(e.comparators[0], scope, s, old)
                    if isinstance(v, Sc) and v.t.sort() == res.t.sort():
                        for y in facts:
                            s.assume(y)
                        res = Sc(res.ty, v.t)
                        break
        scope['result'] = res
        # witnesses of the callee's existentials: some value, at the caller
        for w, ty in con.witness.items():
            scope['w_' + w] = self.ops.fresh_sv(s, ty, 'w_' + w)
            s.env['w:' + w] = scope['w_' + w]
        for nm, x in con.ensures.items():
            g, facts = self.spec_bool(x, scope, s, old)
            for y in facts:
                s.assume(y)
            s.assume(g)
        out.append((s, res))
        return out

    def coerce_arg(self, st, v, ty, n, con, guards):
        if isinstance(v, Opaque):
            return self.ops.fresh_sv(st, ty, 'opq')
        if ty.k == 'opaque':
            return v
        if isinstance(v, Opt) and ty.k not in ('opt', 'any'):
            guards.append(z3.Not(v.isnone))
            return self.coerce_arg(st, v.v, ty, n, con, guards)
        if ty.k == 'opt':
            if isinstance(v, (Opt, NoneV)):
                if isinstance(v, NoneV):
                    inner = self.ops.fresh_sv(st, ty.a[0], 'none')
                    if ty.a[0].k in ('obj', 'any'):
                        return Opt(z3.BoolVal(True), Sc(ty.a[0],
                                                        self.so.NULL))
                    return Opt(z3.BoolVal(True), inner)
                return v
            return Opt(z3.BoolVal(False), self.coerce_arg(
                st, v, ty.a[0], n, con, guards))
        if ty.k == 'any':
            if isinstance(v, Sc) and v.ty.k == 'any':
                return v
            if isinstance(v, (Ref, Tup, Py)):
                return Sc(ANY, fresh('boxed', self.so.Obj))
            return Sc(ANY, self.ops.box(v)[0])
        if isinstance(v, Sc):
            if ty.k == 'obj':
                if v.ty.k not in ('obj', 'any'):
                    raise Unsupported('argument %s of %s' % (n, con.key))
                return Sc(ty, v.t, v.c) if v.ty.k == 'any' else v
            if v.ty.k == 'int' and ty.k == 'real':
                return Sc(REAL, z3.ToReal(v.t))
            if v.ty.k != ty.k:
                raise Unsupported('argument %s of %s: %r for %r' % (
                    n, con.key, v.ty, ty))
            return v
        if isinstance(v, Ref):
            c = self.ops.get(st, v.place)
            if ty.k in ('list', 'dict', 'odict', 'set'):
                want = {'list': CList, 'dict': CDict, 'odict': CDict,
                        'set': CSet}[ty.k]
                if not isinstance(c, want):
                    raise Unsupported('argument %s of %s' % (n, con.key))
                t = self.ops.typed(c, ty)
                if t is not c:
                    self.ops.put(st, v.place, t)
                return Ref(v.place, ty)
        if isinstance(v, Tup) and ty.k == 'list':
            c = self.ops.tup_list(st, v, ty.a[0])
            return Ref(('cell', st.new_cell(c)), ty)
        if isinstance(v, Tup) and ty.k == 'tuple':
            if len(v.items) != len(ty.a):
                raise Unsupported('tuple arity of %s' % n)
            return Tup([self.coerce_arg(st, x, t, n, con, guards)
                        for x, t in zip(v.items, ty.a)], v.names)
        raise Unsupported('argument %s of %s: %r for %r' % (n, con.key, v,
                                                           ty))

    def havoc_mod(self, st, con, scope):
        """Forget what the callee may modify."""
        s = st
        for m in con.modifies:
            if m.startswith('heap:'):
                an = m[5:]
                ty, arr = s.heap_attr(an)
                s.set_heap(an, fresh('H_' + an, arr.sort()))
            elif m.startswith('ghost:'):
                g = m[6:]
                v = s.env.get('$' + g)
                if v is None:
                    continue
                s.env['$' + g] = self.ops.fresh_sv(
                    s, self.ops.type_of(v), 'g_' + g)
            elif '.' in m:
                o, an = m.split('.', 1)
                obj = scope[o]
                cls = obj.ty.a[0] if obj.ty.k == 'obj' and obj.ty.a else None
                an = self.attr_alias(cls, an) or an
                ty, arr = s.heap_attr(an)
                nv = fresh('f_' + an, self.so.sort(ty))
                s.set_heap(an, z3.Store(arr, obj.t, nv))
                if ty.k == 'list':
                    s.assume(self.so.sort(ty).len(nv) >= 0)
            else:
                ref = scope[m]
                c = self.ops.get(s, ref.place)
                nc, facts = self.ops.fresh_container(ref.ty or
                                                     self.container_ty(c), m)
                for f in facts:
                    s.assume(f)
                self.ops.put(s, ref.place, nc)
        return s

    def container_ty(self, c):
        if isinstance(c, CList):
            return Ty('list', (c.et,))
        if isinstance(c, CDict):
            return Ty('odict' if c.keys is not None else 'dict',
                      (c.kt, c.vt))
        return Ty('set', (c.et,))

    def call_ext(self, st, key, args, kw, line):
        con = self.find_contract('ext:' + key)
        if con is not None:
            self.trust.add('external %s' % key)
            return self.call_contract(st, con, None, args, kw, line)
        m = EXT.get(key)
        if m is not None:
            return m(self, st, args, kw, line)
        raise Unsupported('external %s' % key)

    # -- builtins -----------------------------------------------------------------
    def one(self, st, r, line=0):
        s, v = self.apply(st, r, line)
        return [(s, v)] if s is not None else []

    def bi_len(self, st, args, kw, line):
        v = args[0]
        g = []
        if isinstance(v, Opt):
            g = [(z3.Not(v.isnone), 'TypeError')]
            v = v.v
        if isinstance(v, NoneV):
            self.raise_(st, 'TypeError', line)
            return []
        return self.one(st, R(self.len_(st, v), g), line)

    def len_(self, st, v):
        if isinstance(v, Tup):
            return self.ops.const(len(v.items))
        if isinstance(v, Sc) and v.ty.k == 'str':
            if self.so.mode == 'native':
                return Sc(INT, z3.Length(v.t))
            f = self.so.uf('str_len', self.so.S, z3.IntSort())
            x = z3.Const('x!len', self.so.S)
            self.so.fact('str_len', z3.ForAll([x], f(x) >= 0,
                                              patterns=[f(x)]))
            return Sc(INT, f(v.t))
        if isinstance(v, Ref):
            c = self.ops.get(st, v.place)
            if isinstance(c, CList):
                return Sc(INT, c.n)
            if isinstance(c, CDict):
                if c.kt is None:
                    return self.ops.const(0)
                if c.keys is not None:
                    return Sc(INT, c.keys.n)
                keys, facts = self.ops.dict_keys(c)
                for f in facts:
                    st.assume(f)
                return Sc(INT, keys.n)
            if isinstance(c, CSet):
                raise Unsupported('len of set')
        if isinstance(v, Sc) and v.ty.k == 'any':
            f = self.so.uf('py_len', self.so.Obj, z3.IntSort())
            x = z3.Const('x!pylen', self.so.Obj)
            self.so.fact('py_len', z3.ForAll([x], f(x) >= 0,
                                             patterns=[f(x)]))
            return Sc(INT, f(v.t))
        raise Unsupported('len of %r' % (v,))

    def bi_range(self, st, args, kw, line):
        if len(args) == 1:
            lo, hi = z3.IntVal(0), args[0].t
            if args[0].c is not None and args[0].c <= 16:
                return [(st, Tup([self.ops.const(i)
                                  for i in range(args[0].c)]))]
        elif len(args) == 2:
            lo, hi = args[0].t, args[1].t
        else:
            raise Unsupported('range step')
        return [(st, Py('range', None, extra=(lo, hi)))]

    def bi_enumerate(self, st, args, kw, line):
        start = 0
        if len(args) > 1:
            start = args[1].t
        it = args[0]
        if isinstance(it, Tup):
            return [(st, Tup([Tup([self.ops.const(i), x])
                              for i, x in enumerate(it.items)]))]
        return [(st, Py('enumerate', None, extra=(it, start)))]

    def bi_next(self, st, args, kw, line):
        v = args[0]
        if not isinstance(v, Ref) or len(args) > 1:
            raise Unsupported('next')
        c = self.ops.get(st, v.place)
        s, _ = self.apply(st, R(NONE, [(c.n > 0, 'StopIteration')]), line)
        if s is None:
            return []
        return [(s, self.ops.unpack(z3.Select(c.arr, 0), c.et, v.place,
                                    z3.IntVal(0)))]

    def bi_reversed(self, st, args, kw, line):
        v = args[0]
        if isinstance(v, Tup):
            return [(st, Tup(list(reversed(v.items)), lst=v.lst))]
        return [(st, self.reversed_(st, v))]

    def bi_str(self, st, args, kw, line):
        if not args:
            return [(st, self.ops.const(''))]
        v, facts = self.ops.to_str(args[0])
        for f in facts:
            st.assume(f)
        return [(st, v)]

    def bi_repr(self, st, args, kw, line):
        return [(st, Opaque('repr'))]

    def bi_int(self, st, args, kw, line):
        v = args[0]
        if isinstance(v, Opaque):
            return [(st, Sc(INT, fresh("int", z3.IntSort())))]
        if isinstance(v, Sc) and v.ty.k == 'int':
            return [(st, v)]
        if isinstance(v, Sc) and v.ty.k == 'real':
            f = z3.ToInt(v.t)
            return [(st, Sc(INT, z3.If(v.t >= 0, f, -z3.ToInt(-v.t))))]
        if isinstance(v, Sc) and v.ty.k == 'str':
            ok = self.so.uf('py_int_ok', self.so.S, z3.BoolSort())(v.t)
            iv = self.so.uf('py_int_of_str', self.so.S, z3.IntSort())(v.t)
            return self.one(st, R(Sc(INT, iv), [(ok, 'ValueError')]), line)
        raise Unsupported('int()')

    def bi_bool(self, st, args, kw, line):
        return [(st, self.ops.bool_(self.ops.truth(st, args[0])))]

    def bi_float(self, st, args, kw, line):
        v = args[0]
        if isinstance(v, Sc) and v.ty.k == 'int':
            return [(st, Sc(REAL, z3.ToReal(v.t)))]
        if isinstance(v, Sc) and v.ty.k == 'real':
            return [(st, v)]
        raise Unsupported('float()')

    def bi_list(self, st, args, kw, line):
        if not args:
            return [(st, self.new_list(st, []))]
        v = args[0]
        if isinstance(v, Tup):
            return [(st, Tup(v.items, lst=True))] if any(
                isinstance(x, (Tup, Py)) for x in v.items) else \
                [(st, self.new_list(st, list(v.items)))]
        if isinstance(v, Py) and v.kind == 'items':
            c = self.ops.get(st, v.extra.place)
            keys, facts = self.ops.dict_keys(c)
            for f in facts:
                st.assume(f)
            snap = Ref(('cell', st.new_cell(c)), v.extra.ty)
            # a list of live pairs over the current keys
            p = Py('itemlist', None, extra=(v.extra, keys, c))
            return [(st, p)]
        seq, facts, bind = self.iter_seq(st, v)
        for f in facts:
            st.assume(f)
        if isinstance(seq, _Seq):
            return [(st, Ref(('cell', st.new_cell(seq.c)),
                             Ty('list', (seq.c.et,)) if seq.c.et else
                             None))]
        raise Unsupported('list()')

    def bi_tuple(self, st, args, kw, line):
        if args and isinstance(args[0], Tup):
            return [(st, Tup(args[0].items))]
        return self.bi_list(st, args, kw, line)

    def bi_dict(self, st, args, kw, line):
        if not args and not kw:
            c = CDict(None, None, None, None)
            return [(st, Ref(('cell', st.new_cell(c)), None))]
        if args and isinstance(args[0], Ref):
            c = self.ops.get(st, args[0].place)
            if isinstance(c, CDict):
                return [(st, Ref(('cell', st.new_cell(c)), args[0].ty))]
        raise Unsupported('dict()')

    def bi_set(self, st, args, kw, line):
        if not args:
            return [(st, Ref(('cell', st.new_cell(CSet(None, None))), None))]
        v = args[0]
        if isinstance(v, Ref):
            c = self.ops.get(st, v.place)
            if isinstance(c, CSet):
                return [(st, Ref(('cell', st.new_cell(c)), v.ty))]
        if isinstance(v, Tup):
            c = self.ops.tup_list(st, v)
        else:
            c = self.ops.clist(st, v)
        if c.et is None:
            return [(st, Ref(('cell', st.new_cell(CSet(None, None))), None))]
        r = self.elem_set(st, c)
        return [(st, Ref(('cell', st.new_cell(r)), Ty('set', (c.et,))))]

    def elem_set(self, st, c):
        srt = self.so.sort(c.et)
        m = fresh('set', z3.ArraySort(srt, z3.BoolSort()))
        pos = z3.Function(fresh('pos', z3.IntSort()).decl().name(), srt,
                          z3.IntSort())
        i = fresh('i', z3.IntSort())
        x = fresh('x', srt)
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < c.n),
                                            z3.Select(m, z3.Select(c.arr,
                                                                   i))),
                            patterns=[z3.Select(c.arr, i)]))
        st.assume(z3.ForAll([x], z3.Implies(z3.Select(m, x), z3.And(
            0 <= pos(x), pos(x) < c.n, z3.Select(c.arr, pos(x)) == x)),
            patterns=[z3.Select(m, x)]))
        return CSet(c.et, m)

    def bi_sorted(self, st, args, kw, line):
        v = args[0]
        if isinstance(v, Py):
            raise Unsupported('sorted of %r' % (v,))
        if kw:
            raise Unsupported('sorted key')
        c = self.ops.get(st, v.place) if isinstance(v, Ref) else None
        if isinstance(c, CDict):
            c, facts = self.ops.dict_keys(c)
            for f in facts:
                st.assume(f)
        elif not isinstance(c, CList):
            raise Unsupported('sorted')
        return [(st, self.sort_list(st, c))]

    def sort_list(self, st, c):
        if c.et is None:
            return Ref(('cell', st.new_cell(c)), None)
        if c.et.k not in ('str', 'int'):
            raise Unsupported('sorting %r' % (c.et,))
        self.trust.add('sorted() returns a sorted permutation')
        arr = fresh('sorted', c.arr.sort())
        p = z3.Function(fresh('perm', z3.IntSort()).decl().name(),
                        z3.IntSort(), z3.IntSort())
        q = z3.Function(fresh('perm', z3.IntSort()).decl().name(),
                        z3.IntSort(), z3.IntSort())
        i, j = fresh('i', z3.IntSort()), fresh('j', z3.IntSort())
        ri = z3.And(0 <= i, i < c.n)
        st.assume(z3.ForAll([i], z3.Implies(ri, z3.And(
            0 <= p(i), p(i) < c.n, q(p(i)) == i,
            z3.Select(arr, i) == z3.Select(c.arr, p(i)))),
            patterns=[z3.Select(arr, i)]))
        st.assume(z3.ForAll([i], z3.Implies(ri, z3.And(
            0 <= q(i), q(i) < c.n, p(q(i)) == i,
            z3.Select(arr, q(i)) == z3.Select(c.arr, i))),
            patterns=[z3.Select(c.arr, i)]))
        le = self.compare(st, ast.LtE(), Sc(c.et, z3.Select(arr, i)),
                          Sc(c.et, z3.Select(arr, j))).v.t
        st.assume(z3.ForAll([i, j], z3.Implies(
            z3.And(0 <= i, i <= j, j < c.n), le),
            patterns=[z3.MultiPattern(z3.Select(arr, i),
                                      z3.Select(arr, j))]))
        return Ref(('cell', st.new_cell(CList(c.et, c.n, arr))),
                   Ty('list', (c.et,)))

    def minmax(self, st, args, is_max):
        if len(args) < 2:
            raise Unsupported('min/max of iterable')
        acc = args[0]
        for x in args[1:]:
            if not (isinstance(acc, Sc) and isinstance(x, Sc) and
                    acc.ty.k in ('int', 'real') and acc.ty == x.ty):
                raise Unsupported('min/max')
            c = acc.t >= x.t if is_max else acc.t <= x.t
            t = z3.If(c, acc.t, x.t)
            if is_max and acc.ty.k == 'int':
                ls = [b for b in (self.ops.lower(acc.t), self.ops.lower(x.t))
                      if b is not None]
                if ls:
                    self.ops.bound_below(t, max(ls))
            acc = Sc(acc.ty, t)
        return [(st, acc)]

    def bi_max(self, st, args, kw, line):
        return self.minmax(st, args, True)

    def bi_min(self, st, args, kw, line):
        return self.minmax(st, args, False)

    def bi_isinstance(self, st, args, kw, line):
        v, t = args
        ts = t.items if isinstance(t, Tup) else [t]
        names = []
        for x in ts:
            if not isinstance(x, Py):
                raise Unsupported('isinstance type')
            names.append(x.key.split('.')[-1] if x.kind == 'class' else
                         x.key)
        r = self.isinst(st, v, names)
        return [(st, self.ops.bool_(r))]

    def isinst(self, st, v, names):
        T, F = z3.BoolVal(True), z3.BoolVal(False)
        if isinstance(v, Opt):
            return z3.And(z3.Not(v.isnone), self.isinst(st, v.v, names))
        if isinstance(v, NoneV):
            return F
        if isinstance(v, Sc):
            k = v.ty.k
            if k in ('str', 'int', 'bool'):
                return T if k in names or (k == 'bool' and 'int' in names) \
                    else F
            if k == 'real':
                return T if 'float' in names else F
            if k == 'obj':
                cls = v.ty.a[0]
                if any(self.db.is_subclass(cls, n) for n in names):
                    return T
                # might be a subclass instance
                if any(self.db.is_subclass(n2, cls) for n2 in self.db.bases
                       for n in names if n2.split('.')[-1] == n):
                    f = self.so.uf('isinst_' + '_'.join(names), self.so.Obj,
                                   z3.BoolSort())
                    return f(v.t)
                return F
            if k == 'any':
                f = self.so.uf('isinst_' + '_'.join(names), self.so.Obj,
                               z3.BoolSort())
                return f(v.t)
        if isinstance(v, Tup):
            return T if ('list' if v.lst else 'tuple') in names else F
        if isinstance(v, Ref):
            c = self.ops.get(st, v.place)
            n = {'CList': 'list', 'CDict': 'dict', 'CSet': 'set'}[
                type(c).__name__]
            return T if n in names else F
        raise Unsupported('isinstance of %r' % (v,))

    def bi_type(self, st, args, kw, line):
        if len(args) == 1:
            v = args[0]
            if isinstance(v, Sc) and v.ty.k in ('str', 'int', 'bool'):
                return [(st, Py('builtin', v.ty.k))]
            if isinstance(v, Opt) and isinstance(v.v, Sc) and \
                    v.v.ty.k == 'str':
                a, b = self.split(st, v.isnone)
                out = []
                if a is not None:
                    out.append((a, Py('builtin', 'NoneType')))
                if b is not None:
                    out.append((b, Py('builtin', 'str')))
                return out
        raise Unsupported('type()')

    def bi_hasattr(self, st, args, kw, line):
        v, n = args
        name = n.c
        if name is None or not isinstance(v, Sc) or v.ty.k != 'obj':
            raise Unsupported('hasattr')
        an = self.attr_alias(v.ty.a[0] if v.ty.a else None, name)
        if an is None:
            raise Unsupported('hasattr of undeclared attribute')
        ty, arr = st.heap_attr(an)
        r = self.ops.unpack(z3.Select(arr, v.t), ty) if ty.k not in (
            'list', 'dict', 'odict', 'set') else None
        if isinstance(r, Maybe):
            return [(st, self.ops.bool_(z3.Not(r.missing)))]
        return [(st, self.ops.bool_(z3.BoolVal(True)))]

    def dyn_attr(self, st, v, n, default, line):
        """getattr with a computed name, through the dynamic attribute map
        declared for the contract."""
        con = self.reg.contracts.get('dyn:getattr')
        ty = parse_ty('any')
        has = self.so.uf('dyn_has', self.so.Obj, self.so.S, z3.BoolSort())
        get = self.so.uf('dyn_get', self.so.Obj, self.so.S, self.so.Obj)
        if 'dyn' not in self.con.ghost:
            raise Unsupported('getattr with computed name')
        h, g = has(v.t, n.t), Sc(ANY, get(v.t, n.t))
        out = []
        a, b = self.split(st, h)
        if a is not None:
            out.append((a, g))
        if b is not None:
            if default is None:
                self.raise_(b, 'AttributeError', line)
            else:
                out.append((b, default))
        return out

    def bi_getattr(self, st, args, kw, line):
        v, n = args[0], args[1]
        default = args[2] if len(args) > 2 else None
        if isinstance(v, Opt):
            a, b = self.split(st, v.isnone)
            out = []
            if a is not None:
                if default is None:
                    self.raise_(a, 'AttributeError', line)
                else:
                    out.append((a, default))
            if b is not None:
                out += self.bi_getattr(b, [v.v] + args[1:], kw, line)
            return out
        if isinstance(v, NoneV):
            if default is None:
                self.raise_(st, 'AttributeError', line)
                return []
            return [(st, default)]
        if not (isinstance(n, Sc) and n.ty.k == 'str'):
            raise Unsupported('getattr name')
        if n.c is None:
            return self.dyn_attr(st, v, n, default, line)
        if isinstance(v, Py) and v.kind == 'class':
            return self.attr(st, v, n.c, line)
        saved, self.sink = self.sink, []
        try:
            out = self.attr(st, v, n.c, line)
            sunk = self.sink
        finally:
            self.sink = saved
        for s, x in sunk:
            if x.name == 'AttributeError' and default is not None:
                out.append((s, default))
            else:
                self.sink.append((s, x))
        return out

    def bi_setattr(self, st, args, kw, line):
        v, n, x = args
        if not isinstance(n, Sc) or n.c is None:
            con = self.find_contract('ext:setattr')
            if con is not None:
                self.trust.add('external setattr')
                return self.call_contract(st, con, None, args, kw, line)
            raise Unsupported('setattr with computed name')
        return [(s, NONE) for s in self.set_attr(st, v, n.c, x, line)]

    def set_attr(self, st, v, name, x, line=0):
        if isinstance(v, Opt):
            ok, bad = self.split(st, z3.Not(v.isnone))
            if bad is not None:
                self.raise_(bad, 'AttributeError', line)
            if ok is None:
                return []
            st, v = ok, v.v
        if isinstance(v, NoneV):
            self.raise_(st, 'AttributeError', line)
            return []
        if isinstance(v, Py) and v.kind == 'excval':
            v.extra[name] = x
            return [st]
        if not (isinstance(v, Sc) and v.ty.k in ('obj', 'any')):
            raise Unsupported('attribute assignment on %r' % (v,))
        cls = v.ty.a[0] if v.ty.k == 'obj' and v.ty.a else None
        an = self.attr_alias(cls, name)
        if an is None:
            raise Unsupported('assignment to undeclared attribute %s' % name)
        ty, arr = st.heap_attr(an)
        t = self.ops.pack(st, x, ty)
        if ty.k in ('list', 'dict', 'odict', 'set'):
            self.detach_attr(st, an)
        st.set_heap(an, z3.Store(arr, v.t, t))
        if isinstance(x, Ref) and x.place[0] == 'cell' and \
                ty.k in ('list', 'dict', 'odict', 'set'):
            self.repoint(st, x.place, ('field', v.t, an), ty)
        return [st]

    def detach_attr(self, st, an):
        for env in [st.env] + st.frames:
            for n, x in list(env.items()):
                if isinstance(x, Ref) and _shape(x.place)[1] == ('field', an):
                    env[n] = Ref(('val', self.ops.get(st, x.place)), x.ty)

    def bi_id(self, st, args, kw, line):
        return [(st, Opaque('id'))]

    def bi_callable(self, st, args, kw, line):
        raise Unsupported('callable')

    def bi_abs(self, st, args, kw, line):
        v = args[0]
        return [(st, Sc(v.ty, z3.If(v.t >= 0, v.t, -v.t)))]

    def bi_round(self, st, args, kw, line):
        return [(st, Opaque('round'))]

    def bi_any(self, st, args, kw, line):
        return self.anyall(st, args[0], False)

    def bi_all(self, st, args, kw, line):
        return self.anyall(st, args[0], True)

    def anyall(self, st, v, is_all):
        if isinstance(v, Py) and v.kind == 'genexp':
            e = v.extra
            if len(e.generators) != 1:
                raise Unsupported('nested generator')
            g = e.generators[0]
            out = []
            for s, it in self.ev(g.iter, st):
                conc = self.concrete_items(it)
                if conc is not None:
                    for s2, lst in self.comp_unroll(e, g, s, conc):
                        c = self.ops.clist(s2, lst)
                        ts = [self.ops.truth(s2, self.ops.unpack(
                            z3.Select(c.arr, i), c.et))
                            for i in range(c.n.as_long())] if c.et else []
                        out.append((s2, self.ops.bool_(
                            AND(ts) if is_all else OR(ts))))
                    continue
                seq, facts, bind = self.iter_seq(s, it)
                for f in facts:
                    s.assume(f)
                k = fresh('k', z3.IntSort())
                rng = z3.And(0 <= k, k < seq.n)
                old = dict(s.env)
                merged, facts = self.pure_eval(
                    s, [e.elt] + g.ifs, lambda q: bind(q, k, g.target), k,
                    rng)
                s.env = old
                if facts:
                    s.assume(z3.ForAll([k], z3.Implies(rng, AND(facts))))
                ts = [m[1] if m[0].k == 'bool' else self.term_truth(m)
                      for m in merged]
                body, conds = ts[0], ts[1:]
                if is_all:
                    f = z3.ForAll([k], z3.Implies(AND([rng] + conds), body))
                else:
                    f = z3.Exists([k], AND([rng] + conds + [body]))
                out.append((s, self.ops.bool_(f)))
            return out
        if isinstance(v, Tup):
            ts = [self.ops.truth(st, x) for x in v.items]
            return [(st, self.ops.bool_(AND(ts) if is_all else OR(ts)))]
        c = self.ops.clist(st, v)
        if c.et is None:
            return [(st, self.ops.const(is_all))]
        k = fresh('k', z3.IntSort())
        t = self.ops.truth(st, self.ops.unpack(z3.Select(c.arr, k), c.et))
        rng = z3.And(0 <= k, k < c.n)
        return [(st, self.ops.bool_(
            z3.ForAll([k], z3.Implies(rng, t)) if is_all else
            z3.Exists([k], z3.And(rng, t))))]

    def bi_super(self, st, args, kw, line):
        return [(st, Py('super', None, extra=(self.ctx.func.cls, args)))]

    # -- methods --------------------------------------------------------------
    def call_method(self, st, recv, name, args, kw, line):
        o = self.ops
        if isinstance(recv, Opaque):
            return [(st, Opaque('method of opaque'))]
        if isinstance(recv, Py) and recv.kind == 'super':
            cls, sargs = recv.extra
            for ck in self.db.mro(cls)[1:]:
                f = self.db.funcs.get('%s.%s' % (ck, name))
                if f:
                    return self.call_func(st, f, [st.env['self']] + args, kw,
                                          line)
            raise Unsupported('super().%s' % name)
        if isinstance(recv, Sc) and recv.ty.k in ('obj', 'any'):
            if self.rec_of(recv):
                return self.rec_method(st, recv, name, args, line)
            cls = recv.ty.a[0] if recv.ty.k == 'obj' and recv.ty.a else None
            ck = '%s.%s' % (cls, name)
            f = self.db.method(cls, name) if cls else None
            con = None
            if cls:
                for c in self.db.mro(cls):
                    con = self.find_contract('%s.%s' % (c, name))
                    if con is not None and con.callable_:
                        break
                    con = None
                    if '%s.%s' % (c, name) in self.db.funcs:
                        break
            if con is not None:
                return self.call_contract(st, con, f, [recv] + args, kw,
                                          line)
            if f is not None:
                return self.inline(st, f, [recv] + args, kw, line)
            con = self.find_contract('ext:%s.%s' % (cls, name))
            if con is not None:
                self.trust.add('external %s.%s' % (cls, name))
                return self.call_contract(st, con, None, [recv] + args, kw,
                                          line)
            raise Unsupported('method %s of %s' % (name, cls))
        if isinstance(recv, Sc) and recv.ty.k == 'str':
            if name == 'format':
                return [self.str_format(st, recv, args, kw)]
            guards = []
            args2 = []
            for a in args:
                if isinstance(a, Opt):
                    guards.append((z3.Not(a.isnone), 'TypeError'))
                    a = a.v
                args2.append(a)
            if any(isinstance(a, NoneV) for a in args2):
                self.raise_(st, 'TypeError', line)
                return []
            if any(isinstance(a, Opaque) for a in args2):
                return [(st, Opaque('str method'))]
            r = o.str_method(st, name, recv, args2)
            r.guards = guards + r.guards
            if isinstance(r.v, CList):
                r.v = Ref(('cell', st.new_cell(r.v)), Ty('list',
                                                         (r.v.et,)))
            return self.one(st, r, line)
        if isinstance(recv, Ref):
            c = o.get(st, recv.place)
            kind = {'CList': 'list', 'CDict': 'dict',
                    'CSet': 'set'}[type(c).__name__]
            m = getattr(self, 'm_%s_%s' % (kind, name), None)
            if m is None:
                raise Unsupported('%s.%s' % (kind, name))
            return m(st, recv, c, args, kw, line)
        if isinstance(recv, Tup):
            if name == 'index' and len(args) == 1:
                raise Unsupported('tuple.index')
        raise Unsupported('method %s of %r' % (name, recv))

    def str_format(self, st, recv, args, kw):
        if recv.c is None or kw:
            return (st, Opaque('format'))
        parts = recv.c.split('{}')
        if '{' in ''.join(parts) or len(parts) != len(args) + 1:
            return (st, Opaque('format'))
        acc = self.ops.const(parts[0])
        for p, a in zip(parts[1:], args):
            t, facts = self.ops.to_str(a)
            if isinstance(t, Opaque):
                return (st, Opaque('format'))
            for f in facts:
                st.assume(f)
            acc = self.ops.str_concat(acc, t)
            acc = self.ops.str_concat(acc, self.ops.const(p)) if p else acc
        return (st, acc)

    def elem(self, st, recv, c, v):
        """Pack v as an element of the list at recv, typing the list."""
        if c.et is None:
            et = self.ops.type_of(v)
            c = self.ops.typed(c, Ty('list', (et,)))
        return c, self.ops.pack(st, v, c.et)

    def m_list_append(self, st, recv, c, args, kw, line):
        c, x = self.elem(st, recv, c, args[0])
        self.ops.put(st, recv.place, CList(
            c.et, z3.simplify(c.n + 1), z3.Store(c.arr, c.n, x)))
        v = args[0]
        if isinstance(v, Ref) and v.place[0] == 'cell' and \
                c.et.k in ('list', 'dict', 'odict', 'set'):
            self.repoint(st, v.place, ('item', recv.place, c.n), c.et)
        return [(st, NONE)]

    def m_list_extend(self, st, recv, c, args, kw, line):
        self.list_iadd(st, recv, args[0])
        return [(st, NONE)]

    def list_iadd(self, st, recv, v):
        c = self.ops.get(st, recv.place)
        if isinstance(v, Ref):
            d = self.ops.get(st, v.place)
            if isinstance(d, (CDict, CSet)):
                seq, facts, _ = self.iter_seq(st, v)
                for f in facts:
                    st.assume(f)
                d = seq.c
        elif isinstance(v, Tup):
            if c.et is None and not v.items:
                return
            d = self.ops.tup_list(st, v, c.et)
        else:
            raise Unsupported('list += %r' % (v,))
        n = z3.simplify(d.n)
        if c.et is not None and d.et is not None and c.et != d.et and \
                z3.is_int_value(n):
            d = self.ops.tup_list(st, Tup([self.ops.unpack(
                z3.simplify(z3.Select(d.arr, i)), d.et)
                for i in range(n.as_long())]), c.et)
        r, facts = self.ops.concat(st, c, d)
        for f in facts:
            st.assume(f)
        self.ops.put(st, recv.place, r)

    def m_list_insert(self, st, recv, c, args, kw, line):
        c, x = self.elem(st, recv, c, args[1])
        r, facts, p = self.ops.list_insert(c, args[0].t, x)
        for f in facts:
            st.assume(f)
        self.detach(st, recv.place)
        self.ops.put(st, recv.place, r)
        return [(st, NONE)]

    def m_list_remove(self, st, recv, c, args, kw, line):
        if c.et is None:
            self.raise_(st, 'ValueError', line)
            return []
        x = self.ops.pack(st, args[0], c.et)
        isin = self.ops.contains(st, args[0], recv)
        ok, bad = self.split(st, isin)
        if bad is not None:
            self.raise_(bad, 'ValueError', line)
        if ok is None:
            return []
        p = fresh('rmpos', z3.IntSort())
        i = fresh('i', z3.IntSort())
        ok.assume(z3.And(0 <= p, p < c.n, z3.Select(c.arr, p) == x))
        ok.assume(z3.ForAll([i], z3.Implies(
            z3.And(0 <= i, i < p), z3.Select(c.arr, i) != x),
            patterns=[z3.Select(c.arr, i)]))
        r, facts = self.ops.list_remove_at(c, p)
        for f in facts:
            ok.assume(f)
        self.detach(ok, recv.place)
        self.ops.put(ok, recv.place, r)
        return [(ok, NONE)]

    def m_list_pop(self, st, recv, c, args, kw, line):
        if c.et is None:
            self.raise_(st, 'IndexError', line)
            return []
        if args:
            i = args[0]
            j = i.t if i.c is not None and i.c >= 0 else self.ops.norm_index(
                i.t, c.n)
        else:
            j = c.n - 1
        s, _ = self.apply(st, R(NONE, [(z3.And(0 <= j, j < c.n),
                                        'IndexError')]), line)
        if s is None:
            return []
        v = self.ops.unpack(z3.Select(c.arr, j), c.et)
        if not args:
            r = CList(c.et, c.n - 1, c.arr)
        elif args[0].c is not None and z3.is_int_value(
                z3.simplify(c.n)) and args[0].c == \
                z3.simplify(c.n).as_long() - 1:
            r = CList(c.et, c.n - 1, c.arr)
        else:
            r, facts = self.ops.list_remove_at(c, j)
            for f in facts:
                s.assume(f)
        self.detach(s, recv.place)
        self.ops.put(s, recv.place, r)
        return [(s, v)]

    def m_list_index(self, st, recv, c, args, kw, line):
        if c.et is None or len(args) != 1:
            raise Unsupported('list.index')
        x = self.ops.pack(st, args[0], c.et)
        ok, bad = self.split(st, self.ops.contains(st, args[0], recv))
        if bad is not None:
            self.raise_(bad, 'ValueError', line)
        if ok is None:
            return []
        p = fresh('idx', z3.IntSort())
        i = fresh('i', z3.IntSort())
        ok.assume(z3.And(0 <= p, p < c.n, z3.Select(c.arr, p) == x))
        ok.assume(z3.ForAll([i], z3.Implies(
            z3.And(0 <= i, i < p), z3.Select(c.arr, i) != x)))
        return [(ok, Sc(INT, p))]

    def m_list_copy(self, st, recv, c, args, kw, line):
        return [(st, Ref(('cell', st.new_cell(c)), recv.ty))]

    def m_list_sort(self, st, recv, c, args, kw, line):
        if args or kw:
            raise Unsupported('sort key')
        r = self.sort_list(st, c)
        self.detach(st, recv.place)
        self.ops.put(st, recv.place, self.ops.get(st, r.place))
        return [(st, NONE)]

    def m_list_reverse(self, st, recv, c, args, kw, line):
        r = self.reversed_(st, recv)
        self.detach(st, recv.place)
        self.ops.put(st, recv.place, self.ops.get(st, r.place))
        return [(st, NONE)]

    def m_list_count(self, st, recv, c, args, kw, line):
        raise Unsupported('list.count')

    def m_list_clear(self, st, recv, c, args, kw, line):
        self.detach(st, recv.place)
        self.ops.put(st, recv.place, CList(c.et, z3.IntVal(0), c.arr))
        return [(st, NONE)]

    # dict
    def m_dict_get(self, st, recv, c, args, kw, line):
        d = args[1] if len(args) > 1 else NONE
        if c.kt is None:
            return [(st, d)]
        key = args[0]
        if isinstance(key, Opt) and c.kt.k not in ('opt', 'any', 'obj'):
            a, b = self.split(st, key.isnone)
            out = []
            if a is not None:
                out.append((a, d))
            if b is not None:
                out += self.m_dict_get(b, recv, c, [key.v] + args[1:], kw,
                                       line)
            return out
        if isinstance(key, NoneV) and c.kt.k not in ('opt', 'any', 'obj'):
            return [(st, d)]
        k = self.ops.pack(st, key, c.kt)
        v = self.ops.unpack(z3.Select(c.val, k), c.vt, recv.place, k)
        isin = z3.Select(c.dom, k)
        # avoid a path split for plain optional lookups
        if isinstance(d, NoneV) and isinstance(v, Sc) and v.ty.k in (
                'obj', 'any'):
            t = z3.If(isin, v.t, self.so.NULL)
            if v.ty.k == 'any':
                return [(st, Sc(ANY, t))]
            st.assume(z3.Implies(isin, v.t != self.so.NULL))
            return [(st, Opt(t == self.so.NULL, Sc(v.ty, t)))]
        if isinstance(d, Sc) and isinstance(v, Sc) and d.ty == v.ty:
            return [(st, Sc(v.ty, z3.If(isin, v.t, d.t)))]
        a, b = self.split(st, isin)
        out = []
        if a is not None:
            out.append((a, v))
        if b is not None:
            out.append((b, d))
        return out

    def m_dict_keys(self, st, recv, c, args, kw, line):
        return [(st, recv)]

    def m_dict_items(self, st, recv, c, args, kw, line):
        return [(st, Py('items', None, extra=recv))]

    def m_dict_values(self, st, recv, c, args, kw, line):
        keys, facts = self.ops.dict_keys(c)
        for f in facts:
            st.assume(f)
        if keys.et is None:
            return [(st, self.new_list(st, []))]
        arr = fresh('vals', z3.ArraySort(z3.IntSort(), self.so.sort(c.vt)))
        i = fresh('i', z3.IntSort())
        st.assume(z3.ForAll([i], z3.Implies(
            z3.And(0 <= i, i < keys.n), z3.Select(arr, i) == z3.Select(
                c.val, z3.Select(keys.arr, i))),
            patterns=[z3.Select(arr, i)]))
        k = fresh('k', self.so.sort(c.kt))
        st.assume(z3.ForAll([k], z3.Implies(z3.Select(c.dom, k), z3.Exists(
            [i], z3.And(0 <= i, i < keys.n, z3.Select(keys.arr, i) == k,
                        z3.Select(arr, i) == z3.Select(c.val, k)))),
            patterns=[z3.Select(c.val, k)]))
        return [(st, Ref(('cell', st.new_cell(CList(c.vt, keys.n, arr))),
                         Ty('list', (c.vt,))))]

    def m_dict_copy(self, st, recv, c, args, kw, line):
        return [(st, Ref(('cell', st.new_cell(c)), recv.ty))]

    def m_dict_pop(self, st, recv, c, args, kw, line):
        if c.kt is None:
            if len(args) > 1:
                return [(st, args[1])]
            self.raise_(st, 'KeyError', line)
            return []
        key = args[0]
        if isinstance(key, Opt):
            raise Unsupported('dict.pop of optional key')
        k = self.ops.pack(st, key, c.kt)
        isin = z3.Select(c.dom, k)
        a, b = self.split(st, isin)
        out = []
        if a is not None:
            v = self.ops.unpack(z3.Select(c.val, k), c.vt)
            keys = None
            if c.keys is not None:
                p = fresh('kpos', z3.IntSort())
                a.assume(z3.And(0 <= p, p < c.keys.n,
                                z3.Select(c.keys.arr, p) == k))
                keys, facts = self.ops.list_remove_at(c.keys, p)
                for f in facts:
                    a.assume(f)
            self.detach(a, recv.place)
            self.ops.put(a, recv.place, CDict(
                c.kt, c.vt, z3.Store(c.dom, k, False), c.val, keys))
            out.append((a, v))
        if b is not None:
            if len(args) > 1:
                out.append((b, args[1]))
            else:
                self.raise_(b, 'KeyError', line)
        return out

    def m_dict_update(self, st, recv, c, args, kw, line):
        v = args[0]
        d = self.ops.get(st, v.place) if isinstance(v, Ref) else None
        if not isinstance(d, CDict):
            raise Unsupported('dict.update')
        if d.kt is None:
            return [(st, NONE)]
        if c.kt is None:
            self.ops.put(st, recv.place, CDict(d.kt, d.vt, d.dom, d.val,
                                               d.keys))
            return [(st, NONE)]
        if c.keys is not None:
            raise Unsupported('update of ordered dict')
        k = fresh('k', self.so.sort(c.kt))
        dom = fresh('dom', c.dom.sort())
        val = fresh('val', c.val.sort())
        st.assume(z3.ForAll([k], z3.Select(dom, k) == z3.Or(
            z3.Select(c.dom, k), z3.Select(d.dom, k)),
            patterns=[z3.Select(dom, k)]))
        st.assume(z3.ForAll([k], z3.Select(val, k) == z3.If(
            z3.Select(d.dom, k), z3.Select(d.val, k), z3.Select(c.val, k)),
            patterns=[z3.Select(val, k)]))
        self.detach(st, recv.place)
        self.ops.put(st, recv.place, CDict(c.kt, c.vt, dom, val))
        return [(st, NONE)]

    def m_dict_setdefault(self, st, recv, c, args, kw, line):
        raise Unsupported('setdefault')

    def m_dict_clear(self, st, recv, c, args, kw, line):
        if c.kt is not None:
            self.detach(st, recv.place)
            self.ops.put(st, recv.place, self.ops.empty_dict(
                c.kt, c.vt, c.keys is not None))
        return [(st, NONE)]

    # set
    def m_set_add(self, st, recv, c, args, kw, line):
        et = c.et or self.ops.type_of(args[0])
        c = self.ops.typed(c, Ty('set', (et,)))
        self.ops.put(st, recv.place, CSet(et, z3.Store(
            c.mem, self.ops.pack(st, args[0], et), True)))
        return [(st, NONE)]

    def m_set_discard(self, st, recv, c, args, kw, line):
        if c.et is None:
            return [(st, NONE)]
        self.ops.put(st, recv.place, CSet(c.et, z3.Store(
            c.mem, self.ops.pack(st, args[0], c.et), False)))
        return [(st, NONE)]

    def m_set_remove(self, st, recv, c, args, kw, line):
        if c.et is None:
            self.raise_(st, 'KeyError', line)
            return []
        k = self.ops.pack(st, args[0], c.et)
        s, _ = self.apply(st, R(NONE, [(z3.Select(c.mem, k), 'KeyError')]),
                          line)
        if s is None:
            return []
        self.ops.put(s, recv.place, CSet(c.et, z3.Store(c.mem, k, False)))
        return [(s, NONE)]

    def _set_arg(self, st, v):
        c = self.ops.get(st, v.place) if isinstance(v, Ref) else None
        if isinstance(c, CSet):
            return c
        if isinstance(c, CList):
            return self.elem_set(st, c) if c.et is not None else \
                CSet(None, None)
        if isinstance(c, CDict):
            return CSet(c.kt, c.dom)
        raise Unsupported('set operand')

    def m_set_union(self, st, recv, c, args, kw, line):
        return self.one(st, self.set_op(st, 'union', c,
                                        self._set_arg(st, args[0])))

    def m_set_intersection(self, st, recv, c, args, kw, line):
        return self.one(st, self.set_op(st, 'intersection', c,
                                        self._set_arg(st, args[0])))

    def m_set_difference(self, st, recv, c, args, kw, line):
        return self.one(st, self.set_op(st, 'difference', c,
                                        self._set_arg(st, args[0])))

    def m_set_issubset(self, st, recv, c, args, kw, line):
        d = self._set_arg(st, args[0])
        if c.et is None:
            return [(st, self.ops.const(True))]
        x = fresh('x', self.so.sort(c.et))
        md = z3.Select(d.mem, x) if d.et is not None else z3.BoolVal(False)
        return [(st, self.ops.bool_(z3.ForAll([x], z3.Implies(
            z3.Select(c.mem, x), md))))]

    # -- statements -------------------------------------------------------------
    def exec_block(self, stmts, st):
        """-> list of (kind, state, value)."""
        live = [st]
        done = []
        for s in stmts:
            nxt = []
            for x in live:
                saved, self.sink = getattr(self, 'sink', []), []
                try:
                    outs = self.exec_stmt(s, x)
                    for xs, ex in self.sink:
                        done.append(('exc', xs, ex))
                finally:
                    self.sink = saved
                for k, s2, v in outs:
                    if k == 'n':
                        nxt.append(s2)
                    else:
                        done.append((k, s2, v))
            live = nxt
            if not live:
                break
        return [('n', x, None) for x in live] + done

    def exec_stmt(self, s, st):
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s at line %d' % (
                type(s).__name__, s.lineno))
        return m(s, st)

    def st_Pass(self, s, st):
        return [('n', st, None)]

    def st_Import(self, s, st):
        for a in s.names:
            st.env[(a.asname or a.name).split('.')[0]] = Py(
                'extmod', a.name.split('.')[0])
        return [('n', st, None)]

    def st_Global(self, s, st):
        raise Unsupported('global statement')

    def st_FunctionDef(self, s, st):
        st.env[s.name] = Py('localfunc', s.name, extra=(s, None, self.ctx))
        return [('n', st, None)]

    def st_Expr(self, s, st):
        if isinstance(s.value, ast.Yield):
            # a generator is the list of what it yields
            y = st.env.get('_yields')
            if y is None:
                raise Unsupported('yield')
            out = []
            for s2, v in self.ev(s.value.value, st):
                self.list_iadd(s2, y, self.new_list(s2, [v]))
                out.append(('n', s2, None))
            return out
        if isinstance(s.value, ast.Constant):
            return [('n', st, None)]
        return [('n', s2, None) for s2, v in self.ev(s.value, st)]

    def st_Assert(self, s, st):
        out = []
        for s2, v in self.ev(s.test, st):
            a, b = self.split(s2, self.ops.truth(s2, v))
            if b is not None:
                self.raise_(b, 'AssertionError', s.lineno)
            if a is not None:
                out.append(('n', a, None))
        return out

    def st_Return(self, s, st):
        if s.value is None:
            return [('ret', st, NONE)]
        return [('ret', s2, v) for s2, v in self.ev(s.value, st)]

    def st_Break(self, s, st):
        return [('brk', st, None)]

    def st_Continue(self, s, st):
        return [('cont', st, None)]

    def st_AnnAssign(self, s, st):
        if s.value is None:
            return [('n', st, None)]
        a = ast.Assign(targets=[s.target], value=s.value)
        ast.copy_location(a, s)
        return self.st_Assign(a, st)

    def st_Assign(self, s, st):
        out = []
        for s2, v in self.ev(s.value, st):
            states = [s2]
            for t in s.targets:
                nxt = []
                for x in states:
                    nxt += self.assign(x, t, v, s.lineno)
                states = nxt
            out += [('n', x, None) for x in states]
        return out

    def assign(self, st, t, v, line):
        if isinstance(t, ast.Name):
            hint = self.ctx.contract and self.ctx.contract.locals_.get(t.id)
            if hint:
                v = self.hint(st, v, parse_ty(hint))
            st.env[t.id] = v
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Ref):
                c = self.ops.get(st, v.place)
                if isinstance(c, CList):
                    s, _ = self.apply(st, R(NONE, [(
                        c.n == len(t.elts), 'ValueError')]), line)
                    if s is None:
                        return []
                    v = Tup([self.ops.unpack(z3.Select(c.arr, i), c.et,
                                             v.place, z3.IntVal(i))
                             for i in range(len(t.elts))])
                    st = s
            if isinstance(v, Sc) and v.ty.k == 'any':
                v = Tup([self.ops.index(st, v, self.ops.const(i)).v
                         for i in range(len(t.elts))])
            if not (isinstance(v, Tup) and len(v.items) == len(t.elts)):
                raise Unsupported('unpacking %r' % (v,))
            states = [st]
            for x, y in zip(t.elts, v.items):
                states = [q for z in states for q in self.assign(z, x, y,
                                                                 line)]
            return states
        if isinstance(t, ast.Attribute):
            out = []
            for s, o in self.ev(t.value, st):
                out += self.set_attr(s, o, t.attr, v, line)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            if isinstance(t.slice, ast.Slice):
                raise Unsupported('slice assignment')
            for s, (c, i) in [(s, tuple(vs)) for s, vs in self.ev_many(
                    [t.value, t.slice], st)]:
                out += self.set_item(s, c, i, v, line)
            return out
        raise Unsupported('assignment target')

    def hint(self, st, v, ty):
        if isinstance(v, Ref):
            c = self.ops.get(st, v.place)
            c2 = self.ops.typed(c, ty)
            if c2 is not c:
                self.ops.put(st, v.place, c2)
            return Ref(v.place, ty)
        if isinstance(v, Tup) and v.lst and ty.k == 'list':
            c = self.ops.tup_list(st, v, ty.a[0])
            return Ref(('cell', st.new_cell(c)), ty)
        if ty.k == 'opt':
            if isinstance(v, Opt):
                return v
            if isinstance(v, NoneV):
                f = self.ops.fresh_sv(st, ty, 'none')
                if isinstance(f.v, Sc) and f.v.ty.k in ('obj', 'any'):
                    return Opt(z3.BoolVal(True), Sc(f.v.ty, self.so.NULL))
                return Opt(z3.BoolVal(True), f.v)
            return Opt(z3.BoolVal(False), v)
        if ty.k == 'any':
            return Sc(ANY, self.ops.box(v)[0])
        return v

    def detach(self, st, place, key=None):
        """A slot of the container at `place` is given another element:
        variables that name the old element keep it (and may no longer be
        written through)."""
        for env in [st.env] + st.frames:
            for n, x in list(env.items()):
                if not (isinstance(x, Ref) and x.place[0] == 'item'):
                    continue
                p = x.place
                while p[0] == 'item':
                    if _shape(p[1]) == _shape(place):
                        env[n] = Ref(('val', self.ops.get(st, x.place)), x.ty)
                        break
                    p = p[1]

    def repoint(self, st, old, new, ty):
        for env in [st.env] + st.frames:
            for n, x in list(env.items()):
                if isinstance(x, Ref) and x.place == old:
                    env[n] = Ref(new, ty)

    def set_item(self, st, c, i, v, line):
        if isinstance(c, Py) and c.kind == 'extmod' and \
                c.key == 'os.environ':
            return [s for s, _ in self.call_ext(
                st, 'os.environ.__setitem__', [i, v], {}, line)]
        if isinstance(c, Opt) and self.rec_of(c.v):
            ok, bad = self.split(st, z3.Not(c.isnone))
            if bad is not None:
                self.raise_(bad, 'TypeError', line)
            if ok is None:
                return []
            st, c = ok, c.v
        if self.rec_of(c):
            return self.rec_set(st, c, i, v)
        if not isinstance(c, Ref):
            raise Unsupported('item assignment on %r' % (c,))
        d = self.ops.get(st, c.place)
        if isinstance(d, CDict):
            if d.kt is None:
                kt = self.ops.type_of(i)
                try:
                    if isinstance(v, Ref) and v.ty is None:
                        cv = self.ops.get(st, v.place)
                        v = Ref(v.place, self.container_ty(cv))
                    vt = self.ops.type_of(v)
                except Unsupported:
                    vt = ANY
                if isinstance(v, NoneV):
                    vt = ANY
                d = self.ops.empty_dict(kt, vt, False)
            k = self.ops.pack(st, i, d.kt)
            if d.vt.k == 'any' and isinstance(v, (Ref, Tup, Py)):
                pv = fresh('boxed', self.so.Obj)
            else:
                pv = self.ops.pack(st, v, d.vt)
            nd, facts = self.ops.dict_set(st, d, k, pv)
            for f in facts:
                st.assume(f)
            if not (isinstance(v, Ref) and v.place[0] == 'item' and
                    v.place[1] == c.place and v.place[2].eq(k)):
                self.detach(st, c.place)
            self.ops.put(st, c.place, nd)
            # the stored container is the one in the variable: later writes
            # through the variable must reach the dictionary
            if isinstance(v, Ref) and v.place[0] == 'cell' and \
                    d.vt.k in ('list', 'dict', 'odict', 'set'):
                self.repoint(st, v.place, ('item', c.place, k), d.vt)
            return [st]
        if isinstance(d, CList):
            if not (isinstance(i, Sc) and i.ty.k == 'int'):
                raise Unsupported('list index')
            j = i.t if i.c is not None and i.c >= 0 else \
                self.ops.norm_index(i.t, d.n)
            s, _ = self.apply(st, R(NONE, [(z3.And(0 <= j, j < d.n),
                                            'IndexError')]), line)
            if s is None:
                return []
            x = self.ops.pack(s, v, d.et)
            self.detach(s, c.place)
            self.ops.put(s, c.place, CList(d.et, d.n, z3.Store(
                d.arr, j, x)))
            if isinstance(v, Ref) and v.place[0] == 'cell' and \
                    d.et.k in ('list', 'dict', 'odict', 'set'):
                self.repoint(s, v.place, ('item', c.place, j), d.et)
            return [s]
        raise Unsupported('item assignment')

    def st_AugAssign(self, s, st):
        load = ast.copy_location(_as_load(s.target), s.target)
        out = []
        for s2, (l, r) in [(q, tuple(vs)) for q, vs in self.ev_many(
                [load, s.value], st)]:
            if isinstance(s.op, ast.Add) and isinstance(l, Ref) and \
                    isinstance(self.ops.get(s2, l.place), CList):
                if isinstance(r, (Ref, Tup)):
                    self.list_iadd(s2, l, r)
                    out.append(('n', s2, None))
                    continue
                raise Unsupported('list += %r' % (r,))
            if isinstance(l, Tup) and l.lst:
                raise Unsupported('+= on heterogeneous list')
            res = self.binop(s2, s.op, l, r)
            s3, v = self.apply(s2, res, s.lineno)
            if s3 is None:
                continue
            for x in self.assign(s3, s.target, v, s.lineno):
                out.append(('n', x, None))
        return out

    def st_Delete(self, s, st):
        states = [st]
        for t in s.targets:
            nxt = []
            for x in states:
                if isinstance(t, ast.Name):
                    x.env.pop(t.id, None)
                    nxt.append(x)
                elif isinstance(t, ast.Subscript) and not isinstance(
                        t.slice, ast.Slice):
                    for y, (c, i) in [(y, tuple(vs)) for y, vs in
                                      self.ev_many([t.value, t.slice], x)]:
                        d = self.ops.get(y, c.place)
                        if isinstance(d, CDict):
                            nxt += [q for q, _ in self.m_dict_pop(
                                y, c, d, [i], {}, s.lineno)]
                        elif isinstance(d, CList):
                            nxt += [q for q, _ in self.m_list_pop(
                                y, c, d, [i], {}, s.lineno)]
                        else:
                            raise Unsupported('del')
                else:
                    raise Unsupported('del')
            states = nxt
        return [('n', x, None) for x in states]

    def st_If(self, s, st):
        out = []
        for s2, v in self.ev(s.test, st):
            a, b = self.split(s2, self.ops.truth(s2, v))
            if a is not None:
                self.refine(a, s.test, True)
                out += self.exec_block(s.body, a)
            if b is not None:
                self.refine(b, s.test, False)
                out += self.exec_block(s.orelse, b)
        return self.merge(out)

    def merge(self, outs):
        return outs

    def refine(self, st, test, val):
        """Nothing to do: optional values carry their condition."""

    def st_Raise(self, s, st):
        if s.exc is None:
            if st.cur_exc is None:
                raise Unsupported('raise outside handler')
            return [('exc', st, st.cur_exc)]
        out = []
        for s2, v in self.ev(s.exc, st):
            if isinstance(v, Opt):
                a, b = self.split(s2, v.isnone)
                if a is not None:
                    out.append(('exc', a, Exc('TypeError', None, s.lineno)))
                if b is None:
                    continue
                s2, v = b, v.v
            if isinstance(v, Py) and v.kind in ('exc', 'excval', 'class'):
                out.append(('exc', s2, Exc(v.key.split('.')[-1],
                                           v.extra if v.kind == 'excval'
                                           else {}, s.lineno)))
            elif isinstance(v, Py) and v.kind == 'ext':
                out.append(('exc', s2, Exc(v.key.split('.')[-1], {},
                                           s.lineno)))
            else:
                raise Unsupported('raise %r' % (v,))
        return out

    def exc_matches(self, name, types):
        for t in types:
            n = t.key.split('.')[-1]
            if n == name or n in ('Exception', 'BaseException'):
                if n == 'Exception' and name in (
                        'KeyboardInterrupt', 'SystemExit', 'GeneratorExit'):
                    continue
                return True
            if self.exc_sub(name, n):
                return True
        return False

    def exc_sub(self, a, b):
        ea, eb = getattr(_builtins, a, None), getattr(_builtins, b, None)
        if isinstance(ea, type) and isinstance(eb, type):
            return issubclass(ea, eb)
        for k in self.db.bases:
            if k.split('.')[-1] == a:
                for m in self.db.mro(k):
                    n = m.split('.')[-1]
                    if n == b:
                        return True
                    em = getattr(_builtins, n, None)
                    if isinstance(em, type) and isinstance(eb, type) and \
                            issubclass(em, eb):
                        return True
        return False

    def st_Try(self, s, st):
        outs = []
        for k, s1, v in self.exec_block(s.body, st):
            if k == 'n' and s.orelse:
                outs += self.exec_block(s.orelse, s1)
            elif k == 'exc':
                handled = False
                for h in s.handlers:
                    if h.type is None:
                        types = [Py('exc', 'BaseException')]
                    else:
                        rs = self.ev(h.type, s1)
                        t = rs[0][1]
                        types = t.items if isinstance(t, Tup) else [t]
                    if self.exc_matches(v.name, types):
                        s2 = s1
                        saved = s2.cur_exc
                        s2.cur_exc = v
                        if h.name:
                            s2.env[h.name] = Py('excval', v.name,
                                                extra=v.payload)
                        for k2, s3, v2 in self.exec_block(h.body, s2):
                            s3.cur_exc = saved
                            outs.append((k2, s3, v2))
                        handled = True
                        break
                if not handled:
                    outs.append((k, s1, v))
            else:
                outs.append((k, s1, v))
        if not s.finalbody:
            return outs
        res = []
        for k, s1, v in outs:
            for k2, s2, v2 in self.exec_block(s.finalbody, s1):
                if k2 == 'n':
                    res.append((k, s2, v))
                else:
                    res.append((k2, s2, v2))
        return res

    def st_With(self, s, st):
        if len(s.items) != 1:
            raise Unsupported('with')
        it = s.items[0]
        out = []
        for s1, v in self.ev(it.context_expr, st):
            if it.optional_vars is not None:
                self.bind_target(s1, it.optional_vars, v)
            for k, s2, x in self.exec_block(s.body, s1):
                con = self.find_contract('ext:with_exit')
                if con is not None and isinstance(v, Sc):
                    for s3, _ in self.call_contract(s2, con, None, [v], {},
                                                    s.lineno):
                        out.append((k, s3, x))
                else:
                    out.append((k, s2, x))
        return out

    # -- loops -----------------------------------------------------------------
    def st_For(self, s, st):
        out = []
        for s1, it in self.ev(s.iter, st):
            items = self.concrete_items(it)
            if items is not None:
                out += self.unroll(s, s1, items)
            else:
                out += self.loop(s, s1, it)
        return out

    def unroll(self, s, st, items):
        if len(items) > 80:
            raise Unsupported('unrolling %d iterations' % len(items))
        live, done, broke = [st], [], []
        for it in items:
            nxt = []
            for x in live:
                for x2 in self.assign(x, s.target, it, s.lineno):
                    for k, s2, v in self.exec_block(s.body, x2):
                        if k in ('n', 'cont'):
                            nxt.append(s2)
                        elif k == 'brk':
                            broke.append(s2)
                        else:
                            done.append((k, s2, v))
            live = nxt
        for x in live:
            done += self.exec_block(s.orelse, x)
        done += [('n', x, None) for x in broke]
        return done

    def st_While(self, s, st):
        return self.loop(s, st, None)

    def loop_spec(self, s):
        """The loop contract for this loop, found through its ordinal in the
        function under verification."""
        ctx = self.ctx
        if ctx.contract is None:
            raise Unsupported('loop without invariant in %s (line %d)' % (
                ctx.func.key, s.lineno))
        n = ctx.loop_ids.get(id(s))
        sp = ctx.contract.loops.get(n)
        if sp is None:
            raise Unsupported('loop %s of %s has no invariant' % (
                n, ctx.func.key))
        return n, sp

    def loop(self, s, st, it):
        n, sp = self.loop_spec(s)
        is_for = isinstance(s, ast.For)
        entry = st.copy()
        self.loop_entry = getattr(self, 'loop_entry', {})
        seq = bind = None
        if is_for:
            if isinstance(it, Py) and it.kind == 'itemlist':
                ref, keys, c0 = it.extra

                def bind(s_, k, target, ref=ref, keys=keys):
                    kt = z3.Select(keys.arr, k)
                    cur = self.ops.get(s_, ref.place)
                    self.bind_target(s_, target, Tup([
                        self.ops.unpack(kt, cur.kt),
                        self.ops.unpack(z3.Select(cur.val, kt), cur.vt,
                                        ref.place, kt)]))
                seq = _Seq(keys, None)
            else:
                seq, facts, bind = self.iter_seq(st, it)
                for f in facts:
                    st.assume(f)
            if isinstance(s.target, ast.Tuple) and isinstance(seq, _Seq) and \
                    seq.c.et is not None and seq.c.et.k in ('list', 'box') \
                    and bind is not None:
                # an element of unknown length is unpacked in the body
                s = copy.copy(s)
                un = ast.Assign(targets=[s.target],
                                value=ast.Name(id='$el', ctx=ast.Load()))
                ast.copy_location(un, s)
                ast.fix_missing_locations(un)
                s.body = [un] + s.body
                s.target = ast.copy_location(
                    ast.Name(id='$el', ctx=ast.Store()), s)
            entry = st.copy()
        iname = '_i%d' % n
        # ghost handles for the invariants
        def ghosts(x, i):
            if is_for:
                x.env[iname] = Sc(INT, i)
                x.env['_i'] = x.env[iname]
                if isinstance(seq, _Seq) and seq.c.et is not None:
                    x.env['_it%d' % n] = Ref(('val', seq.c), None)
                    x.env['_it'] = x.env['_it%d' % n]
                x.env['_n%d' % n] = Sc(INT, seq.n)
        # discover what the body changes
        changed = self.probe(s, st, seq, bind, ghosts, sp, entry, n)
        if is_for and seq.place is not None:
            root = _root(seq.place)
            if root in changed['cells'] or root in changed['heap']:
                raise Unsupported('loop modifies the list it iterates')
        # invariant on entry
        e0 = st.copy()
        ghosts(e0, z3.IntVal(0))
        self.prove_inv(e0, sp, n, 'init', entry, s.lineno)
        # arbitrary iteration
        h = self.havoc(st, changed, sp)
        i = fresh(iname, z3.IntSort())
        self.ops.bound_below(i, 0)
        if is_for:
            h.assume(z3.And(0 <= i, i <= seq.n))
            ghosts(h, i)
        self.learn_bounds(h, sp, n, entry, changed['env'])
        self.assume_inv(h, sp, n, entry)
        outs = []
        body = h.copy()
        exits = []
        if is_for:
            body.assume(i < seq.n)
            bind(body, i, s.target)
            starts = [body] if self.feasible(body) else []
            ex = h
            ex.assume(i == seq.n)
            exits.append(ex)
        else:
            starts = []
            for s2, v in self.ev(s.test, body):
                a, b = self.split(s2, self.ops.truth(s2, v))
                if a is not None:
                    starts.append(a)
                if b is not None:
                    exits.append(b)
        for b0 in starts:
            d0 = None
            if sp.decreases and not is_for:
                d0, _ = self.spec(sp.decreases, b0.env, b0, entry)
            for k, s2, v in self.exec_block(s.body, b0.copy()):
                if k in ('n', 'cont'):
                    if is_for:
                        ghosts(s2, i + 1)
                    self.prove_inv(s2, sp, n, 'keep', entry, s.lineno)
                    if d0 is not None:
                        d1, _ = self.spec(sp.decreases, s2.env, s2, entry)
                        self.oblige(s2, 'decreases', 'loop%d' % n, z3.And(
                            d1.t < d0.t, d0.t >= 0), s.lineno)
                elif k == 'brk':
                    outs.append(('n', s2, None))
                else:
                    outs.append((k, s2, v))
        res = []
        for x in exits:
            res += self.exec_block(s.orelse, x)
        for k, x, v in res + outs:
            self.drop_ghosts(x, n)
        return res + outs

    def drop_ghosts(self, x, n):
        # keep indexed ghosts available for later specifications
        for g in ('_i', '_it'):
            x.env.pop(g, None)

    def probe(self, s, st, seq, bind, ghosts, sp, entry, n):
        """Execute the body without recording obligations to find what it may
        change (to a fixed point)."""
        changed = {'env': {}, 'cells': set(), 'heap': set(), 'types': {}}
        self.in_probe += 1
        try:
            for rnd in range(6):
                h = self.havoc(st, changed, sp)
                if seq is not None:
                    i = fresh('pi', z3.IntSort())
                    self.ops.bound_below(i, 0)
                    h.assume(z3.And(0 <= i, i < seq.n))
                    ghosts(h, i)
                    try:
                        self.assume_inv(h, sp, n, entry)
                    except (Unsupported, KeyError):
                        pass
                    bind(h, i, s.target)
                    starts = [h]
                else:
                    try:
                        self.assume_inv(h, sp, n, entry)
                    except (Unsupported, KeyError):
                        pass
                    starts = []
                    sv, self.sink = self.sink, []
                    for s2, v in self.ev(s.test, h):
                        a, b = self.split(s2, self.ops.truth(s2, v))
                        if a is not None:
                            starts.append(a)
                    self.sink = sv
                before = (len(changed['env']), len(changed['cells']),
                          len(changed['heap']), len(changed['types']))
                for b0 in starts:
                    base = b0.copy()
                    for k, s2, v in self.exec_block(s.body, b0):
                        # what leaves the loop keeps its own state
                        if k in ('n', 'cont'):
                            self.diff(base, s2, changed, k)
                after = (len(changed['env']), len(changed['cells']),
                         len(changed['heap']), len(changed['types']))
                if before == after:
                    break
        finally:
            self.in_probe -= 1
        return changed

    def diff(self, a, b, changed, kind):
        for n, v in b.env.items():
            if n.startswith('_i') or n.startswith('_n'):
                continue
            o = a.env.get(n)
            if o is v:
                continue
            if isinstance(v, Sc) and isinstance(o, Sc) and v.t.eq(o.t):
                continue
            if isinstance(v, Ref) and isinstance(o, Ref) and \
                    v.place == o.place:
                continue
            changed['env'].setdefault(n, []).append(v)
        for c in a.cells:
            x, y = a.cells[c], b.cells[c]
            if x is not y:
                changed['cells'].add(c)
                ty = self.container_ty(y)
                if ty.a[0] is not None:
                    changed['types'][c] = ty
        for h in b.heap:
            o = a.heap.get(h)
            if o is None:
                o = self.heap0(h)
            if not b.heap[h].eq(o):
                changed['heap'].add(h)

    def havoc(self, st, changed, sp):
        h = st.copy()
        for c in changed['cells']:
            ty = changed['types'].get(c)
            if ty is None:
                continue
            old = h.cells.get(c)
            if old is None:
                continue
            nc, facts = self.ops.fresh_container(ty, 'hc')
            for f in facts:
                h.assume(f)
            h.cells[c] = nc
        for a in changed['heap']:
            ty, arr = h.heap_attr(a)
            na = fresh('H_' + a, arr.sort())
            h.set_heap(a, na)
            if ty.k == 'list':
                o = fresh('o', self.so.Obj)
                sel = z3.Select(na, o)
                h.assume(z3.ForAll([o], self.so.sort(ty).len(sel) >= 0,
                                   patterns=[sel]))
        for n, vs in changed['env'].items():
            cur = h.env.get(n)
            hint = sp.types.get(n)
            if hint:
                h.env[n] = self.ops.fresh_sv(h, hint, n)
                continue
            if n not in st.env:
                # first bound inside the loop: unbound before
                h.env.pop(n, None)
                continue
            try:
                h.env[n] = self.havoc_value(h, n, [cur] + vs)
            except Unsupported:
                h.env[n] = Opaque('loop variable %s' % n)
        return h

    def havoc_value(self, h, n, vs):
        tys = []
        nullable = False
        for v in vs:
            if v is None:
                raise Unsupported('maybe unbound')
            if isinstance(v, NoneV):
                nullable = True
                continue
            if isinstance(v, Opt):
                nullable = True
                v = v.v
            if isinstance(v, Ref):
                c = self.ops.get(h, v.place) if v.place[0] != 'cell' or \
                    v.place[1] in h.cells else None
                if v.ty is not None and v.ty.a and v.ty.a[0] is not None:
                    t = v.ty
                elif c is not None and self.container_ty(c).a[0] is not None:
                    t = self.container_ty(c)
                else:
                    continue
            else:
                t = self.ops.type_of(v)
            if t not in tys:
                tys.append(t)
        if len(tys) != 1:
            raise Unsupported('loop variable %s changes type' % n)
        t = tys[0]
        if nullable and t.k != 'any':
            t = Ty('opt', (t,))
        return self.ops.fresh_sv(h, t, n)

    def prove_inv(self, st, sp, n, phase, entry, line):
        if self.in_probe:
            return
        env = self.typed_env(st, sp)
        for nm, e in sp.inv.items():
            try:
                g, facts = self.spec_bool(e, env, st, entry)
            except KeyError as x:
                raise Unsupported('loop %d invariant names %s' % (n, x))
            hs = st.copy()
            for f in facts:
                hs.assume(f)
            self.oblige(hs, 'inv-' + phase, 'loop%d.%s' % (n, nm), g, line)
            if phase == 'keep' and nm in sp.uses:
                want = set(sp.uses[nm]) | {nm}
                self.obls[-1].focus = [
                    f for f in hs.pc if self.tag_of(f, n, want)]

    def tag_of(self, f, n, want):
        t = self.inv_tag.get(f.get_id())
        return t is None or t[1] != n or t[2] in want

    def typed_env(self, st, sp):
        """Locals whose type the loop contract declares optional."""
        env = st.env
        for n, ty in sp.types.items():
            ty = parse_ty(ty)
            if ty.k == 'opt' and n in env and not isinstance(env[n], Opt):
                env = dict(env)
                env[n] = self.hint(st, env[n], ty)
        return env

    def learn_bounds(self, h, sp, n, entry, names):
        """Which changed integers the invariant keeps from being negative
        (so that indexing with them needs no case for counting from the end).
        """
        vs = [v.t for x, v in h.env.items() if x in names and
              isinstance(v, Sc) and
              v.ty.k == 'int' and z3.is_const(v.t) and
              not z3.is_int_value(v.t) and self.ops.lower(v.t) is None]
        if not vs:
            return
        tmp = h.copy()
        self.assume_inv(tmp, sp, n, entry)
        fs = []
        todo = list(tmp.pc)
        while todo:
            f = todo.pop()
            if z3.is_and(f):
                todo += f.children()
            else:
                fs.append(f)
        tmp.pc = fs
        for t in vs:
            if not self.feasible(tmp, t < 0):
                self.ops.bound_below(t, 0)

    def assume_inv(self, st, sp, n, entry):
        for nm, e in sp.inv.items():
            try:
                g, facts = self.spec_bool(e, st.env, st, entry)
            except KeyError as x:
                raise Unsupported('loop %d invariant names %s' % (n, x))
            for f in facts:
                st.assume(f)
            st.assume(g)
            self.inv_tag[g.get_id()] = (g, n, nm)

    # -- obligations --------------------------------------------------------------
    def oblige(self, st, kind, label, goal, line=0):
        if self.in_probe:
            return
        if z3.is_true(z3.simplify(goal)) if not _has_quant(goal) else False:
            pass
        base = '%s/%s:%s' % (self.con.name, kind, label)
        i = self.label_n.get(base, 0)
        self.label_n[base] = i + 1
        self.obls.append(Obl('%s@%d' % (base, i), kind, list(st.pc), goal,
                             line))

    # -- specifications -------------------------------------------------------------
    def spec_bool(self, text, env, st, old):
        v, facts = self.spec(text, env, st, old)
        t = self.ops.truth(st, v)
        return t, facts

    def spec(self, text, env, st, old):
        e = text if isinstance(text, ast.AST) else ast.parse(
            text.strip(), mode='eval').body
        from .spec import SpecEval
        se = SpecEval(self, st, old, env)
        v = se.ev(e)
        return v, se.facts


class _Seq(object):
    def __init__(self, c, place):
        self.c = c
        self.place = place

    @property
    def n(self):
        return self.c.n


class _LocalFunc(object):
    def __init__(self, node, ctx):
        self.node = node
        self.module = ctx.module
        self.key = ctx.func.key + '.' + node.name
        self.outer = ctx
        self.cls = ctx.func.cls
        self.static = True


def _shape(place):
    n = 0
    while place[0] == 'item':
        n += 1
        place = place[1]
    if place[0] == 'field':
        place = ('field', place[2])
    elif place[0] == 'val':
        place = ('val', id(place[1]))
    return n, place


def _root(place):
    while place[0] == 'item':
        place = place[1]
    if place[0] == 'cell':
        return place[1]
    if place[0] == 'field':
        return place[2]
    return None


def _names(t):
    return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]


def _as_load(t):
    t = ast.parse(ast.unparse(t), mode='eval').body
    return t


_quant_cache = {}


def _has_quant(f):
    k = f.get_id()
    stack = [f]
    seen = set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            return True
        stack.extend(x.children())
    return False


def _collect_fresh(t, n0, out):
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = x.decl().name()
            if '!' in nm:
                try:
                    num = int(nm.rsplit('!', 1)[1])
                except ValueError:
                    num = -1
                if num > n0:
                    out[nm] = x
        stack.extend(x.children())


# -- external functions with built-in models ------------------------------------
EXT = {}


def ext(name):
    def deco(f):
        EXT[name] = f
        return f
    return deco


@ext('collections.OrderedDict')
def _od(eng, st, args, kw, line):
    if not args:
        c = CDict(None, None, None, None)
        return [(st, Ref(('cell', st.new_cell(c)), None))]
    return eng.bi_dict(st, args, kw, line)


@ext('copy.copy')
def _copy(eng, st, args, kw, line):
    v = args[0]
    if isinstance(v, Ref):
        c = eng.ops.get(st, v.place)
        return [(st, Ref(('cell', st.new_cell(c)), v.ty))]
    if isinstance(v, (NoneV, Sc)) and not (isinstance(v, Sc) and
                                           v.ty.k == 'obj'):
        return [(st, v)]
    raise Unsupported('copy.copy')


@ext('copy.deepcopy')
def _deepcopy(eng, st, args, kw, line):
    eng.trust.add('copy.deepcopy returns an equal, independent value')
    v = args[0]
    if isinstance(v, Sc) and v.ty.k == 'any':
        return [(st, v)]
    return _copy(eng, st, args, kw, line)
