"""Verification of one function against its contract, and of lemmas."""
import ast
import json
import os
import subprocess
import time
import traceback

import z3

from . import values as V
from .values import (Sc, NONE, NoneV, Opt, Ref, Tup, Ty, CList, CDict, CSet,
                     Unsupported, fresh, parse_ty, INT, Opaque)
from .engine import Engine, Ctx, St, Obl, Lemma
from .source import SourceDB, digest
from . import solve


def dump_consts(db, repo):
    """Values of module and class constants, read from the running package."""
    here = os.path.dirname(os.path.abspath(__file__))
    env = dict(os.environ)
    import tempfile
    tmp = tempfile.mkdtemp(prefix='vp_consts_')
    env.update(PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1',
               NXT_USER_DIR=tmp)
    env.pop('NXT_FILE_ROOTS', None)
    env.pop('NXT_SITE_DIR', None)
    try:
        r = subprocess.run(
            ['/opt/venv/bin/python', os.path.join(here, 'dump_consts.py')] +
            [m for m in db.modules], env=env, capture_output=True, text=True,
            cwd=tmp, timeout=120)
        return json.loads(r.stdout.strip().split('\n')[-1])
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


class FnResult(object):
    def __init__(self, name):
        self.name = name
        self.status = 'ok'          # ok | unsupported | error
        self.reason = ''
        self.obls = []              # (name, kind, status, backend, secs, line)
        self.used = []
        self.trust = []
        self.inlined = []
        self.digest = ''
        self.inl_digest = {}
        self.models = []
        self.secs = 0
        self.vacuous = False

    def to_json(self):
        return dict(self.__dict__)


def initial(eng, f, con):
    st = St(eng)
    a = f.node.args
    names = [x.arg for x in a.args] + [x.arg for x in a.kwonlyargs]
    defaults = dict(zip([x.arg for x in a.args][len(a.args) -
                                               len(a.defaults):],
                        a.defaults))
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            defaults[x.arg] = d
    known = set(names)
    for n in con.params:
        if n not in known and not n.startswith('$'):
            raise Unsupported('contract names parameter %s, which the '
                              'function no longer has' % n)
    for i, n in enumerate(names):
        if n in con.params:
            st.env[n] = eng.ops.fresh_sv(st, con.params[n], n)
        elif n in con.args:
            c = con.args[n]
            st.env[n] = c if isinstance(c, V.SV) else eng.ops.const(c)
        elif i == 0 and f.cls and not f.static and not f.klass:
            st.env[n] = eng.ops.fresh_sv(st, 'obj[%s]' % f.cls, n)
        elif i == 0 and f.klass:
            st.env[n] = V.Py('class', f.cls)
        elif n in defaults:
            tmp = st.copy()
            tmp.env = {}
            rs = eng.ev(defaults[n], tmp)
            if len(rs) != 1:
                raise Unsupported('default of %s' % n)
            st.cells.update(tmp.cells)
            st.env[n] = rs[0][1]
        else:
            raise Unsupported('parameter %s has no declared type' % n)
    if a.vararg:
        st.env[a.vararg.arg] = Opaque('varargs')
    if a.kwarg:
        st.env[a.kwarg.arg] = Opaque('kwargs')
    for g, ty in con.ghost.items():
        st.env['$' + g] = eng.ops.fresh_sv(st, ty, 'g_' + g)
    return st


def build(db, reg, con):
    """Generate the obligations of one contract."""
    f = db.funcs.get(con.key)
    if f is None:
        raise Unsupported('function %s not found in the source' % con.key)
    eng = Engine(db, reg, con)
    eng.ctx = Ctx(f, con, True)
    eng.sink = []
    st = initial(eng, f, con)
    old0 = st.copy()
    eng.fn_entry = old0
    for r in con.requires:
        g, facts = eng.spec_bool(r, st.env, st, st)
        for x in facts:
            st.assume(x)
        st.assume(g)
    use_facts(eng, con, st)
    for i, r in enumerate(con.cuts):
        g, facts = eng.spec_bool(r, st.env, st, st)
        for x in facts:
            st.assume(x)
        eng.oblige(st, 'cut', str(i), g)
        st.assume(g)
    pre = list(st.pc)
    old = st.copy()
    eng.fn_entry = old
    entry_env = dict(st.env)
    is_gen = any(isinstance(x, (ast.Yield, ast.YieldFrom))
                 for x in ast.walk(f.node))
    if is_gen:
        st.env['_yields'] = eng.hint(st, eng.new_list(st, []),
                                     parse_ty(con.returns))
    outs = eng.exec_block(f.node.body, st)
    for x in eng.sink:
        outs.append(('exc', x[0], x[1]))
    n_exit = 0
    conds = {}
    for exc, c in con.raises.items():
        if c in (True, 'True', None, 'maybe'):
            conds[exc] = None
        else:
            conds[exc] = c
    for k, s, v in outs:
        if not eng.feasible(s):
            continue
        n_exit += 1
        scope = dict(entry_env)
        if k in ('n', 'ret'):
            res = v if k == 'ret' else NONE
            if is_gen:
                res = s.env['_yields']
            check_post(eng, con, s, scope, old, res)
            for exc, c in conds.items():
                if c is not None:
                    g, facts = eng.spec_bool(c, scope, s_old(old, s), old)
                    hs = s.copy()
                    for x in facts:
                        hs.assume(x)
                    eng.oblige(hs, 'raises', 'not-%s' % exc, z3.Not(g))
            frame(eng, con, s, scope, old)
        elif k == 'exc':
            name = v.name
            m = None
            for exc in conds:
                if exc == name or eng.exc_sub(name, exc):
                    m = exc
            if m is None:
                eng.oblige(s, 'no-exception', name, z3.BoolVal(False),
                           v.line)
                continue
            if conds[m] is not None:
                g, facts = eng.spec_bool(conds[m], scope, s_old(old, s), old)
                hs = s.copy()
                for x in facts:
                    hs.assume(x)
                eng.oblige(hs, 'raises', m, g, v.line)
            for i, x in enumerate(con.exc_ensures.get(m, ())):
                g, facts = eng.spec_bool(x, scope, s, old)
                hs = s.copy()
                for y in facts:
                    hs.assume(y)
                eng.oblige(hs, 'exc-post', '%s.%d' % (m, i), g, v.line)
            frame(eng, con, s, scope, old)
        else:
            raise Unsupported('%s escapes the function' % k)
    if n_exit == 0:
        raise Unsupported('no feasible path')
    return eng, f, pre


def s_old(old, s):
    return old


def use_facts(eng, con, st):
    """Lemma instances the proof relies on: 'lemma' (quantified)."""
    for u in con.uses:
        lm = eng.reg.lemmas[u.split('(')[0].strip()]
        eng.used.add('lemma:' + lm.name)
        st.assume(lemma_formula(eng, lm, st))


def lemma_formula(eng, lm, st):
    vs, env = [], {}
    s = St(eng)
    for n, ty in lm.params.items():
        v = eng.ops.fresh_sv(s, ty, n)
        env[n] = v
        if isinstance(v, Sc):
            vs.append(v.t)
        elif isinstance(v, Ref):
            c = s.cells[v.place[1]]
            vs += [c.n, c.arr] if isinstance(c, CList) else \
                [c.dom, c.val] if isinstance(c, CDict) else [c.mem]
        else:
            raise Unsupported('lemma parameter')
    hyp = list(s.pc)
    for r in lm.requires:
        g, facts = eng.spec_bool(r, env, s, s)
        hyp += facts + [g]
    con = []
    for r in lm.ensures:
        g, facts = eng.spec_bool(r, env, s, s)
        con += [z3.Implies(z3.And(facts), g) if facts else g]
    body = z3.Implies(z3.And(hyp), z3.And(con)) if hyp else z3.And(con)
    if lm.pattern:
        ps = []
        for p in ([lm.pattern] if isinstance(lm.pattern, str) else
                  lm.pattern):
            v, _ = eng.spec(p, env, s, s)
            ps.append(v.t)
        pat = ps[0] if len(ps) == 1 else z3.MultiPattern(*ps)
        return z3.ForAll(vs, body, patterns=[pat])
    return z3.ForAll(vs, body)


def check_post(eng, con, s, scope, old, res):
    rt = con.returns
    if rt == 'same':
        pass
    elif rt not in ('opaque', 'none'):
        guards = []
        res = eng.coerce_arg(s, res, parse_ty(rt), 'result', con, guards)
        for g in guards:
            eng.oblige(s, 'post', 'result-type', g)
    scope['result'] = res
    for w, ty in con.witness.items():
        # a local, or what a callee's contract gave under that name
        scope['w_' + w] = s.env[w] if w in s.env else s.env['w:' + w] \
            if 'w:' + w in s.env else eng.ops.fresh_sv(s, ty, w)
    for nm, x in con.ensures.items():
        g, facts = eng.spec_bool(x, scope, s, old)
        hs = s.copy()
        for y in facts:
            hs.assume(y)
        eng.oblige(hs, 'post', nm, g)


def frame(eng, con, s, scope, old):
    allowed_heap = {}
    cells_ok = set()
    for m in con.modifies:
        if m.startswith('heap:'):
            allowed_heap[m[5:]] = None
        elif m.startswith('ghost:'):
            continue
        elif '.' in m:
            o, an = m.split('.', 1)
            obj = scope[o]
            cls = obj.ty.a[0] if obj.ty.k == 'obj' and obj.ty.a else None
            an = eng.attr_alias(cls, an) or an
            if allowed_heap.get(an, ()) is not None:
                allowed_heap.setdefault(an, []).append(obj.t)
        else:
            cells_ok.add(scope[m].place[1] if scope[m].place[0] == 'cell'
                         else None)
    for a in s.heap:
        o = old.heap.get(a)
        if o is None:
            o = eng.heap0(a)
        if s.heap[a].eq(o):
            continue
        if a in allowed_heap and allowed_heap[a] is None:
            continue
        x = fresh('x', eng.so.Obj)
        ex = [x != eng.so.NULL] + [x != t for t in allowed_heap.get(a, [])]
        eng.oblige(s, 'frame', 'heap.%s' % a, z3.ForAll([x], z3.Implies(
            z3.And(ex),
            z3.Select(s.heap[a], x) == z3.Select(o, x))))
    for c in old.cells:
        if c in cells_ok or s.cells[c] is old.cells[c]:
            continue
        eng.oblige(s, 'frame', 'argument', eng.ops.cont_eq(
            s, s.cells[c], old.cells[c]))


def model_args(eng, con, old_env, model):
    """Concrete argument values of simple types from a counterexample."""
    out = {}
    for n, v in old_env.items():
        if isinstance(v, Sc) and v.ty.k in ('int', 'bool', 'str'):
            try:
                x = model.eval(v.t, model_completion=True)
                if v.ty.k == 'int':
                    out[n] = x.as_long()
                elif v.ty.k == 'bool':
                    out[n] = z3.is_true(x)
                elif z3.is_string_value(x):
                    out[n] = x.as_string()
            except Exception:
                pass
        elif isinstance(v, Ref) and v.place[0] == 'cell':
            try:
                c = eng.fn_entry.cells[v.place[1]]
                if isinstance(c, CList) and c.et.k in ('int', 'str'):
                    n_ = model.eval(c.n, model_completion=True).as_long()
                    xs = []
                    for i in range(min(n_, 8)):
                        x = model.eval(z3.Select(c.arr, i),
                                       model_completion=True)
                        xs.append(x.as_long() if c.et.k == 'int' else
                                  x.as_string() if z3.is_string_value(x)
                                  else str(x))
                    out[n] = xs
            except Exception:
                pass
    return out


def verify(db, reg, name, budget=8.0, canary=False):
    con = reg.contracts[name]
    r = FnResult(name)
    t0 = time.time()
    try:
        f = db.funcs.get(con.key)
        if f is not None:
            r.digest = f.digest
        eng, f, pre = build(db, reg, con)
        r.used = sorted(eng.used)
        r.trust = sorted(eng.trust)
        r.inlined = sorted(eng.inlined)
        r.inl_digest = {k: db.funcs[k].digest for k in eng.inlined}
        if not eng.obls:
            r.status = 'unsupported'
            r.reason = 'no obligations generated'
            return r
        # the precondition must be satisfiable
        res, _, _ = solve.run_z3(eng.so.global_facts + pre,
                                 z3.BoolVal(False), 3)
        if res == 'unsat':
            r.status = 'error'
            r.reason = 'contradictory precondition'
            return r
        for o in eng.obls:
            x = solve.discharge(eng.so, o, (), con.timeout or budget)
            r.obls.append((o.name, o.kind, x.status, x.backend,
                           round(x.secs, 3), o.line))
            if x.status == 'failed' and x.model is not None:
                r.models.append((o.name, model_args(
                    eng, con, eng.fn_entry.env, x.model)))
    except Unsupported as e:
        r.status = 'unsupported'
        r.reason = str(e)
    except (KeyError, AttributeError, TypeError, IndexError, ValueError,
            AssertionError, RecursionError, z3.Z3Exception) as e:
        r.status = 'error'
        r.reason = '%s: %s' % (type(e).__name__, e)
        r.trace = traceback.format_exc()
    finally:
        r.secs = round(time.time() - t0, 2)
    return r


def verify_lemma(db, reg, name, budget=8.0):
    lm = reg.lemmas[name]
    r = FnResult('lemma:' + name)
    t0 = time.time()
    try:
        from .engine import Contract
        dummy = Contract('lemma.' + name, strings=lm.strings)
        eng = Engine(db, reg, dummy)
        st = St(eng)
        eng.fn_entry = st
        for n, ty in lm.params.items():
            st.env[n] = eng.ops.fresh_sv(st, ty, n)
        for u in lm.uses:
            l2 = reg.lemmas[u]
            eng.used.add('lemma:' + u)
            st.assume(lemma_formula(eng, l2, st))
        if lm.induct:
            # strong induction on an integer measure
            v = st.env[lm.induct]
            hyp = induct_hyp(eng, lm, st, v)
            st.assume(hyp)
        for q in lm.requires:
            g, facts = eng.spec_bool(q, st.env, st, st)
            for x in facts:
                st.assume(x)
            st.assume(g)
        for i, q in enumerate(lm.ensures):
            g, facts = eng.spec_bool(q, st.env, st, st)
            hs = st.copy()
            for x in facts:
                hs.assume(x)
            eng.oblige(hs, 'lemma', 'ensures%d' % i, g)
        r.used = sorted(eng.used)
        for o in eng.obls:
            x = solve.discharge(eng.so, o, (), budget)
            r.obls.append((o.name, o.kind, x.status, x.backend,
                           round(x.secs, 3), 0))
    except Unsupported as e:
        r.status = 'unsupported'
        r.reason = str(e)
    except Exception as e:
        r.status = 'error'
        r.reason = '%s: %s' % (type(e).__name__, e)
        r.trace = traceback.format_exc()
    r.secs = round(time.time() - t0, 2)
    return r


def induct_hyp(eng, lm, st, v):
    """The lemma for all smaller values of the induction parameter, the other
    parameters universally quantified as well."""
    s = St(eng)
    vs, env = [], {}
    for n, ty in lm.params.items():
        x = eng.ops.fresh_sv(s, ty, n + "_ih")
        env[n] = x
        if isinstance(x, Sc):
            vs.append(x.t)
        elif isinstance(x, Ref):
            c = s.cells[x.place[1]]
            vs += [c.n, c.arr] if isinstance(c, CList) else \
                [c.dom, c.val] if isinstance(c, CDict) else [c.mem]
    hyp = list(s.pc)
    for r in lm.requires:
        g, facts = eng.spec_bool(r, env, s, s)
        hyp += facts + [g]
    con = []
    for r in lm.ensures:
        g, facts = eng.spec_bool(r, env, s, s)
        con.append(z3.Implies(z3.And(facts), g) if facts else g)
    m = env[lm.induct].t
    return z3.ForAll(vs, z3.Implies(z3.And(hyp + [m >= 0, m < v.t]),
                                    z3.And(con)))
