"""Discharging obligations: z3 (two releases, several configurations), then
cvc5.  An obligation counts as discharged when one of them answers unsat."""
import os
import re
import subprocess
import tempfile
import time

import z3

CVC5 = 'cvc5'


def smt2(hyps, goal):
    s = z3.Solver()
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    return s.to_smt2()


def for_cvc5(text):
    text = text.replace('(declare-datatypes ()', '(declare-datatypes ()')
    return '(set-logic ALL)\n' + text


def run_z3(hyps, goal, timeout, **opts):
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    s.set('max_memory', 3000)
    for k, v in opts.items():
        s.set(k, v)
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    try:
        r = s.check()
    except z3.Z3Exception as e:
        return 'unknown', None, str(e)
    if r == z3.unsat:
        return 'unsat', None, ''
    if r == z3.sat:
        return 'sat', s.model(), ''
    return 'unknown', None, s.reason_unknown()


def run_cvc5(hyps, goal, timeout, more=()):
    txt = for_cvc5(smt2(hyps, goal))
    fd, p = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write(txt)
        try:
            r = subprocess.run([CVC5, '--strings-exp', '--tlimit=%d' % int(
                timeout * 1000)] + list(more) + [p], capture_output=True, text=True,
                timeout=timeout + 5)
        except (subprocess.TimeoutExpired, OSError):
            return 'unknown'
        out = r.stdout.strip().split('\n')[0] if r.stdout else ''
        return out if out in ('sat', 'unsat') else 'unknown'
    finally:
        os.unlink(p)


Z3BIN = 'z3'
_old = []


def run_z3bin(hyps, goal, timeout, mbqi=True, exe=Z3BIN, more=()):
    """The z3 release of the system: its instantiation order differs (or the
    newer release in a process of its own, which can be stopped)."""
    txt = smt2(hyps, goal)
    opts = [] if mbqi else ['auto_config=false', 'smt.mbqi=false']
    opts += list(more)
    try:
        r = subprocess.run([exe, '-in', '-smt2', '-memory:3000',
                            '-T:%d' % max(1, int(round(timeout)))] + opts,
                           input=txt, capture_output=True, text=True,
                           timeout=timeout + 5)
    except (subprocess.TimeoutExpired, OSError):
        return 'unknown'
    lines = (r.stdout or '').strip().split('\n')
    if any(x.startswith('(error') for x in lines):
        return 'unknown'
    return lines[0] if lines[:1] in (['unsat'], ['sat']) else 'unknown'


class Abstraction(object):
    """Formulas with every string operation replaced by an uninterpreted one.
    Every model of a formula gives a model of its abstraction, so an
    unsatisfiable abstraction shows the formula unsatisfiable."""

    def __init__(self):
        self.memo = {}
        self.keep = []
        self.decls = {}

    def is_str_op(self, d, args, e):
        if d.kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_EQ, z3.Z3_OP_ITE,
                        z3.Z3_OP_DISTINCT, z3.Z3_OP_SELECT, z3.Z3_OP_STORE,
                        z3.Z3_OP_CONST_ARRAY, z3.Z3_OP_DT_CONSTRUCTOR,
                        z3.Z3_OP_DT_ACCESSOR, z3.Z3_OP_DT_RECOGNISER,
                        z3.Z3_OP_DT_IS, z3.Z3_OP_ARRAY_EXT):
            return False
        sorts = [e.sort()] + [a.sort() for a in args]
        return bool(args) and any(isinstance(x, (z3.SeqSortRef, z3.ReSortRef))
                                  for x in sorts)

    def __call__(self, e):
        k = e.get_id()
        if k in self.memo:
            return self.memo[k]
        if z3.is_quantifier(e):
            body = self(e.body())
            n = e.num_vars()
            pats = []
            for i in range(e.num_patterns()):
                p = e.pattern(i)
                ts = [self(c) for c in p.children()]
                arr = (z3.Ast * len(ts))(*[t.as_ast() for t in ts])
                pats.append(z3.PatternRef(z3.Z3_mk_pattern(
                    e.ctx_ref(), len(ts), arr), e.ctx))
            sorts = (z3.Sort * n)(*[e.var_sort(i).ast for i in range(n)])
            names = (z3.Symbol * n)(*[z3.Z3_get_quantifier_bound_name(
                e.ctx_ref(), e.as_ast(), i) for i in range(n)])
            ps = (z3.Pattern * len(pats))(*[p.ast for p in pats])
            if e.is_lambda():
                out = e
            else:
                out = z3.QuantifierRef(z3.Z3_mk_quantifier(
                    e.ctx_ref(), e.is_forall(), e.weight(), len(pats), ps, n,
                    sorts, names, body.as_ast()), e.ctx)
        elif z3.is_app(e) and e.num_args():
            args = [self(c) for c in e.children()]
            d = e.decl()
            if self.is_str_op(d, e.children(), e):
                key = (d.name(), len(args)) + tuple(
                    a.sort().sexpr() for a in args) + tuple(
                        d.params())
                f = self.decls.get(key)
                if f is None:
                    f = z3.Function('abs!%s!%d' % (d.name(), len(self.decls)),
                                    *([a.sort() for a in args] + [e.sort()]))
                    self.decls[key] = f
                out = f(*args)
            else:
                out = d(*args) if d.kind() not in (
                    z3.Z3_OP_AND, z3.Z3_OP_OR) else (
                        z3.And(*args) if d.kind() == z3.Z3_OP_AND
                        else z3.Or(*args))
        else:
            out = e
        self.memo[k] = out
        self.keep.append(e)
        return out


class Res(object):
    def __init__(self, status, backend, secs, model=None, note=''):
        self.status = status      # proved | failed | unknown
        self.backend = backend
        self.secs = secs
        self.model = model
        self.note = note


def consts_of(e, memo):
    """Uninterpreted constants of a term."""
    k = e.get_id()
    if k not in memo:
        out = set()
        if z3.is_quantifier(e):
            out = consts_of(e.body(), memo)
        elif z3.is_app(e):
            if e.num_args() == 0:
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out = {e.decl().name()}
            else:
                for c in e.children():
                    out = out | consts_of(c, memo)
        memo[k] = out
    return memo[k]


def conjuncts(g):
    return [y for c in g.children() for y in conjuncts(c)] if z3.is_and(g) \
        else [g]


def near(hyps, goal):
    """The hypotheses over the goal's own constants (fewer hypotheses prove
    no more)."""
    memo = {}
    g = consts_of(goal, memo)
    out = []
    for h in hyps:
        c = consts_of(h, memo)
        if z3.is_quantifier(h):
            if not c - g:
                out.append(h)
        elif c & g:
            out.append(h)
    return out


def discharge(so, obl, extra=(), budget=8.0):
    t0 = time.time()
    hyps = list(so.global_facts) + so.lit_facts() + list(extra) + obl.hyps
    g = z3.simplify(obl.goal)
    if z3.is_true(g):
        return Res('proved', 'simplifier', time.time() - t0)
    goal = obl.goal
    sat = None
    ab = None
    note = ''
    native = so.mode == 'native'
    plan = [('z3-abs', 0.4), ('z3', min(0.7, budget)),
            ('z3-abs', budget * 0.2), ('cvc5', budget * 0.5),
            ('z3-new', budget * 0.4), ('z3-mbqi-off', budget * 0.3),
            ('z3-4.8', budget * 0.3), ('cvc5', budget)]
    if not native:
        plan = [('z3-mbqi-off', min(0.6, budget)),
                ('z3-4.8', budget * 0.1), ('z3-new', budget * 0.2),
                ('z3-4.8-mbqi-off', budget * 0.2),
                ('z3-arith2', budget * 0.2),
                ('z3-mbqi-off', budget * 0.4), ('z3-4.8', budget * 0.3),
                ('cvc5-enum', budget * 0.3),
                ('z3-new', budget * 0.4),
                ('z3-4.8', budget * 0.6), ('cvc5', budget)]
    if obl.focus is not None:
        fh = list(so.global_facts) + so.lit_facts() + list(extra) + obl.focus
        for tl, fn in ((budget * 0.1, lambda t: run_z3(fh, goal, t, **{
                           'auto_config': False, 'smt.mbqi': False})[0]),
                       (budget * 0.2, lambda t: run_z3bin(fh, goal, t)),
                       (budget * 0.2, lambda t: run_z3bin(
                           fh, goal, t, mbqi=False)),
                       (budget * 0.3, lambda t: run_cvc5(fh, goal, t))):
            if fn(tl) == 'unsat':
                return Res('proved', 'z3-focus', time.time() - t0)
    for at, (name, tl) in enumerate(plan):
        if at == 1 and z3.is_quantifier(goal):
            # a goal that holds whatever the hypotheses are
            if run_z3([], goal, 0.3)[0] == 'unsat':
                return Res('proved', 'z3-goal', time.time() - t0)
        if at == 1 and all(run_z3bin(near(hyps, c), c, 1, exe='z3-new')
                           == 'unsat' for c in conjuncts(goal)):
            return Res('proved', 'z3-near', time.time() - t0)
        if name == 'z3':
            r, m, note = run_z3(hyps, goal, tl)
            if r == 'sat':
                sat = m
        elif name == 'z3-mbqi-off':
            r, m, _ = run_z3(hyps, goal, tl, **{
                'auto_config': False, 'smt.mbqi': False})
            if r == 'sat':
                r = 'unknown'
        elif name == 'z3-4.8':
            r = run_z3bin(hyps, goal, tl)
            if r == 'sat':
                r = 'unknown'
        elif name == 'z3-arith2':
            r = run_z3bin(hyps, goal, tl, more=['smt.arith.solver=2'])
            if r == 'sat':
                r = 'unknown'
        elif name == 'cvc5-enum':
            r = run_cvc5(hyps, goal, tl, ['--enum-inst'])
            if r == 'sat':
                r = 'unknown'
        elif name == 'z3-new':
            r = run_z3bin(hyps, goal, tl, exe='z3-new')
            if r == 'sat':
                r, m, _ = run_z3(hyps, goal, 2 * tl)
                if r == 'sat':
                    sat = m
        elif name == 'z3-4.8-mbqi-off':
            r = run_z3bin(hyps, goal, tl, mbqi=False)
            if r == 'sat':
                r = 'unknown'
        elif name == 'z3-abs':
            if ab is None:
                ab = Abstraction()
                ah = [ab(h) for h in hyps]
                ag = ab(goal)
            r, m, _ = run_z3(ah, ag, tl, **{
                'auto_config': False, 'smt.mbqi': False})
            if r == 'sat':
                r = 'unknown'
        elif name == 'z3-seq':
            r, m, _ = run_z3(hyps, goal, tl, **{'random_seed': 7})
        else:
            r = run_cvc5(hyps, goal, tl)
            if r == 'sat' and sat is None:
                r = 'unknown'
        if r == 'unsat':
            return Res('proved', name, time.time() - t0)
        if sat is not None:
            return Res('failed', 'z3', time.time() - t0, sat)
    return Res('unknown', 'z3+cvc5', time.time() - t0, None, note)
