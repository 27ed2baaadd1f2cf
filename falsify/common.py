"""Shared driver of the concrete contract searches (run on the project's own interpreter, PyPy).

A falsifier module defines `run(ctx)`.  It draws inputs from ctx.rng, calls the real code of the
repository under test and compares what it observes with an oracle written from the property text.
It reports through
    ctx.case(cls)                      one input explored, of class `cls`
    ctx.fail(what, inp, expected, got) a failing input (JSON-able where possible)
and stops when ctx.more() turns false.  `replay(ctx, inp)` re-runs one recorded input.
"""
import argparse
import gc
import importlib
import json
import logging
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback


def jsonable(v, depth=0):
    if depth > 12:
        return repr(v)
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, float):
        return v
    if isinstance(v, dict):
        return {str(k): jsonable(x, depth + 1) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x, depth + 1) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted((jsonable(x, depth + 1) for x in v), key=repr)
    return repr(v)


class Stop(Exception):
    pass


class Hang(BaseException):
    """One case ran for longer than CASE_LIMIT seconds."""


CASE_LIMIT = 40


def on_alarm(*_):
    raise Hang('no progress for %d s' % CASE_LIMIT)


def odd_answer(e):
    """The oracle stumbled over what the code handed back (None for a list, too few items, ...),
    as opposed to over an interface that is spelled differently now."""
    text = str(e)
    if isinstance(e, AttributeError):
        return "'NoneType' object" in text
    if isinstance(e, TypeError):
        return not any(w in text for w in ('argument', 'positional', 'keyword', 'expected at'))
    return isinstance(e, (IndexError, KeyError, ValueError))


class Ctx(object):
    def __init__(self, seed, budget, tier, prop, extra):
        self.rng = random.Random(seed)
        self.seed = seed
        self.t0 = time.time()
        self.budget = budget
        self.tier = tier
        self.prop = prop
        self.extra = extra or []
        self.cases = 0
        self.classes = {}
        self.violations = []
        self.known = []
        self.scratch = tempfile.mkdtemp(prefix='nxtv_')
        self.max_violations = 5
        self.distinct = set()
        self.samples = []
        self.last = None

    def more(self):
        return time.time() - self.t0 < self.budget and \
            len(self.violations) < self.max_violations

    def slice(self, frac):
        """A predicate that is true until `frac` of the whole budget has passed."""
        end = self.t0 + self.budget * frac

        def go():
            return time.time() < end and self.more()
        return go

    def case(self, cls='random', n=1):
        self.cases += n
        if self.cases // 500 != (self.cases - n) // 500:
            gc.collect()        # files the code under test left to the collector
        signal.signal(signal.SIGALRM, on_alarm)
        signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT)
        self.classes[cls] = self.classes.get(cls, 0) + n

    def seen(self, key):
        self.distinct.add(hash(key))
        if len(self.samples) < 6:
            self.samples.append(repr(key)[:400])

    def fail(self, what, inp, expected, got):
        key = what
        for v in self.violations:
            if v['what'] == key:
                v['more'] = v.get('more', 0) + 1
                return
        self.violations.append({'what': what, 'input': jsonable(inp),
                                'expected': jsonable(expected),
                                'got': jsonable(got)})

    def check(self, cond, what, inp, expected, got):
        if not cond:
            self.fail(what, inp, expected, got)
        return cond

    def eq(self, what, inp, expected, got):
        ok = expected == got and (type(expected) is type(got) or
                                  not isinstance(expected, bool))
        if not ok:
            self.fail(what, inp, expected, got)
        return ok

    def guarded(self, what, inp, fn, *a, **k):
        """Call fn; an unexpected exception is a violation. Returns (ok, result)."""
        self.last = (what, inp)
        try:
            return True, fn(*a, **k)
        except Stop:
            raise
        except Exception as e:  # noqa
            self.fail(what + ' raised ' + type(e).__name__, inp,
                      'no exception', traceback.format_exc()[-1500:])
            return False, None

    def tmp(self, name='d'):
        return tempfile.mkdtemp(prefix=name, dir=self.scratch)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('module')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--budget', type=float, default=20)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--out')
    ap.add_argument('--extra')
    ap.add_argument('--replay')
    a = ap.parse_args()
    logging.disable(logging.CRITICAL)
    sys.setrecursionlimit(3000)
    here = os.path.dirname(os.path.realpath(__file__))
    sys.path.insert(0, here)
    repo = os.environ.get('VERIF_REPO', '/repo')
    sys.path.insert(0, repo)
    extra = []
    if a.extra and os.path.exists(a.extra):
        with open(a.extra) as fp:
            extra = json.load(fp)
    ctx = Ctx(a.seed, a.budget, a.tier, a.module, extra)
    os.chdir(ctx.scratch)
    err = None
    try:
        import nxt  # noqa
        mod = importlib.import_module(a.module)
        if a.replay:
            with open(a.replay) as fp:
                rec = json.load(fp)
            mod.replay(ctx, rec)
        else:
            mod.run(ctx)
    except Stop:
        pass
    except (Exception, Hang) as e:
        err = traceback.format_exc()[-2500:]
        last = traceback.extract_tb(e.__traceback__)
        names = [os.path.realpath(f.filename) for f in last]
        pkg = os.path.realpath(os.path.join(repo, 'nxt')) + os.sep
        if isinstance(e, Hang):
            if any(n.startswith(pkg) for n in names):
                ctx.fail('a call did not return within %d s' % CASE_LIMIT,
                         {'seed': a.seed}, 'termination', err)
                err = None
        elif [n for n in names if n.startswith((pkg, here + os.sep))][-1:] and [
                n for n in names if n.startswith((pkg, here + os.sep))][-1].startswith(pkg):
            ctx.fail('unexpected ' + type(e).__name__, {'seed': a.seed},
                     'no exception', err)
            err = None
        elif odd_answer(e) and ctx.last is not None:
            ctx.fail('%s: an answer of an unexpected kind' % ctx.last[0], ctx.last[1],
                     'an answer that can be examined', err)
            err = None
    signal.setitimer(signal.ITIMER_REAL, 0)
    gc.collect()
    os.chdir('/')
    shutil.rmtree(ctx.scratch, ignore_errors=True)
    res = {'cases': ctx.cases, 'classes': ctx.classes, 'distinct': len(ctx.distinct), 'samples': ctx.samples,
           'violations': ctx.violations, 'known': ctx.known, 'error': err,
           'seconds': round(time.time() - ctx.t0, 2), 'seed': a.seed}
    text = json.dumps(res, indent=1)
    if a.out:
        with open(a.out, 'w') as fp:
            fp.write(text)
    else:
        print(text)


if __name__ == '__main__':
    main()
