#!/usr/bin/env python3-vt
"""Decides one property on the current tree of /repo.

    python3-vt check.py C01 [quick|thorough]     decide, write evidence/C01.json
    python3-vt check.py --replay FILE            run one recorded failing input again
    python3-vt check.py --baseline               (development) record digests of the proved functions

Exit 0: the property held on everything explored.  Exit 1 with a line
`VIOLATION property=<id> replay=<path>`: it is broken.  See DESIGN.md for the decision table.
"""
import hashlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
PYPY = '/opt/venv/bin/python'
EVID = os.path.join(HERE, 'evidence')
BASE = os.path.join(HERE, 'contracts', 'baseline.json')
FINDINGS = os.path.join(HERE, 'known_findings.txt')

QUICK = dict(fals=28, seeds=2, provers=6, solver=12.0, item=200, total=420, ext=60, ext_seeds=6)
THOROUGH = dict(fals=300, seeds=6, provers=4, solver=40.0, item=700, total=2400, ext=120,
                ext_seeds=6)


# ---------------------------------------------------------------- falsifier
class Fals(object):
    """One run of a concrete contract search on PyPy, in its own process group."""

    def __init__(self, prop, seed, budget, tier, extra=None, replay=None):
        self.dir = tempfile.mkdtemp(prefix='nxtv_run_')
        self.out = os.path.join(self.dir, 'out.json')
        env = {k: v for k, v in os.environ.items()
               if not k.startswith('NXT_') and k not in ('PYTHONPATH', 'PYTHONHOME')}
        env.update(NXT_USER_DIR=os.path.join(self.dir, 'user'), PYTHONPATH=REPO,
                   PYTHONDONTWRITEBYTECODE='1', HOME=self.dir, TMPDIR=self.dir,
                   VERIF_REPO=REPO, PYTHONHASHSEED='0')
        os.makedirs(env['NXT_USER_DIR'])
        cmd = [PYPY, '-W', 'ignore', os.path.join(HERE, 'falsify', 'common.py'), prop,
               '--seed', str(seed), '--budget', str(budget), '--tier', tier, '--out', self.out]
        if extra:
            ex = os.path.join(self.dir, 'extra.json')
            with open(ex, 'w') as fp:
                json.dump(extra, fp)
            cmd += ['--extra', ex]
        if replay:
            cmd += ['--replay', os.path.abspath(replay)]
        self.cmd = cmd
        self.seed = seed
        self.limit = time.time() + budget * 2 + 120
        self.err = open(os.path.join(self.dir, 'err'), 'w')
        self.p = subprocess.Popen(cmd, env=env, cwd=self.dir, stdout=subprocess.DEVNULL,
                                  stderr=self.err, start_new_session=True)

    def result(self):
        hung = False
        try:
            self.p.wait(max(1, self.limit - time.time()))
        except subprocess.TimeoutExpired:
            hung = True
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        self.err.close()
        try:
            with open(self.out) as fp:
                r = json.load(fp)
        except (OSError, ValueError):
            with open(os.path.join(self.dir, 'err')) as fp:
                r = {'cases': 0, 'classes': {}, 'violations': [], 'known': [], 'distinct': 0,
                     'samples': [], 'seconds': 0, 'seed': self.seed,
                     'error': 'the search ended without a result%s: %s' % (
                         ' (killed after its time limit)' if hung else '', fp.read()[-1500:])}
        shutil.rmtree(self.dir, ignore_errors=True)
        return r


def merge(rs):
    out = {'cases': 0, 'classes': {}, 'violations': [], 'known': [], 'distinct': 0, 'samples': [],
           'errors': [], 'seeds': [], 'seconds': 0.0}
    whats = set()
    for r in rs:
        out['cases'] += r['cases']
        out['distinct'] = max(out['distinct'], r.get('distinct', 0))
        out['seconds'] += r['seconds']
        out['seeds'].append(r['seed'])
        for k, v in r['classes'].items():
            out['classes'][k] = out['classes'].get(k, 0) + v
        for v in r['violations']:
            if v['what'] not in whats:
                whats.add(v['what'])
                v['seed'] = r['seed']
                out['violations'].append(v)
        for k in r.get('known', []):
            if k not in out['known']:
                out['known'].append(k)
        if len(out['samples']) < 4:
            out['samples'] += r.get('samples', [])[:2]
        if r.get('error'):
            out['errors'].append(r['error'])
    return out


# ------------------------------------------------------------------ proving
def prove_one(q, db, reg, kind, name, budget):
    from pyvc import verify
    try:
        os.setpgrp()
    except OSError:
        pass
    try:
        import z3
        z3.set_param('memory_max_size', 3500)
    except Exception:   # noqa
        pass
    try:
        r = verify.verify(db, reg, name, budget) if kind == 'fn' else \
            verify.verify_lemma(db, reg, name, budget)
    except BaseException as e:   # noqa
        r = verify.FnResult(name if kind == 'fn' else 'lemma:' + name)
        r.status = 'error'
        r.reason = '%s: %s' % (type(e).__name__, e)
    q.send(r)
    q.close()


def prove(db, reg, items, budget, workers, item_limit, deadline):
    """items: [(kind, name)].  Every item in a forked process with a hard time limit."""
    from pyvc import verify
    ctx = mp.get_context('fork')
    todo = list(items)
    run, done = [], {}
    while todo or run:
        while todo and len(run) < workers:
            kind, name = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=prove_one, args=(b, db, reg, kind, name, budget))
            p.start()
            b.close()
            run.append((p, a, kind, name, time.time()))
        still = []
        for p, a, kind, name, t in run:
            got = None
            if a.poll(0):
                try:
                    got = a.recv()
                except EOFError:
                    got = verify.FnResult(name)
                    got.status = 'error'
                    got.reason = 'prover process died'
                p.join(5)
            elif time.time() - t > item_limit or time.time() > deadline:
                got = verify.FnResult(name if kind == 'fn' else 'lemma:' + name)
                got.status = 'timeout'
                got.reason = 'no answer within the time limit'
                got.secs = round(time.time() - t, 1)
            if got is None:
                still.append((p, a, kind, name, t))
                continue
            if p.is_alive():
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    p.kill()
                p.join(5)
            a.close()
            done[(kind, name)] = got
        run = still
        time.sleep(0.02)
    return done


def closure(reg, props_items, used_map):
    seen = set(props_items)
    todo = list(props_items)
    while todo:
        it = todo.pop()
        for u in used_map.get(it, ()):  # names used by this item's proof
            nx = ('lemma', u[6:]) if u.startswith('lemma:') else ('fn', u)
            ok = nx[1] in (reg.lemmas if nx[0] == 'lemma' else reg.contracts)
            if ok and nx not in seen:
                seen.add(nx)
                todo.append(nx)
    return seen


def loops_digest(f):
    import ast
    from pyvc import source
    out = []
    for n in ast.walk(f.node):
        if isinstance(n, (ast.For, ast.While)):
            out.append(source.norm_dump(ast.Module([n], [])) if False else ast.dump(
                n, annotate_fields=False))
    return hashlib.sha256('|'.join(out).encode()).hexdigest()[:16]


def items_of(reg, prop):
    its = []
    for n, c in reg.contracts.items():
        if prop in c.props and not c.trusted and not n.startswith('ext:'):
            its.append(('fn', n))
    for n, l in reg.lemmas.items():
        if prop in l.props and not l.trusted:
            its.append(('lemma', n))
    return its


LOOPKINDS = ('loop', 'inv', 'invariant', 'decreases', 'variant')


def load_base():
    try:
        with open(BASE) as fp:
            return json.load(fp)
    except (OSError, ValueError):
        return {}


def known_findings(prop):
    out = []
    try:
        with open(FINDINGS) as fp:
            for line in fp:
                line = line.strip()
                if line.startswith('finding: property=%s ' % prop):
                    rest = line[len('finding: property=%s ' % prop):]
                    key, _, text = rest.partition(' ')
                    out.append((key, text))
    except OSError:
        pass
    return out


def write_json(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp%d' % os.getpid()
    with open(tmp, 'w') as fp:
        json.dump(data, fp, indent=1, sort_keys=False)
        fp.write('\n')
    os.replace(tmp, path)


def changed_names(db, base, r, key):
    """Functions whose source differs from the source the proof was developed against."""
    b = base.get(r.name)
    if b is None:
        return ['(no baseline)']
    ch = []
    if r.digest != b['digest']:
        ch.append(key)
    cur = dict(r.inl_digest or {})
    for k, v in b['inlined'].items():
        c = cur.get(k) or (db.funcs[k].digest if k in db.funcs else None)
        if c != v:
            ch.append(k)
    for k in cur:
        if k not in b['inlined']:
            ch.append(k)
    return sorted(set(ch))


def decide(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = THOROUGH if tier == 'thorough' else QUICK
    from checks import PROPS
    info = PROPS[prop]
    fals = [Fals(prop, seed * 1000 + i, P['fals'], tier) for i in range(P['seeds'])]
    notes, undecided, alarms = [], [], []
    results, items = {}, []
    base = load_base()
    db = reg = fr = None
    try:
        from pyvc import source, verify, registry
        reg = registry.load()
        items = items_of(reg, prop)
        if items:
            db = source.SourceDB()
            db.consts = verify.dump_consts(db, REPO)
            order = sorted(items, key=lambda it: -base.get(
                it[1] if it[0] == 'fn' else 'lemma:' + it[1], {}).get('secs', 0))
            if tier == 'thorough':
                used = {('fn', k): v.get('used', ()) for k, v in base.items()
                        if not k.startswith('lemma:')}
                used.update({('lemma', k[6:]): v.get('used', ()) for k, v in base.items()
                             if k.startswith('lemma:')})
                extra = [x for x in closure(reg, items, used) if x not in items and not (
                    reg.contracts if x[0] == 'fn' else reg.lemmas)[x[1]].trusted
                    and not x[1].startswith('ext:')]
                order += extra
            results = prove(db, reg, order, P['solver'], P['provers'], P['item'],
                            t0 + P['total'])
            # anything left open is tried again with more time and less company
            again = [it for it, r in results.items()
                     if r.status == 'timeout' or any(o[2] == 'unknown' for o in r.obls)]
            if again:
                fr = merge([f.result() for f in fals])
            if again and not fr['violations']:
                r2 = prove(db, reg, again, P['solver'] * 3, 4, P['item'] * 1.5,
                           t0 + P['total'] + 150)
                for it, r in r2.items():
                    if sum(o[2] != 'proved' for o in r.obls) <= sum(
                            o[2] != 'proved' for o in results[it].obls) and r.status == 'ok':
                        results[it] = r
    except SyntaxError as e:
        notes.append('source does not parse: %s' % e)
    except Exception:
        notes.append('verifier front end failed: ' + traceback.format_exc()[-1200:])
    if fr is None:
        fr = merge([f.result() for f in fals])
    # ------------------------------------------------------------ classify
    n_obl = n_ok = 0
    table, backends, trust, solver_s = [], {}, set(), 0.0
    extra_inputs = []
    failing = []
    for it in results:
        r = results[it]
        key = reg.contracts[it[1]].key if it[0] == 'fn' else it[1]
        ch = changed_names(db, base, r, key)
        bad = [o for o in r.obls if o[2] != 'proved']
        row = {'item': r.name, 'status': r.status, 'obligations': len(r.obls),
               'discharged': len(r.obls) - len(bad), 'seconds': r.secs}
        if ch and ch != ['(no baseline)']:
            row['changed_since_proof'] = ch
        if r.inlined:
            row['inlined'] = list(r.inlined)
        table.append(row)
        n_obl += len(r.obls)
        n_ok += len(r.obls) - len(bad)
        trust |= set(r.trust)
        for o in r.obls:
            solver_s += o[4]
            if o[2] == 'proved':
                backends[o[3]] = backends.get(o[3], 0) + 1
        for n, m in r.models:
            extra_inputs.append({'function': r.name, 'obligation': n, 'params': m})
        if r.status != 'ok':
            row['reason'] = r.reason
            undecided.append('%s: %s (%s); bounded search stands in' % (r.name, r.status,
                                                                        r.reason))
            continue
        if not bad:
            continue
        row['open'] = [list(o) for o in bad]
        b = base.get(r.name, {})
        known_open = set(b.get('open', []))
        new_bad = [o for o in bad if o[0] not in known_open]
        if not new_bad:
            undecided.append('%s: open on the unchanged tree too: %s; bounded search stands in' %
                             (r.name, ', '.join(o[0] for o in bad)))
            continue
        if not ch or it[0] == 'lemma':
            undecided.append('%s: source as proved, but the solver gave no answer this time: %s; '
                             'bounded search stands in' % (r.name,
                                                           ', '.join(o[0] for o in new_bad)))
            continue
        lp = b.get('loops')
        f = db.funcs.get(key)
        loopy = reg.contracts[it[1]].loops and f is not None and lp != loops_digest(f)
        failing.append((r, new_bad, ch, bool(loopy)))
    # -------------------------------------------- search behind failing obligations
    if failing and not fr['violations']:
        more = [Fals(prop, seed * 1000 + 500 + i, P['ext'], tier, extra=extra_inputs)
                for i in range(P['ext_seeds'])]
        f2 = merge([f.result() for f in more])
        for k in ('cases', 'seconds'):
            fr[k] += f2[k]
        fr['distinct'] = max(fr['distinct'], f2['distinct'])
        for k, v in f2['classes'].items():
            fr['classes'][k] = fr['classes'].get(k, 0) + v
        for k in ('violations', 'errors', 'seeds'):
            fr[k] += f2[k]
    # ------------------------------------------------------------- verdict
    rdir = os.path.join(EVID, 'replay')
    lines = []
    for i, v in enumerate(fr['violations']):
        path = os.path.join(rdir, '%s-%d.json' % (prop, i))
        write_json(path, {'property': prop, 'seed': v.get('seed'), 'tier': tier,
                          'budget': P['fals'], 'what': v['what'], 'input': v['input'],
                          'expected': v['expected'], 'got': v['got'],
                          'failed_obligations': [o[0] for r, bad, _, _ in failing for o in bad],
                          'how': 'python3-vt check.py --replay ' + path})
        lines.append('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(path, HERE)))
        notes.append('%s: input %s; expected %s; got %s' % (
            v['what'], json.dumps(v['input'])[:300], json.dumps(v['expected'])[:200],
            json.dumps(v['got'])[:300]))
    if failing and not lines:
        for r, bad, ch, loopy in failing:
            names = ', '.join(o[0] for o in bad)
            if loopy:
                undecided.append('%s: a loop under invariant was rewritten and the invariants kept '
                                 'for it do not carry over (%s); extended bounded search found '
                                 'nothing' % (r.name, names))
                continue
            path = os.path.join(rdir, '%s-obl-%s.json' % (
                prop, r.name.replace('#', '_').replace(':', '_')))
            write_json(path, {'property': prop, 'obligation': [o[0] for o in bad],
                              'function': r.name, 'changed': ch,
                              'verifier': [list(o) for o in bad],
                              'counterexamples': [m for m in r.models],
                              'note': 'the verifier no longer accepts this obligation; the search '
                                      'on the real code found no failing input'})
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (
                prop, os.path.relpath(path, HERE)))
            notes.append('obligation no longer discharged: %s (changed: %s)' % (
                names, ', '.join(ch)))
    for key, text in known_findings(prop):
        if not fr['known'] or any(k == key for k in fr['known']):
            print('KNOWN-FINDING: property=%s %s' % (prop, text))
    if items and n_obl == 0 and not any(r.status == 'unsupported' for r in results.values()):
        notes.append('no obligations were generated')
    level = info['level']
    cov = {
        'obligations': n_obl, 'discharged': n_ok,
        'checker_cmd': 'python3-vt check.py %s %s' % (prop, tier),
        'trusted_base': sorted(trust) + info.get('trusted', []) + COMMON_TRUST,
        'functions_under_contract': sorted({reg.contracts[n].key for k, n in results
                                            if k == 'fn'}) if reg else [],
        'lemmas': sorted(n for k, n in results if k == 'lemma'),
        'backends': backends, 'solver_seconds': round(solver_s, 1),
        'items': table,
        'undecided': undecided,
        'evaluations': fr['cases'], 'distinct_nontrivial': fr['distinct'],
        'rule': info['rule'],
        'samples': fr['samples'] or ['none'],
        'classes': fr['classes'],
        'explanation': info['explanation'],
        'bounded_stand_ins': info.get('bounded', []),
        'search_errors': fr['errors'],
        'known_findings': fr['known'],
    }
    write_json(os.path.join(EVID, prop + '.json'), {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
        'assumptions': info.get('assumptions', []) + COMMON_ASSUME,
        'wall_s': round(time.time() - t0, 1), 'violations': len(lines)})
    for x in notes + undecided + fr['errors']:
        print('note: ' + str(x)[:600])
    print('%s %s: %d/%d obligations discharged in %d items, %d inputs executed on the real code, '
          '%.0f s' % (prop, tier, n_ok, n_obl, len(results), fr['cases'], time.time() - t0))
    for x in lines:
        print(x)
    return 1 if lines else 0


COMMON_TRUST = [
    'pyvc: the verification condition generator itself (checked by the mutation self test in '
    'selftest/, not proved)',
    'z3 5.3.2 and cvc5 1.1.2',
    'CPython ast module parses the same language PyPy 3.9 runs',
]
COMMON_ASSUME = [
    'logging and print calls have no effect on the state the contracts speak about',
    'Python integers are mathematical integers (they are); memory and recursion limits are not '
    'modelled',
]


def replay(path):
    with open(path) as fp:
        rec = json.load(fp)
    prop = rec['property']
    if 'what' not in rec:
        print('this file names an obligation, not an input: %s' % rec['obligation'])
        return 0
    r = None
    inp = rec['input']
    if not (isinstance(inp, dict) and set(inp) == {'seed'}):
        r = Fals(prop, rec['seed'] or 1, 30, 'quick', replay=path).result()
    if r is None or r['error']:
        r = Fals(prop, rec['seed'] or 1, rec.get('budget', 30), rec.get('tier', 'quick')).result()
    for v in r['violations']:
        print('reproduced: %s\n  input %s\n  expected %s\n  got %s' % (
            v['what'], json.dumps(v['input'])[:800], json.dumps(v['expected'])[:400],
            json.dumps(v['got'])[:800]))
    if not r['violations']:
        print('not reproduced%s' % (': ' + r['error'] if r['error'] else ''))
    return 1 if r['violations'] else 0


def baseline(only=()):
    """Record digests; development only (the committed file is an input of the checks)."""
    from pyvc import source, verify, registry
    reg = registry.load()
    db = source.SourceDB()
    db.consts = verify.dump_consts(db, REPO)
    items = [('fn', n) for n, c in reg.contracts.items()
             if not c.trusted and not n.startswith('ext:')]
    items += [('lemma', n) for n, l in reg.lemmas.items() if not l.trusted]
    old = load_base() if only else {}
    if only:
        items = [i for i in items if any(o in i[1] for o in only)]
    out = {}
    res = prove(db, reg, items, 20.0, 7, 900, time.time() + 7200)
    for it in res:
        r = res[it]
        if r.status != 'ok' or r.secs > 60:
            print(r.name, r.status, r.reason, r.secs)
        f = db.funcs.get(reg.contracts[it[1]].key) if it[0] == 'fn' else None
        e = {'digest': r.digest, 'inlined': r.inl_digest, 'obligations': len(r.obls),
             'secs': r.secs, 'used': list(r.used), 'open': [o[0] for o in r.obls
                                                            if o[2] != 'proved']}
        if e['open']:
            print(r.name, 'open:', e['open'])
        if f is not None:
            e['loops'] = loops_digest(f)
        out[r.name] = e
    old.update(out)
    names = {n if k == 'fn' else 'lemma:' + n for k, n in
             [('fn', n) for n in reg.contracts] + [('lemma', n) for n in reg.lemmas]}
    write_json(BASE, {k: old[k] for k in sorted(old) if k in names})
    print('%d items, %d obligations' % (len(out), sum(e['obligations'] for e in out.values())))


def main():
    if sys.argv[1] == '--baseline':
        return baseline(sys.argv[2:])
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    return decide(sys.argv[1], tier)


if __name__ == '__main__':
    os.chdir(HERE)
    sys.exit(main())
