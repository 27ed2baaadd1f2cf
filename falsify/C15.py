"""C15: working directory, termination and untouched files under success and failure."""
import json
import os

from nxt import nxt_io, nxt_path
from nxt.nxt_layer import SpecLayer
from nxt.session import Session
from nxt.stage import Stage
import common


class Fault(object):
    """Makes the n-th call of one library function raise."""
    SITES = [(os.path, 'realpath'), (os.path, 'expanduser'), (os.path, 'expandvars'),
             (os.path, 'isfile'), (os.path, 'splitext'), (os.path, 'basename'), (os, 'chdir'),
             (json, 'load'), (os, 'getcwd'), (os.path, 'dirname'), (os.path, 'exists')]

    def __init__(self, site, nth, exc):
        self.mod, self.name = self.SITES[site]
        self.nth, self.exc = nth, exc
        self.count = 0

    def __enter__(self):
        self.real = getattr(self.mod, self.name)
        home = os.getcwd()
        visited = set()

        def f(*a, **k):
            if self.name == 'chdir':
                # only the entry into a folder fails, never the way back
                back = os.path.realpath(str(a[0])) in visited
                visited.add(os.getcwd())
                if back or os.path.realpath(str(a[0])) == home:
                    return self.real(*a, **k)
            self.count += 1
            if self.count == self.nth:
                raise self.exc('injected')
            return self.real(*a, **k)
        setattr(self.mod, self.name, f)
        return self

    def __exit__(self, *a):
        setattr(self.mod, self.name, self.real)


class NoFault(object):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def fault_of(rec):
    if not rec:
        return NoFault()
    return Fault(rec[0], rec[1], {'OSError': OSError, 'ValueError': ValueError,
                                  'RuntimeError': RuntimeError}[rec[2]])


def pick_fault(r, p=.5):
    if r.random() > p:
        return None
    return [r.randrange(len(Fault.SITES)), r.choice([1, 1, 2, 3, 5, 8]),
            r.choice(['OSError', 'OSError', 'ValueError', 'RuntimeError'])]


def guard_cwd(ctx, what, inp, fn):
    """Run fn in a known folder; the folder afterwards must be the same."""
    home = os.path.realpath(ctx.tmp('home'))
    before = os.getcwd()
    os.chdir(home)
    try:
        try:
            with fault_of(inp.get('fault')):
                res = ('ok', fn())
        except common.Stop:
            raise
        except Exception as e:  # noqa
            res = ('exc', e)
        now = os.getcwd()
        ctx.eq('working directory after ' + what + (' raised' if res[0] == 'exc' else ''), inp,
               'the folder before', 'the folder before' if now == home else now)
        return res
    finally:
        os.chdir(before)


def expand(ctx, inp):
    base = ctx.tmp()
    os.makedirs(os.path.join(base, 'd', 'e'))
    for n in ('f.txt', 'd/f.txt', 'd/e/g.txt'):
        with open(os.path.join(base, n), 'w') as fp:
            fp.write('x')
    start = inp['start']
    if start is not None:
        start = os.path.join(base, start) if start else start
    os.environ['VP_DIR'] = os.path.join(base, 'd')
    res = guard_cwd(ctx, 'full_file_expand', inp,
                    lambda: nxt_path.full_file_expand(inp['path'], start=start)
                    if inp['start'] is not None else nxt_path.full_file_expand(inp['path']))
    if inp['start'] in ('', None) or inp.get('fault'):
        return
    if not os.path.isdir(start):
        ctx.check(res[0] == 'exc', 'expanding from a missing folder', inp, 'an error', res)
        return
    p = inp['path'].replace('$VP_DIR', os.path.join(base, 'd')).replace('${VP_DIR}', os.path.join(
        base, 'd'))
    if '~' in p or '$' in p:
        return
    want = os.path.realpath(os.path.join(start, p))
    ctx.eq('expanded path', inp, want, res[1])


def gen_refs(r):
    n = r.randrange(1, 6)
    kinds = ['ok'] * n
    for i in range(1, n):
        if r.random() < .25:
            kinds[i] = r.choice(['missing', 'malformed', 'toonew', 'notdict', 'badext', 'badnode',
                                 'folder'])
    if r.random() < .06:
        kinds[0] = r.choice(['missing', 'malformed'])
    refs = [r.sample(range(n), min(n, r.choice([0, 1, 1, 2, 3]))) for _ in range(n)]
    dirs = [r.choice(['', 'd1', 'd2', 'd1/e', 'd 3']) for _ in range(n)]
    return {'kinds': kinds, 'refs': refs, 'dirs': dirs, 'abs': r.random() < .2,
            'fault': pick_fault(r, .35), 'how': r.choice(['stage', 'session', 'execute'])}


def files(inp):
    return [os.path.join(d, 'f%d%s' % (i, '.json' if inp['kinds'][i] == 'badext' else '.nxt'))
            for i, d in enumerate(inp['dirs'])]


def graph(ctx, inp):
    base = os.path.realpath(ctx.tmp())
    fs = files(inp)
    full = [os.path.join(base, f) for f in fs]
    for i, f in enumerate(full):
        if not os.path.isdir(os.path.dirname(f)):
            os.makedirs(os.path.dirname(f))
    for i, f in enumerate(full):
        k = inp['kinds'][i]
        if k == 'missing':
            continue
        if k == 'folder':
            os.makedirs(f)
            continue
        refs = [full[j] if inp['abs'] else os.path.relpath(full[j], os.path.dirname(f))
                for j in inp['refs'][i]]
        data = {'version': '1.17', 'references': refs, 'nodes': {'/n%d' % i: {}}}
        if k == 'toonew':
            data['version'] = '9.0'
        if k == 'notdict':
            data = ['x']
        if k == 'badnode':
            data['nodes'] = {'/n': 5}
        with open(f, 'w') as fp:
            fp.write('{"version": ' if k == 'malformed' else json.dumps(data))
    snap = snapshot(base)
    if inp['how'] == 'session':
        fn = lambda: Session().load_file(full[0])
    elif inp['how'] == 'execute':
        fn = lambda: Session().get_stage(full[0])
    else:
        fn = lambda: Stage.load_from_filepath(full[0])
    res = guard_cwd(ctx, 'loading a graph', inp, fn)
    ctx.check(snapshot(base) == snap, 'loading changed a file', inp, 'unchanged', 'changed')
    if inp.get('fault'):
        return
    # what the reference graph unfolds to
    want, bad = [], []

    def walk(i, anc):
        want.append(full[i])
        for j in inp['refs'][i]:
            k = inp['kinds'][j]
            if k in ('missing', 'toonew', 'badext', 'folder') or j in anc + [i]:
                continue
            if k != 'ok':
                bad.append(j)
                return
            walk(j, anc + [i])
            if bad:
                return
    if inp['kinds'][0] == 'ok':
        walk(0, [])
    if inp['kinds'][0] != 'ok' or bad:
        return      # only the working directory and termination are claimed
    if not ctx.eq('loading a graph', inp, 'ok', res[0] if res[0] == 'ok' else repr(res[1])[:300]):
        return
    ctx.eq('layers of the loaded graph', inp, want, [l.real_path for l in res[1]._sub_layers])


def snapshot(base):
    out = {}
    for d, _, fs in os.walk(base):
        for f in fs:
            with open(os.path.join(d, f), 'rb') as fp:
                out[os.path.join(d, f)] = fp.read()
    return out


class Odd(object):
    pass


def unwritable(kind):
    if kind == 'object':
        return Odd()
    if kind == 'set':
        return {1}
    if kind == 'bytes':
        return b'x'
    if kind == 'lambda':
        return len
    if kind == 'key':
        return {(1, 2): 3}
    if kind == 'deep':
        return [[{'k': [Odd()]}]]
    if kind == 'cycle':
        x = []
        x.append(x)
        return x
    if kind == 'complex':
        return 1j
    return None


def save(ctx, inp):
    d = ctx.tmp()
    path = os.path.join(d, inp.get('name', 'g.nxt'))
    layer = SpecLayer({'nodes': {'/a': {'code': ['x'], 'attrs': {'k': {'value': '1'}}}, '/a/b': {}},
                       'filepath': path, 'real_path': path})
    bad = unwritable(inp['bad'])
    node = layer.lookup('/a')
    where = inp['where']
    if where == 'positions':
        layer.positions['/a'] = bad
    elif where == 'alias':
        layer.set_alias(bad)
    elif where == 'code':
        node._code = ['x = 1', bad]
    elif where == 'comment':
        node._comment = bad
    elif where == 'instance':
        node._instance = bad
    elif where == 'enabled':
        node._enabled = bad
    elif where == 'override':
        layer.comp_overrides['x.nxt'] = {'mute': bad}
    elif where == 'meta':
        layer._input_metadata['custom'] = bad
    elif where == 'color':
        layer.color = bad
    elif where == 'mute':
        layer.mute = bad
    old = inp['old']
    if old is not None:
        with open(path, 'w') as fp:
            fp.write(old)
    res = guard_cwd(ctx, 'saving', inp, lambda: Session().save_layer(layer, path)
                    if inp['how'] == 'session' else layer.save(path))
    now = None
    if os.path.exists(path):
        with open(path) as fp:
            now = fp.read()
    if inp['bad'] is None and inp.get('name', 'g.nxt').endswith('.nxt'):
        ok = now is not None
        if ok:
            try:
                json.loads(now)
            except ValueError:
                ok = False
        ctx.check(ok, 'saving writes a graph file', inp, 'a json file', now)
        return
    ctx.eq('file after a save that cannot be written', inp, old, now)


def run(ctx):
    r = ctx.rng
    PATHS = ['f.txt', './f.txt', '../f.txt', 'd/f.txt', 'd/../f.txt', 'nope', '', '.', '..',
             '$VP_DIR/f.txt', '${VP_DIR}/e', '~', '~/x', '/abs/x', '$NOT_SET/x', 'a b', 'd//e///g.txt']
    for p in PATHS:
        for s in (None, '', 'd', 'd/e', 'gone', 'f.txt', '.'):
            ctx.case('expand')
            expand(ctx, {'path': p, 'start': s})
    for site in range(len(Fault.SITES)):
        for nth in (1, 2, 3):
            for s in (None, 'd'):
                ctx.case('expand, fault')
                expand(ctx, {'path': 'f.txt', 'start': s, 'fault': [site, nth, 'OSError']})
    BAD = ['object', 'set', 'bytes', 'lambda', 'key', 'deep', 'cycle', 'complex']
    WHERE = ['positions', 'alias', 'code', 'comment', 'instance', 'enabled', 'override', 'meta',
             'color', 'mute']
    for b in BAD:
        for w in WHERE:
            for old in (None, 'precious', '{}'):
                ctx.case('save, unwritable')
                save(ctx, {'bad': b, 'where': w, 'old': old, 'how': r.choice(['session', 'layer'])})
    for n in ('g.txt', 'g', 'g.json', 'g.nxt.bak'):
        for old in (None, 'precious'):
            ctx.case('save, wrong extension')
            save(ctx, {'bad': None, 'where': 'none', 'old': old, 'how': 'layer', 'name': n})
    for old in (None, 'precious', '{' * 5000):
        save(ctx, {'bad': None, 'where': 'none', 'old': old, 'how': 'layer'})
    # faults at every call of every site, for one fixed reference tree
    tree = {'kinds': ['ok', 'ok', 'missing', 'ok'], 'refs': [[1, 2], [3], [], [0]],
            'dirs': ['', 'd1', '', 'd2'], 'abs': False, 'how': 'stage'}
    for site in range(len(Fault.SITES)):
        for nth in range(1, 16):
            ctx.case('load, fault')
            graph(ctx, dict(tree, fault=[site, nth, 'OSError' if nth % 3 else 'RuntimeError']))
            if not ctx.more():
                return
    while ctx.more():
        k = r.random()
        if k < .2:
            inp = {'path': r.choice(PATHS), 'start': r.choice([None, 'd', 'd/e', 'gone']),
                   'fault': pick_fault(r)}
            ctx.case('expand')
            expand(ctx, inp)
        else:
            inp = gen_refs(r)
            ctx.case('load' + (', fault' if inp['fault'] else ''))
            ctx.seen(json.dumps(inp, sort_keys=True))
            graph(ctx, inp)


def replay(ctx, rec):
    i = rec['input']
    ctx.case('replay')
    if 'path' in i:
        expand(ctx, i)
    elif 'kinds' in i:
        graph(ctx, i)
    else:
        save(ctx, i)
