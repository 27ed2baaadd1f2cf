"""C17: command line parameters, by calling cli.execute and by parsing real argument lists."""
import argparse
import json
import os
import sys

from nxt import cli
from nxt.stage import Stage

VALS = ['', '5', 'x', '"""a"""', "it's", 'a b', '/not/a/key', '-1', '=', 'a=b', 'k v', '${x}', '\n',
        u'\u00e9', '{"a": 1}', '[1]', '\\', '%s', '{}', '/n.k', 'True', '#', '0', '  ',
        '$x', '$HOME', '${HOME}/x', '~', '~/x', '%HOME%', ' 5 ', 'a\tb', 'null', '1.0', '&amp;', '%20', '\\n']
KEYS = ['/a.k', '/a/b.m', '/a.k2', '/', '/x y.z', '/a', '/a.b.c', '/a.k=1']

os.environ['x'] = 'from the environment'


class Rec(object):
    """Stands in for Session and records executions."""
    calls = []

    def execute_graph(self, filepath, start=None, parameters=None, context=None):
        Rec.calls.append((filepath, start, parameters, context))

    def __getattr__(self, n):
        def f(*a, **k):
            Rec.calls.append((n, a, k))
        return f


def call(fn):
    Rec.calls = []
    real = cli.Session
    cli.Session = Rec
    try:
        try:
            fn()
            res = ('ok', None)
        except SystemExit as e:
            res = ('exit', e.code)
        except Exception as e:  # noqa
            res = ('exc', e)
    finally:
        cli.Session = real
    return res, list(Rec.calls)


def norm(calls):
    return [list(c[:2]) + [dict(c[2]) if c[2] else {}] + [c[3]] if len(c) == 4 else list(c)
            for c in calls]


def case(ctx, inp):
    params = list(inp['params'])
    d = None
    if inp.get('file') is not None:
        d = ctx.tmp()
        p = os.path.join(d, inp.get('fname', 'p.json'))
        with open(p, 'w') as fp:
            fp.write(inp['file'])
        params = [p]
    if inp['mode'] == 'ns':
        ns = argparse.Namespace(path=[inp['path']], parameters=params)
        if not params and inp.get('nostart'):
            del ns.parameters      # the legacy form has neither
        if not inp.get('nostart'):
            ns.start = inp['start']
        if not inp.get('nocontext'):
            ns.context = inp['context']
        res, calls = call(lambda: cli.execute(ns))
        start = None if inp.get('nostart') else inp['start']
        context = None if inp.get('nocontext') else inp['context']
    else:
        argv = ['nxt', 'exec', inp['path']]
        if inp['start'] is not None:
            argv += ['-s', inp['start']]
        argv += ['-p'] + params
        old = sys.argv
        sys.argv = argv
        err = sys.stderr
        sys.stderr = quiet = open(os.devnull, 'w')
        try:
            res, calls = call(cli.main)
        finally:
            sys.argv = old
            sys.stderr = err
            quiet.close()
        start, context = inp['start'], None
    want = None
    if inp.get('file') is not None:
        try:
            want = json.loads(inp['file'])
        except ValueError:
            want = None
    elif len(params) == 1 or len(params) % 2:
        want = None
    elif any(not k.startswith('/') for k in params[::2]):
        want = None
    else:
        want = dict(zip(params[::2], params[1::2]))
    if want is None:
        ctx.check(res[0] in ('exc', 'exit') and (res[0] == 'exit' or str(res[1])) and not calls,
                  'malformed parameters are not refused before execution', inp,
                  'an error with a message and no execution', [res[0], str(res[1]), calls])
        return
    ok = res[0] == 'ok' or (inp['mode'] == 'argv' and res[0] == 'exit' and not res[1])
    if not ctx.check(ok, 'well formed parameters are refused', inp, 'an execution', [res[0], str(res[1])]):
        return
    ctx.eq('what reaches the execution', inp, [[inp['path'], start, want, context]], norm(calls))
    if calls and want:
        for k, v in want.items():
            g = calls[0][2].get(k)
            if not ctx.check(type(g) is type(v) and g == v, 'value type', inp, repr(v), repr(g)):
                return


def reach(ctx, inp):
    """The mapping given to a run is what the runtime nodes hold."""
    import C06
    layers = [{'nodes': {'/a': {'attrs': {'k': {'value': 'old'}, 'm': {'value': 'keep'}}},
                         '/a/b': {'attrs': {'k': {'value': 'old'}}}, '/c': {}}}]
    st = C06.make_stage(layers)
    params = inp['run']
    rt = None
    try:
        rt = st.setup_runtime_layer(st.build_stage(), dict(params))
    except Exception as e:  # noqa
        ctx.fail('setting up a run with parameters raised ' + type(e).__name__, inp,
                 'no exception', str(e))
        return
    have = {'/a': {'k': 'old', 'm': 'keep'}, '/a/b': {'k': 'old'}, '/c': {}}
    # parent values reach children that hold none of their own
    for k, v in params.items():
        p, _, a = k.rpartition('.')
        if p in have:
            have[p][a] = v
    for p, want in have.items():
        n = rt.lookup(p)
        if n is None:
            continue
        for a, v in want.items():
            if not ctx.eq('runtime attribute %s.%s' % (p, a), inp, v, getattr(n, a, '<missing>')):
                return


def through(ctx, inp):
    """Through the real session down to the stage."""
    d = ctx.tmp()
    path = os.path.join(d, 'g.nxt')
    with open(path, 'w') as fp:
        json.dump({'version': '1.17', 'nodes': {'/a': {'attrs': {'k': {'value': '1'}}}}}, fp)
    got = []
    real = Stage.execute, Stage.execute_nodes
    Stage.execute = lambda self, start=None, layer=None, parameters=None: got.append(
        (start, layer, parameters))
    Stage.execute_nodes = lambda self, *a, **k: got.append(('nodes', a, k))
    try:
        cli.execute(argparse.Namespace(path=[path], start=inp['start'], context=None,
                                       parameters=list(inp['params'])))
    except Exception as e:  # noqa
        ctx.fail('execution raised ' + type(e).__name__, inp, 'no exception', str(e))
        return
    finally:
        Stage.execute, Stage.execute_nodes = real
    want = dict(zip(inp['params'][::2], inp['params'][1::2]))
    ctx.eq('what reaches the stage', inp, [[inp['start'], None, want]],
           [[a, b, dict(c or {})] for a, b, c in got])


def run(ctx):
    r = ctx.rng
    for i in range(20):
        ctx.case('through the session')
        ps = []
        for _ in range(r.randrange(4)):
            ps += [r.choice(KEYS), r.choice(VALS)]
        through(ctx, {'params': ps, 'start': r.choice([None, '/a', '/b c']), 'through': 1})
    base = dict(path='g.nxt', start=None, context=None, mode='ns')
    for n in range(0, 5):
        for k in KEYS[:3] + ['k', '', 'a/b.k', '.k', '-k', ' /a.k']:
            for v in VALS[:6]:
                ctx.case('systematic')
                ps = ['/z.q', '1'] * 2
                ps = (ps + [k, v])[-n:] if n else []
                case(ctx, dict(base, params=ps, start=r.choice([None, '/s', '/a/b'])))
    for t in ('{}', '{"/a.k": 5}', '{"/a.k": "v", "/b.m": [1, {"x": null}]}', '{', '',
              '{"/a.k": "\\u00e9"}', '{"/a.k": 0, "/b": false}'):
        for fn in ('p.json', 'p q.txt', 'p'):
            ctx.case('parameter file')
            case(ctx, dict(base, params=[], file=t, fname=fn, start=r.choice([None, '/s'])))
    case(ctx, dict(base, params=['nofile.json']))
    case(ctx, dict(base, params=['/']))
    case(ctx, dict(base, params=['/tmp']))
    for ns, nc in ((1, 0), (0, 1), (1, 1)):
        case(ctx, dict(base, params=['/a.k', '1'], nostart=ns, nocontext=nc, start='/x', context='c'))
    while ctx.more():
        k = r.random()
        if k < .15:
            run_p = {}
            for _ in range(r.randrange(1, 4)):
                run_p[r.choice(['/a.k', '/a.m', '/a/b.k', '/a/b.fresh', '/c.k', '/a.new'])] = \
                    r.choice(VALS)
            ctx.case('runtime parameters')
            reach(ctx, {'run': run_p})
            continue
        n = r.choice([0, 1, 2, 2, 3, 4, 4, 5, 6, 8, 12, 13, 40])
        ps = []
        for i in range(n):
            if i % 2 == 0:
                ps.append(r.choice(KEYS) if r.random() < .93 else r.choice(['k', 'a.k', '', '-x']))
            else:
                ps.append(r.choice(VALS))
        mode = 'ns' if r.random() < .7 else 'argv'
        if mode == 'argv' and (any(p.startswith('-') for p in ps)):
            mode = 'ns'
        ctx.case(mode)
        ctx.seen(tuple(ps))
        case(ctx, dict(base, params=ps, mode=mode, path=r.choice(['g.nxt', '/x/y z.nxt', 'q']),
                       start=r.choice([None, '/s', '/a/b c', '/'])))


def replay(ctx, rec):
    ctx.case('replay')
    if 'run' in rec['input']:
        reach(ctx, rec['input'])
    elif 'through' in rec['input']:
        through(ctx, rec['input'])
    else:
        case(ctx, rec['input'])
