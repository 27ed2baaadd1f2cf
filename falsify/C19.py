"""C19: rpc servers of a session (in a simulated process world) and its table of loaded graphs."""
import errno
import json
import os

from nxt import nxt_io, session as S
from nxt.remote import client as _client  # noqa
from nxt.stage import Stage
from nxt.session import Session

TRIGGERS = ('_remote_sub_graph', '_sub_graph')


class Boom(Exception):
    pass


class World(object):
    """Stands in for every process and network effect of nxt.session.

    servers: the simulated rpc servers, each [owner, alive].  No process is ever started."""

    def __init__(self, foreign=False, port_taken=False, starts=True, wait=1, faults=(), kill='ok'):
        self.procs = []
        self.foreign = foreign
        self.port_taken = port_taken
        self.starts = starts
        self.wait = wait
        self.faults = [list(f) for f in faults]
        self.kill_mode = kill
        self.slept = 0
        self.killed_foreign = False
        self.popens = 0

    # -- faults ------------------------------------------------------------------------------------
    def hit(self, site):
        for f in self.faults:
            if f[0] == site:
                f[1] -= 1
                if f[1] == 0:
                    raise Boom(site)

    def live(self):
        return [p for p in self.procs if p.alive]

    def listening(self):
        return self.foreign or any(p.alive and p.ready() for p in self.procs)

    # -- stand-ins ---------------------------------------------------------------------------------
    def popen(self, *a, **k):
        self.hit('popen')
        self.popens += 1
        p = Proc(self)
        self.procs.append(p)
        return p

    def client(self, *a, **k):
        self.hit('client')
        return Client(self)

    def sleep(self, *_):
        self.slept += 1
        if self.slept > 1000:
            raise Boom('sleeps for ever')

    def __enter__(self):
        C = S.nxt_layer.CacheLayer
        self.own = 'load_from_filepath' in C.__dict__
        self.saved = [(S, 'NxtClient', S.NxtClient), (S.subprocess, 'Popen', S.subprocess.Popen),
                      (S.time, 'sleep', S.time.sleep),
                      (S.RPCServerProcess, 'is_port_available',
                       S.RPCServerProcess.__dict__['is_port_available'])]
        if self.own:
            self.saved.append((C, 'load_from_filepath', C.__dict__['load_from_filepath']))
        S.NxtClient = self.client
        S.subprocess.Popen = self.popen
        S.time.sleep = self.sleep
        S.RPCServerProcess.is_port_available = staticmethod(lambda: not self.port_taken)

        def load(path):
            self.hit('cache')
            return ('cache', path)
        S.nxt_layer.CacheLayer.load_from_filepath = staticmethod(load)
        return self

    def __exit__(self, *_):
        for o, n, v in self.saved:
            setattr(o, n, v)
        if not self.own:
            del S.nxt_layer.CacheLayer.load_from_filepath


class Proc(object):
    def __init__(self, w):
        self.w, self.alive, self.born = w, True, w.slept
        self.pid = 1

    def ready(self):
        return self.w.starts and self.w.slept - self.born >= self.w.wait

    def poll(self):
        return None if self.alive else 0

    def terminate(self):
        self.alive = False

    kill = terminate

    def wait(self, *a, **k):
        return 0


class Client(object):
    def __init__(self, w):
        self.w = w

    def refuse(self):
        if not self.w.listening():
            raise OSError(errno.ECONNREFUSED, 'refused')

    def is_alive(self):
        self.refuse()
        return True

    def kill(self):
        if self.w.kill_mode == 'raises':
            raise Boom('kill')
        self.refuse()
        if self.w.kill_mode == 'lost':
            raise OSError(errno.ECONNREFUSED, 'refused')
        own = [p for p in self.w.procs if p.alive and p.ready()]
        if own:
            own[-1].alive = False
        else:
            self.w.killed_foreign = True

    def exec_in_headless(self, *a):
        self.w.hit('exec')
        self.refuse()
        self.w.seen = a
        return '/cache'


def graph(d, name, nodes, refs=()):
    p = os.path.join(d, name)
    data = {'version': '1.17', 'alias': name.split('.')[0],
            'nodes': {k: v for k, v in nodes.items()}}
    if refs:
        data['references'] = list(refs)
    with open(p, 'w') as fp:
        json.dump(data, fp)
    return p


def exec_case(ctx, inp):
    d = ctx.tmp()
    node = {'code': inp.get('code', ['pass'])}
    top, sub = {'/a': dict(node)}, {'/b': dict(node)}
    if inp['trigger']:
        where = sub if inp['where'] == 'sub' else top
        where['/' + inp['trigger']] = {}
    if inp.get('deep'):
        top['/a/' + TRIGGERS[0]] = {}
    graph(d, 'sub.nxt', sub)
    path = graph(d, 'top.nxt', top, ['./sub.nxt'])
    w = World(**inp['world'])
    s = Session()
    other = s.new_file()
    before = dict(s.loaded_files)
    kind = inp['kind']
    real = {n: getattr(Stage, n) for n in ('build_stage', 'execute', 'execute_nodes')}

    def wrap(n):
        def f(self, *a, **k):
            w.alive_at_run = len(w.live())
            w.hit(n)
            return real[n](self, *a, **k)
        return f
    ran = []
    standalone = os.environ.get(S.NXT_DCC_ENV_VAR)
    try:
        if inp.get('standalone', True):
            os.environ[S.NXT_DCC_ENV_VAR] = S.is_standalone.__globals__['STANDALONE']
        else:
            os.environ.pop(S.NXT_DCC_ENV_VAR, None)
        for n in real:
            setattr(Stage, n, wrap(n))
        with w:
            for _ in range(inp.get('times', 1)):
                try:
                    if kind == 'graph':
                        s.execute_graph(path, start=inp.get('start'))
                    elif kind == 'context':
                        s.execute_graph(path, context='py')
                    else:
                        s.execute_nodes(path, ['/a', '/b'])
                    ran.append('ok')
                except Exception as e:  # noqa
                    ran.append(type(e).__name__)
    finally:
        for n, f in real.items():
            setattr(Stage, n, f)
        if standalone is None:
            os.environ.pop(S.NXT_DCC_ENV_VAR, None)
        else:
            os.environ[S.NXT_DCC_ENV_VAR] = standalone
    ctx.check(not w.live(), 'a server started for an execution is left running', inp,
              'no started server alive', {'alive': len(w.live()), 'outcome': ran})
    ctx.check(not w.killed_foreign, 'a server running for something else was shut down', inp,
              False, True)
    ctx.check(s.rpc_server is None, 'the session still holds a server handle', inp, None,
              repr(s.rpc_server))
    faulted = inp['world'].get('faults')
    if w.foreign and not faulted:
        ctx.eq('a server was started although one is running', inp, 0, w.popens)
    if kind != 'context' and not inp['trigger']:
        ctx.eq('a server was started for a graph that needs none', inp, 0, w.popens)
    if inp.get('standalone', True) and not w.foreign and not inp['world'].get('faults') and \
            w.starts and w.wait <= 3 and not w.port_taken and (inp['trigger'] or kind == 'context'):
        ctx.eq('a needed server is started once per execution', inp, inp.get('times', 1), w.popens)
    loaded = dict(s.loaded_files)
    ctx.check(all(loaded.get(k) is v for k, v in before.items()) and other in loaded.values(),
              'an execution dropped a loaded graph', inp, sorted(map(str, before)),
              sorted(map(str, loaded)))


def table_case(ctx, inp):
    """A sequence of load, new, unload, rename and get_stage against a model of the table."""
    d = ctx.tmp()
    paths = []
    for i in range(3):
        # some files carry aliases that a new graph would like to have
        name = ['untitled.nxt', 'g1.nxt', 'untitled1.nxt'][i]
        sub = os.path.join(d, str(i))
        os.mkdir(sub)
        paths.append(graph(sub, name, {'/n%d' % i: {}}))
    bad = os.path.join(d, 'bad.nxt')
    with open(bad, 'w') as fp:
        fp.write('{"version": "1.17", ')
    newer = os.path.join(d, 'newer.nxt')
    with open(newer, 'w') as fp:
        json.dump({'version': '99.1', 'nodes': {}}, fp)
    s = Session()
    model = {}
    clock = None
    if inp.get('clock'):
        import time as T
        clock = T.time
        T.time = lambda: 1000.0
    try:
        for step, (op, n) in enumerate(inp['ops']):
            here = {'ops': inp['ops'][:step + 1], 'clock': inp.get('clock')}
            got = None
            if op in ('new', 'load', 'get'):
                names = [g._name for g in model.values()]
                known = None
                if op == 'new':
                    got = s.new_file()
                    ctx.check(got._name not in names, 'a new graph has the name of a loaded one',
                              here, names, got._name)
                elif op == 'load':
                    got = s.load_file(paths[n])
                else:
                    # whether a loaded file is found again is not part of the property
                    got = s.get_stage(paths[n])
                    known = any(got is g for g in model.values())
                if not known:
                    ctx.check(got.uid not in model, 'a new graph has the uid of a loaded one',
                              here, sorted(map(repr, model)), repr(got.uid))
                    model[got.uid] = got
            elif op == 'bad':
                p = [bad, newer, os.path.join(d, 'missing.nxt')][n]
                try:
                    s.load_file(p)
                    ctx.fail('a file that cannot be loaded was loaded', here, 'exception', p)
                except Exception:  # noqa
                    pass
            elif op == 'unload':
                if model:
                    k = sorted(model)[n % len(model)]
                    s.unload_file(k)
                    del model[k]
            elif op == 'unknown':
                uid = [12, None, 'x'][n]
                try:
                    s.unload_file(uid)
                    ctx.fail('an unknown uid was unloaded', here, 'LookupError', 'no exception')
                except LookupError:
                    pass
            elif op == 'rename':
                if model:
                    k = sorted(model)[n % len(model)]
                    model[k]._name = ['untitled', 'untitled1', 'untitled2'][n]
            loaded = dict(s.loaded_files)
            same = sorted(loaded) == sorted(model) and all(loaded[k] is model[k] for k in model)
            if not ctx.check(same, 'loaded graphs after ' + op, here,
                             sorted(map(repr, model)), sorted(map(repr, loaded))):
                return
    finally:
        if clock:
            T.time = clock


OPS = ('new', 'load', 'get', 'bad', 'unload', 'unknown', 'rename')
SITES = ('popen', 'client', 'exec', 'cache', 'build_stage', 'execute', 'execute_nodes')


def replay_input(ctx, inp):
    if 'ops' in inp:
        table_case(ctx, inp)
    else:
        inp = json.loads(json.dumps(inp))
        exec_case(ctx, inp)


def replay(ctx, rec):
    replay_input(ctx, rec['input'])


def systematic():
    for kind in ('graph', 'context', 'nodes'):
        for trig, where in ((None, 'top'), ('_remote_sub_graph', 'top'), ('_sub_graph', 'sub'),
                            ('_remote_sub_graph', 'sub'), ('_sub_graph', 'top')):
            base = {'kind': kind, 'trigger': trig, 'where': where}
            for world in ({}, {'foreign': True}, {'port_taken': True}, {'starts': False},
                          {'wait': 3}, {'kill': 'raises'}, {'kill': 'lost'}):
                yield dict(base, world=world)
            for site in SITES:
                for nth in (1, 2, 3):
                    yield dict(base, world={'faults': [[site, nth]]})
                    if nth == 1 and site != 'client':
                        yield dict(base, world={'faults': [[site, nth]], 'foreign': True})
            for code in (['raise ValueError'], ['raise SystemExit'], ['exit()'],
                         ['import sys; sys.exit(1)']):
                yield dict(base, world={}, code=code)
            yield dict(base, world={}, standalone=False)
            yield dict(base, world={}, times=2)
            yield dict(base, world={'faults': [['execute_nodes', 1]]}, times=2)
            yield dict(base, world={}, start='/missing')
    for clock in (False, True):
        yield {'ops': [['new', 0]] * 4, 'clock': clock}
        yield {'ops': [['load', 0], ['new', 0], ['load', 2], ['new', 0], ['unload', 0], ['new', 0]],
               'clock': clock}


def run(ctx):
    todo = list(systematic())
    ctx.rng.shuffle(todo)
    go = ctx.slice(0.6)
    for inp in todo:
        if not go():
            break
        keep = json.loads(json.dumps(inp))
        ctx.case('table: systematic' if 'ops' in inp else 'execution: systematic')
        ctx.seen(json.dumps(keep, sort_keys=True))
        n = len(ctx.violations)
        replay_input(ctx, inp)
        for v in ctx.violations[n:]:
            v['input'] = keep
    r = ctx.rng
    while ctx.more():
        if r.random() < 0.5:
            inp = {'ops': [[r.choice(OPS), r.randrange(3)] for _ in range(r.randint(1, 14))],
                   'clock': r.random() < 0.2}
            ctx.case('table: random')
        else:
            inp = {'kind': r.choice(('graph', 'context', 'nodes')),
                   'trigger': r.choice((None,) + TRIGGERS), 'where': r.choice(('top', 'sub')),
                   'deep': r.random() < 0.2, 'times': r.choice((1, 1, 2, 3)),
                   'start': r.choice((None, '/a', '/b')),
                   'code': [r.choice(('pass', 'raise KeyError', 'exit()', 'x = 1'))],
                   'standalone': r.random() < 0.9,
                   'world': {'foreign': r.random() < 0.2, 'port_taken': r.random() < 0.1,
                             'starts': r.random() < 0.9, 'wait': r.randrange(6),
                             'kill': r.choice(('ok', 'ok', 'raises', 'lost')),
                             'faults': [[r.choice(SITES), r.randint(1, 4)]
                                        for _ in range(r.randrange(3))]}}
            if inp['world']['foreign']:
                # a client that fails while another server runs cannot tell whose server it is
                inp['world']['faults'] = [f for f in inp['world']['faults'] if f[0] != 'client']
            ctx.case('execution: random')
        keep = json.loads(json.dumps(inp))
        ctx.seen(json.dumps(keep, sort_keys=True))
        n = len(ctx.violations)
        replay_input(ctx, inp)
        for v in ctx.violations[n:]:
            if 'ops' not in keep:
                v['input'] = keep
