"""C11: running random node lists whose codes log, leak, declare, change attributes, exit or fail."""
import builtins
import json
import re

from nxt import nxt_path
from nxt.nxt_node import INTERNAL_ATTRS as IA
from nxt.runtime import GraphError, ExitGraph, ExitNode
import C06

NODES = ['/a', '/a/b', '/a/b/c', '/d', '/e', '/f/g']
VARS = ['v', 'vv', 'x1', 'x11', 'ab']
ENDS = ['', '', '', 'exit_node', 'exit_graph', 'error', 'sysexit', 'name', 'syntax', 'nested', 'loop']


def code_of(spec):
    """Python text of a node from its description."""
    lines = ["__import__('builtins')._nxt_log.append(('run', %r))" % spec['path']]
    for v in spec.get('globals', []):
        lines.append('global ' + v)
    if spec.get('globals2'):
        lines.append('global ' + ', '.join(spec['globals2']))
    if spec.get('comment'):
        lines.append('# global ' + spec['comment'])
    lines.append("__import__('builtins')._nxt_log.append(('sees', [v for v in %r if v in globals()]))"
                 % VARS)
    if spec.get('comment'):
        lines.append(spec['comment'] + ' = 3')
    for v in spec.get('sets', []):
        lines.append('%s = %r' % (v, spec['path']))
    if spec.get('imports'):
        lines.append('import json as ' + spec['imports'])
    for a, v in spec.get('attrs', {}).items():
        lines.append('self.%s = %r' % (a, v))
    lines.append("__import__('builtins')._nxt_log.append(('attr', getattr(self, 'k', None)))")
    end = spec.get('end')
    if end == 'exit_node':
        lines.append("raise ExitNode('done')")
    elif end == 'exit_graph':
        lines.append("raise ExitGraph('stop')")
    elif end == 'error':
        lines.append('1/0')
    elif end == 'sysexit':
        lines.append('import sys')
        lines.append('sys.exit(3)')
    elif end == 'name':
        lines.append('undefined_thing')
    elif end == 'syntax':
        lines.append('if :')
    elif end == 'nested':
        lines += ['def f():', '    raise KeyError(1)', 'f()']
    elif end == 'loop':
        lines += ['for _i in [1]:', "    raise ExitNode()"]
    if end:
        lines.append("__import__('builtins')._nxt_log.append(('after', %r))" % spec['path'])
    return lines


def case(ctx, spec):
    """spec: {nodes: {path: description}, order: [paths], layer_of: {path: layer index}, params}"""
    inp = spec
    nl = 1 + max([0] + list(spec['layer_of'].values()))
    layers = [{'nodes': {}} for _ in range(nl)]
    for p, d in spec['nodes'].items():
        n = {'code': code_of(d)}
        if 'k' in d:
            n['attrs'] = {'k': {'value': d['k']}}
        if 'enabled' in d:
            n['enabled'] = d['enabled']
        layers[spec['layer_of'].get(p, 0)]['nodes'][p] = n
    stage = C06.make_stage(layers)
    before = [C06.layer_image(l) for l in stage._sub_layers]
    comp = stage.build_stage()
    log = builtins._nxt_log = []
    rt = [None]
    orig = stage.setup_runtime_layer

    def setup(*a, **k):
        rt[0] = orig(*a, **k)
        return rt[0]
    stage.setup_runtime_layer = setup
    outcome, res = None, None
    try:
        res = stage.execute_nodes(list(spec['order']), comp, parameters=spec.get('params'))
        outcome = 'done'
    except ExitGraph as e:
        outcome, res = 'exit_graph', e.runtime_layer
    except GraphError as e:
        outcome = 'error'
    except BaseException as e:  # noqa
        if isinstance(e, KeyboardInterrupt):
            raise
        ctx.fail('a failing node is not reported as a graph error', inp, 'GraphError',
                 type(e).__name__ + ': ' + str(e)[:300])
        return
    # ---- oracle
    exp_log, exp_out = [], 'done'
    kept, started = [], []
    vals = {}

    def current(p):
        """Value of attribute k seen by node p (own or nearest ancestor's current one)."""
        while p != '/':
            if p in vals:
                return vals[p]
            d = spec['nodes'].get(p)
            if d is not None and 'k' in d:
                return d['k']
            p = C06.par(p)
        return None
    for ap, v in (spec.get('params') or {}).items():
        n, a = ap.rsplit('.', 1)
        if n in spec['nodes'] and a == 'k':
            vals[n] = str(v)
    for p in spec['order']:
        d = spec['nodes'].get(p)
        if d is None:
            exp_out = 'error'
            break
        if d.get('enabled') is False:
            continue
        end = d.get('end') or ''
        started.append(p)
        if end == 'syntax':
            exp_out = 'error'
            break
        exp_log.append(('run', p))
        exp_log.append(('sees', [v for v in VARS if v in kept]))
        cur = current(p)
        at = d.get('attrs', {}).get('k', cur)
        exp_log.append(('attr', at))
        declared = list(d.get('globals', [])) + list(d.get('globals2', []) or [])
        created = list(d.get('sets', []))
        for v in created:
            if v in declared and v not in kept:
                kept.append(v)
        ok_end = end in ('', 'exit_node', 'loop', 'exit_graph')
        if ok_end and cur is not None and 'k' in d.get('attrs', {}):
            vals[p] = d['attrs']['k']
        if end == 'exit_graph':
            exp_out = 'exit_graph'
            break
        if not ok_end:
            exp_out = 'error'
            break
    ctx.check(outcome == exp_out, 'outcome of a run', inp, exp_out, outcome)
    ctx.check([x for x in log if x[0] in ('run', 'after')] == [x for x in exp_log if x[0] == 'run'],
              'the code that ran is not that of the enabled nodes in order', inp, exp_log, log)
    ctx.check([x for x in log if x[0] == 'sees'] == [x for x in exp_log if x[0] == 'sees'],
              'variables visible to later nodes', inp, exp_log, log)
    ctx.check([x for x in log if x[0] == 'attr'] == [x for x in exp_log if x[0] == 'attr'],
              'attribute values visible to later nodes', inp, exp_log, log)
    if outcome in ('done', 'exit_graph'):
        if not ctx.check(res is not None and res is rt[0], 'the runtime layer is not handed back', inp,
                         'runtime layer', repr(res)):
            return
    runtime = rt[0]
    if runtime is None:
        return
    times = runtime.cache_layer.node_time_map
    got = {n: len(v) for n, v in times.items() if v}
    exp = {}
    for p in started:
        exp[p] = exp.get(p, 0) + 1
    ctx.check(got == exp, 'started nodes and recorded times disagree', inp, exp, got)
    ctx.check(all(e[1] is not None and e[1] >= e[0] for v in times.values() for e in v),
              'a started node has no exit time', inp, 'paired times',
              {k: [list(e) for e in v] for k, v in times.items()})
    ctx.check(not runtime.running, 'the runtime layer is left marked as running', inp, False, True)
    left = [v for v in VARS if v in runtime._console.globals]
    ctx.check(left == [v for v in VARS if v in kept] or outcome == 'error' and
              set(left) >= set(kept) and set(left) - set(kept) <=
              set(spec['nodes'].get(started[-1], {}).get('globals', []) +
                  (spec['nodes'].get(started[-1], {}).get('globals2') or [])),
              'variables left in the console', inp, kept, left)
    for p, v in vals.items():
        node = runtime.cache_layer.lookup(p)
        if node is None or outcome == 'error' and p == started[-1]:
            continue
        ctx.check(getattr(node, 'k', None) == v, 'attribute change not in the cache', inp, [p, v],
                  getattr(node, 'k', None))
        rn = runtime.lookup(p)
        ctx.check(getattr(rn, 'k', None) == v, 'attribute change lost in the runtime layer', inp,
                  [p, v], getattr(rn, 'k', None))
    for p in set(started):
        ctx.check(runtime.cache_layer.lookup(p) is not None, 'a run node is missing in the cache',
                  inp, p, sorted(runtime.cache_layer.nodes))
    after = [C06.layer_image(l) for l in stage._sub_layers]
    ctx.check(before == after, 'a run modified a stored layer', inp, before, after)


def rand_spec(rng):
    names = [n for n in NODES if rng.random() < .7] or ['/a']
    nodes = {}
    pe = rng.choice([.1, .3])
    for p in names:
        d = {'path': p}
        if rng.random() < .3:
            d['k'] = rng.choice(['txt', 'other text', 'k0'])
        if rng.random() < .25:
            d['enabled'] = rng.random() < .5
        d['sets'] = rng.sample(VARS, rng.randrange(0, 4))
        if rng.random() < .35:
            d['globals'] = rng.sample(VARS, rng.randrange(1, 3))
        if rng.random() < .15:
            d['globals2'] = [v for v in rng.sample(VARS, 2) if v not in d.get('globals', [])]
        if rng.random() < .15:
            d['comment'] = rng.choice(VARS)
            if d['comment'] in d.get('globals', []) + d.get('globals2', []):
                del d['comment']
        if rng.random() < .3:
            d['attrs'] = {'k': rng.choice(['changed', 'new text ' + p])}
        if rng.random() < pe:
            d['end'] = rng.choice(ENDS)
        nodes[p] = d
    order = [rng.choice(names) for _ in range(rng.randrange(1, 7))] if rng.random() < .5 else \
        rng.sample(names, rng.randrange(1, len(names) + 1))
    if rng.random() < .04:
        order.insert(rng.randrange(len(order) + 1), '/missing')
    spec = {'nodes': nodes, 'order': order,
            'layer_of': {p: rng.randrange(3) for p in names} if rng.random() < .4 else {}}
    if rng.random() < .2:
        spec['params'] = {rng.choice(names) + '.k': rng.choice(['p', 'p q', 'given'])}
    return spec


def nested(ctx, spec):
    """spec: {tree: {path: {calls: [[paths]], end, catch}}, order, limit}: nodes whose codes execute
    other nodes, or themselves, and change an attribute afterwards."""
    inp = spec
    nodes = {}
    for p, d in spec['tree'].items():
        lines = ["_log = __import__('builtins')._nxt_log", "_log.append(['start', self._node_path])"]
        for paths in d['calls']:
            call = "execute(%r)" % (paths,)
            if d.get('start') and len(paths) == 1:
                call = "execute(start=%r)" % paths[0]
            lines.append("if len(_log) < %d:" % spec['limit'])
            if d.get('catch'):
                lines += ["    try:", "        " + call, "    except ExitGraph:", "        raise",
                          "    except Exception:", "        pass"]
            else:
                lines.append("    " + call)
            lines.append("_log.append(['back', self._node_path])")
        lines.append("self.k = 'set by ' + %r" % p)
        lines += {'exit_node': ["raise ExitNode()"], 'exit_graph': ["raise ExitGraph()"],
                  'error': ["1/0"]}.get(d.get('end'), [])
        nodes[p] = {'code': lines, 'attrs': {'k': {'value': 'at first'}}}
    stage = C06.make_stage([{'nodes': nodes}])
    comp = stage.build_stage()
    log = builtins._nxt_log = []
    rt = [None]
    orig = stage.setup_runtime_layer

    def setup(*a, **k):
        rt[0] = orig(*a, **k)
        return rt[0]
    stage.setup_runtime_layer = setup
    try:
        stage.execute_nodes(list(spec['order']), comp)
        outcome = 'done'
    except ExitGraph:
        outcome = 'exit_graph'
    except GraphError:
        outcome = 'error'
    exp, done, runs = [], set(), {}

    class Bad(Exception):
        pass

    class Quit(Exception):
        pass

    def perform(p):
        d = spec['tree'][p]
        runs[p] = runs.get(p, 0) + 1
        exp.append(['start', p])
        for paths in d['calls']:
            if len(exp) < spec['limit']:
                try:
                    for q in paths:
                        perform(q)
                except Bad:
                    if not d.get('catch'):
                        raise
            exp.append(['back', p])
        if d.get('end') == 'error':
            raise Bad()
        done.add(p)
        if d.get('end') == 'exit_graph':
            raise Quit()
    want = 'done'
    try:
        for p in spec['order']:
            perform(p)
    except Bad:
        want = 'error'
    except Quit:
        want = 'exit_graph'
    if not ctx.check(outcome == want, 'outcome of a run with nested runs', inp, want, outcome) or \
            not ctx.check(log == exp, 'the nodes that nested runs go through', inp, exp, log):
        return
    runtime = rt[0]
    times = runtime.cache_layer.node_time_map
    ctx.check({n: len(v) for n, v in times.items() if v} == runs, 'runs and recorded times disagree',
              inp, runs, {n: len(v) for n, v in times.items()})
    ctx.check(all(e[1] is not None and e[1] >= e[0] for v in times.values() for e in v),
              'a nested run leaves a node without an exit time', inp, 'paired times', times)
    ctx.check(not runtime.running, 'the runtime layer is left marked as running', inp, False, True)
    for p in done:
        got = [getattr(runtime.lookup(p), 'k', None),
               getattr(runtime.cache_layer.lookup(p), 'k', None)]
        ctx.check(got == ['set by ' + p] * 2, 'an attribute change after a nested run is lost', inp,
                  ['set by ' + p] * 2, got)


def rand_nested(rng):
    names = ['/a', '/b', '/c', '/d/e']
    tree = {}
    for i, p in enumerate(names):
        d = {'calls': []}
        for _ in range(rng.choice([0, 0, 1, 1, 2]) if i < 3 else 0):
            later = names[i + 1:] if rng.random() < .8 else names
            d['calls'].append([rng.choice(later) for _ in range(rng.randrange(1, 3))])
        if rng.random() < .2:
            d['end'] = rng.choice(['exit_node', 'exit_node', 'exit_graph', 'error'])
        if rng.random() < .4:
            d['catch'] = 1
        if rng.random() < .2:
            d['start'] = 1
        tree[p] = d
    tree['/d'] = {'calls': []}
    for p, d in tree.items():
        if any('/d' == q for c in d['calls'] for q in c):
            d.pop('start', None)
    return {'tree': tree, 'order': [rng.choice(names) for _ in range(rng.randrange(1, 4))],
            'limit': rng.choice([6, 12, 20])}


def run(ctx):
    rng = ctx.rng
    while ctx.more():
        if rng.random() < .12:
            spec = rand_nested(rng)
            ctx.case('nested runs')
            ctx.seen(json.dumps(spec, sort_keys=True))
            nested(ctx, spec)
            continue
        spec = rand_spec(rng)
        ctx.case('node lists')
        for d in spec['nodes'].values():
            if d.get('end'):
                ctx.case('end ' + d['end'], 0)
        ctx.seen(json.dumps(spec, sort_keys=True))
        case(ctx, spec)


def replay(ctx, rec):
    if 'tree' in rec['input']:
        nested(ctx, rec['input'])
    else:
        case(ctx, rec['input'])
