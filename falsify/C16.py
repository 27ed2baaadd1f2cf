"""C16: enter/exit histories of a cache layer against a list model."""
import json

from nxt.nxt_layer import CacheLayer

NODES = ['/a', '/b', '/a/b', '/', '/node']


def entries(cache, node):
    return [list(e) for e in cache.node_time_map.get(node, [])]


def case(ctx, ops):
    inp = {'ops': ops}
    cache = CacheLayer()
    model, order = {}, []          # node -> list of [enter, exit]
    for op in ops:
        w = dict(inp, at=op)
        kind, node = op[0], op[1] if len(op) > 1 else None
        if kind == 'enter':
            ok, _ = ctx.guarded('set_node_enter_time', w, cache.set_node_enter_time, node, op[2])
            if not ok:
                return
            e = [op[2], None]
            model.setdefault(node, []).append(e)
            order.append(e)
        elif kind == 'exit':
            opens = [e for e in model.get(node, []) if e[1] is None]
            try:
                cache.set_node_exit_time(node, op[2])
                raised = None
            except Exception as ex:
                raised = ex
            if opens:
                if not ctx.check(raised is None, 'closing an open entry raises', w, 'no error',
                                 repr(raised)):
                    return
                opens[-1][1] = op[2]
            elif not ctx.check(raised is not None, 'closing a node without an open entry is no error',
                               w, 'an error', 'none'):
                return
        elif kind == 'time':
            runs = model.get(node, [])
            try:
                e = runs[op[2]]
                exp = None if e[1] is None else e[1] - e[0]
                skip = e[1] is None
            except IndexError:
                exp, skip = ValueError, False
            if not skip:
                try:
                    got = cache.get_node_run_time(node, op[2])
                except Exception as ex:
                    got = type(ex)
                ctx.check(got == exp if exp is not ValueError else
                          isinstance(got, type) and issubclass(got, ValueError),
                          'reported run time', w, exp, got)
        elif kind == 'last':
            runs = model.get(node, [])
            if not runs or runs[-1][1] is not None:
                try:
                    got = cache.get_node_run_time(node)
                except ValueError:
                    got = None
                except Exception as ex:
                    got = repr(ex)
                exp = runs[-1][1] - runs[-1][0] if runs else None
                ctx.check(got == exp, 'reported time of the last run', w, exp, got)
        else:
            t = op[1]
            exp = any(a <= t and (b is None or t <= b) for a, b in order)
            ok, got = ctx.guarded('was_during_node_exec', w, cache.was_during_node_exec, t)
            if not ok:
                return
            ctx.check(bool(got) == exp, 'was during execution', w, exp, got)
        got = {n: entries(cache, n) for n in cache.node_time_map}
        exp = {n: [list(e) for e in v] for n, v in model.items()}
        if not ctx.check({n: v for n, v in got.items() if v} == exp, 'recorded times by node', w,
                         exp, got):
            return
        got = [list(e) for e in cache.node_times]
        if not ctx.check(got == [list(e) for e in order], 'recorded times in order', w, order, got):
            return


def rand_ops(rng):
    ops, t = [], 0
    ns = rng.sample(NODES, rng.randrange(1, 4))
    times = [rng.choice([1, 2, 3, 5, .5, 7.25, -1, 100]) for _ in range(3)]
    mono = rng.random() < .5
    for _ in range(rng.randrange(1, 14)):
        if mono:
            t += rng.choice([1, 0, .5])
            tt = t or 1
        else:
            tt = rng.choice(times)
        n = rng.choice(ns)
        r = rng.random()
        if r < .35:
            ops.append(['enter', n, tt])
        elif r < .65:
            ops.append(['exit', n, tt])
        elif r < .78:
            ops.append(['time', n, rng.randrange(-4, 4)])
        elif r < .85:
            ops.append(['last', n])
        else:
            ops.append(['during', tt + rng.choice([0, 0, .25, -.25])])
    return ops


def run(ctx):
    rng = ctx.rng
    # without a given time the clock is used
    import time
    for n in NODES:
        c = CacheLayer()
        a = time.time()
        c.set_node_enter_time(n)
        c.set_node_exit_time(n)
        b = time.time()
        e = entries(c, n)[0]
        ctx.check(a <= e[0] <= e[1] <= b, 'clock times of a run', {'ops': [['enter', n, 0.],
                  ['exit', n, 0.]]}, 'between the calls', [a, e, b])
        ctx.case('clock')
    # a history through the cache layer of every combination of four events on two nodes
    import itertools
    ev = [['enter', '/a', 1], ['exit', '/a', 3], ['enter', '/b', 2], ['exit', '/b', 4],
          ['enter', '/a', 2.5]]
    for k in range(1, 5):
        for s in itertools.product(ev, repeat=k):
            case(ctx, list(s) + [['time', '/a', 0], ['time', '/a', 1], ['time', '/b', -1],
                                 ['last', '/a'], ['last', '/b']] +
                 [['during', x] for x in (.5, 1, 2, 2.2, 3, 3.5, 4, 9)])
            ctx.case('all short histories')
    while ctx.more():
        ops = rand_ops(rng)
        ctx.case('random histories')
        ctx.seen(json.dumps(ops))
        case(ctx, ops)


def replay(ctx, rec):
    case(ctx, rec['input']['ops'])
