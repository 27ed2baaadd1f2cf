"""C12: dependency maps: affected nodes against plain reachability, record/remove against sets."""
import copy
import json
import signal

from nxt.nxt_layer import CompLayer
from nxt.stage import Stage

PATHS = ['/a', '/b', '/a/b', '/a/b/c', '/ab', '/c', '/d', '/d/e', '/node', '/node1']


class Hang(Exception):
    pass


def alarm(*_):
    raise Hang()


def fresh(s):
    """An equal string that is a different object."""
    return ''.join([s[:1], s[1:]])


def reach(m, start):
    out, todo = [], list(m.get(start, []))
    while todo:
        x = todo.pop(0)
        if x not in out:
            out.append(x)
            todo += m.get(x, [])
    return out


def query_case(ctx, m, start):
    inp = {'map': m, 'start': start}
    comp = CompLayer()
    comp._dirty_map = {fresh(k): [fresh(x) for x in v] for k, v in m.items()}
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(5)
    try:
        got = comp.get_node_dirties(start)
    except Hang:
        ctx.fail('asking which nodes are affected does not terminate', inp, 'an answer', 'no end')
        return
    except Exception as e:
        ctx.fail('get_node_dirties raised ' + type(e).__name__, inp, 'no exception', str(e))
        return
    finally:
        signal.alarm(0)
    ctx.check(len(got) == len(set(got)), 'an affected node is reported twice', inp, 'once', got)
    ctx.check(set(got) == set(reach(m, start)), 'affected nodes are not the reachable ones', inp,
              sorted(reach(m, start)), sorted(got))
    ctx.check(comp._dirty_map == m, 'asking changed the dependency map', inp, m, comp._dirty_map)
    got.append('/x')
    got2 = comp.get_node_dirties(start)
    ctx.check(set(got2) == set(reach(m, start)), 'the answer aliases the dependency map', inp,
              sorted(reach(m, start)), sorted(got2))


def history_case(ctx, ops):
    """ops: [['add', node, concern] | ['rm', node] | ['ask', node]]"""
    inp = {'ops': ops}
    m, model = {}, {}
    comp = CompLayer()
    comp._dirty_map = m
    for op in ops:
        w = dict(inp, at=op)
        if op[0] == 'add':
            ok, res = ctx.guarded('extend_dirty_map', w, Stage.extend_dirty_map, fresh(op[1]),
                                  fresh(op[2]), m)
            if not ok:
                return
            ctx.check(res is m, 'extend_dirty_map returns another map', w, 'the map', res)
            if op[1] != '/' and op[2] != '/' and op[1] != op[2]:
                model.setdefault(op[1], [])
                if op[2] not in model[op[1]]:
                    model[op[1]].append(op[2])
        elif op[0] == 'rm':
            ok, res = ctx.guarded('remove_from_dirty_map', w, Stage.remove_from_dirty_map,
                                  fresh(op[1]), m)
            if not ok:
                return
            ctx.check(res is m, 'remove_from_dirty_map returns another map', w, 'the map', res)
            if op[1] != '/':
                model.pop(op[1], None)
                for v in model.values():
                    if op[1] in v:
                        v.remove(op[1])
        else:
            ok, res = ctx.guarded('get_node_dirties', w, comp.get_node_dirties, op[1])
            if not ok:
                return
            ctx.check(sorted(res) == sorted(set(reach(m, op[1]))),
                      'affected nodes after a history', w, sorted(reach(m, op[1])), res)
        got = {k: v for k, v in m.items() if v}
        exp = {k: v for k, v in model.items() if v}
        norm = lambda d: {k: sorted(x for x in v if x != k) for k, v in d.items()
                          if [x for x in v if x != k]}
        if not ctx.check(norm(got) == norm(exp) and all(len(v) == len(set(v)) for v in m.values()),
                         'recorded dependencies differ from the history', w, exp, got):
            return
        ctx.check('/' not in m and not any('/' in v for v in m.values()),
                  'a dependency on or of the world is recorded', w, 'none', m)


def rand_map(rng):
    ps = rng.sample(PATHS, rng.randrange(1, len(PATHS) + 1))
    dens = rng.choice([.05, .15, .3, .6])
    m = {}
    for p in ps:
        v = [q for q in ps if rng.random() < dens]
        rng.shuffle(v)
        if v or rng.random() < .2:
            m[p] = v
    return m


def run(ctx):
    rng = ctx.rng
    # all maps over three nodes
    ps = PATHS[:3]
    for bits in range(512):
        m = {p: [q for j, q in enumerate(ps) if bits >> (3 * i + j) & 1] for i, p in enumerate(ps)}
        for p in ps:
            query_case(ctx, m, p)
            ctx.case('all maps over three nodes')
    # long chains and rings
    for n in (50, 400):
        m = {'/n%d' % i: ['/n%d' % ((i + 1) % n)] for i in range(n)}
        query_case(ctx, m, '/n3')
        del m['/n%d' % (n - 1)]
        query_case(ctx, m, '/n3')
        ctx.case('long chains', 2)
    while ctx.more():
        m = rand_map(rng)
        for _ in range(4):
            query_case(ctx, m, rng.choice(PATHS + ['/nope']))
        ctx.seen(json.dumps(m, sort_keys=True))
        ctx.case('random maps', 4)
        ops = []
        for _ in range(rng.randrange(1, 25)):
            r = rng.random()
            p = lambda: rng.choice(PATHS[:6] + ['/'] if rng.random() < .9 else PATHS)
            ops.append(['add', p(), p()] if r < .65 else ['rm', p()] if r < .85 else ['ask', p()])
        history_case(ctx, ops)
        ctx.case('record/remove histories')


def replay(ctx, rec):
    i = rec['input']
    if 'ops' in i:
        history_case(ctx, i['ops'])
    else:
        query_case(ctx, i['map'], i['start'])
