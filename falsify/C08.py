"""C08: child order merging, ordered children, and the two sorts against direct oracles."""
import copy
import itertools
import json
from collections import OrderedDict

from nxt import nxt_layer, nxt_node
from nxt.nxt_layer import SpecLayer, LayerReturnTypes as RT

NAMES = ['a', 'b', 'c', 'd', 'e', 'aa', 'ab', 'node', 'node1', 'node10', 'z', '_', 'A', u'\u00e9']


def merge_case(ctx, base, over):
    inp = {'base': base, 'overlay': over}
    b, o = base[:], over[:]
    ok, res = ctx.guarded('list_merger', inp, nxt_node.list_merger, b, o)
    if not ok:
        return
    ctx.check(b == base and o == over, 'list_merger changed an input list', inp, [base, over], [b, o])
    ctx.check(res is not b and res is not o, 'list_merger hands out an input list itself', inp,
              'a new list', res)
    ctx.check(len(res) == len(set(res)), 'merged order repeats a name', inp, 'no repeats', res)
    ctx.check(set(res) == set(base) | set(over), 'merged order has not exactly the names of either',
              inp, sorted(set(base) | set(over)), res)
    ctx.check([x for x in res if x in base] == base, 'base order not kept', inp, base, res)


def layer_for(nodes, orders):
    data = {'nodes': {}}
    for p in nodes:
        data['nodes'][p] = {}
    layer = SpecLayer(copy.deepcopy(data))
    for p, co in orders.items():
        node = layer.lookup(p)
        if node is not None:
            setattr(node, nxt_node.INTERNAL_ATTRS.CHILD_ORDER, co[:])
    return layer


def ordered_oracle(nodes, parent, co):
    pre = '/' if parent == '/' else parent + '/'
    kids = [p[len(pre):] for p in nodes if p != '/' and p.startswith(pre) and '/' not in p[len(pre):]]
    first = [n for n in co if n in kids]
    return [pre + n for n in first], set(pre + n for n in kids)


def ordered_case(ctx, nodes, orders, queries):
    inp = {'nodes': nodes, 'orders': orders, 'queries': queries}
    layer = layer_for(nodes, orders)
    saved = {p: list(o) for p, o in orders.items()}
    for parent, rt in queries:
        if layer.lookup(parent) is None:
            continue
        co = getattr(layer.lookup(parent), nxt_node.INTERNAL_ATTRS.CHILD_ORDER)
        first, kids = ordered_oracle(nodes, parent, co)
        ok, got = ctx.guarded('children(ordered=True)', inp, layer.children, parent, rt, True)
        if not ok:
            return
        if rt == RT.Node:
            paths = [layer.get_node_path(n) for n in got]
        elif rt == RT.NodeTable:
            ctx.check(all(layer.lookup(p) is n for p, n in got), 'ordered table pairs wrong nodes',
                      inp, parent, [p for p, _ in got])
            paths = [p for p, _ in got]
        else:
            paths = list(got)
        w = dict(inp, asked=[parent, rt])
        ctx.check(len(paths) == len(set(paths)), 'ordered children list a child twice', w,
                  sorted(kids), paths)
        ctx.check(set(paths) == kids, 'ordered children are not exactly the children', w,
                  sorted(kids), paths)
        ctx.check(paths[:len(first)] == first, 'children named in the child order do not come first '
                  'in that order', w, first, paths)
        co2 = getattr(layer.lookup(parent), nxt_node.INTERNAL_ATTRS.CHILD_ORDER)
        if parent in saved:
            ctx.check(co2 == saved[parent], 'asking for ordered children changed the child order', w,
                      saved[parent], co2)


def sort_case(ctx, lens, idx, width):
    table = []
    for k, n in enumerate(lens):
        row = [['%d.%d' % (k, j)] * (k % 3) for j in range(width)]
        row[idx] = ['x%d' % k] * n
        table.append(row)
    inp = {'lens': lens, 'idx': idx, 'width': width}
    before = copy.deepcopy(table)
    rows = [id(r) for r in table]
    ok, res = ctx.guarded('sort_multidimensional_list', inp, nxt_layer.sort_multidimensional_list,
                          table, idx)
    if not ok:
        return
    exp = sorted(before, key=lambda r: len(r[idx]))
    ctx.check(sorted(map(json.dumps, res)) == sorted(map(json.dumps, before)),
              'sorting by depth is not a permutation', inp, before, res)
    got = [len(r[idx]) for r in res]
    ctx.check(got == sorted(lens), 'sorting by depth is not sorted', inp, sorted(lens), got)
    ctx.check(res == exp, 'sorting by depth moves entries of equal depth', inp, exp, res)


def nodes_dict_case(ctx, keys):
    d = OrderedDict((k, {'i': i}) for i, k in enumerate(keys))
    orig = list(d.items())
    inp = {'keys': keys}
    ok, res = ctx.guarded('order_nodes_dict', inp, nxt_layer.order_nodes_dict, d)
    if not ok:
        return
    ctx.eq('ordering node data by path', inp, sorted(orig), list(res.items()))
    ctx.check(all(res.get(k) is v for k, v in orig), 'ordering node data replaced the data', inp,
              'same objects', list(res.items()))
    ctx.check(list(d.items()) == orig, 'ordering node data changed its input', inp, orig,
              list(d.items()))


def table_case(ctx, nodes):
    layer = layer_for(nodes, {})
    layer.refresh()
    got = ['/' + '/'.join(ns) if ns != ['/'] else '/' for ns, n in layer._node_table]
    inp = {'nodes': nodes}
    ctx.check(sorted(got) == sorted(layer._nodes_path_as_key), 'node table is not the nodes once each',
              inp, sorted(layer._nodes_path_as_key), got)
    d = [len(ns) for ns, _ in layer._node_table]
    ctx.check(d == sorted(d), 'node table is not sorted by depth', inp, sorted(d), d)
    order = list(layer._nodes_path_as_key)
    for depth in set(d):
        a = [layer.get_node_path(n) for ns, n in layer._node_table if len(ns) == depth]
        b = [p for p in order if p in set(a)]
        ctx.check(a == b, 'node table moves entries of equal depth', inp, b, a)


def rand_tree(rng):
    nodes = ['/'] if rng.random() < .7 else []
    for _ in range(rng.randrange(0, 12)):
        base = rng.choice([n for n in nodes if n.count('/') < 4] or ['/'])
        n = ('/' if base == '/' else base + '/') + rng.choice(NAMES)
        if n not in nodes:
            nodes.append(n)
    rng.shuffle(nodes)
    return nodes


def run(ctx):
    rng = ctx.rng
    for rec in ctx.extra:
        p = rec.get('params', {})
        if 'base_list' in p:
            try:
                b, o = list(p['base_list']), list(p['overlay_list'])
                if len(set(b)) == len(b) and len(set(o)) == len(o):
                    ctx.case('solver')
                    merge_case(ctx, b, o)
            except Exception:
                pass
    # exhaustive small merges
    pool = ['a', 'b', 'c', 'd', 'e']
    n = 4 if ctx.tier == 'quick' else 5
    seqs = [list(s) for k in range(n + 1) for s in itertools.permutations(pool[:n], k)]
    go = ctx.slice(.35)
    for b in seqs:
        for o in seqs:
            merge_case(ctx, b, o)
        ctx.case('exhaustive merges', len(seqs))
        if not go():
            break
    go = ctx.slice(.5)
    while go():
        b = rng.sample(NAMES, rng.randrange(0, len(NAMES)))
        o = rng.sample(NAMES, rng.randrange(0, len(NAMES)))
        if rng.random() < .3:
            o = [x for x in o if x in b] + [x for x in NAMES if x not in b][:2]
        ctx.case('random merges')
        ctx.seen((tuple(b), tuple(o)))
        merge_case(ctx, b, o)
    for k in range(0, 6):
        for lens in itertools.product(range(1, 4), repeat=k):
            sort_case(ctx, list(lens), 0, 2)
            ctx.case('exhaustive sorts')
    go = ctx.slice(.65)
    while go():
        w = rng.randrange(1, 4)
        sort_case(ctx, [rng.randrange(0, 6) for _ in range(rng.randrange(0, 14))], rng.randrange(w), w)
        keys = list(set(rng.choice(['/', '']) + '/'.join(rng.choice(NAMES) for _ in range(
            rng.randrange(1, 4))) for _ in range(rng.randrange(0, 9))))
        rng.shuffle(keys)
        nodes_dict_case(ctx, keys)
        ctx.case('random sorts', 2)
    while ctx.more():
        nodes = rand_tree(rng)
        table_case(ctx, nodes)
        orders = {}
        for p in nodes:
            if rng.random() < .6:
                pre = '/' if p == '/' else p + '/'
                kids = [q[len(pre):] for q in nodes if q != '/' and q.startswith(pre)
                        and '/' not in q[len(pre):]]
                co = list(set(rng.sample(kids, rng.randrange(len(kids) + 1)) +
                              rng.sample(NAMES, rng.randrange(3))))
                rng.shuffle(co)
                orders[p] = co
        if not nodes:
            continue
        queries = [(rng.choice(nodes), rng.choice([RT.Node, RT.Path, RT.NodeTable]))
                   for _ in range(8)]
        ctx.case('ordered children', len(queries))
        ctx.seen(json.dumps([nodes, orders], sort_keys=True))
        ordered_case(ctx, nodes, orders, queries)


def replay(ctx, rec):
    i = rec['input']
    if 'base' in i:
        merge_case(ctx, i['base'], i['overlay'])
    elif 'lens' in i:
        sort_case(ctx, i['lens'], i['idx'], i['width'])
    elif 'keys' in i:
        nodes_dict_case(ctx, i['keys'])
    elif 'orders' in i:
        ordered_case(ctx, i['nodes'], i['orders'], [tuple(q) for q in i['queries']])
    else:
        table_case(ctx, i['nodes'])
