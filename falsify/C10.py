"""C10: execution orders of random composed graphs against an oracle on the bare tree."""
import json
import signal

from nxt.nxt_layer import LayerReturnTypes as RT
from nxt.nxt_node import INTERNAL_ATTRS as IA
import C06

NAMES = ['a', 'b', 'c', 'd', 'ab', 'a1']


class Hang(Exception):
    pass


def alarm(*_):
    raise Hang()


def par(p):
    return p.rpartition('/')[0] or '/'


def kids_of(comp, p):
    """Composed children in child order, from the bare tables."""
    pre = '/' if p == '/' else p + '/'
    names = [q[len(pre):] for q in comp._nodes_path_as_key
             if q != '/' and q.startswith(pre) and '/' not in q[len(pre):]]
    co = list(getattr(comp.lookup(p), IA.CHILD_ORDER)) if comp.lookup(p) is not None else []
    return [pre + n for n in co if n in names], [pre + n for n in names if n not in co]


def check_order(ctx, comp, start, inp):
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(5)
    try:
        got = comp.get_exec_order(start)
    except Hang:
        ctx.fail('computing the execution order does not terminate', inp, 'an order', 'no end')
        return
    except Exception as e:
        ctx.fail('get_exec_order raised ' + type(e).__name__, inp, 'no exception', str(e))
        return
    finally:
        signal.alarm(0)
    if start == '/':
        ctx.eq('execution order of the world', inp, [], got)
        return
    enabled = {p: getattr(n, IA.ENABLED, None) is not False for p, n in comp._nodes_path_as_key.items()}
    ein = {p: getattr(n, IA.EXECUTE_IN, None) for p, n in comp._nodes_path_as_key.items()}
    ctx.check(len(got) == len(set(got)), 'a node appears twice', inp, 'once', got)
    root = '/' + start.split('/')[1]
    all_roots = [p for p in comp._nodes_path_as_key if p != '/' and p.count('/') == 1]
    # chains: at each step any not yet visited root that executes in the last one
    nexts = lambda r, seen: [q for q in all_roots if ein[q] == r and q not in seen]
    # one root block each
    got_roots = []
    for p in got:
        r = '/' + p.split('/')[1]
        if not got_roots or got_roots[-1] != r:
            got_roots.append(r)
    if not ctx.check(len(got_roots) == len(set(got_roots)), 'roots are interleaved', inp, 'blocks', got):
        return

    def block(r, st):
        """Expected content of the block of root r (start st or None) and order constraints."""
        found = st is None or st == r
        begun = [found]
        exp, dis = [], []
        if found and not enabled[r]:
            return [[]]
        pre = [r] if found else []

        def walk(p, off):
            outs = []
            a, b = kids_of(comp, p)
            for c in a + sorted(b, key=order_key):
                if c == st:
                    begun[0] = True
                o = off or not enabled[c]
                if not o and begun[0]:
                    outs.append(c)
                outs += walk(c, o)
            return outs
        return pre + walk(r, False)
    pos = {p: i for i, p in enumerate(got)}
    tab = {p: i for i, p in enumerate(comp._nodes_path_as_key)}

    def order_key(p):
        # children the child order does not name come in the layer's own (table) order
        return tab[p]
    exp, seen, cur, st = [], [root], root, start
    b = block(root, start)
    exp += [] if b == [[]] else b
    options = True
    while True:
        nx = nexts(cur, seen)
        if not nx:
            break
        # follow the chain the code took where the links leave a choice
        cands = [q for q in nx if q in got_roots] or [min(nx, key=lambda q: tab[q])]
        cur = cands[0] if len(nx) > 1 and len(cands) == 1 else min(nx, key=lambda q: tab[q])
        seen.append(cur)
        b = block(cur, None)
        exp += [] if b == [[]] else b
    ctx.eq('execution order', inp, exp, got)
    if enabled[start] and not any(not enabled.get(a, True) for a in ancestors(start) if a != root):
        ctx.check(got[:1] == [start], 'order does not begin with the enabled start node', inp, start,
                  got)


def ancestors(p):
    out = []
    while p.count('/') > 1:
        p = par(p)
        out.append(p)
    return out


def graph(rng):
    nodes = {}
    if rng.random() < .4:
        nodes['/'] = {}
    roots = NAMES[:rng.randrange(1, 6)]
    for r in roots:
        nodes['/' + r] = {}
    for _ in range(rng.randrange(0, 14)):
        b = rng.choice([n for n in nodes if n != '/'])
        if b.count('/') < 5:
            nodes.setdefault(b + '/' + rng.choice(NAMES), {})
    pe = rng.choice([0, .1, .3, .6])
    for p, d in nodes.items():
        if p == '/':
            continue
        if rng.random() < pe:
            d['enabled'] = False
        elif rng.random() < .2:
            d['enabled'] = True
        if rng.random() < .4:
            kids = [q.rpartition('/')[2] for q in nodes if q != '/' and par(q) == p]
            co = list(set(rng.sample(kids, rng.randrange(len(kids) + 1)) + rng.sample(NAMES, 1)))
            rng.shuffle(co)
            d['child_order'] = co
        if p.count('/') == 1 and rng.random() < .7:
            d['execute_in'] = rng.choice(['/' + r for r in roots] + ['/nope', '', '/a/b'])
        elif rng.random() < .1:
            d['execute_in'] = rng.choice(list(nodes))
    if rng.random() < .4:
        # a chain without cycles
        o = roots[:]
        rng.shuffle(o)
        for x, y in zip(o, o[1:]):
            nodes['/' + y]['execute_in'] = '/' + x
    items = list(nodes.items())
    rng.shuffle(items)
    return dict(items)


def case(ctx, layers, starts):
    stage = C06.make_stage(layers)
    comp = stage.build_stage()
    for s in starts:
        if s != '/' and comp.lookup(s) is None:
            continue
        check_order(ctx, comp, s, {'layers': layers, 'starts': [s]})


def run(ctx):
    rng = ctx.rng
    while ctx.more():
        layers = [{'nodes': graph(rng)}]
        if rng.random() < .3:
            layers.append({'nodes': graph(rng)})
        paths = sorted(set(p for l in layers for p in l['nodes']) | {'/'})
        starts = rng.sample(paths, min(4, len(paths)))
        ctx.case('graphs x start nodes', len(starts))
        ctx.seen(json.dumps(layers, sort_keys=True))
        case(ctx, layers, starts)


def replay(ctx, rec):
    case(ctx, rec['input']['layers'], rec['input']['starts'])
