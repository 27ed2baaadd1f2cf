"""C09: generated node and attribute names against the rule in the property."""
import copy
import json
import re

from nxt.nxt_node import INTERNAL_ATTRS
from nxt.stage import Stage
import C06

REQ = ['a', 'b', 'node', 'node1', 'node9', 'a1', 'a01', 'x y', '1a', '12', '9', '-', '!!', 'a-b', '_',
       '__name__', '__name__1', u'\u00e9t\u00e9', u'\u0663z', u'\u00b2', 'a/b', '/a', 'a.b', '.', '..', 'A',
       ' ', '\n', '$', '${x}', 'attr', 'attr1', 'attr10', '_code', '_enabled', '__init__', '__dict__',
       'code', 'name', '_name', '_child_order', '_cached_code', '_parent_path', '__name__', 'attr1 ',
       '0', '00', 'a0', '_1', '1_', 'node 2']


def legalized(s):
    out = ''.join(c if re.match(r'\w\Z', c) else '_' for c in s)
    return '_' + out if s[0].isdigit() else out


def legal(s):
    return bool(re.match(r'\w+\Z', s)) and not s[0].isdigit()


def snapshot(stage):
    return json.dumps([l.get_save_data() for l in stage._sub_layers], sort_keys=True, default=repr)


def node_name_case(ctx, spec):
    """spec: {layers: [[paths]], req, parent, mode}"""
    layers = [{p: {} for p in ps} for ps in spec['layers']]
    stage = C06.make_stage([{'nodes': n} for n in layers])
    req, parent, mode = spec['req'], spec['parent'], spec['mode']
    pre = '/' if parent == '/' else parent + '/'
    if mode == 'spec':
        idx = spec['idx'] % len(layers)
        layer, existing, lo = stage._sub_layers[idx], set(layers[idx]), True
    elif mode == 'comp':
        layer, lo = stage.build_stage(), bool(spec['idx'] % 2)
        existing = set(layer._nodes_path_as_key)
    else:
        layer, lo = stage._sub_layers[spec['idx'] % len(layers)], False
        existing = set(p for n in layers for p in n)
    before = snapshot(stage)
    ok, got = ctx.guarded('get_unique_node_name', spec, stage.get_unique_node_name, req, layer,
                          parent, lo)
    if not ok:
        return
    judge(ctx, 'node', spec, req, got, lambda n: pre + n in existing,
          'node' if req is None else req, set(['__name__']))
    ctx.check(snapshot(stage) == before, 'asking for a node name changed the graph', spec, before,
              snapshot(stage))


def judge(ctx, kind, spec, req, got, used, want, reserved):
    ctx.check(isinstance(got, str) and legal(got), kind + ' name is not legal', spec,
              'word characters, no leading digit', got)
    ctx.check(not used(got), kind + ' name is already used', spec, 'unused', got)
    ctx.check(got not in reserved, kind + ' name is reserved', spec, 'not reserved', got)
    base = legalized(want)
    if legal(want) and not used(want) and want not in reserved:
        ctx.eq(kind + ' name is legal and free but was not returned', spec, want, got)
    elif not used(base) and base not in reserved:
        ctx.eq(kind + ' name only needed to be legalized', spec, base, got)
    else:
        root = base if kind == 'node' else base.rstrip('0123456789')
        ctx.check(got.startswith(root) and got[len(root):].isdigit(),
                  kind + ' name is not the legalized request followed by a number', spec,
                  root + '<number>', got)


def attr_name_case(ctx, spec):
    """spec: {layers: [{path: [attrs]}], req, node, mode, idx}"""
    stage = C06.make_stage([{'nodes': {p: {'attrs': {a: {'value': 'v'} for a in at}}
                                       for p, at in l.items()}} for l in spec['layers']])
    req, node = spec['req'], spec['node']
    if spec['mode'] == 'comp':
        layer = stage.build_stage()
        rel = spec['layers']
    else:
        k = spec['idx'] % len(spec['layers'])
        layer = stage._sub_layers[k]
        rel = [spec['layers'][k]]
    taken = set(a for l in rel for a in l.get(node, []))
    before = snapshot(stage)
    ok, got = ctx.guarded('get_unique_attr_name', spec, stage.get_unique_attr_name, node, layer, req)
    if not ok:
        return
    judge(ctx, 'attribute', spec, req, got, lambda n: n in taken, 'attr' if req is None else req,
          set(INTERNAL_ATTRS.PROTECTED))
    ctx.check(snapshot(stage) == before, 'asking for an attribute name changed the graph', spec,
              before, snapshot(stage))


def numbered(rng, base):
    out = []
    if rng.random() < .8:
        out.append(base)
    n = rng.choice([1, 2, 3, 9, 10, 12, 99, 101]) if rng.random() < .6 else 0
    out += [base + str(i) for i in range(rng.choice([1, 2, 2, 2]), n + 1) if rng.random() < .97]
    return out


def rand_req(rng):
    r = rng.random()
    if r < .05:
        return None
    if r < .8:
        return rng.choice(REQ)
    return ''.join(rng.choice(['a', '1', ' ', '_', '-', '/', '.', u'\u00e9', '\t', '9', '0'])
                   for _ in range(rng.randrange(1, 6)))


def run(ctx):
    rng = ctx.rng
    for q in REQ:
        for parent in ('/', '/a'):
            for taken in ([], [legalized(q)], [legalized(q), legalized(q) + '2'],
                          [legalized(q) + '1', legalized(q)]):
                ps = ['/', '/a'] + [('/' if parent == '/' else '/a/') + t for t in taken]
                for mode in ('spec', 'comp', 'all'):
                    ctx.case('listed requests')
                    node_name_case(ctx, {'layers': [ps], 'req': q, 'parent': parent, 'mode': mode,
                                         'idx': 0})
                ctx.case('listed requests')
                attr_name_case(ctx, {'layers': [{'/a': taken}], 'req': q, 'node': '/a',
                                     'mode': 'spec', 'idx': 0})
        if not ctx.more():
            return
    while ctx.more():
        req = rand_req(rng)
        parent = rng.choice(['/', '/a', '/a/b', '/c'])
        base = legalized(req or 'node')
        layers = []
        for _ in range(rng.randrange(1, 4)):
            ps = ['/', '/a', '/a/b', '/c'] if rng.random() < .8 else ['/', '/c']
            for p in (parent, '/c', '/'):
                if p not in ps:
                    continue
                if p == parent or rng.random() < .4:
                    pre = '/' if p == '/' else p + '/'
                    ps += [pre + n for n in numbered(rng, base)]
            layers.append(sorted(set(ps)))
        ctx.case('random node names')
        ctx.seen(json.dumps([req, layers]))
        node_name_case(ctx, {'layers': layers, 'req': req, 'parent': parent,
                             'mode': rng.choice(['spec', 'comp', 'all']), 'idx': rng.randrange(6)})
        req = rand_req(rng)
        base = legalized(req or 'attr')
        root = base.rstrip('0123456789')
        ls = []
        for _ in range(rng.randrange(1, 4)):
            l = {}
            for n in ('/a', '/a/b', '/c'):
                if rng.random() < .7:
                    l[n] = sorted(set(a for a in numbered(rng, rng.choice([base, root or base]))
                                      if a not in INTERNAL_ATTRS.PROTECTED))
            ls.append(l)
        if not any('/a/b' in l for l in ls):
            ls[0]['/a/b'] = []
        ctx.case('random attribute names')
        attr_name_case(ctx, {'layers': ls, 'req': req, 'node': '/a/b',
                             'mode': rng.choice(['spec', 'comp']), 'idx': rng.randrange(6)})


def replay(ctx, rec):
    i = rec['input']
    if 'node' in i:
        attr_name_case(ctx, i)
    else:
        node_name_case(ctx, i)
