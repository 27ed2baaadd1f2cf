"""C13: saving a layer to a file and loading it, compared field by field."""
import copy
import json
import os

from nxt import nxt_io
from nxt.nxt_layer import SpecLayer, UNTITLED
from nxt.nxt_node import INTERNAL_ATTRS as IA, META_ATTRS as MA
from nxt.stage import Stage

NAMES = ['a', 'b', 'ab', 'a1', 'node', 'Z', '_x']
ATTRS = ['k', 'm', 'attr', 'a_b', 'name', 'code', 'type', 'value', 'comment', 'enabled', 'z9',
         '__k', '_q', '__all', 'in' + MA.COMMENT + '_it', 'a' + MA._suffix + 's', 'meta', 'K' * 40]
TEXTS = ['', 'x', '5', '${k}', '"quoted"', 'line\nline', u'\u00e9\u4e16', '\\n', "it's", '0', 'False',
         'None', '[]', '/a/b', '  ', '\t', '${file::x}', u'\U0001f600']
DATAKEYS = ('start_point', 'instance', 'execute_in', 'enabled', 'comment', 'code')


def value(r, depth=0):
    k = r.random()
    if k < .45 or depth > 2:
        return r.choice(TEXTS)
    if k < .75:
        return r.choice([0, 1, -3, 2.5, True, False, 10 ** 20, 0.0, ''])
    if k < .88:
        return [value(r, depth + 1) for _ in range(r.randrange(3))]
    return {r.choice(TEXTS): value(r, depth + 1) for _ in range(r.randrange(3))}


def gen(r):
    """Random layer data (as a file would hold it)."""
    paths = []
    for _ in range(r.randrange(0, 9)):
        par = r.choice(paths + [''] * 2) if paths else ''
        p = par + '/' + r.choice(NAMES)
        if r.random() < .15:
            p += '/' + r.choice(NAMES)      # parent only implied
        if p not in paths:
            paths.append(p)
    nodes = {}
    for p in paths:
        d = {}
        kids = [q[len(p) + 1:] for q in paths if q.startswith(p + '/') and '/' not in q[len(p) + 1:]]
        if kids:
            r.shuffle(kids)
            d['child_order'] = kids + r.choice([[], [], ['gone']])
        elif r.random() < .2:
            d['child_order'] = ['gone', 'too']
        if r.random() < .2:
            d['start_point'] = r.choice([True, False])
        if r.random() < .3:
            d['instance'] = r.choice(paths + ['/nowhere', '../b', 'x'])
        if r.random() < .3 and p.count('/') == 1:
            d['execute_in'] = r.choice(paths + ['/', '/nowhere'])
        if r.random() < .4:
            d['enabled'] = r.choice([True, False])
        if r.random() < .3:
            d['comment'] = r.choice([t for t in TEXTS if t])
        if r.random() < .5:
            d['code'] = [r.choice(TEXTS + ['x = 1', 'print("a")']) for _ in range(r.randrange(1, 4))]
        attrs = {}
        for _ in range(r.randrange(0, 4)):
            a = {}
            if r.random() < .9:
                a['value'] = value(r)
            if r.random() < .4:
                a['type'] = r.choice(['str', 'int', 'raw', 'list', 'odd type'])
            if r.random() < .3:
                a['comment'] = r.choice([t for t in TEXTS if t])
            attrs[r.choice(ATTRS)] = a
        if attrs:
            d['attrs'] = attrs
        nodes[p] = d
    if r.random() < .3:
        nodes['/'] = {k: v for k, v in (('comment', r.choice(['', 'w'])), ('code', ['w = 1']),
                                        ('attrs', {'k': {'value': value(r)}})) if v and
                      r.random() < .6}
    items = list(nodes.items())
    r.shuffle(items)
    data = {'nodes': dict(items)}
    refs = r.sample(['a.nxt', './b.nxt', '../c.nxt', '/abs/d.nxt', '$ENV/e.nxt', '~/f.nxt'],
                    r.randrange(3))
    if refs:
        data['references'] = refs
    if r.random() < .6:
        data['alias'] = r.choice([t for t in TEXTS if t] + [UNTITLED])
    if r.random() < .4:
        data['color'] = r.choice(['#ffffff', 'red', '#000'])
    for k in ('mute', 'solo'):
        if r.random() < .4:
            data[k] = r.choice([True, False])
    if r.random() < .3:
        data['lock'] = r.choice([True, False])
    if r.random() < .4:
        data['comp_overrides'] = {p: {k: r.choice([True, False]) for k in
                                      r.sample(['mute', 'solo'], r.randrange(1, 3))}
                                  for p in r.sample(['a.nxt', './b.nxt', '/abs/d.nxt'],
                                                    r.randrange(1, 3))}
    meta = {}
    if r.random() < .4:
        meta['positions'] = {p: [r.randrange(-9, 9), r.random()] for p in paths[:3]}
    if r.random() < .3:
        meta['collapse'] = {p: r.choice([True, False]) for p in paths[:3]}
    if r.random() < .3:
        meta['aliases'] = {p: r.choice(TEXTS) for p in ('a.nxt', './b.nxt')}
    if r.random() < .3:
        meta['colors'] = {p: '#123' for p in ('a.nxt', 'zz.nxt')}
    if r.random() < .3:
        meta['locks'] = {p: r.choice([True, False]) for p in ('a.nxt', './b.nxt')}
    if r.random() < .3:
        meta[r.choice(['custom', 'a_key', 'node_colors'])] = r.choice(
            [5, 'x', {'k': [1, {'z': 0}]}, [1, 2], True, False, 0])
    meta = {k: v for k, v in meta.items() if v not in ({}, )}
    if meta:
        data['meta_data'] = meta
    return data


def expected(data):
    """Image of the layer that this data describes."""
    nodes = {}
    for p, d in data['nodes'].items():
        e = {'name': p.rpartition('/')[2] if p != '/' else '/',
             'parent': '' if p == '/' else p.rpartition('/')[0] or '/'}
        for k in DATAKEYS:
            v = d.get(k)
            e[k] = v if v not in (None, []) else None
        if p == '/':
            for k in ('start_point', 'instance', 'execute_in', 'enabled'):
                e[k] = None
        else:
            e['child_order'] = list(d.get('child_order', []))
        e['attrs'] = {a: [x.get('value'), x.get('type'), x.get('comment')]
                      for a, x in d.get('attrs', {}).items()}
        nodes[p] = e
    meta = data.get('meta_data', {})
    return {'nodes': nodes, 'references': list(data.get('references', [])),
            'color': data.get('color'), 'mute': data.get('mute', False),
            'solo': data.get('solo', False), 'lock': bool(data.get('lock', False)),
            'comp_overrides': data.get('comp_overrides', {}),
            'meta': meta, 'alias': data.get('alias')}


def image(layer):
    nodes = {}
    for p, n in layer._nodes_path_as_key.items():
        g = lambda a: getattr(n, a, None)
        e = {'name': g(IA.NAME), 'parent': g(IA.PARENT_PATH)}
        for k, a in (('start_point', IA.START_POINT), ('instance', IA.INSTANCE_PATH),
                     ('execute_in', IA.EXECUTE_IN), ('enabled', IA.ENABLED),
                     ('comment', IA.COMMENT), ('code', IA.COMPUTE)):
            v = g(a)
            e[k] = copy.deepcopy(v) if v not in (None, []) else None
        if p == '/':
            for k in ('start_point', 'instance', 'execute_in', 'enabled'):
                e[k] = None
        else:
            e['child_order'] = list(g(IA.CHILD_ORDER) or [])
        attrs = {}
        for k in n.__dict__:
            if k in IA.PROTECTED or k.endswith(MA.ALL):
                continue
            attrs[k] = [copy.deepcopy(g(k)), g(k + MA.TYPE) or None, g(k + MA.COMMENT) or None]
        e['attrs'] = attrs
        nodes[p] = e
    meta = dict(layer._input_metadata)
    for k in ('positions', 'collapse', 'aliases', 'colors', 'locks'):
        v = getattr(layer, k)
        meta.pop(k, None)
        if v:
            meta[k] = copy.deepcopy(dict(v))
    return {'nodes': nodes, 'references': list(layer.get_references()), 'color': layer.color,
            'mute': layer.get_muted(local=True), 'solo': layer.get_soloed(local=True),
            'lock': bool(layer.get_locked(local=True)),
            'comp_overrides': copy.deepcopy(dict(layer.comp_overrides)), 'meta': meta,
            'alias': layer.get_alias(local=True)}


def canon(v):
    """Equality that tells 0 from False and 1 from True."""
    return json.dumps(v, sort_keys=True, default=repr)


def diff(a, b, path=''):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a:
                return '%s/%s only after' % (path, k)
            if k not in b:
                return '%s/%s lost' % (path, k)
            d = diff(a[k], b[k], path + '/' + str(k))
            if d:
                return d
        return None
    if canon(a) != canon(b):
        return '%s: %r became %r' % (path, a, b)
    return None


def edit(r, stage, layer, log):
    """One random edit of the layer through its setters."""
    k = r.choice(['mute', 'solo', 'lock', 'alias', 'muteover', 'soloover', 'pos', 'ref', 'attr',
                  'code', 'add', 'color', 'collapse', 'falsy', 'type', 'submeta'])
    paths = [p for p in layer._nodes_path_as_key if p != '/']
    log.append(k)
    if k == 'mute':
        layer.set_muted(r.random() < .6)
    elif k == 'solo':
        layer.set_soloed(r.random() < .6)
    elif k == 'lock':
        layer.set_locked(r.random() < .7)
    elif k == 'alias':
        layer.set_alias(r.choice(['x', 'new alias', UNTITLED]))
    elif k == 'muteover':
        layer.set_mute_over(r.choice(['a.nxt', 'q.nxt']), r.random() < .5)
    elif k == 'soloover':
        layer.set_solo_over(r.choice(['a.nxt', 'q.nxt']), r.random() < .5)
    elif k == 'color':
        layer.color = r.choice(['#1', None])
    elif k == 'submeta':
        which = r.choice(['aliases', 'colors', 'locks'])
        getattr(layer, which)[r.choice(['a.nxt', 'new.nxt'])] = \
            r.random() < .5 if which == 'locks' else r.choice(['#abc', 'name'])
    elif k == 'ref':
        path = r.choice(['r.nxt', './s.nxt', '/t/u.nxt'])
        if path not in layer.get_references():
            layer.add_reference(layer_path=path)
    elif not paths:
        log.pop()
    elif k == 'pos':
        layer.positions[r.choice(paths)] = [r.randrange(9), 0]
    elif k == 'collapse':
        layer.collapse[r.choice(paths)] = r.random() < .5
    elif k in ('attr', 'falsy', 'type'):
        n = layer.lookup(r.choice(paths))
        a = r.choice(['k', 'fresh', 'z'])
        stage.add_node_attr(n, a, {'value': r.choice([0, False, [], {}, '']) if k == 'falsy' else
                                   value(r), 'type': 'str', 'comment': 'c'}, layer) \
            if not hasattr(n, a) else setattr(n, a, value(r))
    elif k == 'code':
        setattr(layer.lookup(r.choice(paths)), IA.COMPUTE, ['y = 2', ''])
    elif k == 'add':
        parent, name = r.choice(paths + ['/']), r.choice(NAMES)
        if layer.lookup(parent.rstrip('/') + '/' + name) is None:
            stage.add_node(name=name, data={'comment': 'new'}, parent=parent, layer=layer,
                           fix_names=False)


def case(ctx, data, edits, rng_seed):
    import random
    r = random.Random(rng_seed)
    inp = {'data': data, 'edits': edits, 'seed': rng_seed}
    d = ctx.tmp()
    path = os.path.join(d, 'g.nxt')
    stage = Stage()
    stage._sub_layers = []
    ok, layer = ctx.guarded('loading layer data', inp, stage.new_layer, 0, copy.deepcopy(data))
    if not ok:
        return
    exp, im = expected(data), image(layer)
    if exp['alias'] is None:
        exp['alias'] = im['alias']
    x = diff(exp, im)
    if not ctx.check(x is None, 'a layer differs from the data it was loaded from', inp, 'same', x):
        return
    log = []
    for _ in range(edits):
        ok, _ = ctx.guarded('editing (%s)' % (log[-1] if log else ''), inp, edit, r, stage, layer, log)
        if not ok:
            return
    before = image(layer)
    partial = [p for p, n in before['nodes'].items() if p != '/' and any(
        q.rpartition('/')[0] == p and q.rpartition('/')[2] not in n['child_order']
        for q in before['nodes'])]
    if r.random() < .3:
        with open(path, 'w') as fp:
            fp.write(r.choice(['', 'old', '{"version": "1.0", "nodes": {"/zz": {}}}' * 50]))
    ok, _ = ctx.guarded('save', inp, layer.save, path)
    if not ok:
        return
    after = image(layer)
    if before['alias'] == UNTITLED:
        ctx.check(after['alias'] == 'g', 'untitled alias after saving', inp, 'g', after['alias'])
        before['alias'] = after['alias']
    x = diff(before, after)
    ctx.check(x is None, 'saving changed the layer', inp, 'no change', x)
    ctx.check(layer.real_path == path, 'file path after saving', inp, path, layer.real_path)
    ok, loaded = ctx.guarded('load', inp, nxt_io.load_file_data, path)
    if not ok:
        return
    ok, again = ctx.guarded('building the loaded layer', inp, SpecLayer, copy.deepcopy(loaded))
    if not ok:
        return
    im = image(again)
    for p in partial:      # child orders that do not name every child are completed by loading
        before['nodes'][p].pop('child_order')
        im['nodes'].get(p, {}).pop('child_order', None)
    x = diff(before, im)
    if not ctx.check(x is None, 'saving and loading loses or changes something', inp, 'same', x):
        return
    p2 = os.path.join(d, 'g2.nxt')
    ok, _ = ctx.guarded('second save', inp, again.save, p2)
    if not ok:
        return
    with open(path) as fp, open(p2) as fq:
        a, b = json.load(fp), json.load(fq)
    for p in partial:
        a['nodes'].get(p, {}).pop('child_order', None)
        b['nodes'].get(p, {}).pop('child_order', None)
    x = diff(a, b)
    ctx.check(x is None, 'saving the loaded layer writes other data', inp, 'same data', x)


def run(ctx):
    while ctx.more():
        r = ctx.rng
        data = gen(r)
        edits = r.choice([0, 0, 1, 2, 5, 9])
        ctx.case('loaded, %s' % ('edited' if edits else 'not edited'))
        ctx.seen(canon(data))
        case(ctx, data, edits, r.randrange(10 ** 6))


def replay(ctx, rec):
    i = rec['input']
    case(ctx, i['data'], i['edits'], i['seed'])
