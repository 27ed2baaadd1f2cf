"""C14: the version gate over all version pairs, refusals, and conversion of older files."""
import copy
import hashlib
import json
import os

from nxt import nxt_io
from nxt.constants import GRAPH_VERSION
from nxt.nxt_layer import SpecLayer
from nxt.stage import Stage

MAJ, MIN = GRAPH_VERSION.MAJOR, GRAPH_VERSION.MINOR
NAMES = ['a', 'b', 'ab', 'c1', 'node']
ATTRS = ['k', 'm', 'code', 'value']


def put(path, data, text=None):
    with open(path, 'w') as fp:
        fp.write(json.dumps(data) if text is None else text)
    with open(path, 'rb') as fp:
        return hashlib.sha1(fp.read()).hexdigest()


def load(ctx, path, inp, digest):
    """('ok', data) | ('io', None) | ('other', type); the file must stay as it is."""
    try:
        r = ('ok', nxt_io.load_file_data(path))
    except (IOError, OSError) as e:
        r = ('io', str(e))
    except Exception as e:  # noqa
        r = ('other', '%s: %s' % (type(e).__name__, e))
    if os.path.exists(path):
        with open(path, 'rb') as fp:
            ctx.check(hashlib.sha1(fp.read()).hexdigest() == digest,
                      'loading changed the file on disk', inp, 'unchanged', 'changed')
    return r


def gate(ctx, version, ext='.nxt', drop=False, name='g', stale=False):
    d = ctx.tmp()
    path = os.path.join(d, name + ext)
    data = {'version': version, 'nodes': {'/a': {'code': ['x = 1'], 'attrs': {'k': {'value': '1'}}}}}
    old = version and '.' in version and int(version.split('.')[0]) == 0
    if old:
        data = {'version': version, 'data': {}, 'children': [
            {'name': 'a', 'data': {'compute': ['x = 1'], 'attributes': {'k': {'value': '1'}}}}]}
    if drop:
        data.pop('version')
    if stale:       # a file that was saved elsewhere and copied here
        data.update(real_path='/else/where/s.nxt', filepath='s.nxt')
    dig = put(path, data)
    inp = {'version': None if drop else version, 'file': name + ext, 'stale': stale}
    ctx.case('gate')
    ctx.seen((version, ext, drop, name, stale))
    kind, res = load(ctx, path, inp, dig)
    if ext not in ('.nxt', '.nxtb'):
        want = 'io'
    elif drop or not version:
        want = 'ok'
    elif '.' not in version:
        want = 'io'
    else:
        a, b = [int(x) for x in version.split('.')[:2]]
        want = 'io' if (a, b) > (MAJ, MIN) or (a == 0 and b < 39) else 'ok'
    if not ctx.eq('version gate', inp, want, kind) or kind != 'ok':
        return
    ctx.eq('path reported by the loaded data', inp, (path, path),
           (res.get('filepath'), res.get('real_path')))
    content(ctx, inp, res, {'/a': (['x = 1'], {'k': '1'})})
    cwd = os.getcwd()
    os.chdir(d)
    try:
        kind, rel = load(ctx, name + ext, inp, dig)
        if ctx.eq('loading by a relative path', inp, 'ok', kind):
            ctx.eq('path reported for a relative path', inp, (name + ext, os.path.realpath(path)),
                   (rel.get('filepath'), os.path.realpath(rel.get('real_path'))))
            ctx.check(os.path.isabs(rel.get('real_path')), 'real path is absolute', inp, path,
                      rel.get('real_path'))
    finally:
        os.chdir(cwd)
    lk = SpecLayer(copy.deepcopy(res))
    ctx.check(lk.lookup('/a') is not None, 'loaded node', inp, '/a', list(lk._nodes_path_as_key))


def content(ctx, inp, res, want):
    ok, layer = ctx.guarded('building the loaded layer', inp, SpecLayer, copy.deepcopy(res))
    if not ok:
        return
    ctx.eq('node names', inp, sorted(want), sorted(p for p in layer._nodes_path_as_key if p != '/'))
    for p, (code, attrs) in want.items():
        n = layer.lookup(p)
        if n is None:
            continue
        ctx.eq('code of ' + p, inp, code, n._code)
        ctx.eq('attributes of ' + p, inp, attrs, {a: getattr(n, a, '<missing>') for a in attrs})


def current_tree(r):
    nodes, want = {}, {}
    paths = []
    for _ in range(r.randrange(7)):
        p = r.choice(paths + ['', '']) + '/' + r.choice(NAMES)
        if p not in paths:
            paths.append(p)
    for p in paths:
        code = ['x = %d' % r.randrange(9)] if r.random() < .7 else []
        attrs = {a: str(r.randrange(9)) for a in ATTRS if r.random() < .3}
        d = {}
        if code:
            d['code'] = code
        if attrs:
            d['attrs'] = {a: dict([('value', v)] + ([('type', 'int')] if r.random() < .3 else []) +
                                  ([('comment', 'c')] if r.random() < .3 else []))
                          for a, v in attrs.items()}
        for k, v in (('enabled', False), ('comment', 'c'), ('instance', '/b'), ('execute_in', '/a'),
                     ('start_point', True)):
            if r.random() < .2:
                d[k] = v
        kids = [q.rpartition('/')[2] for q in paths if q.rpartition('/')[0] == p]
        if kids:
            d['child_order'] = kids
        want[p] = (code, attrs)
        nodes[p] = d
    items = list(nodes.items())
    r.shuffle(items)
    return dict(items), want


def old_one(ctx, r, rec=None):
    """A 1.x file of an older minor version."""
    if rec is None:
        nodes, want = current_tree(r)
        v = '%d.%d%s' % (1, r.randrange(MIN + 1), r.choice(['', '.0', '.3']))
        data = {'version': v}
        if nodes or r.random() < .5:
            data['nodes'] = nodes
        minor = int(v.split('.')[1])
        if minor <= 9:
            if r.random() < .5:
                data['references'] = [dict([('path', q)] + [(k, x) for k, x in (
                    ('mute', True), ('solo', False), ('alias', 'al'), ('color', '#1'))
                    if r.random() < .4]) for q in ('x.nxt', './y.nxt')]
            if r.random() < .5:
                data['meta_data'] = {'position_data': {'/a': [1, 2]}}
                if r.random() < .5:
                    data['meta_data']['collapse_data'] = {'/a': True}
        elif r.random() < .5:
            data['references'] = ['x.nxt', './y.nxt']
            data['meta_data'] = {'positions': {'/a': [1, 2]}}
        if r.random() < .4:
            data['mute'] = r.choice([True, False])
        if r.random() < .4:
            data['alias'] = 'al'
        if r.random() < .3:
            data['color'] = '#fff'
        if r.random() < .3 and minor >= 10:
            data['comp_overrides'] = {'x.nxt': {'mute': True}}
        if r.random() < .3:
            data.update(real_path='/else/where/s.nxt', filepath='s.nxt')
        rec = {'data': data, 'want': want}
    data, want = rec['data'], {p: (list(c), a) for p, (c, a) in rec['want'].items()}
    inp = {'data': data, 'want': {p: list(w) for p, w in want.items()}}
    d = ctx.tmp()
    path = os.path.join(d, 'old.nxt')
    dig = put(path, data)
    kind, res = load(ctx, path, inp, dig)
    if not ctx.eq('loading an older file', inp, 'ok', kind if kind == 'ok' else '%s %s' % (kind, res)):
        return
    ctx.eq('path reported by the loaded data', inp, (path, path),
           (res.get('filepath'), res.get('real_path')))
    content(ctx, inp, res, want)
    # what the nodes of these versions hold besides is kept as it is
    for p, nd in data.get('nodes', {}).items():
        got = res.get('nodes', {}).get(p, {})
        for k, v in nd.items():
            if not ctx.eq('node data %s' % k, inp, v, got.get(k)):
                return
    refs = [x['path'] if isinstance(x, dict) else x for x in data.get('references', [])]
    ctx.eq('references', inp, refs, list(res.get('references', [])))
    pos = data.get('meta_data', {}).get('positions', data.get('meta_data', {}).get('position_data'))
    if pos:
        ctx.eq('positions', inp, pos, dict(res.get('meta_data', {}).get('positions', {})))
    for k in ('alias', 'color'):
        ctx.eq(k, inp, data.get(k), res.get(k))
    ctx.eq('mute', inp, bool(data.get('mute')), bool(res.get('mute')))


def old_zero(ctx, r, rec=None):
    """A pre-release file: a tree of children."""
    if rec is None:
        want = {}
        starts = []

        def node(path, depth):
            name = r.choice(NAMES)
            full = path + '/' + name
            if full in want:
                return None
            code = ['y = %d' % r.randrange(9)] if r.random() < .7 else []
            attrs = {a: str(r.randrange(9)) for a in ATTRS if r.random() < .3}
            want[full] = (code, attrs)
            if r.random() < .2:
                starts.append(full)
            n = {'name': name, 'data': {}}
            if code:
                n['data']['compute'] = code
            if attrs:
                n['data']['attributes'] = {a: {'value': v} for a, v in attrs.items()}
            if r.random() < .3:
                n['data']['enabled'] = r.choice([True, False])
            if r.random() < .2:
                n['data']['instance'] = '/b'
            if r.random() < .2:
                n['comment'] = 'hey'
            if r.random() < .2 and depth == 0:
                n['execute_in'] = '/a'
            kids = []
            if depth < 3:
                for _ in range(r.choice([0, 0, 1, 2, 3])):
                    k = node(full, depth + 1)
                    if k:
                        kids.append(k)
            if kids:
                n['children'] = kids
                n['execute_order'] = [k['name'] for k in kids]
                if r.random() < .3:
                    n['execute_order'] = n['execute_order'][::-1]
            return n
        kids = [k for k in (node('', 0) for _ in range(r.randrange(4))) if k]
        dat = {'position_data': {'/a': [1, 2]}} if r.random() < .5 else {}
        if starts:
            dat['start_nodes'] = starts
        data = {'version': '0.%d%s' % (r.randrange(39, 60), r.choice(['', '.0', '.7'])),
                'data': dat, 'children': kids}
        if r.random() < .5:
            data['references'] = [{'path': 'x.nxt', 'mute': True}]
        rec = {'old': data, 'want': want}
    data, want = rec['old'], {p: (list(c), a) for p, (c, a) in rec['want'].items()}
    inp = {'old': data, 'want': {p: list(w) for p, w in want.items()}}
    d = ctx.tmp()
    path = os.path.join(d, 'old.nxt')
    dig = put(path, data)
    kind, res = load(ctx, path, inp, dig)
    if not ctx.eq('loading a pre-release file', inp, 'ok', kind if kind == 'ok' else '%s %s' % (kind, res)):
        return
    ctx.eq('path reported by the loaded data', inp, (path, path),
           (res.get('filepath'), res.get('real_path')))
    content(ctx, inp, res, want)

    def walk(n, pre):
        p = pre + '/' + n['name']
        got = res.get('nodes', {}).get(p, {})
        ctx.eq('enabled', inp, n['data'].get('enabled'), got.get('enabled'))
        ctx.eq('instance', inp, n['data'].get('instance'), got.get('instance'))
        ctx.eq('comment', inp, n.get('comment'), got.get('comment'))
        ctx.eq('execute in', inp, n.get('execute_in'), got.get('execute_in'))
        ctx.eq('child order', inp, n.get('execute_order', []), list(got.get('child_order', [])))
        ctx.eq('start point', inp, p in data['data'].get('start_nodes', []),
               bool(got.get('start_point')))
        for c in n.get('children', []):
            walk(c, p)
    for n in data['children']:
        walk(n, '')


def run(ctx):
    r = ctx.rng
    # every version pair around the supported one
    for a in list(range(0, MAJ + 3)) + [10, 99]:
        for b in list(range(0, MIN + 4)) + [38, 39, 40, 45, 99, 100, 170, 1000]:
            for patch in ('', '.0', '.99'):
                gate(ctx, '%d.%d%s' % (a, b, patch))
    for v in ('1', '17', '0', 'abc', 'one', '117'):
        gate(ctx, v)
    for ext in ('.nxt', '.nxtb', '.json', '', '.txt', '.nxt2', '.nx', '.NXT', '.nxt.bak', '.py'):
        gate(ctx, GRAPH_VERSION.VERSION_STR, ext)
        gate(ctx, '%d.%d' % (MAJ, MIN + 1), ext)
    for n in ('g', 'g.h', 'a b', '.hid', 'x.nxt'):
        gate(ctx, GRAPH_VERSION.VERSION_STR, '.nxt', name=n)
        gate(ctx, '1.9', '.nxt', name=n)
        gate(ctx, GRAPH_VERSION.VERSION_STR, '.nxt', name=n, stale=True)
        gate(ctx, '1.%d' % r.randrange(MIN), '.nxt', name=n, stale=True)
        gate(ctx, '0.45', '.nxt', name=n, stale=True)
    gate(ctx, '', drop=False)
    gate(ctx, None)
    gate(ctx, '1.1', drop=True)
    # malformed and missing
    d = ctx.tmp()
    for text in ('', '{', 'null'):
        p = os.path.join(d, 'bad.nxt')
        dig = put(p, None, text)
        ctx.case('malformed')
        kind, _ = load(ctx, p, {'text': text}, dig)
        ctx.check(kind != 'ok', 'a malformed file loads', {'text': text}, 'an error', kind)
    kind, _ = load(ctx, os.path.join(d, 'none.nxt'), {'missing': 1}, '')
    ctx.eq('missing file', {'missing': 1}, 'io', kind)
    while ctx.more():
        k = r.random()
        if k < .2:
            gate(ctx, '%d.%d%s' % (r.choice([0, 1, 1, 2, r.randrange(50)]),
                                   r.choice([r.randrange(60), r.randrange(5000), MIN, MIN + 1]),
                                   r.choice(['', '.0', '.1.2', '.%d' % r.randrange(99)])),
                 stale=r.random() < .3)
        elif k < .65:
            ctx.case('1.x conversion')
            old_one(ctx, r)
        else:
            ctx.case('0.x conversion')
            old_zero(ctx, r)


def replay(ctx, rec):
    i = rec['input']
    if 'old' in i:
        old_zero(ctx, None, i)
    elif 'data' in i:
        old_one(ctx, None, i)
    elif 'version' in i:
        n, e = os.path.splitext(i['file'])
        gate(ctx, i['version'] or '', e, drop=i['version'] is None, name=n,
             stale=i.get('stale', False))
