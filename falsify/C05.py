"""C05: mute/solo/override reports and active layers against a per-key walk over the ancestors."""
import copy

from nxt import nxt_layer as nl
from nxt.nxt_layer import SpecLayer


def make(rng, n):
    """A tree of layers, [0] being the outermost one."""
    layers, spec = [], []
    for i in range(n):
        parent = None if i == 0 else rng.randrange(0, i)
        path = 'f%d.nxt' % i
        meta = {}
        over = {}
        spec.append({'parent': parent, 'path': path, 'meta': meta, 'over': over,
                     'own': {'mute': rng.random() < .4, 'solo': rng.random() < .3,
                             'alias': rng.choice(['a', 'b', 'c%d' % i]),
                             'color': rng.choice([None, 'red', 'blue']),
                             'lock': rng.choice([None, False, True])}})
    for s in spec:
        for t in spec:
            if rng.random() < .3:
                d = {}
                if rng.random() < .6:
                    d['mute'] = rng.random() < .5
                if rng.random() < .6:
                    d['solo'] = rng.random() < .5
                s['over'][t['path']] = d
            if rng.random() < .25:
                s['meta'].setdefault('aliases', {})[t['path']] = rng.choice(['o1', 'o2', 'o3'])
            if rng.random() < .25:
                s['meta'].setdefault('colors', {})[t['path']] = rng.choice(['c1', 'c2'])
            if rng.random() < .25:
                s['meta'].setdefault('locks', {})[t['path']] = rng.choice([True, False])
    return spec


def build(spec):
    layers = []
    for s in spec:
        own = s['own']
        L = SpecLayer({'filepath': s['path'], 'real_path': '/x/' + s['path'],
                       'alias': own['alias'], 'color': own['color'], 'lock': own['lock'],
                       'comp_overrides': copy.deepcopy(s['over']),
                       'meta_data': copy.deepcopy(s['meta']),
                       'parent_layer': None if s['parent'] is None else layers[s['parent']]})
        L.set_muted(own['mute'])
        L.set_soloed(own['solo'])
        layers.append(L)
    return layers


def chain(spec, i):
    """The layer and its ancestors, outermost first."""
    out = [i]
    while spec[i]['parent'] is not None:
        i = spec[i]['parent']
        out.insert(0, i)
    return out


def expect(spec, i):
    own = spec[i]['own']
    path = spec[i]['path']
    rep = {}
    for key in ('mute', 'solo'):
        rep[key] = own[key]
        for j in chain(spec, i):
            if key in spec[j]['over'].get(path, {}):
                rep[key] = spec[j]['over'][path][key]
                break
    for key, dct in (('alias', 'aliases'), ('color', 'colors'), ('lock', 'locks')):
        rep[key] = own[key]
        for j in chain(spec, i):
            if path in spec[j]['meta'].get(dct, {}):
                rep[key] = spec[j]['meta'][dct][path]
                break
    rep['lock'] = rep['lock'] or False
    return rep


def report(L):
    return {'mute': L.get_muted(), 'solo': L.get_soloed(), 'alias': L.get_alias(),
            'color': L.get_color(local=False), 'lock': L.get_locked()}


def local(L):
    return {'mute': L.get_muted(local=True), 'solo': L.get_soloed(local=True),
            'alias': L.get_alias(local=True), 'color': L.get_color(),
            'lock': L.get_locked(local=True)}


def compare(ctx, spec, layers, inp):
    ok = True
    for i, L in enumerate(layers):
        good, got = ctx.guarded('layer report', inp, report, L)
        if not good:
            return False
        exp = expect(spec, i)
        for k in exp:
            ok &= ctx.check(exp[k] == got[k], 'reported ' + k, dict(inp, layer=i), exp[k], got[k])
        e = dict(spec[i]['own'])
        e['lock'] = e['lock'] or False
        good, g = ctx.guarded('local report', inp, local, L)
        ok &= good and ctx.check(e == g, 'local values', dict(inp, layer=i), e, g)
    return ok


def active(ctx, spec, layers, rng, inp):
    pick = [layers.index(x) for x in rng.sample(layers, rng.randrange(0, len(layers) + 1))]
    reps = [expect(spec, i) for i in pick]
    if any(r['solo'] for r in reps):
        exp = [i for i, r in zip(pick, reps) if r['solo'] and not r['mute']]
    else:
        exp = [i for i, r in zip(pick, reps) if not r['mute']]
    arg = [layers[i] for i in pick]
    inp = dict(inp, pick=pick)
    for what, fn, e in (('active layers', nl.get_active_layers, exp),
                        ('soloed layers', nl.get_soloed_layers,
                         [i for i, r in zip(pick, reps) if r['solo']]),
                        ('muted layers', nl.get_muted_layers,
                         [i for i, r in zip(pick, reps) if r['mute']])):
        ok, got = ctx.guarded(what, inp, fn, arg)
        if ok:
            ctx.check([layers.index(x) for x in got] == e, what, inp, e,
                      [layers.index(x) for x in got])
    ctx.check(arg == [layers[i] for i in pick], 'the given layer list changed', inp, pick, None)
    ctx.case('active')


def edit(ctx, spec, layers, rng, inp, op=None):
    """One override edit on the outermost layer; returns the op."""
    if op is None:
        kind = rng.choice(['mute', 'solo', 'alias', 'color', 'lock', 'own'])
        i = rng.randrange(0, len(layers))
        if kind in ('mute', 'solo'):
            val = rng.random() < .5
        elif kind == 'lock':
            val = rng.choice([True, False, None])
        elif kind == 'own':
            val = [rng.random() < .5, rng.random() < .5, rng.choice(['n', 'm']),
                   rng.random() < .5]
        else:
            val = rng.choice(['e1', 'e2', None, None])
        op = [kind, i, val]
    kind, i, val = op
    inp['ops'].append(op)
    path = spec[i]['path']
    root = chain(spec, i)[0]
    if kind == 'own':
        layers[i].set_muted(val[0])
        layers[i].set_soloed(val[1])
        layers[i].set_alias(val[2])
        layers[i].set_locked(val[3])
        spec[i]['own'].update(mute=val[0], solo=val[1], alias=val[2], lock=val[3])
        return op
    if kind in ('mute', 'solo'):
        fn = getattr(layers[root], 'set_%s_over' % kind)
        ctx.guarded('set_%s_over' % kind, inp, fn, path, val)
        spec[root]['over'].setdefault(path, {})[kind] = val
        return op
    fn = getattr(layers[i], {'alias': 'set_alias_over', 'color': 'set_color_over',
                             'lock': 'set_locked_over'}[kind])
    ctx.guarded(fn.__name__, inp, fn, val)
    dct = {'alias': 'aliases', 'color': 'colors', 'lock': 'locks'}[kind]
    if spec[i]['parent'] is None:
        return op       # there is no layer above to hold the override
    if val is None:
        spec[root]['meta'].setdefault(dct, {}).pop(path, None)
    else:
        spec[root]['meta'].setdefault(dct, {})[path] = val
    return op


def session(ctx, rng):
    spec = make(rng, rng.randrange(1, 6))
    inp = {'spec': copy.deepcopy(spec), 'ops': []}
    ok, layers = ctx.guarded('layer construction', inp, build, spec)
    if not ok or not compare(ctx, spec, layers, inp):
        return
    ctx.case('layers')
    for _ in range(rng.randrange(0, 8)):
        edit(ctx, spec, layers, rng, inp)
        ctx.case('edit')
        if not compare(ctx, spec, layers, inp):
            return
        active(ctx, spec, layers, rng, inp)


def run(ctx):
    while ctx.more():
        session(ctx, ctx.rng)


def replay(ctx, rec):
    i = rec['input']
    spec = i['spec']
    layers = build(spec)
    inp = {'spec': spec, 'ops': []}
    import random
    compare(ctx, spec, layers, inp)
    for op in i['ops']:
        edit(ctx, spec, layers, None, inp, op)
        compare(ctx, spec, layers, inp)
        for s in range(10):
            active(ctx, spec, layers, random.Random(s), inp)
