"""C06: composing random layer stacks, compared with an independent model of the composition rule."""
import copy
import json

from nxt import nxt_path
from nxt.nxt_layer import SpecLayer, get_active_layers
from nxt.nxt_node import INTERNAL_ATTRS as IA, get_node_as_dict
from nxt.stage import Stage

NAMES = ['a', 'b', 'c', 'x', 'node']
ATTRS = ['k', 'm', 'n1']
INTERNAL = {'code': IA.COMPUTE, 'enabled': IA.ENABLED, 'execute_in': IA.EXECUTE_IN,
            'comment': IA.COMMENT, 'start_point': IA.START_POINT}
FROM_INSTANCE = ('code', 'enabled', 'comment')


def par(p):
    return p.rpartition('/')[0] or '/'


def join(p, n):
    return '/' + n if p == '/' else p + '/' + n


def make_stage(layers):
    """layers: save data, strongest first; each after the first is referenced by the one before."""
    stage = Stage()
    stage._sub_layers = []
    prev = None
    for i, dat in enumerate(layers):
        d = copy.deepcopy(dat)
        d.setdefault('filepath', 'l%d.nxt' % i)
        d.setdefault('real_path', '/nowhere/l%d.nxt' % i)
        d.setdefault('alias', 'l%d' % i)
        d['parent_layer'] = prev
        prev = stage.new_layer(i, d)
    return stage


def active(layers):
    solo = [l for l in layers if l.get('solo')]
    return [l for l in (solo or layers) if not l.get('mute')]


class Model(object):
    """Composition of layers = [{nodes: {path: data}}] (strongest first)."""

    def __init__(self, layers):
        act = active(layers)
        self.specs = {}
        for l in act:
            for p, d in l['nodes'].items():
                self.specs.setdefault(p, []).append(d)
        self.inst = {}
        for p, ds in self.specs.items():
            for d in ds:
                if 'instance' in d:
                    i = d['instance']
                    if i:
                        i = expand(i, p)
                    self.inst[p] = i
                    break
        self.own = dict(self.inst)
        self.nodes = set(self.specs)
        changed = True
        rounds = 0
        while changed:
            rounds += 1
            if rounds > 40:
                raise OverflowError
            changed = False
            # sources before targets: repeat until nothing new appears
            for p in sorted(self.paths()):
                src = self.inst.get(p)
                if not src or src == '/':
                    continue
                for c in self.kids(src):
                    t, s = join(p, c), join(src, c)
                    if self.own.get(t) and self.own[t] != s:
                        raise OverflowError     # names another source than its parent's gives it
                    if t in self.nodes:
                        if self.inst.get(t) != '' and self.inst.get(t) != s:
                            self.inst[t] = s
                            changed = True
                    elif t not in self.inst:
                        self.inst[t] = s
                        changed = True
                    if t not in self.nodes and s in self.nodes:
                        self.nodes.add(t)
                        changed = True
        self._mro = {}

    def paths(self):
        return set(self.nodes) | set(p for p in self.inst)

    def kids(self, p):
        pre = '/' if p == '/' else p + '/'
        return set(q[len(pre):].split('/')[0] for q in self.paths() if q != '/' and q.startswith(pre))

    def parent_node(self, p):
        while p != '/':
            p = par(p)
            if p in self.nodes:
                return p
        return None

    def source(self, p):
        s = self.inst.get(p)
        return s if s and s != '/' and s in self.nodes else None

    def mro(self, p):
        """The nodes a node takes values from, strongest first (itself first): every node
        precedes its own parent and instance source, and otherwise the parent's side precedes the
        instance source's side."""
        if p not in self._mro:
            s, q = self.source(p), self.parent_node(p)
            seqs = []
            direct = []
            for b in (q, s):
                if b is not None and b not in direct:
                    seqs.append(list(self.mro(b)))
                    direct.append(b)
            # a base that another base already reaches is not listed itself
            direct = [b for b in direct if not any(b in x[1:] for x in seqs)]
            seqs.append(direct)
            out = [p]
            seqs = [x for x in seqs if x]
            while seqs:
                for x in seqs:
                    c = x[0]
                    if not any(c in y[1:] for y in seqs):
                        break
                else:
                    raise OverflowError
                out.append(c)
                seqs = [[z for z in y if z != c] for y in seqs]
                seqs = [y for y in seqs if y]
            self._mro[p] = out
        return self._mro[p]

    def local(self, p, attr):
        for d in self.specs.get(p, []):
            a = d.get('attrs', {})
            if attr in a:
                return True, a[attr].get('value')
        return False, None

    def value(self, p, attr):
        for q in self.mro(p):
            ok, v = self.local(q, attr)
            if ok:
                return True, v
        return False, None

    def internal(self, p, key):
        for d in self.specs.get(p, []):
            v = d.get(key)
            if v is not None and v != []:
                return v
        if key in FROM_INSTANCE and self.source(p):
            return self.internal(self.source(p), key)
        return None


def expand(rel, start):
    if rel.startswith('/'):
        return rel
    cur = start
    for d in rel.split('/'):
        if d == '..':
            cur = par(cur)
        elif d in ('.', ''):
            continue
        else:
            cur = join(cur, d)
    return cur


def layer_image(layer):
    out = {'nodes': {}, 'order': list(layer._nodes_path_as_key)}
    for p, n in layer._nodes_path_as_key.items():
        out['nodes'][p] = json.loads(json.dumps(get_node_as_dict(n), default=repr))
        out['nodes'][p]['__own__'] = sorted(k for k in n.__dict__ if not k.startswith('__') and
                                            not k.endswith('__nxt'))
    for k in ('alias', 'mute', 'solo', 'color', 'lock', 'comp_overrides', 'positions', 'collapse',
              'aliases', 'colors', 'locks', 'sub_layer_paths', 'filepath', 'real_path'):
        out[k] = copy.deepcopy(getattr(layer, k))
    return out


def case(ctx, layers, instances=True):
    inp = {'layers': layers}
    stage = make_stage(layers)
    before = [layer_image(l) for l in stage._sub_layers]
    try:
        m = Model(layers)
        for p in m.nodes:
            m.mro(p)
    except (OverflowError, RuntimeError):
        return False
    ok, comp = ctx.guarded('build_stage', inp, stage.build_stage)
    if not ok:
        return True
    after = [layer_image(l) for l in stage._sub_layers]
    ctx.check(before == after, 'composing changed a layer', inp, before, after)
    if not ctx.check(not comp.failure, 'composing failed', inp, 'no failure', comp.failure):
        return True
    got = set(comp._nodes_path_as_key)
    if not ctx.check(got == m.nodes, 'composed node paths', inp, sorted(m.nodes), sorted(got)):
        return True
    ctx.check(sorted(comp._nodes_node_as_key.values()) == sorted(got) and
              all(comp.lookup(comp.get_node_path(n)) is n for n in comp._nodes_node_as_key),
              'composed nodes are not one per path', inp, sorted(got),
              sorted(comp._nodes_node_as_key.values()))
    for p in sorted(m.nodes):
        node = comp.lookup(p)
        for a in ATTRS:
            has, exp = m.value(p, a)
            gotv = getattr(node, a, 'MISSING')
            w = dict(inp, node=p, attr=a)
            if m.local(p, a)[0]:
                what = 'value of an attribute with a local opinion'
            else:
                what = 'value of an inherited attribute'
            ctx.check(same(exp if has else 'MISSING', gotv), what, w, exp if has else 'MISSING', gotv)
        for k, at in INTERNAL.items():
            exp = m.internal(p, k)
            gotv = getattr(node, at, None)
            if gotv in (None, []):
                gotv = None
            ctx.check(same(exp, gotv), 'value of ' + k, dict(inp, node=p), exp, gotv)
    return True


def same(a, b):
    return a == b and type(a) is type(b)


def rand_layers(rng, instances):
    roots = ['a', 'b', 'c', 'x'][:rng.randrange(1, 5)]
    shared = []
    for _ in range(rng.randrange(1, 8)):
        base = rng.choice(shared + ['/'] * 2)
        p = '/' + rng.choice(roots) if base == '/' else base + '/' + rng.choice(NAMES)
        if p.count('/') < 5 and p not in shared:
            shared.append(p)
    layers = []
    cnt = [0]

    def val(v=None):
        cnt[0] += 1
        return rng.choice(['v%d' % cnt[0]] * 6 + [0, '', False, cnt[0], [], [1], {'q': cnt[0]}])
    for i in range(rng.choice([1, 2, 2, 3, 3, 4, 5])):
        nodes = {}
        if rng.random() < .3:
            nodes['/'] = {}
        for p in shared:
            if rng.random() < .7:
                nodes[p] = {}
                if rng.random() < .8:     # usually every level exists
                    q = par(p)
                    while q != '/':
                        nodes.setdefault(q, {})
                        q = par(q)
        for p, d in nodes.items():
            at = {}
            for a in ATTRS:
                if rng.random() < .35:
                    at[a] = {'value': val()}
            if at:
                d['attrs'] = at
            if rng.random() < .3:
                d['code'] = ['c = %d' % rng.randrange(9)]
            if rng.random() < .2:
                d['enabled'] = rng.random() < .5
            if rng.random() < .2:
                d['comment'] = 'com%d' % rng.randrange(9)
            if rng.random() < .15 and p != '/':
                d['execute_in'] = rng.choice(['/a', '/b', ''])
            if rng.random() < .15:
                d['start_point'] = rng.random() < .5
            if rng.random() < .1:
                d['child_order'] = rng.sample(NAMES, 2)
            if instances and p != '/' and rng.random() < .25:
                mine = roots.index(p[1:].split('/')[0])
                tg = [q for q in shared if roots.index(q[1:].split('/')[0]) < mine]
                if rng.random() < .2:
                    tg = [q for q in shared if q < p and q.startswith('/' + p.split('/')[1] + '/')
                          and not p.startswith(q + '/') and not q.startswith(p + '/')]
                if tg:
                    t = rng.choice(tg)
                    d['instance'] = t if rng.random() < .7 else '../' * p.count('/') + t[1:]
                elif rng.random() < .3:
                    d['instance'] = rng.choice(['', '/nope'])
        layers.append({'nodes': nodes})
    r = rng.random()
    for l in layers:
        if r < .3 and rng.random() < .3:
            l['mute'] = True
        if .2 < r < .5 and rng.random() < .4:
            l['solo'] = True
    return layers


def run(ctx):
    rng = ctx.rng
    while ctx.more():
        inst = rng.random() < .5
        layers = rand_layers(rng, inst)
        if case(ctx, layers, inst):
            ctx.case('with instances' if inst else 'references and parents only')
            ctx.seen(json.dumps(layers, sort_keys=True))
        else:
            ctx.case('skipped')


def replay(ctx, rec):
    case(ctx, rec['input']['layers'])
