"""C07: random edit sequences on a layer against a plain dictionary model of the node tree."""
import json
import os

from nxt import nxt_path
from nxt.nxt_layer import LayerReturnTypes as RT
from nxt.nxt_node import INTERNAL_ATTRS as IA, get_node_as_dict
from nxt.stage import Stage

NAMES = ['a', 'b', 'c', 'ab', 'a1', 'aa', 'b2', 'node']


def par(path):
    p = path.rpartition('/')[0]
    return p or '/'


def join(p, n):
    return '/' + n if p == '/' else p + '/' + n


def below(path, anc):
    if path == '/':
        return False
    return anc == '/' or path.startswith(anc + '/')


class Model(object):
    """path -> marker value; the marker identifies a node through moves."""

    def __init__(self):
        self.nodes = {}

    def children(self, path):
        return set(p for p in self.nodes if p != '/' and par(p) == path)

    def implied_children(self, path):
        out = set()
        d = 0 if path == '/' else path.count('/')
        for p in self.nodes:
            if below(p, path):
                out.add('/' + '/'.join(p[1:].split('/')[:d + 1]))
        return out

    def descendants(self, path):
        """What `descendants` reports: the real nodes reachable through real children, i.e. every
        node below `path` when all levels exist."""
        return set(p for p in self.nodes if below(p, path))

    def implied_descendants(self, path):
        out = set()
        for p in self.nodes:
            if below(p, path):
                q = p
                while q != path and q != '/':
                    out.add(q)
                    q = par(q)
        return out

    def all_paths(self):
        s = set(self.nodes)
        for p in self.nodes:
            while p != '/':
                s.add(p)
                p = par(p)
        return s


def marker_of(node):
    """Everything a node stores itself, as one comparable string (its child order follows the tree
    and its instance/execute-in links are plain data)."""
    d = get_node_as_dict(node)
    d.pop('child_order', None)
    if not d:
        return None
    return json.dumps(d, sort_keys=True)


EXTRA = [{}, {}, {'code': ['x = 1']}, {'comment': 'c'}, {'enabled': False}, {'execute_in': '/a'},
         {'start_point': True}]


def node_data(rng_val, mark):
    d = dict(EXTRA[rng_val % len(EXTRA)])
    d['attrs'] = {'uid': {'value': mark}}
    if rng_val % 3 == 0:
        d['attrs']['v'] = {'value': [rng_val], 'comment': 'k', 'type': 'raw'}
    return d


def check_layer(ctx, layer, model, ops, rng, queries=6, full=False):
    """Compare the whole observable tree of `layer` with the model."""
    inp = {'ops': ops}
    pk, nk = layer._nodes_path_as_key, layer._nodes_node_as_key
    ok = True
    got = {p: marker_of(n) for p, n in pk.items()}
    ok &= ctx.check(got == model.nodes, 'lookup table is not what the edits put there', inp,
                    model.nodes, got)
    ok &= ctx.check(len(nk) == len(pk) and all(nk.get(n) == p for p, n in pk.items()),
                    'path and node tables are not inverse', inp, sorted(pk), sorted(nk.values()))
    ok &= ctx.check(len(layer.spec_list) == len(pk) and set(layer.spec_list) == set(pk.values()),
                    'spec list and path table disagree', inp, sorted(pk),
                    [nk.get(n) for n in layer.spec_list])
    for p, n in pk.items():
        if p == '/':
            continue
        pp, nm = getattr(n, IA.PARENT_PATH), getattr(n, IA.NAME)
        ok &= ctx.check(pp == par(p) and nm == p.rpartition('/')[2],
                        'stored path is not parent path joined with name', inp, p, [pp, nm])
        ok &= ctx.check(layer.lookup(p) is n and layer.get_node_path(n) == p,
                        'lookup / get_node_path', inp, p, layer.get_node_path(n))
    if not ok:
        return False
    paths = sorted(model.all_paths() | {'/'} | {'/zz', '/a', '/a/b'})
    for _ in range(len(paths) * 8 if full else queries):
        path = rng.choice(paths)
        ok &= check_query(ctx, layer, model, path, rng, inp)
        if not ok:
            return False
    return ok


def check_query(ctx, layer, model, path, rng, inp):
    kind = rng.randrange(9)
    real = path in model.nodes
    ordered = rng.random() < .4 and (real or path == '/')
    if path == '/' and '/' not in model.nodes:
        ordered = False
    inp = dict(inp, query=[path, kind, ordered])
    exp = model.children(path)
    if kind == 0:
        got = layer.children(path, RT.Path, ordered=ordered)
        return cmp_list(ctx, 'children paths', inp, exp, got)
    if kind == 1:
        got = layer.children(path, RT.Node, ordered=ordered)
        return cmp_list(ctx, 'children nodes', inp, exp, [layer.get_node_path(n) for n in got])
    if kind == 2:
        got = layer.children(path, RT.NodeTable, ordered=ordered)
        ok = all(layer.lookup(p) is n for p, n in got)
        ctx.check(ok, 'children table pairs a path with another node', inp, sorted(exp),
                  [[p, layer.get_node_path(n)] for p, n in got])
        return cmp_list(ctx, 'children table', inp, exp, [p for p, n in got]) and ok
    if kind == 3:
        got = layer.children(path, RT.NameDict)
        e = {p.rpartition('/')[2]: p for p in exp}
        g = {k: layer.get_node_path(n) for k, n in got.items()}
        return ctx.check(e == g, 'children name dictionary', inp, e, g)
    if kind == 4:
        got = layer.children(path, RT.Boolean)
        return ctx.check(got is bool(exp), 'children boolean', inp, bool(exp), got)
    if kind == 5:
        got = layer.children(path, RT.Path, include_implied=True, ordered=ordered)
        return cmp_list(ctx, 'children incl. implied', inp, model.implied_children(path), got)
    if kind == 6:
        got = layer.descendants(path, RT.Path, include_implied=True)
        return cmp_list(ctx, 'descendants incl. implied', inp, model.implied_descendants(path),
                        list(got))
    # plain descendants follow real children; exact when no level is missing
    exp = reach(model, path)
    if kind == 7:
        if ordered and path != '/':
            got = layer.descendants(path, RT.Path, ordered=True)
        else:
            got = layer.descendants(path, RT.Path)
        return cmp_list(ctx, 'descendants paths', inp, exp, got)
    if rng.random() < .5:
        got = layer.descendants(path, RT.NodeTable)
        ctx.check(all(layer.lookup(p) is n for p, n in got),
                  'descendants table pairs a path with another node', inp, sorted(exp),
                  [[p, layer.get_node_path(n)] for p, n in got])
        return cmp_list(ctx, 'descendants table', inp, exp, [p for p, n in got])
    got = layer.descendants(path, RT.Node)
    return cmp_list(ctx, 'descendants nodes', inp, exp, [layer.get_node_path(n) for n in got])


def reach(model, path):
    if path == '/':
        return set(p for p in model.nodes if p != '/')
    out, work = set(), [path]
    while work:
        q = work.pop()
        for c in model.children(q):
            out.add(c)
            work.append(c)
    return out


def cmp_list(ctx, what, inp, exp, got):
    return ctx.check(len(got) == len(set(got)) and set(got) == set(exp), what, inp, sorted(exp),
                     sorted(got, key=str))


def expected_mark(mark):
    return json.dumps(node_data(int(mark[1:]), mark), sort_keys=True)


def start_layers(ctx, rng, d):
    """Start from a loaded layer, sometimes with a world node."""
    paths = set()
    for _ in range(rng.randrange(7)):
        base = rng.choice(sorted(paths) or ['/'])
        paths.add(join(base, rng.choice(NAMES)))
    if rng.random() < .5:
        paths = set(p for p in paths if rng.random() < .7)
    return sorted(paths), rng.random() < .5


class Driver(object):
    def __init__(self, ctx, rng, comp=False):
        self.ctx, self.rng = ctx, rng
        self.stage = Stage()
        self.layer = self.stage.top_layer
        self.model = Model()
        self.ops = []
        self.n = 0

    def apply(self, op):
        """Apply one recorded operation to stage and model; returns False if it is a violation."""
        k = op[0]
        m, layer, stage = self.model, self.layer, self.stage
        self.ops.append(op)
        inp = {'ops': list(self.ops)}
        if k == 'load':
            nodes = {}
            for p in op[1]:
                self.n += 1
                nodes[p] = node_data(self.n, 'm%d' % self.n)
                m.nodes[p] = expected_mark('m%d' % self.n)
            if op[2]:
                nodes['/'] = {'comment': 'w'}
            self.stage._sub_layers = []
            self.layer = self.stage.new_layer(0, {'nodes': nodes})
            if op[2]:
                m.nodes['/'] = json.dumps({'comment': 'w'})
            return True
        if k == 'add':
            _, name, parent, fix, mark = op
            path = join(parent, name)
            ok, res = self.ctx.guarded('add_node', inp, stage.add_node, name=name,
                                       data=node_data(int(mark[1:]), mark),
                                       parent=parent, layer=layer, fix_names=fix)
            if not ok:
                return False
            node = res[0][0]
            new = layer.get_node_path(node)
            if fix:
                if not self.ctx.check(new not in m.nodes and par(new) == parent and
                                      (new == path or path in m.nodes),
                                      'added node got a wrong or used path', inp, path, new):
                    return False
            elif new != path:
                self.ctx.fail('added node got a wrong path', inp, path, new)
                return False
            m.nodes[new] = expected_mark(mark)
        elif k == 'rename':
            _, path, name, force = op
            node = layer.lookup(path)
            ok, new = self.ctx.guarded('set_node_name', inp, stage.set_node_name, node, name,
                                       layer, force=force)
            if not ok:
                return False
            want = join(par(path), name)
            if not self.ctx.check(new == want or (not force and want in m.nodes and
                                                  new not in m.nodes and par(new) == par(path)),
                                  'renamed node got a wrong or used path', inp, want, new):
                return False
            self.move(path, new)
        elif k == 'parent':
            _, paths, parent = op
            nodes = [layer.lookup(p) for p in paths]
            ok, res = self.ctx.guarded('parent_nodes', inp, stage.parent_nodes, nodes, parent,
                                       layer)
            if not ok:
                return False
            for p, nd in zip(paths, nodes):
                new = res.get(p)
                if not self.ctx.check(new is not None and par(new) == parent and
                                      new not in m.nodes, 'reparented node got a wrong path', inp,
                                      [p, parent], new):
                    return False
                self.move(p, new)
        elif k == 'dup':
            _, path, desc = op
            node = layer.lookup(path)
            ok, res = self.ctx.guarded('duplicate_node', inp, stage.duplicate_node, node, layer,
                                       desc)
            if not ok:
                return False
            created = res[0]
            # the copy (first created) sits beside the original
            tops = [layer.get_node_path(n) for n in created]
            copies = [t for t in tops if t and par(t) == par(path) and
                      marker_of(layer.lookup(t)) == m.nodes[path]]
            if not self.ctx.check(len(copies) == 1 and copies[0] not in m.nodes,
                                  'duplicate is not one new sibling', inp, 'a sibling of ' + path,
                                  tops):
                return False
            top = copies[0]
            for t in tops:
                if t and below(top, t) and t not in m.nodes:
                    # parents created for the copy
                    m.nodes[t] = marker_of(layer.lookup(t))
            todo = [path]
            if desc:
                todo += sorted(reach(m, path))
            for p in todo:
                m.nodes[top + p[len(path):]] = m.nodes[p]
        elif k == 'delete':
            _, path, desc = op
            node = layer.lookup(path)
            ok, res = self.ctx.guarded('delete_node', inp, stage.delete_node, node, layer,
                                       delete_descendants=desc)
            if not ok:
                return False
            if not self.ctx.check(res[0] is True, 'delete_node reported failure', inp, True,
                                  res[0]):
                return False
            for p in list(m.nodes):
                if p == path or (desc and below(p, path)):
                    m.nodes.pop(p)
        return True

    def move(self, old, new):
        m = self.model
        if old == new:
            return
        moved = {p: m.nodes.pop(p) for p in list(m.nodes) if p == old or below(p, old)}
        for p, v in moved.items():
            m.nodes[new + p[len(old):]] = v

    def random_op(self):
        rng, m = self.rng, self.model
        real = sorted(p for p in m.nodes if p != '/')
        allp = sorted(m.all_paths())
        k = rng.random()
        if not real or k < .42:
            parent = '/'
            r = rng.random()
            if allp and r < .75:
                parent = rng.choice(allp)
            elif r < .85:
                parent = join(rng.choice(allp or ['/']), rng.choice(NAMES))
            name = rng.choice(NAMES)
            fix = rng.random() < .6
            if not fix and join(parent, name) in m.nodes:
                return None
            self.n += 1
            return ('add', name, parent, fix, 'm%d' % self.n)
        path = rng.choice(real)
        if k < .56:
            name = rng.choice(NAMES)
            tgt = join(par(path), name)
            force = rng.random() < .3
            if tgt == path:
                return None
            if (force and tgt in m.nodes) or self.clash(path, tgt):
                return None
            return ('rename', path, name, force)
        if k < .72:
            parents = [p for p in allp + ['/', '/new'] if p != par(path) and p != path and
                       not below(p, path)]
            if not parents:
                return None
            parent = rng.choice(parents)
            paths = [path]
            if rng.random() < .3:
                for q in rng.sample(real, min(2, len(real))):
                    if q != path and par(q) != parent and q != parent and \
                            not below(parent, q) and \
                            not any(below(q, z) or below(z, q) for z in paths):
                        paths.append(q)
            for q in paths:
                if self.clash(q, join(parent, q.rpartition('/')[2])):
                    return None
                # a moved node may free or occupy an implied target of another one
            if len(set(q.rpartition('/')[2] for q in paths)) != len(paths):
                return None
            return ('parent', paths, parent)
        if k < .84:
            if any(below(q, path.rstrip('0123456789') + str(i)) or below(q, path + str(i))
                   for i in range(1, 30) for q in m.nodes):
                # the copy would land on a name that nodes below it already imply
                return None
            return ('dup', path, rng.random() < .6)
        return ('delete', path, rng.random() < .5)

    def clash(self, path, tgt):
        """The target name is unused by a node but nodes already live below it: moving a subtree
        there is not a plain rename (kept out unless it only merges disjoint subtrees)."""
        m = self.model
        if tgt in m.nodes:
            # the stage picks tgt + number; that may itself be an implied path
            return any(below(p, tgt + str(i)) for i in range(2, 5) for p in m.nodes)
        return any(below(p, tgt) for p in m.nodes)


def session(ctx, seed_rng, length, qprob):
    d = Driver(ctx, seed_rng)
    if seed_rng.random() < .5:
        paths, world = start_layers(ctx, seed_rng, d)
        d.apply(('load', paths, world))
        if not check_layer(ctx, d.layer, d.model, list(d.ops), seed_rng, full=True):
            return
    for _ in range(length):
        op = d.random_op()
        if op is None:
            continue
        if not d.apply(op):
            return
        if seed_rng.random() < qprob:
            if not check_layer(ctx, d.layer, d.model, list(d.ops), seed_rng,
                               queries=seed_rng.choice([2, 5, 9])):
                return
        ctx.case('edit')
    if check_layer(ctx, d.layer, d.model, list(d.ops), seed_rng, full=True):
        ctx.case('session')
        comp = d.stage.build_stage()
        cm = Model()
        cm.nodes = {p: 1 for p in comp._nodes_path_as_key}
        ctx.check(set(cm.nodes) == set(d.model.nodes), 'composed nodes differ from the layer',
                  {'ops': d.ops}, sorted(d.model.nodes), sorted(cm.nodes))
        # (a composed layer files a node below an implied parent under the nearest existing one, so
        # only trees without missing levels are compared there)
        for path in sorted(cm.nodes) + ['/']:
            if cm.all_paths() - set(cm.nodes):
                break
            for _ in range(4):
                if not check_query(ctx, comp, cm, path, seed_rng,
                                   {'ops': d.ops, 'comp': True}):
                    return


def probe_implied(ctx, how):
    """Known finding: a node moved onto a path that so far only the nodes below it imply merges the
    two subtrees, and a descendant of it replaces the node that already has its new path."""
    nodes = {'/a': {}, '/a/x': {'attrs': {'k': {'value': '1'}}},
             '/b/x': {'attrs': {'k': {'value': '2'}}}}
    if how == 'parent':
        nodes = {'/a': {}, '/a/x': {'attrs': {'k': {'value': '1'}}}, '/p': {},
                 '/p/a/x': {'attrs': {'k': {'value': '2'}}}}
    d = ctx.tmp()
    path = os.path.join(d, 'k.nxt')
    with open(path, 'w') as fp:
        json.dump({'version': '1.17', 'nodes': nodes}, fp)
    st = Stage.load_from_filepath(path)
    ly = st.top_layer
    before = len(set(ly._nodes_path_as_key) - {'/'})
    if how == 'rename':
        st.set_node_name(ly.lookup('/a'), 'b', ly)
    else:
        st.parent_nodes([ly.lookup('/a')], '/p', ly)
    ctx.case('known finding')
    if len(set(ly._nodes_path_as_key) - {'/'}) != before:
        ctx.known.append('implied-' + how)


def run(ctx):
    for how in ('rename', 'parent'):
        probe_implied(ctx, how)
    while ctx.more():
        session(ctx, ctx.rng, ctx.rng.choice([3, 6, 12, 25]), ctx.rng.choice([.2, .6, 1.]))


def replay(ctx, rec):
    import random
    inp = rec['input']
    d = Driver(ctx, random.Random(1))
    for op in inp['ops']:
        if not d.apply(tuple(op)):
            return
    for s in range(40):
        check_layer(ctx, d.layer, d.model, list(d.ops), random.Random(s), full=True)
