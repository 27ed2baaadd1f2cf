"""C04: resolving random texts on random graphs against a positional oracle resolver."""
import json

from nxt.stage import Stage
from nxt.nxt_layer import SpecLayer, LayerReturnTypes as RT
import C02
import C03

NODES = ['/a', '/a/b', '/a/b/c', '/d', '/d/b', '/e']
LIT = ['x', ' ', 'txt', '{', '}', '$', '\n', '/', '.', "'", '"', 'a', u'\u00e9', '\\', '1', '%s',
       '{0}', '\\1', '$$']
VALUES = ['', 'v', 'b', 0, 7, None, [], [1, 'q'], {'k': 2}, False, True, 3.5, 'sp ace', '{}', 'x}',
          'a.b', '\\g<0>', 'attr0', 'attr1', '/a', '/d.attr0', '..', u'\u00e9']


class World(object):
    """attrs: {node path: {attr: raw}}; every raw text only refers to attributes made before it."""

    def __init__(self, rng):
        self.rng = rng
        self.nodes = [n for n in NODES if rng.random() < .8] or ['/a']
        self.attrs = {n: {} for n in self.nodes}
        order = []
        for i in range(rng.randrange(1, 7)):
            n = rng.choice(self.nodes)
            name = rng.choice(['attr%d' % i, 'b', 'v'])
            if name in self.attrs[n]:
                continue
            # an attribute shadows inherited ones, so anything below may only be used afterwards
            if any(n == m or m.startswith(n + '/') or n.startswith(m + '/')
                   for m, nm in order if nm == name):
                continue
            if rng.random() < .4 or not order:
                raw = rng.choice(VALUES)
            else:
                raw = self.text(n, order)
            self.attrs[n][name] = raw
            order.append((n, name))
        self.order = order

    def ref(self, node, order, depth=0):
        rng = self.rng
        n, name = rng.choice(order)
        r = rng.random()
        if r < .35:
            c = n + '.' + name
        elif r < .6 and (n == node or node.startswith(n + '/')):
            c = name
        elif r < .8:
            c = rel(node, n) + '.' + name
        elif r < .85:
            c = rng.choice(['nope', '/nope.v', 'x.', '', '_nxtpath', '/zz/y.attr0', '.'])
        elif depth < 2 and r < .97:
            # a nested reference whose value names the attribute
            c = rng.choice(['', n + '.', 'attr']) + '${' + self.ref(node, order, depth + 1) + '}'
        else:
            c = n + '.' + name
        return c

    def text(self, node, order):
        rng = self.rng
        out = []
        for _ in range(rng.randrange(0, 6)):
            if rng.random() < .5 and order:
                t = '${' + self.ref(node, order) + '}'
                out.append(t)
                if rng.random() < .3:
                    out.append(t)
            else:
                out.append(rng.choice(LIT))
        return ''.join(out)

    def lookup(self, node, name):
        """(found, raw) through the ancestors."""
        while node:
            if name in self.attrs.get(node, {}):
                return True, self.attrs[node][name]
            node = node.rpartition('/')[0]
        return False, None

    def value(self, node, name):
        if node not in self.attrs:
            return ''
        found, raw = self.lookup(node, name)
        if not found or raw is None or raw == '':
            return ''
        if not raw:
            return str(raw)
        return self.resolve(node, str(raw))

    depth = 0

    def resolve(self, node, text):
        if self.depth > 25:
            self.depth = 0
            raise Skip()       # names put together from values can refer in a circle
        self.depth += 1
        r = self.resolve_(node, text)
        self.depth -= 1
        return r

    def resolve_(self, node, text):
        b = C03.outer(text)
        if b is None:
            return text
        out, last = [], 0
        for s, e in b:
            out.append(text[last:s])
            out.append(self.token(node, text[s + 2:e - 1]))
            last = e
        out.append(text[last:])
        return ''.join(out)

    def token(self, node, content):
        if content == '':
            raise Skip()
        if content == '_nxtpath':
            return node
        if content.startswith(('file::', 'path::', 'contents::', '_nxtcolor', 'filelist::', 'ex::')):
            raise Skip()
        ref = self.resolve(node, content)
        path, sep, name = ref.rpartition('.')
        if sep and name and path:
            e = C02.oracle(path, node[1:].split('/'))
            if isinstance(e, tuple):
                if e[1]:
                    raise Skip()
                e = e[0]
            return self.value(e, name)
        if sep:
            raise Skip()
        if not ref.isidentifier():
            if ref == '':
                raise Skip()
        if ref.startswith('_'):
            raise Skip()
        return self.value(node, ref)


class Skip(Exception):
    pass


def rel(frm, to):
    f, t = frm[1:].split('/'), to[1:].split('/')
    k = 0
    while k < len(f) and k < len(t) and f[k] == t[k]:
        k += 1
    if k == 0:
        return to
    return '/'.join(['..'] * (len(f) - k) + t[k:]) or '.'


def build(w):
    data = {'nodes': {}}
    for n in w.nodes:
        data['nodes'][n] = {'attrs': {a: {'value': v} for a, v in w.attrs[n].items()}}
    st = Stage()
    st._sub_layers = []
    st.new_layer(0, json.loads(json.dumps(data)))
    return st, st.build_stage()


def raws(layer):
    return {p: {k: repr(v) for k, v in n.__dict__.items() if not k.startswith('__')}
            for p, n in layer._nodes_path_as_key.items()}


def one(ctx, w, st, comp, node, text):
    inp = {'attrs': w.attrs, 'node': node, 'text': text}
    w.depth = 0
    try:
        exp = w.resolve(node, str(text))
    except Skip:
        ctx.case('skipped')
        return
    cn = comp.lookup(node)
    ok, got = ctx.guarded('resolve', inp, st.resolve, cn, text, comp)
    if ok:
        ctx.eq('resolved text', inp, exp, got)
    ctx.case('resolve')


def check_world(ctx, w):
    st, comp = build(w)
    before = (raws(comp), raws(st.top_layer))
    for n, name in w.order:
        inp = {'attrs': w.attrs, 'node': n, 'attr': name}
        w.depth = 0
        try:
            exp = w.value(n, name)
        except Skip:
            ctx.case('skipped')
            continue
        ok, got = ctx.guarded('get_node_attr_value', inp, st.get_node_attr_value,
                              comp.lookup(n), name, comp, resolved=True)
        if ok:
            ctx.eq('resolved attribute value', inp, exp, got)
        ctx.case('attr')
        # an ancestor's attribute seen from a descendant
        below = [m for m in w.nodes if m.startswith(n + '/')]
        if below:
            m = w.rng.choice(below)
            w.depth = 0
            try:
                exp = w.value(m, name)
                ok, got = ctx.guarded('get_node_attr_value', inp, st.get_node_attr_value,
                                      comp.lookup(m), name, comp, resolved=True)
                if ok:
                    ctx.eq('resolved inherited value', dict(inp, asked=m), exp, got)
            except Skip:
                pass
    for _ in range(4):
        n = w.rng.choice(w.nodes)
        one(ctx, w, st, comp, n, w.text(n, w.order))
    # text without any closed token
    t = ''.join(w.rng.choice(LIT + ['${', '${a']) for _ in range(6))
    b = C03.outer(t)
    if not b:
        n = w.rng.choice(w.nodes)
        ok, got = ctx.guarded('resolve', {'text': t}, st.resolve, comp.lookup(n), t, comp)
        if ok:
            ctx.eq('text without closed token', {'text': t}, t, got)
    after = (raws(comp), raws(st.top_layer))
    ctx.check(before == after, 'resolving changed a stored value', {'attrs': w.attrs}, before,
              after)


def run(ctx):
    while ctx.more():
        check_world(ctx, World(ctx.rng))


def replay(ctx, rec):
    import random
    i = rec['input']
    w = World(random.Random(0))
    w.nodes = sorted(i['attrs'])
    w.attrs = i['attrs']
    w.order = [(i['node'], i['attr'])] if 'attr' in i else []
    st, comp = build(w)
    if 'text' in i:
        one(ctx, w, st, comp, i['node'], i['text'])
    else:
        check_world(ctx, w)
