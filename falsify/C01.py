"""C01: path algebra against plain list operations."""
import itertools

from nxt import nxt_path as np

NAMES = ['a', 'ab', 'b', 'aa', '_', 'A9', 'node', 'a_b', u'\u00e9t\u00e9', 'x' * 40]
ATTRS = ['v', 'attr', '_x', 'a', 'ab', '__name__x', 'A1']


def P(names):
    return '/' + '/'.join(names)


def one(ctx, names):
    path = P(names)
    inp = {'names': list(names)}
    d = len(names)
    g = ctx.guarded

    def call(what, exp, fn, *a):
        ok, r = g(what, dict(inp, args=list(a)), fn, *a)
        if ok:
            ctx.eq(what, dict(inp, args=list(a)), exp, r)
    parent = P(names[:-1]) if names else ''
    name = names[-1] if names else '/'
    call('get_parent_path', parent, np.get_parent_path, path)
    call('node_name_from_node_path', name, np.node_name_from_node_path, path)
    call('join parent and name', path, lambda p: np.join_node_paths(
        np.get_parent_path(p), np.node_name_from_node_path(p)), path)
    call('join_node_paths', path, np.join_node_paths, parent, name)
    if names:
        call('str_path_to_node_namespace', list(names), np.str_path_to_node_namespace, path)
        call('get_root_path', P(names[:1]), np.get_root_path, path)
        call('node_namespace_to_str_path', path, np.node_namespace_to_str_path, list(names))
        call('join tuple', path, np.join_node_paths, '/', tuple(names))
        call('join list', path, lambda a, b: np.join_node_paths(a, tuple(b)), '/', list(names))
    call('namespace round trip', path, lambda p: np.node_namespace_to_str_path(
        np.str_path_to_node_namespace(p)), path)
    call('get_path_depth', d, np.get_path_depth, path)
    for t in range(0, d + 3):
        call('trim_to_depth', P(names[:t]), np.trim_to_depth, path, t)
    call('all_ancestor_paths', [P(names[:i]) for i in range(d - 1, 0, -1)],
         np.all_ancestor_paths, path)
    for i in range(0, d + 1):
        anc = P(names[:i])
        if names:
            call('is_ancestor', i < d, np.is_ancestor, path, anc)
        if i:
            call('is_ancestor (near miss)', False, np.is_ancestor, path, anc + '0')
            call('is_ancestor (near miss)', False, np.is_ancestor, path,
                 P(names[:i - 1] + (names[i - 1][:-1] or 'q',)))


def pair(ctx, names, other):
    """is_ancestor between any two paths; replace_ancestor of each prefix by `other`."""
    path, o = P(names), P(other)
    inp = {'names': list(names), 'other': list(other)}
    if names:
        ok, r = ctx.guarded('is_ancestor', inp, np.is_ancestor, path, o)
        if ok:
            ctx.eq('is_ancestor of two paths', inp,
                   len(other) < len(names) and tuple(names[:len(other)]) == tuple(other), r)
    # (the world is not below anything, so it is never moved)
    for i in range(0, len(names) + 1 if names else 0):
        exp = P(tuple(other) + tuple(names[i:]))
        ok, r = ctx.guarded('replace_ancestor', inp, np.replace_ancestor, path, P(names[:i]), o)
        if ok:
            ctx.eq('replace_ancestor', dict(inp, prefix=i), exp, r)
    # joining a path with several names
    if other:
        ok, r = ctx.guarded('join', inp, np.join_node_paths, path, tuple(other))
        if ok:
            ctx.eq('join_node_paths of several', inp, P(tuple(names) + tuple(other)), r)


def attr(ctx, names, a):
    path = P(names)
    inp = {'names': list(names), 'attr': a}
    ok, ap = ctx.guarded('make_attr_path', inp, np.make_attr_path, path, a)
    if not ok:
        return
    ctx.eq('attr path text', inp, path + '.' + a, ap)
    for what, fn, arg, exp in (
            ('path_attr_partition', np.path_attr_partition, ap, (path, a)),
            ('node_path_from_attr_path', np.node_path_from_attr_path, ap, path),
            ('attr_name_from_attr_path', np.attr_name_from_attr_path, ap, a),
            ('is_attr_path', np.is_attr_path, ap, True),
            ('is_attr_path of a node path', np.is_attr_path, path, False),
            ('partition of a node path', np.path_attr_partition, path, (path, None)),
            ('namespace of an attr path', np.str_path_to_node_namespace, ap, list(names))):
        if what.startswith('namespace') and not names:
            continue
        ok, r = ctx.guarded(what, inp, fn, arg)
        if ok:
            ctx.eq(what, inp, exp, r)


def dotted(ctx):
    """Relative node paths (documented at path_attr_partition) split back too."""
    for node in ('..', '.', '../..', '../x', './x/y', 'somewhere/else', 'a'):
        for a in ('attr', 'a', '_x1'):
            inp = {'node': node, 'attr': a}
            for what, exp, fn in (
                    ('path_attr_partition', (node, a), np.path_attr_partition),
                    ('node_path_from_attr_path', node, np.node_path_from_attr_path),
                    ('attr_name_from_attr_path', a, np.attr_name_from_attr_path)):
                ok, r = ctx.guarded(what, inp, fn, node + '.' + a)
                if ok:
                    ctx.eq(what + ' of a relative path', inp, exp, r)
    for node in ('/a.', '/a/b.', '..', '.'):
        ok, r = ctx.guarded('partition', {'path': node}, np.path_attr_partition, node)
        if ok:
            ctx.eq('partition of a path that ends with a dot', {'path': node}, (node, None), r)


def run(ctx):
    dotted(ctx)
    ctx.case('relative')
    one(ctx, ())
    ctx.case('world')
    for d in range(1, 5):
        for names in itertools.product(['a', 'b', 'ab', 'aa'], repeat=d):
            one(ctx, names)
            ctx.case('small')
    small = [n for d in range(0, 4) for n in itertools.product(['a', 'ab', 'aa'][:2], repeat=d)]
    for n in small:
        for o in small:
            pair(ctx, n, o)
            ctx.case('pair')
        for a in ATTRS:
            attr(ctx, n, a)
            ctx.case('attr')
    rng = ctx.rng
    for depth in (15, 40):
        one(ctx, tuple(rng.choice(NAMES) for _ in range(depth)))
    for item in ctx.extra:
        for v in item.values():
            if isinstance(v, str) and well(v):
                one(ctx, tuple(v[1:].split('/')) if v != '/' else ())
    while ctx.more():
        n = tuple(rng.choice(NAMES) for _ in range(rng.randrange(0, 8)))
        o = tuple(rng.choice(NAMES) for _ in range(rng.randrange(0, 5)))
        if rng.random() < .4:
            o = n[:rng.randrange(0, len(n) + 1)] + o[:1]
        one(ctx, n)
        pair(ctx, n, o)
        attr(ctx, n, rng.choice(ATTRS))
        ctx.case('random')


def well(v):
    return v.startswith('/') and (v == '/' or all(x.isidentifier() for x in v[1:].split('/')))


def replay(ctx, rec):
    i = rec['input']
    if 'other' in i:
        pair(ctx, tuple(i['names']), tuple(i['other']))
    elif 'attr' in i:
        attr(ctx, tuple(i['names']), i['attr'])
    else:
        one(ctx, tuple(i['names']))
