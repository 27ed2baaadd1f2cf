"""C02: relative path expansion against a directive interpreter on name lists."""
import itertools

from nxt import nxt_path as np

D = ['..', '.', '', 'a', 'b']
BIG = D + ['ab', '...', 'a.b', '_', 'node', ' ']


def P(names):
    return '/' + '/'.join(names)


def oracle(rel, start):
    if rel == '':
        return None
    if rel[0] == '/':
        return rel
    cur = list(start)
    up = False
    for d in rel.split('/'):
        if d == '..':
            if len(cur) <= 1:
                up = True      # leaves the tree above a top-level node: only totality is required
                cur = []
            else:
                cur = cur[:-1]
        elif d in ('.', ''):
            pass
        else:
            cur = cur + [d]
    return (P(cur), up)


def one(ctx, rel, start):
    inp = {'rel': rel, 'start': list(start)}
    s = P(start)
    ok, r = ctx.guarded('expand_relative_node_path', inp, np.expand_relative_node_path, rel, s)
    if not ok:
        return
    exp = oracle(rel, start)
    if exp is None or isinstance(exp, str):
        ctx.eq('expansion of an absolute or empty path', inp, exp, r)
    elif exp[1] and exp[0] == '/':
        ctx.check(r in ('', '/'), 'expansion above the top', inp, "'' or '/'", r)
    else:
        ctx.eq('expansion', inp, exp[0], r)
    ok, r2 = ctx.guarded('expand_relative_node_path', inp, np.expand_relative_node_path, rel, s)
    if ok:
        ctx.eq('expansion twice', inp, r, r2)


def run(ctx):
    starts = [n for d in range(1, 5) for n in itertools.product(['a', 'b'], repeat=d)]
    for k in range(1, 5):
        for ds in itertools.product(D, repeat=k):
            rel = '/'.join(ds)
            for st in (('a',), ('a', 'b'), ('b', 'a', 'b'), ('a', 'a', 'a', 'a', 'a')):
                one(ctx, rel, st)
                ctx.case('small')
    for st in starts:
        for rel in ('', '/', '/a', '/x/y', '//', '/..', '..', '.', '../..', './b', 'b', '../b',
                    'a/b/c', '../../../../b', '/a/../b', '/a.b'):
            one(ctx, rel, st)
            ctx.case('fixed')
    for item in ctx.extra:
        r, s = item.get('rel_path'), item.get('start_node_path')
        if isinstance(r, str) and isinstance(s, str) and s.startswith('/') and s != '/' and \
                '' not in s[1:].split('/'):
            one(ctx, r, tuple(s[1:].split('/')))
    rng = ctx.rng
    while ctx.more():
        rel = '/'.join(rng.choice(BIG) for _ in range(rng.randrange(0, 9)))
        st = tuple(rng.choice(['a', 'b', 'ab', 'aa', 'x9']) for _ in range(rng.randrange(1, 7)))
        one(ctx, rel, st)
        ctx.case('random')


def replay(ctx, rec):
    one(ctx, rec['input']['rel'], tuple(rec['input']['start']))
