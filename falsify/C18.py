"""C18: file tokens against random roots, layer folders and file sets."""
import json
import os

from nxt.plugins import file_fallbacks as ff
from nxt.stage import Stage
from nxt.nxt_layer import SpecLayer

FILES = ['f.txt', 'g.txt', 'd/f.txt', 'd/e/g.txt', 'x y.txt', 'a.b', 'F.txt']
REFS = FILES + ['./f.txt', 'd/../f.txt', '../r0/f.txt', '../l/f.txt', 'none.txt', 'd', 'd/none',
                '../f.txt', 'd/e/../f.txt', './d//f.txt']
FOLDERS = ['r0', 'r1', 'r2', 'r3', 'l', 'cwd', 'r 4']


def gen(r):
    files = {}
    for f in FOLDERS:
        files[f] = [x for x in FILES if r.random() < r.choice([.1, .35, .7])]
    roots = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
        roots.append(r.choice(['r0', 'r1', 'r2', 'r3', 'r 4', 'gone', '', 'gone2', 'r0']))
    if r.random() < .2:
        roots = None
    n = r.choice([1, 1, 2, 3])
    return {'files': files, 'roots': roots, 'ref': r.choice(REFS), 'abs': r.choice(
        [None, None, None] + FOLDERS[:5] + ['gone']), 'layer': r.choice(['l', 'l', 'l', None, 'gone']),
        'slash': r.random() < .15, 'more': [r.choice(REFS) for _ in range(n - 1)],
        'via': r.choice(['plain', 'plain', 'attr', 'inner'])}


def build(ctx, inp):
    base = os.path.realpath(ctx.tmp())
    for f in FOLDERS:
        os.makedirs(os.path.join(base, f))
        for x in inp['files'].get(f, []):
            p = os.path.join(base, f, x)
            if not os.path.isdir(os.path.dirname(p)):
                os.makedirs(os.path.dirname(p))
            with open(p, 'w') as fp:
                fp.write(f)
    return base


def oracle(base, inp, ref, layer):
    """Independent: first existing candidate."""
    starts = []
    for x in inp['roots'] or []:
        if x and os.path.isdir(os.path.join(base, x)):
            starts.append(os.path.join(base, x))
    if layer and os.path.isdir(os.path.join(base, layer)):
        starts.append(os.path.join(base, layer))
    if os.path.isabs(ref):
        return ref if starts and os.path.exists(ref) else ''
    for s in starts:
        c = os.path.realpath(os.path.join(s, ref))
        if os.path.exists(c):
            return c
    return ''


def case(ctx, inp):
    base = build(ctx, inp)
    ref = inp['ref']
    if inp['abs']:
        ref = os.path.join(base, inp['abs'], ref.split('/')[-1] if ref.startswith('.') else ref)
        ref = os.path.normpath(ref)
    layer = inp['layer']
    ldir = os.path.join(base, layer) if layer else None
    cwd = os.getcwd()
    os.chdir(os.path.join(base, 'cwd'))
    os.environ.pop('NXT_FILE_ROOTS', None)
    if inp['roots'] is not None:
        os.environ['NXT_FILE_ROOTS'] = os.pathsep.join(
            (os.path.join(base, x) + ('/' if inp['slash'] else '')) if x else '' for x in inp['roots'])
    try:
        want_roots = [os.path.join(base, x) for x in inp['roots'] or []
                      if x and os.path.isdir(os.path.join(base, x))]
        ok, got = ctx.guarded('iter_env_roots', inp, lambda: list(ff.iter_env_roots()))
        if not ok or not ctx.eq('roots given in the environment', inp, want_roots,
                                [g.rstrip('/') for g in got]):
            return
        ok, got = ctx.guarded('file_root_fallback', inp, ff.file_root_fallback, ref, ldir)
        if not ok or not ctx.eq('first existing candidate', inp, oracle(base, inp, ref, layer), got):
            return
        if layer == 'gone':
            return
        if inp['via'] == 'inner' and (inp['abs'] or '/' not in ref):
            return
        # through a node attribute
        refs = [ref] + inp['more']
        if any('.' == x for x in refs):
            return
        val = ' + '.join('<${file::%s}>' % x for x in refs)
        attrs = {'v': {'value': val}}
        if inp['via'] == 'attr':
            attrs = {'v': {'value': ' + '.join('<${file::${k%d}}>' % i for i in range(len(refs)))}}
            for i, x in enumerate(refs):
                attrs['k%d' % i] = {'value': x}
        elif inp['via'] == 'inner':
            head, _, tail = ref.rpartition('/')
            attrs = {'v': {'value': '<${file::${k}/%s}>' % tail}, 'k': {'value': head}}
            refs = [ref]
        lfolder = 'l'
        path = os.path.join(base, lfolder, 'g.nxt')
        stage = Stage()
        stage._sub_layers = []
        stage.new_layer(0, {'nodes': {'/a': {'attrs': attrs}}, 'filepath': path, 'real_path': path})
        comp = stage.build_stage()
        node = comp.lookup('/a')
        ok, got = ctx.guarded('resolving a file token', inp, stage.get_node_attr_value, node, 'v',
                              comp, resolved=True)
        if not ok:
            return
        want = ' + '.join('<%s>' % oracle(base, inp, x, lfolder) for x in refs)
        ctx.eq('resolved file token', inp, want.replace(base, 'BASE'),
               got.replace(base, 'BASE') if isinstance(got, str) else got)
        ctx.check(os.path.realpath(os.getcwd()) == os.path.join(base, 'cwd'),
                  'working directory after resolving', inp, 'cwd', os.getcwd())
    finally:
        os.chdir(cwd)
        os.environ.pop('NXT_FILE_ROOTS', None)


def clean(ctx):
    import shutil
    for d in os.listdir(ctx.scratch):
        shutil.rmtree(os.path.join(ctx.scratch, d), ignore_errors=True)


def run(ctx):
    r = ctx.rng
    i = 0
    # every subset of three roots holding the file, every order of the roots
    import itertools
    for roots in itertools.permutations(['r0', 'r1', 'r2']):
        for k in range(16):
            have = {n: ['f.txt'] for b, n in enumerate(['r0', 'r1', 'r2', 'l']) if k >> b & 1}
            have['cwd'] = ['f.txt']
            for extra in ([], [''], ['gone']):
                rs = list(roots)
                if extra:
                    rs.insert(r.randrange(4), extra[0])
                ctx.case('systematic')
                case(ctx, {'files': have, 'roots': rs, 'ref': 'f.txt', 'abs': None, 'layer': 'l',
                           'slash': False, 'more': [], 'via': 'plain'})
        clean(ctx)
    while ctx.more():
        inp = gen(r)
        i += 1
        ctx.case('%s, %s' % (inp['via'], 'no roots' if not inp['roots'] else 'roots'))
        ctx.seen(json.dumps(inp, sort_keys=True))
        case(ctx, inp)
        if i % 50 == 0:
            clean(ctx)


def replay(ctx, rec):
    ctx.case('replay')
    case(ctx, rec['input'])
