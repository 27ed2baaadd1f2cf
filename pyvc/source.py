"""Source database: parses the *current* files of /repo/nxt on every run.

Nothing is cached between runs and nothing is rewritten: the verifier works on
the `ast` of the files that run.
"""
import ast
import warnings
import hashlib
import os

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(REPO, 'nxt')


def norm_dump(node):
    """AST dump of a function without docstrings, positions and no-op
    statements; used only to tell whether the source of a function differs
    from the source its proof was developed against."""
    node = ast.parse(ast.unparse(node)).body[0]
    for n in ast.walk(node):
        body = getattr(n, 'body', None)
        if isinstance(body, list):
            keep = [s for s in body
                    if not (isinstance(s, ast.Expr) and
                            isinstance(s.value, ast.Constant))
                    and not isinstance(s, ast.Pass)]
            n.body = keep or [ast.Pass()]
    return ast.dump(node, annotate_fields=False)


def digest(node):
    return hashlib.sha256(norm_dump(node).encode()).hexdigest()[:16]


class Func(object):
    def __init__(self, key, node, module, cls=None, static=False,
                 klass=False, prop=False):
        self.key = key
        self.node = node
        self.module = module
        self.cls = cls
        self.static = static
        self.klass = klass
        self.prop = prop

    @property
    def digest(self):
        return digest(self.node)


class Module(object):
    def __init__(self, name, path):
        self.name = name
        self.path = path
        self.is_pkg = os.path.basename(path) == '__init__.py'
        with open(path) as f:
            self.text = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore', SyntaxWarning)
            self.tree = ast.parse(self.text)
        self.imports = {}      # local name -> ('module', n) | ('from', m, n)
        self.funcs = {}
        self.classes = {}
        self.assigns = {}
        self._scan(self.tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    self.imports[a.asname or a.name.split('.')[0]] = (
                        'module', a.name if a.asname else
                        a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ''
                for a in s.names:
                    self.imports[a.asname or a.name] = ('from', base, a.name,
                                                        s.level)
            elif isinstance(s, ast.If) or isinstance(s, ast.Try):
                self._scan(s.body)
                self._scan(s.orelse)
                for h in getattr(s, 'handlers', []):
                    self._scan(h.body)
            elif isinstance(s, ast.FunctionDef):
                self.funcs[s.name] = s
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = s
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = s.value


MODULES = ['nxt_path', 'tokens', 'nxt_layer', 'nxt_node', 'nxt_io', 'stage',
           'session', 'runtime', 'cli', 'legacy', 'constants', 'clean_json',
           'plugins.file_fallbacks', 'remote.server', 'remote.contexts',
           'remote.client', 'remote', 'nxt_log', '']


class SourceDB(object):
    def __init__(self):
        self.modules = {}
        self.funcs = {}
        self.bases = {}        # class key -> [class keys or builtin names]
        self.consts = {}
        for m in MODULES:
            p = os.path.join(PKG, *m.split('.')) if m else PKG
            path = p + '.py' if os.path.isfile(p + '.py') else \
                os.path.join(p, '__init__.py')
            if not os.path.isfile(path):
                continue
            mod = Module(m, path)
            self.modules[m] = mod
            for n, f in mod.funcs.items():
                self.funcs['%s.%s' % (m, n)] = Func('%s.%s' % (m, n), f, mod)
            for cn, c in mod.classes.items():
                ck = '%s.%s' % (m, cn)
                self.bases[ck] = []
                for b in c.bases:
                    if isinstance(b, ast.Name):
                        self.bases[ck].append(self.resolve_class(mod, b.id))
                    elif isinstance(b, ast.Attribute):
                        self.bases[ck].append(b.attr)
                for s in c.body:
                    if isinstance(s, ast.FunctionDef):
                        deco = [d.id if isinstance(d, ast.Name) else
                                getattr(d, 'attr', '?')
                                for d in s.decorator_list]
                        if 'setter' in deco:
                            continue
                        k = '%s.%s' % (ck, s.name)
                        self.funcs[k] = Func(k, s, mod, ck,
                                             'staticmethod' in deco,
                                             'classmethod' in deco,
                                             'property' in deco)

    def resolve_class(self, mod, name):
        if name in mod.classes:
            return '%s.%s' % (mod.name, name)
        imp = mod.imports.get(name)
        if imp and imp[0] == 'from':
            m = imp[1]
            if m.startswith('nxt.'):
                m = m[4:]
            if m in MODULES:
                return '%s.%s' % (m, imp[2])
        return name

    def mro(self, ck):
        out = [ck]
        for b in self.bases.get(ck, []):
            for x in self.mro(b):
                if x not in out:
                    out.append(x)
        return out

    def method(self, ck, name):
        for c in self.mro(ck):
            f = self.funcs.get('%s.%s' % (c, name))
            if f:
                return f
        return None

    def is_subclass(self, a, b):
        if a == b:
            return True
        import builtins
        for x in self.mro(a):
            if x == b or x.split('.')[-1] == b:
                return True
            ex, be = getattr(builtins, x, None), getattr(builtins, b, None)
            if isinstance(ex, type) and isinstance(be, type) and \
                    issubclass(ex, be):
                return True
        ex, be = getattr(builtins, a, None), getattr(builtins, b, None)
        return (isinstance(ex, type) and isinstance(be, type) and
                issubclass(ex, be))
