"""Contract registry."""
from .engine import Contract, Lemma, Loop


class Registry(object):
    def __init__(self):
        self.contracts = {}
        self.lemmas = {}
        self.attrs = {}
        self.ext_consts = {}
        self.globals_ = {}
        self.class_attrs = {}
        self.macros = {}
        self.ufs = {}
        self.axioms = {}
        self.reads = {}
        self.spec_consts = {}
        self.bounded = {}
        self.records = {}

    def contract(self, key, **kw):
        c = Contract(key, **kw)
        self.contracts[c.name] = c
        return c

    def lemma(self, name, params, **kw):
        l = Lemma(name, params, **kw)
        self.lemmas[name] = l
        return l

    def macro(self, name, params, body):
        self.macros[name] = (params.split(), body)

    def uf(self, name, args, ret, axioms=(), reads=()):
        """A specification function of its arguments and of the heap maps in
        `reads`; axioms are its (recursive) definition."""
        self.reads[name] = list(reads)
        self.ufs[name] = (args, ret)
        self.axioms[name] = list(axioms)

    def record(self, name, keys):
        """Dictionaries with fixed keys, whose values have types of their own:
        objects of a class `name` with one attribute per key (maybe[...] for a
        key that can be absent)."""
        self.records[name] = list(keys)
        for k, ty in keys.items():
            self.attrs['%s.%s' % (name, k)] = ty
        self.attrs[name + '.born'] = 'bool'

    def member_uf(self, name, ty):
        """name(xs, x): x is an element of xs (witnessed by an index)."""
        L = 'list[%s]' % ty
        self.uf(name + '_at', [L, ty], 'int')
        self.uf(name, [L, ty], 'bool', axioms=[
            ('xs: %s, x: %s' % (L, ty),
             "implies({0}(xs, x), 0 <= {0}_at(xs, x) and "
             "{0}_at(xs, x) < len(xs) and "
             "at(xs, {0}_at(xs, x)) == x)".format(name),
             "%s(xs, x)" % name),
            ('xs: %s, x: %s, i: int' % (L, ty),
             "implies(0 <= i and i < len(xs) and at(xs, i) == x, "
             "%s(xs, x))" % name, "(%s(xs, x), at(xs, i))" % name),
            # an instance of the former for lists that differ at the end
            ('xs: %s, ys: %s, x: %s' % (L, L, ty),
             "implies({0}(ys, x) and {0}_at(ys, x) < len(xs) and "
             "0 <= {0}_at(ys, x) and at(xs, {0}_at(ys, x)) == x, "
             "{0}(xs, x))".format(name),
             "({0}(xs, x), {0}(ys, x))".format(name))])

    def distinct_uf(self, name, ty):
        """name(xs): the elements of xs are different."""
        L = 'list[%s]' % ty
        self.uf(name + '_i', [L], 'int')
        self.uf(name + '_j', [L], 'int')
        self.uf(name, [L], 'bool', axioms=[
            ('xs: %s, i: int, j: int' % L,
             "implies({0}(xs) and 0 <= i and i < j and j < len(xs), "
             "at(xs, i) != at(xs, j))".format(name),
             "(%s(xs), at(xs, i), at(xs, j))" % name),
            ('xs: ' + L,
             "implies(not {0}(xs), 0 <= {0}_i(xs) and {0}_i(xs) < {0}_j(xs) "
             "and {0}_j(xs) < len(xs) and at(xs, {0}_i(xs)) == "
             "at(xs, {0}_j(xs)))".format(name), "%s(xs)" % name)])

    def disjoint_uf(self, name, ty):
        """name(xs, ys): no element of xs is an element of ys."""
        L = 'list[%s]' % ty
        self.uf(name + '_i', [L, L], 'int')
        self.uf(name + '_j', [L, L], 'int')
        self.uf(name, [L, L], 'bool', axioms=[
            ('xs: %s, ys: %s, i: int, j: int' % (L, L),
             "implies({0}(xs, ys) and 0 <= i and i < len(xs) and 0 <= j and "
             "j < len(ys), at(xs, i) != at(ys, j))".format(name),
             "(%s(xs, ys), at(xs, i), at(ys, j))" % name),
            ('xs: %s, ys: %s' % (L, L),
             "implies(not {0}(xs, ys), 0 <= {0}_i(xs, ys) and "
             "{0}_i(xs, ys) < len(xs) and 0 <= {0}_j(xs, ys) and "
             "{0}_j(xs, ys) < len(ys) and at(xs, {0}_i(xs, ys)) == "
             "at(ys, {0}_j(xs, ys)))".format(name), "%s(xs, ys)" % name)])

    def each_uf(self, name, params, xs, body, reads=(), lo='0', hi=None):
        """name(params): body holds for the index i of every element of the
        list parameter xs."""
        ps = [p.split(':') for p in _split(params)]
        ns = [p[0].strip() for p in ps]
        ts = [p[1].strip() for p in ps]
        call = '%s(%s)' % (name, ', '.join(ns))
        w = '%s_w(%s)' % (name, ', '.join(ns))
        rng = "%s <= {0} and {0} < %s" % (lo, hi or 'len(%s)' % xs)
        self.uf(name + '_w', ts, 'int', reads=reads)
        import re
        at_w = re.sub(r'\bi\b', w.replace('\\', ''), body)
        self.uf(name, ts, 'bool', reads=reads, axioms=[
            (params + ', i: int', "implies(%s and %s, %s)" % (
                call, rng.format('i'), body),
             "(%s, at(%s, i))" % (call, xs)),
            (params, "implies(not %s, %s and not (%s))" % (
                call, rng.format(w), at_w), call)])


def _split(text):
    from .spec import _split as f
    return f(text)


def load(modules=None):
    import importlib
    import os
    import sys
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if here not in sys.path:
        sys.path.insert(0, here)
    reg = Registry()
    d = os.path.join(here, 'contracts')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('_'):
            m = importlib.import_module('contracts.' + f[:-3])
            if hasattr(m, 'register'):
                m.register(reg)
    return reg
