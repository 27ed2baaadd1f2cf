"""Types, sorts and symbolic values of the VC generator."""
import z3


class Unsupported(Exception):
    """The construct is outside the verified subset."""


class Ty(object):
    __slots__ = ('k', 'a')

    def __init__(self, k, a=()):
        self.k = k
        self.a = tuple(a)

    def __eq__(self, o):
        return isinstance(o, Ty) and self.k == o.k and self.a == o.a

    def __hash__(self):
        return hash((self.k, self.a))

    def __repr__(self):
        if not self.a:
            return self.k
        return '%s[%s]' % (self.k, ','.join(
            x if isinstance(x, str) else repr(x) for x in self.a))


def parse_ty(s):
    if isinstance(s, Ty):
        return s
    s = s.strip()
    if '[' not in s:
        return Ty(s)
    i = s.index('[')
    k, rest = s[:i], s[i + 1:-1]
    if k in ('obj', 'box'):
        return Ty(k, (rest.strip(),))
    parts, depth, cur = [], 0, ''
    for c in rest:
        if c == '[':
            depth += 1
        elif c == ']':
            depth -= 1
        if c == ',' and depth == 0:
            parts.append(cur)
            cur = ''
        else:
            cur += c
    parts.append(cur)
    return Ty(k, [parse_ty(p) for p in parts])


INT, BOOL, STR, REAL, ANY = Ty('int'), Ty('bool'), Ty('str'), Ty('real'), \
    Ty('any')


class SV(object):
    pass


class Sc(SV):
    """Scalar: int, bool, str, real, obj[C], any."""
    __slots__ = ('ty', 't', 'c')

    def __init__(self, ty, t, c=None):
        self.ty = ty
        self.t = t
        self.c = c      # python constant when known

    def __repr__(self):
        return 'Sc(%r,%s)' % (self.ty, self.t)


class NoneV(SV):
    def __repr__(self):
        return 'None'


NONE = NoneV()


class Opt(SV):
    """Either None (isnone) or v."""

    def __init__(self, isnone, v):
        self.isnone = isnone
        self.v = v

    def __repr__(self):
        return 'Opt(%s,%r)' % (self.isnone, self.v)


class Maybe(SV):
    """An attribute that may be missing altogether."""

    def __init__(self, missing, v):
        self.missing = missing
        self.v = v


class Tup(SV):
    def __init__(self, items, names=None, lst=False):
        self.items = list(items)
        self.names = names
        self.lst = lst

    def __repr__(self):
        return 'Tup%r' % (self.items,)


class Ref(SV):
    """Reference to a mutable container at a place."""

    def __init__(self, place, ty):
        self.place = place
        self.ty = ty

    def __repr__(self):
        return 'Ref(%r,%r)' % (self.place, self.ty)


class Py(SV):
    """A concrete Python-level entity (module, function, class, ...)."""

    def __init__(self, kind, key, extra=None):
        self.kind = kind
        self.key = key
        self.extra = extra

    def __repr__(self):
        return 'Py(%s,%s)' % (self.kind, self.key)


class Opaque(SV):
    def __init__(self, why=''):
        self.why = why

    def __repr__(self):
        return 'Opaque(%s)' % self.why


# container values (immutable)
class CList(object):
    __slots__ = ('et', 'n', 'arr')

    def __init__(self, et, n, arr):
        self.et, self.n, self.arr = et, n, arr


class CDict(object):
    """dom/val plus, for dictionaries whose order matters, the key list."""
    __slots__ = ('kt', 'vt', 'dom', 'val', 'keys')

    def __init__(self, kt, vt, dom, val, keys=None):
        self.kt, self.vt, self.dom, self.val, self.keys = kt, vt, dom, val, \
            keys


class CSet(object):
    __slots__ = ('et', 'mem')

    def __init__(self, et, mem):
        self.et, self.mem = et, mem


_n = [0]


def fresh(prefix, sort):
    _n[0] += 1
    return z3.Const('%s!%d' % (prefix, _n[0]), sort)


def reset_names():
    _n[0] = 0


class Sorts(object):
    def __init__(self, mode):
        self.mode = mode
        self.S = z3.StringSort() if mode == 'native' else \
            z3.DeclareSort('Str')
        self.Obj = z3.DeclareSort('Obj')
        self.NULL = z3.Const('None!', self.Obj)
        self.cache = {}
        self.lits = {}
        self.ufs = {}
        self.global_facts = []
        self._gf_keys = set()

    def proc(self):
        """The process: its working directory and its environment."""
        return z3.Const('proc!', self.Obj)

    def lit(self, s):
        if self.mode == 'native':
            return z3.StringVal(s)
        if s not in self.lits:
            self.lits[s] = z3.Const('lit_%d_%s' % (
                len(self.lits), ''.join(c if c.isalnum() else '_'
                                        for c in s[:20])), self.S)
        return self.lits[s]

    def lit_facts(self):
        out = []
        if self.mode != 'native' and len(self.lits) > 1:
            out.append(z3.Distinct(*self.lits.values()))
        k = ('py_int_ok', str(self.S), 'Bool')
        if self.mode != 'native' and k in self.ufs:
            for s, t in self.lits.items():
                try:
                    v = int(s)
                except ValueError:
                    continue
                out.append(self.ufs[k](t))
                out.append(self.uf('py_int_of_str', self.S, z3.IntSort())(
                    t) == v)
        return out

    def fact(self, key, f):
        if key not in self._gf_keys:
            self._gf_keys.add(key)
            self.global_facts.append(f)

    def uf(self, name, *sorts):
        k = (name,) + tuple(str(x) for x in sorts)
        if k not in self.ufs:
            self.ufs[k] = z3.Function(name, *sorts)
        return self.ufs[k]

    def sort(self, ty):
        if ty.k == 'int':
            return z3.IntSort()
        if ty.k == 'bool':
            return z3.BoolSort()
        if ty.k == 'str':
            return self.S
        if ty.k == 'real':
            return z3.RealSort()
        if ty.k in ('obj', 'any', 'none', 'box'):
            return self.Obj
        if ty in self.cache:
            return self.cache[ty]
        nm = ''.join(c if c.isalnum() else '_' for c in repr(ty))
        con, fields = 'mk', ()
        if ty.k == 'list':
            pre, fields = 'L_', [('len', z3.IntSort()), (
                'arr', z3.ArraySort(z3.IntSort(), self.sort(ty.a[0])))]
        elif ty.k in ('dict', 'odict'):
            k, v = self.sort(ty.a[0]), self.sort(ty.a[1])
            pre, fields = 'D_', [('dom', z3.ArraySort(k, z3.BoolSort())),
                                 ('val', z3.ArraySort(k, v))]
            if ty.k == 'odict':
                pre = 'OD_'
                fields += [('n', z3.IntSort()),
                           ('ks', z3.ArraySort(z3.IntSort(), k))]
        elif ty.k == 'set':
            r = z3.ArraySort(self.sort(ty.a[0]), z3.BoolSort())
            self.cache[ty] = r
            return r
        elif ty.k in ('opt', 'maybe'):
            if ty.k == 'opt' and ty.a[0].k in ('obj', 'any'):
                return self.Obj
            pre, con = 'O_', 'some'
            if ty.k == 'maybe':
                pre = 'M_'
            fields = [('v', self.sort(ty.a[0]))]
        elif ty.k == 'tuple':
            pre, fields = 'T_', [('f%d' % i, self.sort(a))
                                 for i, a in enumerate(ty.a)]
        else:
            raise Unsupported('sort of type %r' % (ty,))
        # names of their own: the solvers' text formats tell constructors
        # and fields by name alone
        d = z3.Datatype(pre + nm)
        if con == 'some':
            d.declare('none_' + pre + nm)
        d.declare(con + '_' + pre + nm,
                  *[(f + '_' + pre + nm, srt) for f, srt in fields])
        r = d.create()
        for x in [con] + [f for f, _ in fields] + \
                (['none', 'is_none'] if con == 'some' else []):
            setattr(r, x, getattr(r, x + '_' + pre + nm))
        self.cache[ty] = r
        return r
