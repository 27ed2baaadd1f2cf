"""Contracts on the order of execution (C10), nxt/nxt_layer.py."""
from pyvc.engine import Loop

LAYER = 'obj[nxt_layer.SpecLayer]'
NODE = 'obj[Node]'
ROOTS = 'list[%s]' % NODE


def register(reg):
    c = reg.contract
    T = dict(trusted=True, strings='uninterpreted')
    reg.attrs.update({
        'Node._execute_in': 'maybe[opt[str]]',
        'Node._enabled': 'maybe[opt[bool]]',
        'Node._start_point': 'bool',
        'Node._parent_path': 'str'})
    reg.uf('root_nodes', [LAYER], ROOTS)
    reg.uf('path_of', [LAYER, NODE], 'str')
    c('nxt_layer.SpecLayer.children', case='roots',
      params={'self': LAYER}, returns=ROOTS,
      ensures={'roots': "result == root_nodes(self)"},
      note='the nodes whose parent is the world, in their order (C08)', **T)
    c('nxt_layer.SpecLayer.get_node_path',
      params={'self': LAYER, 'node': NODE}, returns='str',
      ensures={'path': "result == path_of(self, node)"},
      note='the table of the layer, compared with the other one under C07',
      **T)
    # the number of root nodes whose path a list does not name yet
    roots = "root_nodes(layer)"
    reg.uf('unseen', [LAYER, 'list[str]'], 'int', axioms=[
        ('layer: %s, xs: list[str]' % LAYER, "unseen(layer, xs) >= 0",
         "unseen(layer, xs)"),
        ('layer: %s, xs: list[str], ys: list[str]' % LAYER,
         "implies(len(ys) == len(xs) + 1 and all(at(ys, i) == at(xs, i) "
         "for i in range(0, len(xs))) and not (at(ys, len(xs)) in xs) and "
         "any(path_of(layer, {0}[k]) == at(ys, len(xs)) "
         "for k in range(0, len({0}))), "
         "unseen(layer, ys) < unseen(layer, xs))".format(roots),
         "(unseen(layer, xs), unseen(layer, ys))")])
    R = "root_nodes(self)"
    P = "path_of(self, %s[{0}])" % R
    # root k is chained behind the root at path p
    reg.macros['behind_root'] = (['l', 'k', 'p'], (
        "(not missing(root_nodes(l)[k]._execute_in) and "
        "root_nodes(l)[k]._execute_in == p)"))
    # the number of the root at a path (paths are unique, C07)
    reg.uf('root_no', [LAYER, 'str'], 'int')
    K = "root_no(self, {0})"
    B = "behind_root(self, {0}, {1})"

    def inv(xs):
        x = xs + '[i]'
        return {
            'first': "len({0}) >= 1 and {0}[0] == start_root_path".format(xs),
            'once': "all(implies(i < j, {0}[i] != {0}[j]) for i in "
            "range(0, len({0})) for j in range(0, len({0})))".format(xs),
            'chained': "all(0 <= {k} and {k} < len({R}) and {p} == {x} and "
            "{b} for i in range(1, len({xs})))".format(
                k=K.format(x), R=R, p=P.format(K.format(x)), x=x, xs=xs,
                b=B.format(K.format(x), xs + '[i - 1]')),
            'first one': "all(implies(m < {k} and {b}, any(at({xs}, j) == "
            "{p} for j in range(0, i))) for i in range(1, len({xs})) "
            "for m in range(0, len({R})))".format(
                k=K.format(x), R=R, p=P.format('m'), xs=xs,
                b=B.format('m', xs + '[i - 1]'))}
    E = 'exec_order'
    last = "{0}[len({0}) - 1]"
    c('nxt_layer.SpecLayer.get_root_exec_order',
      params={'self': LAYER, 'start_root_path': 'str'}, returns='list[str]',
      strings='uninterpreted',
      use_cases={'nxt_layer.SpecLayer.children': 'roots'},
      requires=["all(root_no(self, %s) == k for k in range(0, len(%s)))" % (
          P.format('k'), R)],
      ensures=dict(inv('result'), end="all(implies(%s, %s in result) "
                   "for k in range(0, len(%s)))" % (
                       B.format('k', last.format('result')), P.format('k'),
                       R)),
      loops={
          0: Loop(inv=dict(inv(E), prev="prev_root_path == " +
                           last.format(E)),
                  decreases="unseen(self, exec_order)",
                  types={'exec_order': 'list[str]'}),
          1: Loop(inv={'same': "exec_order == old(exec_order) and "
                       "prev_root_path == old(prev_root_path)",
                       'passed': "all(implies(%s, %s in exec_order) "
                       "for k in range(0, _i))" % (
                           B.format('k', 'prev_root_path'), P.format('k'))})},
      props=['C10'])

    # ---- the order of the nodes.  The tree is given: the nodes below a root
    # in their order, places in it that grow along it (C08), no path twice
    # (C07), ancestors before what is below them
    OP = "opt[%s]" % NODE
    reg.uf('node_at', [LAYER, 'str'], OP)
    reg.uf('below_root', [LAYER, 'str'], 'list[str]')
    reg.uf('home', [LAYER, 'str'], 'str')
    reg.uf('place', [LAYER, 'str'], 'int')
    reg.uf('ancestor', ['str', 'str'], 'bool')
    reg.uf('top_of', ['str'], 'str')
    reg.uf('first_at', ['list[str]', 'str'], 'int', axioms=[
        ('xs: list[str], i: int', "implies(0 <= i and i < len(xs), "
         "0 <= first_at(xs, at(xs, i)) and first_at(xs, at(xs, i)) <= i and "
         "at(xs, first_at(xs, at(xs, i))) == at(xs, i))",
         "first_at(xs, at(xs, i))")])
    c('nxt_layer.SpecLayer.lookup', case='node',
      params={'self': LAYER, 'node_path': 'str'}, returns=OP,
      ensures={'node': "result == node_at(self, node_path)"}, **T)
    c('nxt_layer.SpecLayer.descendants', case='ordered',
      params={'self': LAYER, 'node_path': 'str', 'ordered': 'bool',
              'return_type': 'any'}, args={'ordered': True},
      returns='list[str]',
      ensures={'below': "result == below_root(self, node_path)"}, **T)
    c('nxt_path.is_ancestor', case='abstract',
      params={'path_to_check': 'str', 'ancestor_path': 'str'},
      returns='bool', ensures={
          'def': "result == ancestor(path_to_check, ancestor_path)"},
      note='the textual definition is proved in its other contract', **T)
    c('nxt_path.get_root_path', case='abstract', params={'node_path': 'str'},
      returns='str', ensures={'def': "result == top_of(node_path)"},
      note='the textual definition is proved in its other contract', **T)
    reg.macros['off'] = (['l', 'p'], (
        "(not is_none(node_at(l, p)) and not missing("
        "some(node_at(l, p))._enabled) and "
        "not is_none(some(node_at(l, p))._enabled) and "
        "not some(some(node_at(l, p))._enabled))"))
    D = "below_root(self, {0})"
    # no disabled node among it and its ancestors below its root
    D = "below_root(self, {0})"
    W = "at(below_root(l, home(l, p)), culprit(l, p))"
    reads = ['Node._enabled']
    reg.uf('culprit', [LAYER, 'str'], 'int', reads=reads)
    reg.uf('allowed', [LAYER, 'str'], 'bool', reads=reads, axioms=[
        ('l: %s, p: str' % LAYER, "implies(allowed(l, p), not off(l, p))",
         "allowed(l, p)"),
        ('l: %s, p: str, q: str' % LAYER, "implies(allowed(l, p) and "
         "ancestor(p, q) and listed(l, home(l, p), q), not off(l, q))",
         "(allowed(l, p), ancestor(p, q))"),
        ('l: %s, p: str' % LAYER, "implies(not allowed(l, p), off(l, p) or "
         "0 <= culprit(l, p) and culprit(l, p) < "
         "len(below_root(l, home(l, p))) and off(l, {0}) and "
         "ancestor(p, {0}))".format(W), "allowed(l, p)")])
    # q is below the root r
    reg.uf('listed', [LAYER, 'str', 'str'], 'bool', axioms=[
        ('l: %s, r: str, i: int' % LAYER, "implies(0 <= i and "
         "i < len(below_root(l, r)), listed(l, r, at(below_root(l, r), i)))",
         "at(below_root(l, r), i)"),
        ('l: %s, r: str, q: str' % LAYER, "implies(listed(l, r, q), "
         "0 <= listed_at(l, r, q) and listed_at(l, r, q) < "
         "len(below_root(l, r)) and at(below_root(l, r), "
         "listed_at(l, r, q)) == q)", "listed(l, r, q)")])
    reg.uf('listed_at', [LAYER, 'str', 'str'], 'int')
    OKD = "allowed(self, {0})"
    OK = "in_run(self, start_path, {0})"
    reg.uf('in_run', [LAYER, 'str', 'str'], 'bool', reads=reads, axioms=[
        ('l: %s, s: str, p: str' % LAYER, "in_run(l, s, p) == (allowed(l, p) "
         "and (not off(l, home(l, p)) or home(l, p) == home(l, s) and "
         "s != home(l, p)) and (home(l, p) != home(l, s) or "
         "place(l, s) <= place(l, p)))", "in_run(l, s, p)")])
    RO = 'root_exec_order'
    MEMBER = "(first_at(%s, home(self, {0})) >= 0 and first_at(%s, " \
        "home(self, {0})) < {1} and at(%s, first_at(%s, home(self, {0}))) " \
        "== home(self, {0}))" % (RO, RO, RO, RO)

    def order(xs, n):
        x, y = xs + '[i]', xs + '[j]'
        rank = "first_at(%s, home(self, {0}))" % RO
        return {
            'in order': "all(implies(i < j, {rx} < {ry} or "
            "home(self, {x}) == home(self, {y}) and "
            "place(self, {x}) < place(self, {y})) for i in range(0, len({xs}"
            ")) for j in range(0, len({xs})))".format(
                rx=rank.format(x), ry=rank.format(y), x=x, y=y, xs=xs),
            'of a root': "all(%s for i in range(0, len(%s)))" % (
                MEMBER.format(x, n), xs),
            'at or below': "all({x} == home(self, {x}) or listed(self, "
            "home(self, {x}), {x}) for i in range(0, len({xs})))"
            .format(x=x, xs=xs),
            'in_run': "all(%s for i in range(0, len(%s)))" % (
                OK.format(x), xs)}

    def complete(xs, n):
        r = 'at(%s, j)' % RO
        d = 'at(%s, q)' % D.format(r)
        return {
            'roots': "all(implies(%s, %s in %s) for j in range(0, %s))"
            % (OK.format(r), r, xs, n),
            'others': "all(implies(%s, %s in %s) for j in range(0, %s)"
            " for q in range(0, len(%s)))" % (
                OK.format(d), d, xs, n, D.format(r))}
    Ds = "below_root(self, r)"
    E = 'exec_order'
    rp = 'root_path'
    seen = "(place(self, start_path) <= place(self, root_path) or _i0 > 0 " \
        "or _i > 0 and place(self, start_path) <= " \
        "place(self, at(_it, _i - 1)))"
    c('nxt_layer.SpecLayer.get_exec_order',
      params={'self': LAYER, 'start_path': 'str'}, returns='list[str]',
      strings='uninterpreted',
      use_cases={'nxt_layer.SpecLayer.lookup': 'node',
                 'nxt_layer.SpecLayer.descendants': 'ordered',
                 'nxt_path.is_ancestor': 'abstract',
                 'nxt_path.get_root_path': 'abstract'},
      requires=[
          "start_path != '/'",
          "all(root_no(self, %s) == k for k in range(0, len(%s)))" % (
              P.format('k'), R),
          # the tree below every root
          "all(home(self, at({0}, i)) == r and place(self, r) < "
          "place(self, at({0}, i)) for r in STR "
          "for i in range(0, len({0})))".format(Ds),
          "home(self, top_of(start_path)) == top_of(start_path)",
          "all(home(self, %s) == %s for k in range(0, len(%s)))" % (
              P.format('k'), P.format('k'), R),
          "all(implies(i < j, place(self, at({0}, i)) < place(self, at({0}, "
          "j))) for r in STR for i in range(0, len({0})) "
          "for j in range(0, len({0})))".format(Ds),
          "all(implies(ancestor(p, q), place(self, q) < place(self, p)) "
          "for p in STR for q in STR)",
          "all(implies(ancestor(p, q) and ancestor(q, r), ancestor(p, r)) "
          "for p in STR for q in STR for r in STR)",
          "home(self, start_path) == top_of(start_path)",
          "start_path == top_of(start_path) or place(self, "
          "top_of(start_path)) < place(self, start_path)",
          "start_path == top_of(start_path) or listed(self, "
          "top_of(start_path), start_path)"],
      witness={RO: 'list[str]'},
      locals_={E: 'list[str]', 'disabled_desc': 'list[str]'},
      ensures={k: v.replace(RO, 'w_' + RO) for k, v in dict(
          order('result', 'len(%s)' % RO),
          **complete('result', 'len(%s)' % RO)).items()},
      loops={
          0: Loop(inv=dict(order(E, '_i'), found="start_found == (_i > 0)",
                           **complete(E, '_i')),
                  types={E: 'list[str]'}),
          1: Loop(inv=dict(
              order(E, '_i0 + 1'),
              found="start_found == " + seen,
              before="all(implies(home(self, {0}[i]) == root_path, "
              "{0}[i] == root_path or any(at(_it, m) == {0}[i] "
              "for m in range(0, _i))) for i in range(0, len({0})))".format(E),
              off="all(implies(not %s, at(_it, m) in disabled_desc) "
              "for m in range(0, _i))" % OKD.format('at(_it, m)'),
              off_only="all(not %s and any(at(_it, m) == disabled_desc[i] "
              "for m in range(0, _i)) for i in "
              "range(0, len(disabled_desc)))" % OKD.format('disabled_desc[i]'),
              root=complete(E, '_i0 + 1')['roots'],
              earlier=complete(E, '_i0')['others'],
              here="all(implies(%s, at(_it, q) in %s) "
              "for q in range(0, _i))" % (
                  OK.format('at(_it, q)'), E)),
                  types={'disabled_desc': 'list[str]'}),
          2: Loop(inv={'none': "enabled and all(not ancestor(desc_path, "
                       "at(_it, i)) for i in range(0, _i))"})},
      props=['C10'])
    c('nxt_node.get_node_enabled', params={'node': OP}, returns='opt[bool]',
      strings='uninterpreted', ensures={
          'state': "result == (None if is_none(node) or missing("
          "some(node)._enabled) else some(node)._enabled)"}, props=['C10', 'C11'])
