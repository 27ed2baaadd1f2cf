"""Contracts on dirty tracking: CompLayer.get_node_dirties and
Stage.extend_dirty_map / remove_from_dirty_map (C12)."""
from pyvc.engine import Loop

MAP = 'dict[str,list[str]]'


def register(reg):
    c = reg.contract
    reg.attrs['_dirty_map'] = MAP
    # a recorded dependency of b on a
    reg.uf('dep_at', [MAP, 'str', 'str'], 'int')
    reg.uf('dep', [MAP, 'str', 'str'], 'bool', axioms=[
        ('m: %s, a: str, b: str' % MAP,
         "implies(dep(m, a, b), a in m and 0 <= dep_at(m, a, b) and "
         "dep_at(m, a, b) < len(m[a]) and "
         "at(m[a], dep_at(m, a, b)) == b)", "dep(m, a, b)"),
        ('m: %s, a: str, j: int' % MAP,
         "implies(a in m and 0 <= j and j < len(m[a]), dep(m, a, at(m[a], j)))",
         "(depmap(m), at(m[a], j))")])
    reg.uf('depmap', [MAP], 'bool', axioms=[
        ('m: ' + MAP, "depmap(m)", "depmap(m)")])
    # any relation that contains dep and is closed under following it;
    # reachability is the least one
    reg.uf('reach', [MAP, 'str', 'str'], 'bool', axioms=[
        ('m: %s, a: str, b: str' % MAP,
         "implies(dep(m, a, b), reach(m, a, b))", "dep(m, a, b)"),
        ('m: %s, a: str, b: str, d: str' % MAP,
         "implies(reach(m, a, b) and dep(m, b, d), reach(m, a, d))",
         "(reach(m, a, b), dep(m, b, d))")])
    reg.distinct_uf('once', 'str')
    reg.member_uf('inlist', 'str')
    reg.disjoint_uf('apart', 'str')
    # the number of different recorded nodes: a duplicate-free list of
    # dependents is not longer (a finite map has finitely many)
    reg.uf('card', [MAP], 'int', axioms=[
        ('m: ' + MAP, "card(m) >= 0", "card(m)")])
    reg.uf('is_dep', [MAP, 'str'], 'bool')
    reg.axioms['dep'].append(
        ('m: %s, a: str, b: str' % MAP,
         "implies(dep(m, a, b), is_dep(m, b))", "dep(m, a, b)"))
    reg.each_uf('all_deps', 'm: %s, xs: list[str]' % MAP, 'xs',
                "is_dep(m, at(xs, i))")
    reg.lemma('pigeonhole', {'m': MAP, 'xs': 'list[str]'},
              strings='uninterpreted', trusted=True,
              requires=["once(xs)", "all_deps(m, xs)"],
              ensures=["len(xs) <= card(m)"],
              pattern=["once(xs)", "card(m)"], props=['C12'],
              note='a duplicate-free list of recorded dependents is not '
                   'longer than their number (finite cardinality)')
    dm = "self._dirty_map"
    new = "concerns + _tmp"
    c('nxt_layer.CompLayer.get_node_dirties',
      params={'self': 'obj[nxt_layer.CompLayer]', 'node_path': 'str'},
      returns='list[str]', strings='uninterpreted',
      requires=["depmap(self._dirty_map)", "all(once(%s[k]) for k in %s)" % (dm, dm)],
      locals_={'concerns': 'list[str]', 'new_concerns': 'list[str]',
               '_tmp': 'list[str]'},
      ensures={
          'reachable': "all(reach(self._dirty_map, node_path, result[i]) "
          "for i in range(0, len(result)))",
          'direct': "all(implies(dep(self._dirty_map, node_path, b), "
          "inlist(result, b)) for b in STR)",
          'closed': "all(implies(dep(self._dirty_map, result[i], b), "
          "inlist(result, b)) for i in range(0, len(result)) for b in STR)",
          'once': "once(result)"},
      loops={
          0: Loop(inv={
              'reachable': "all(reach(self._dirty_map, node_path, "
              "concerns[i]) for i in range(0, len(concerns)))",
              'once': "once(concerns)",
              'new': "all(new_concerns[i] == node_path or "
              "inlist(concerns, new_concerns[i]) "
              "for i in range(0, len(new_concerns)))",
              'direct': "all(implies(dep(self._dirty_map, node_path, b), "
              "inlist(concerns, b)) for b in STR)",
              'closed': "all(inlist(new_concerns, concerns[i]) or "
              "all(implies(dep(self._dirty_map, concerns[i], b), "
              "inlist(concerns, b)) for b in STR) "
              "for i in range(0, len(concerns)))",
              'deps': "all_deps(self._dirty_map, concerns)",
              },
              decreases="2 * (card(self._dirty_map) - len(concerns)) + "
              "(1 if len(new_concerns) > 0 else 0)"),
          1: Loop(inv={
              'reachable': "all(reach(self._dirty_map, node_path, _tmp[i]) "
              "for i in range(0, len(_tmp)))",
              'once': "once(_tmp)",
              'apart': "apart(concerns, _tmp)",
              'found': "all(implies(dep(self._dirty_map, _it[j], b), "
              "inlist(concerns, b) or inlist(_tmp, b)) "
              "for j in range(0, _i) for b in STR)",
              'deps': "all_deps(self._dirty_map, _tmp)"}),
          2: Loop(inv={
              'reachable': "all(reach(self._dirty_map, node_path, _tmp[i]) "
              "for i in range(0, len(_tmp)))",
              'once': "once(_tmp)",
              'apart': "apart(concerns, _tmp)",
              'kept': "all(implies(inlist(old(_tmp), b), inlist(_tmp, b)) "
              "for b in STR)",
              'found': "all(inlist(concerns, _it[j]) or "
              "inlist(_tmp, _it[j]) for j in range(0, _i))",
              'deps': "all_deps(self._dirty_map, _tmp)"})},
      uses=['pigeonhole'], props=['C12'])
    c('stage.Stage.extend_dirty_map',
      params={'node_path': 'str', 'concern': 'str', 'dirty_map': MAP},
      returns=MAP, strings='uninterpreted', modifies=['dirty_map'],
      requires=["all(once(dirty_map[k]) for k in dirty_map)"],
      locals_={'node_concerns': 'list[str]'},
      ensures={
          'recorded': "implies(node_path != '/' and concern != '/' and "
          "concern != node_path, "
          "node_path in dirty_map and inlist(dirty_map[node_path], concern))",
          'world': "implies(node_path == '/' or concern == '/', "
          "dirty_map == old(dirty_map))",
          'others': "all(implies(k != node_path, "
          "(k in dirty_map) == (k in old(dirty_map)) and "
          "dirty_map[k] == old(dirty_map)[k]) for k in STR)",
          'kept': "all(implies(node_path in old(dirty_map) and "
          "inlist(old(dirty_map)[node_path], b), node_path in dirty_map and "
          "inlist(dirty_map[node_path], b)) for b in STR)",
          'nothing else': "all(implies(node_path in dirty_map and "
          "inlist(dirty_map[node_path], b) and b != concern, "
          "node_path in old(dirty_map) and "
          "inlist(old(dirty_map)[node_path], b)) for b in STR)",
          'once': "all(once(dirty_map[k]) for k in dirty_map)",
          'result': "result == dirty_map"},
      props=['C12'])
    c('stage.Stage.remove_from_dirty_map',
      params={'node_path': 'str', 'dirty_map': MAP},
      returns=MAP, strings='uninterpreted', modifies=['dirty_map'],
      requires=["all(once(dirty_map[k]) for k in dirty_map)"],
      ensures={
          'world': "implies(node_path == '/', dirty_map == old(dirty_map))",
          'key': "implies(node_path != '/', not (node_path in dirty_map))",
          'keys': "all(implies(k != node_path, (k in dirty_map) == "
          "(k in old(dirty_map))) for k in STR)",
          'gone': "all(implies(node_path != '/', "
          "not inlist(dirty_map[k], node_path)) for k in dirty_map)",
          'kept': "all(implies(b != node_path and inlist(old(dirty_map)[k], "
          "b), inlist(dirty_map[k], b)) for k in dirty_map for b in STR)",
          'nothing else': "all(implies(inlist(dirty_map[k], b), "
          "inlist(old(dirty_map)[k], b)) for k in dirty_map for b in STR)",
          'once': "all(once(dirty_map[k]) for k in dirty_map)",
          'result': "result == dirty_map"},
      loops={0: Loop(inv={
          'keys': "all((k in dirty_map) == (k in old(dirty_map)) "
          "for k in STR)",
          'todo': "all(dirty_map[_it[j]] == old(dirty_map)[_it[j]] "
          "for j in range(_i, len(_it)))",
          'gone': "all(not inlist(dirty_map[_it[j]], node_path) "
          "for j in range(0, _i))",
          'kept': "all(implies(b != node_path and "
          "inlist(old(dirty_map)[k], b), inlist(dirty_map[k], b)) "
          "for k in dirty_map for b in STR)",
          'nothing else': "all(implies(inlist(dirty_map[k], b), "
          "inlist(old(dirty_map)[k], b)) for k in dirty_map for b in STR)",
          'once': "all(once(dirty_map[k]) for k in dirty_map)"})},
      props=['C12'])
