"""Contracts on running nodes (C11), nxt/stage.py: which codes run, in which
order, and that every run that was started has ended when the call ends."""
from pyvc.engine import Loop

ST = 'obj[stage.Stage]'
COMP = 'obj[nxt_layer.CompLayer]'
NODE = 'opt[obj[Node]]'


def register(reg):
    c = reg.contract
    T = dict(trusted=True, strings='uninterpreted')
    reg.attrs.update({
        'CompLayer.cache_layer': 'obj[nxt_layer.CacheLayer]',
        'CompLayer.runtime': 'bool',
        'Proc.codes': 'list[str]',
        'ExitGraph.runtime_layer': COMP})
    reg.uf('node_of', [COMP, 'str'], NODE)
    reg.uf('name_of', ['obj[Node]'], 'str')
    cache = "{0}.cache_layer"

    def inv(l):
        t, m = l + '.cache_layer.node_times', l + '.cache_layer.node_time_map'
        pair = "(born({0}) and len({0}) == 2 and not is_none({0}[0]))"
        return {
            'times': "all(%s for i in range(0, len(%s)))" % (
                pair.format(t + '[i]'), t),
            'runs': "all(%s for p in %s for i in range(0, len(%s[p])))" % (
                pair.format(m + '[p][i]'), m, m),
            'times once': "all(implies(i != j, not same({0}[i], {0}[j])) "
            "for i in range(0, len({0})) for j in range(0, len({0})))".format(
                t),
            'runs once': "all(implies(p != q or i != j, not same({0}[p][i], "
            "{0}[q][j])) for p in {0} for i in range(0, len({0}[p])) "
            "for q in {0} for j in range(0, len({0}[q])))".format(m)}
    M = '{0}.cache_layer.node_time_map'
    kept = "all(implies(old(r.born), r.times == old(r.times)) " \
        "for r in objs('Run'))"
    alive = "all(implies(old(r.born), r.born) for r in objs('Run'))"
    closed = "all(implies(r.born and not old(r.born), " \
        "len(r.times) == 2 and not is_none(r.times[1])) for r in objs('Run'))"

    def grown(l):
        m = M.format(l)
        return "all(implies(p in old({0}), p in {0} and len({0}[p]) >= " \
            "len(old({0})[p]) and all(same({0}[p][i], old({0})[p][i]) " \
            "for i in range(0, len(old({0})[p])))) for p in STR)".format(m)

    def inner(l):
        # an entry that is open when a node starts stays the innermost one
        return "all(implies(p in old({0}) and old(inner({0}[p])) >= 0, " \
            "inner({0}[p]) == old(inner({0}[p]))) for p in STR)".format(
                M.format(l))

    def fresh(l):
        # entries of the layer that were not there before are new ones
        m = M.format(l)
        return "all(implies(p in {0} and i >= (len(old({0})[p]) if p in " \
            "old({0}) else 0) and i < len({0}[p]), all(implies(same(r, " \
            "{0}[p][i]), not old(r.born)) for r in objs('Run'))) " \
            "for p in STR for i in INT)".format(m)
    heap = ['heap:Run.times', 'heap:Run.born', 'heap:CacheLayer.node_times',
            'heap:CacheLayer.node_time_map', 'heap:Proc.codes']
    one = "proc.codes == old(proc.codes) + [name_of(some(rt_node))]"
    after = {'kept': kept, 'alive': alive, 'closed': closed,
             'grown': grown('runtime_layer'),
             'fresh': fresh('runtime_layer'), 'one': one,
             'inner': inner('runtime_layer'), **inv('runtime_layer')}
    c('stage.run', params={'runtime_layer': COMP, 'stage': ST,
                           'rt_node': NODE},
      requires=list(inv('runtime_layer').values()), modifies=heap,
      raises={'ExitNode': 'maybe', 'ExitGraph': 'maybe',
              'GraphError': 'maybe', 'BaseException': 'maybe'},
      exc_ensures={e: list(after.values()) for e in (
          'ExitNode', 'ExitGraph', 'GraphError', 'BaseException')},
      ensures=after,
      note='runs of other nodes that the code of a node starts are not '
           'recorded; they end within it (what is proved of execute_nodes)',
      **T)
    c('stage.Stage.build_stage', case='any', params={
        'self': ST, 'from_idx': 'int'}, returns=COMP,
      raises={'Exception': 'maybe'}, **T)
    c('stage.Stage.setup_runtime_layer', params={
        'self': ST, 'comp_layer': COMP, 'parameters': 'any'}, returns=COMP,
      raises={'Exception': 'maybe'},
      ensures=dict(inv('result'), it="result == comp_layer"),
      note='a layer that has not run has no times', **T)
    c('stage.Stage.set_runtime_parameters', params={
        'self': ST, 'parameters': 'any', 'runtime_layer': COMP},
      raises={'Exception': 'maybe'}, **T)
    c('nxt_layer.SpecLayer.lookup', case='runtime', params={
        'self': COMP, 'node_path': 'str'}, returns=NODE,
      ensures={'node': "result == node_of(self, node_path)",
               'named': "implies(not is_none(result), "
               "name_of(some(result)) == node_path)"}, **T)
    c('nxt_layer.CompLayer.layer_idx', params={'self': COMP}, returns='int',
      **T)
    reg.macros['disabled'] = (['l', 'p'], (
        "(not is_none(node_of(l, p)) and not missing("
        "some(node_of(l, p))._enabled) and not is_none("
        "some(node_of(l, p))._enabled) and "
        "not some(some(node_of(l, p))._enabled))"))
    # how many of the first i paths are enabled
    reg.uf('live', [COMP, 'list[str]', 'int'], 'int', reads=['Node._enabled'],
           axioms=[
               ('l: %s, xs: list[str]' % COMP, "live(l, xs, 0) == 0",
                "live(l, xs, 0)"),
               ('l: %s, xs: list[str], i: int' % COMP,
                "implies(0 <= i and i <= len(xs), live(l, xs, i) >= 0)",
                "live(l, xs, i)"),
               # (by induction)
               ('l: %s, xs: list[str], i: int, j: int' % COMP,
                "implies(0 <= i and i < j and j <= len(xs), live(l, xs, i) + "
                "(0 if disabled(l, at(xs, i)) else 1) <= live(l, xs, j))",
                "(live(l, xs, i), live(l, xs, j))"),
               ('l: %s, xs: list[str], i: int' % COMP,
                "implies(0 <= i and i < len(xs), live(l, xs, i + 1) == "
                "live(l, xs, i) + (0 if disabled(l, at(xs, i)) else 1))",
                "live(l, xs, i + 1)")])
    L = 'runtime_layer'
    C = 'proc.codes'
    old_n = 'len(entry(%s))' % C

    def ran(l, n):
        return {
            'as many': "len({c}) == len(entry({c})) + live({l}, node_paths, "
            "{n})".format(c=C, l=l, n=n),
            'those': "all(implies(not disabled({l}, node_paths[i]), "
            "{c}[len(entry({c})) + live({l}, node_paths, i)] == "
            "node_paths[i]) for i in range(0, {n}))".format(c=C, l=l, n=n),
            'before': "all({c}[i] == entry({c})[i] for i in range(0, "
            "len(entry({c}))))".format(c=C)}
    e = lambda s: s.replace('old(', 'entry(')
    o = lambda s: s.replace('entry(', 'old(')
    exc = [kept, closed]
    c('stage.Stage.execute_nodes', case='runs',
      params={'self': ST, 'node_paths': 'list[str]', 'layer': COMP,
              'parameters': 'any'}, returns=COMP, strings='uninterpreted',
      use_cases={'stage.Stage.build_stage': 'any',
                 'nxt_layer.SpecLayer.lookup': 'runtime'},
      requires=["implies(layer.runtime, %s)" % x
                for x in inv('layer').values()],
      modifies=heap,
      raises={'ExitGraph': 'maybe', 'BaseException': 'maybe',
              'Exception': 'maybe', 'GraphError': 'maybe',
              'InvalidNodeError': 'maybe'},
      exc_ensures={x: exc for x in ('ExitGraph', 'BaseException', 'Exception',
                                    'GraphError', 'InvalidNodeError')},
      ensures=dict({k: o(v) for k, v in ran(
          'result', 'len(node_paths)').items()}, kept=kept, closed=closed,
          alive=alive,
          grown="implies(old(layer.runtime), %s)" % grown('layer'),
          fresh="implies(old(layer.runtime), %s)" % fresh('layer'),
          layer="implies(old(layer.runtime), result == layer)",
          **inv('result')),
      loops={0: Loop(inv=dict(ran(L, '_i'), kept=e(kept), closed=e(closed),
                              alive=e(alive), grown=grown(L),
                              fresh=fresh(L), **inv(L)))},
      props=['C11'])
