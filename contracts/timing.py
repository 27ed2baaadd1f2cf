"""Contracts on the times recorded by a cache layer (C16).  An entry is a list
object [enter, exit] held both by the list of all times and by the list of its
node, hence box[Run.times]."""
from pyvc.engine import Loop

CL = 'obj[nxt_layer.CacheLayer]'


def register(reg):
    c = reg.contract
    reg.attrs.update({
        'Run.times': 'list[opt[real]]', 'Run.born': 'bool',
        'CacheLayer.node_times': 'list[box[Run.times]]',
        'CacheLayer.node_time_map': 'dict[str,list[box[Run.times]]]'})
    c('ext:time.time', returns='real', ensures={'now': "result > 0"},
      trusted=True, strings='uninterpreted')
    T = "self.node_times"
    M = "self.node_time_map"
    # an entry: a pair whose first element is a time
    pair = "(born({0}) and len({0}) == 2 and not is_none({0}[0]))"
    all_t = "all(%s for i in range(0, len(%s)))" % (
        pair.format(T + '[i]'), T)
    all_m = "all(%s for p in %s for i in range(0, len(%s[p])))" % (
        pair.format(M + '[p][i]'), M, M)
    once_t = "all(implies(i != j, not same({0}[i], {0}[j])) for i in " \
        "range(0, len({0})) for j in range(0, len({0})))".format(T)
    once_m = "all(implies(p != q or i != j, not same({0}[p][i], {0}[q][j])) " \
        "for p in {0} for i in range(0, len({0}[p])) " \
        "for q in {0} for j in range(0, len({0}[q])))".format(M)
    INV = {'times': all_t, 'runs': all_m, 'times once': once_t,
           'runs once': once_m}
    kept = "all(implies(old(born(r)), r.times == old(r.times)) " \
        "for r in objs('Run'))"
    c('nxt_layer.CacheLayer.was_during_node_exec',
      params={'self': CL, 'time_float': 'real'}, returns='bool',
      strings='uninterpreted', requires=[all_t],
      ensures={'exactly': "result == any(some({0}[i][0]) <= time_float and "
               "(is_none({0}[i][1]) or time_float <= some({0}[i][1])) "
               "for i in range(0, len({0})))".format(T)},
      loops={0: Loop(inv={'none yet': "all(not (some(_it[i][0]) <= "
                          "time_float and (is_none(_it[i][1]) or "
                          "time_float <= some(_it[i][1]))) "
                          "for i in range(0, _i))"})},
      props=['C16'])
    # the place of the last entry that is still open
    runs = 'list[box[Run.times]]'
    reg.uf('inner', [runs], 'int', reads=['Run.times'], axioms=[
        ('xs: %s, k: int' % runs, "implies(0 <= k and k < len(xs) and "
         "is_none(at(xs, k)[1]) and all(implies(k < j and j < len(xs), "
         "not is_none(at(xs, j)[1])) for j in INT), inner(xs) == k)",
         "(inner(xs), at(xs, k))"),
        ('xs: %s' % runs, "implies(inner(xs) >= 0, inner(xs) < len(xs) and "
         "is_none(at(xs, inner(xs))[1]))", "inner(xs)")])
    runs0 = "(old({0}[node_path]) if node_path in old({0}) else [])".format(M)
    c('nxt_layer.CacheLayer.set_node_enter_time',
      params={'self': CL, 'node_path': 'str', 't': 'real'},
      strings='uninterpreted', requires=list(INV.values()),
      modifies=['self.node_times', 'self.node_time_map', 'heap:Run.times',
                'heap:Run.born'],
      locals_={'time_entry': 'list[box[Run.times]]',
               'node_runs': 'list[box[Run.times]]'},
      ensures=dict(
          INV,
          one_more="len({0}) == len(old({0})) + 1".format(T),
          recorded="is_none({0}[len({0}) - 1][1]) and (t == 0 or "
          "some({0}[len({0}) - 1][0]) == t)".format(T),
          for_node="node_path in {0} and len({0}[node_path]) >= 1 and "
          "same({0}[node_path][len({0}[node_path]) - 1], "
          "{1}[len({1}) - 1])".format(M, T),
          inner="inner({0}[node_path]) == len({0}[node_path]) - 1".format(M),
          kept="all(implies(old(r.born), r.times == old(r.times)) "
          "for r in objs('Run'))",
          alive="all(implies(old(r.born), r.born) for r in objs('Run'))",
          new="all(implies(same(r, {0}[len({0}) - 1]), not old(r.born)) and "
          "implies(r.born and not old(r.born), same(r, {0}[len({0}) - 1])) "
          "for r in objs('Run'))".format(T),
          earlier="implies(node_path in old({0}), len({0}[node_path]) == "
          "len(old({0})[node_path]) + 1 and all(same({0}[node_path][i], "
          "old({0})[node_path][i]) for i in "
          "range(0, len(old({0})[node_path])))) and implies(not (node_path in "
          "old({0})), len({0}[node_path]) == 1)".format(M),
          others="all(implies(p != node_path, (p in {0}) == (p in old({0})) "
          "and implies(p in {0}, {0}[p] == old({0})[p])) "
          "for p in STR)".format(M)),
      props=['C16'])

    K = "old(inner({0}[node_path]))".format(M)
    mine = "at({0}[node_path], {1})".format(M, K)
    same_lists = ["{0} == old({0})".format(T), "{0} == old({0})".format(M)]
    unchanged = "all(r.times == old(r.times) for r in objs('Run'))"
    c('nxt_layer.CacheLayer.set_node_exit_time',
      params={'self': CL, 'node_path': 'str', 't': 'real'},
      strings='uninterpreted', requires=list(INV.values()),
      modifies=['heap:Run.times'],
      raises={'LookupError': "not (node_path in %s)" % M,
              'ValueError': "node_path in {0} and all(not is_none("
              "{0}[node_path][i][1]) for i in "
              "range(0, len({0}[node_path])))".format(M)},
      exc_ensures={'LookupError': [unchanged], 'ValueError': [unchanged]},
      ensures=dict(
          INV,
          closes="0 <= {k} and {k} < len({m}[node_path]) and "
          "is_none(old(at({m}[node_path], {k})[1])) and "
          "all(implies({k} < j and j < len({m}[node_path]), not is_none("
          "old(at({m}[node_path], j)[1]))) for j in INT) and len({r}) == 2 and "
          "{r}[0] == old(at({m}[node_path], {k})[0]) and not is_none({r}[1]) and "
          "(t == 0 or some({r}[1]) == t)".format(k=K, m=M, r=mine),
          others="all(implies(not same(r, {0}), r.times == old(r.times)) "
          "for r in objs('Run'))".format(mine)),
      loops={0: Loop(inv={
          'closed': "all(not is_none({0}[node_path][i][1]) for i in "
          "range(len({0}[node_path]) - _i, len({0}[node_path])))".format(M)})},
      props=['C16'])
    at_ = "at(%s[node_path], idx if idx >= 0 else idx + len(%s[node_path]))" \
        % (M, M)
    missing = "not (node_path in {0}) or idx >= len({0}[node_path]) or " \
        "idx < -len({0}[node_path])".format(M)
    c('nxt_layer.CacheLayer.get_node_run_time',
      params={'self': CL, 'node_path': 'str', 'idx': 'int'}, returns='real',
      strings='uninterpreted', requires=[all_m],
      raises={'ValueError': missing,
              'TypeError': "not (%s) and is_none(%s[1])" % (missing, at_)},
      ensures={'difference': "not (%s) and result == some(%s[1]) - "
               "some(%s[0])" % (missing, at_, at_)},
      props=['C16'])
