"""Contracts on child order merging and layer sorting (C08)."""
from pyvc.engine import Loop


def register(reg):
    c = reg.contract
    R = 'list[list[str]]'
    # where a row stood when the call began (rows are different objects)
    reg.uf('pos', [R], 'int')
    perm = {
        'size': "len(multi_list) == len(entry(multi_list))",
        'rows': "all(0 <= pos(multi_list[a]) and pos(multi_list[a]) < "
        "len(multi_list) and multi_list[a] == "
        "entry(multi_list)[pos(multi_list[a])] "
        "for a in range(0, len(multi_list)))",
        'once': "all(implies(a != b, pos(multi_list[a]) != "
        "pos(multi_list[b])) for a in range(0, len(multi_list)) "
        "for b in range(0, len(multi_list)))",
        'stable': "all(implies(a < b and pos(multi_list[a]) > "
        "pos(multi_list[b]), len(multi_list[a][sort_by_idx]) < "
        "len(multi_list[b][sort_by_idx])) "
        "for a in range(0, len(multi_list)) "
        "for b in range(0, len(multi_list)))"}
    L = "len(multi_list[{0}][sort_by_idx])"
    c('nxt_layer.sort_multidimensional_list',
      params={'multi_list': 'list[%s]' % R, 'sort_by_idx': 'int'},
      returns='list[%s]' % R, strings='uninterpreted',
      modifies=['multi_list'],
      requires=[
          "all(pos(multi_list[a]) == a for a in range(0, len(multi_list)))",
          "0 <= sort_by_idx",
          "all(sort_by_idx < len(multi_list[a]) "
          "for a in range(0, len(multi_list)))"],
      ensures=dict({k: v.replace('multi_list', 'result').replace(
          'entry(result)', 'old(multi_list)') for k, v in perm.items()},
          sorted="all(implies(a <= b, len(result[a][sort_by_idx]) <= "
          "len(result[b][sort_by_idx])) for a in range(0, len(result)) "
          "for b in range(0, len(result)))",
          same="multi_list == result"),
      loops={
          0: Loop(inv=dict(perm, count="0 <= i and i <= list_len + 1 and "
                           "list_len == len(multi_list)",
                           tail="all(implies(a <= b and list_len - i <= b, "
                           "%s <= %s) for a in range(0, list_len) "
                           "for b in range(0, list_len))" % (
                               L.format('a'), L.format('b'))),
                  decreases="list_len + 1 - i"),
          1: Loop(inv=dict(perm, count="0 <= ii and list_len == "
                           "len(multi_list) and (ii <= ii_high_end or "
                           "(ii == 0 and ii_high_end < 0)) and "
                           "ii < list_len",
                           item="item_len == " + L.format('ii'),
                           front="all(%s <= item_len for a in range(0, ii))"
                           % L.format('a'),
                           tail="all(implies(a <= b and list_len - i <= b, "
                           "%s <= %s) for a in range(0, list_len) "
                           "for b in range(0, list_len))" % (
                               L.format('a'), L.format('b'))),
                  decreases="max(0, ii_high_end - ii)")},
      props=['C08'])

    # merging child orders; base_at / over_at name the place of a name in the
    # lists (which have no name twice)
    reg.uf('base_at', ['str'], 'int')
    reg.uf('over_at', ['str'], 'int')
    B = "(0 <= base_at({0}) and base_at({0}) < len(base_list) and " \
        "at(base_list, base_at({0})) == {0})"
    O = "(0 <= over_at({0}) and over_at({0}) < len(overlay_list) and " \
        "at(overlay_list, over_at({0})) == {0})"

    def inv(m, done='len(overlay_list)', order='True'):
        x, y = m + '[p]', m + '[q]'
        return {
            'distinct': "all(implies(p != q, %s != %s) for p in "
            "range(0, len(%s)) for q in range(0, len(%s)))" % (x, y, m, m),
            'from': "all(%s or (%s and over_at(%s) < %s) "
            "for p in range(0, len(%s)))" % (
                B.format(x), O.format(x), x, done, m),
            'base': "all(base_list[b] in %s "
            "for b in range(0, len(base_list)))" % m,
            'overlay': "all(overlay_list[b] in %s for b in range(0, %s))" % (
                m, done),
            'order': "implies(%s, all(implies(p < q and %s and %s, "
            "base_at(%s) < base_at(%s)) for p in range(0, len(%s)) "
            "for q in range(0, len(%s))))" % (
                order, B.format(x), B.format(y), x, y, m, m)}

    uses = {'distinct': ['from', 'idx'], 'from': ['idx'], 'base': [],
            'overlay': [], 'order': ['distinct', 'from', 'idx']}
    c('nxt_node.list_merger',
      params={'base_list': 'list[str]', 'overlay_list': 'list[str]'},
      returns='list[str]', strings='uninterpreted',
      requires=[
          "all(base_at(base_list[b]) == b for b in "
          "range(0, len(base_list)))",
          "all(over_at(overlay_list[b]) == b for b in "
          "range(0, len(overlay_list)))"],
      ensures=inv('result'),
      loops={
          0: Loop(inv=dict(inv('merged_list', '_i'), idx="idx == _i",
                           size="result_len == len(merged_list)"),
                  uses=dict(uses, idx=[], size=[])),
          1: Loop(inv=dict(inv('merged_list', order='_i == 0'),
                           front="all(merged_list[p] == "
                           "only_source[len(only_source) - _i + p] "
                           "for p in range(0, _i))"),
                  uses=dict(uses, front=['distinct', 'from']))},
      props=['C08'])

    c('nxt_layer.order_nodes_dict', params={'node_dict': 'dict[str,any]'},
      returns='odict[str,any]', strings='uninterpreted',
      ensures={
          'same keys': "all((k in result) == (k in node_dict) for k in STR)",
          'same data': "all(result[k] == node_dict[k] for k in node_dict)",
          'once': "all(implies(a != b, keys(result)[a] != keys(result)[b]) "
          "for a in range(0, len(keys(result))) "
          "for b in range(0, len(keys(result))))",
          'listed': "all(k in keys(result) for k in node_dict)",
          'sorted': "all(implies(a <= b, keys(result)[a] <= keys(result)[b]) "
          "for a in range(0, len(keys(result))) "
          "for b in range(0, len(keys(result))))"},
      loops={0: Loop(inv={
          'keys': "len(keys(ordered_nodes)) == _i and "
          "all(keys(ordered_nodes)[p] == _it[p] for p in range(0, _i))",
          'data': "all(_it[p] in ordered_nodes and "
          "ordered_nodes[_it[p]] == node_dict[_it[p]] "
          "for p in range(0, _i))",
          'only': "all(implies(k in ordered_nodes, k in node_dict) "
          "for k in STR)"})},
      locals_={'ordered_nodes': 'odict[str,any]'},
      props=['C08'])
