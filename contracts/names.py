"""Contracts on generated names (C09), nxt/stage.py.  `Comp.__dict__`-like
tables are ordinary dictionaries; what a word character is stays abstract."""
from pyvc.engine import Loop

LAYER = 'obj[nxt_layer.SpecLayer]'
COMP = 'obj[nxt_layer.CompLayer]'


def register(reg):
    c = reg.contract
    T = dict(trusted=True)
    reg.attrs.update({'SpecLayer._nodes_path_as_key': 'dict[str,obj[Node]]',
                      'Pattern.text': 'str'})
    # word characters: closed under concatenation, letters, digits, _
    reg.uf('wordy', ['str'], 'bool', axioms=[
        ('a: str, b: str', "wordy(a + b) == (wordy(a) and wordy(b))",
         "wordy(a + b)"),
        ('i: int', "implies(i >= 0, wordy(str(i)))", "str(i)"),
        ('s: str', "implies(wordy(s), '/' not in s and '.' not in s)",
         "wordy(s)"),
        ('s: str', "implies(s == '_' or s == 'node' or s == 'attr' or "
         "s == '__name__' or s == '1', wordy(s))", "wordy(s)"),
        ('s: str', "implies(s == '_' or s == 'n' or s == 'a', "
         "not s.isdigit())", "s.isdigit()")])
    reg.uf('resub', ['str', 'str', 'str'], 'str')
    reg.macros['legal'] = (['s'], "s != '' and not s[0].isdigit() and "
                           "wordy(s)")
    reg.macros['worded'] = (['s'], "resub('\\\\W', '_', s)")
    reg.macros['lawful'] = (['s'], "worded('_' + s if s[0].isdigit() else s)")
    reg.macros['base'] = (['n'], "'node' if is_none(n) else (lawful(some(n)) "
                          "+ '1' if lawful(some(n)) == '__name__' else "
                          "lawful(some(n)))")
    c('ext:re.compile', params={'pattern': 'str'}, returns='obj[Pattern]',
      ensures={'text': "result.text == pattern"}, **T)
    c('ext:re.sub', params={'pattern': 'obj[Pattern]', 'repl': 'str',
                            's': 'str'}, returns='str', ensures={
          'result': "result == resub(pattern.text, repl, s)",
          'words': "implies(pattern.text == '\\\\W' and repl == '_', "
          "wordy(result) and len(result) == len(s) and "
          "implies(wordy(s), result == s) and implies(s != '', "
          "result[0] == s[0] or result[0] == '_'))"},
      **T)
    c('stage.Stage.legalize_name', params={'name': 'str'}, returns='str',
      requires=["name != ''"],
      ensures={'legal': "legal(result)", 'same': "implies(legal(name), "
               "result == name)", 'result': "result == lawful(name)"},
      props=['C09'])
    # ---- node names
    here = "layer._nodes_path_as_key"
    reg.uf('composed', ['obj[stage.Stage]', 'int'], COMP)
    c('stage.Stage.build_stage', case='names', params={
        'self': 'obj[stage.Stage]', 'from_idx': 'int'}, returns=COMP,
      raises={'Exception': 'maybe'}, ensures={
          'composed': "result == composed(self, from_idx)"},
      note='composing changes no layer (C06)', **T)
    free = "(joined(parent_path, {0}) not in %s)"
    for case, ty, tab in (('', LAYER, None), ('comp', COMP, here)):
        for lo in ((True, False) if not case else (False,)):
            tab = here if case or lo else \
                'composed(self, 0)._nodes_path_as_key'
            fr = (free % tab).format
            c('stage.Stage.get_unique_node_name',
              case=case or ('layer' if lo else ''),
              params={'self': 'obj[stage.Stage]', 'name': 'opt[str]',
                      'layer': ty, 'parent_path': 'str'},
              args={'layer_only': lo},
              returns='str', ghost={'taken': 'int'},
              use_cases={'stage.Stage.build_stage': 'names',
                         'nxt_path.join_node_paths': 'one'},
              requires=["wf(parent_path)"] + ([] if case or lo else [
                  "not isinstance(layer, 'CompLayer')"]) + [
                        "implies(not is_none(name), some(name) != '')",
                        "taken >= 2", "all(implies(i >= taken, %s) "
                        "for i in INT)" % fr("base(name) + str(i)")],
              raises={} if case or lo else {'Exception': 'maybe'},
              ensures={
                  'legal': "legal(result)", 'unused': fr('result'),
                  'kept': "implies(not is_none(name) and legal(some(name)) "
                  "and some(name) != '__name__' and %s, "
                  "result == some(name))" % fr('some(name)'),
                  'numbered': "result == base(name) or (%s and any(result "
                  "== base(name) + str(i) for i in range(2, taken + 1)))" %
                  ('not ' + fr('base(name)'))},
              loops={0: Loop(inv={
                  'name': "name == base(entry(name))",
                  'legal': "legal(name)", 'legal test': "legal(test_name)",
                  'test': "test_name == (name if trailing_num == 1 else "
                  "name + str(trailing_num))",
                  'count': "1 <= trailing_num and trailing_num <= taken"},
                  decreases="taken - trailing_num")}, props=['C09'])
    # ---- attribute names
    prot = "nxt_node.INTERNAL_ATTRS.PROTECTED"
    ls = 'list[%s]' % LAYER
    reg.attrs['Node.__dict__'] = 'dict[str,any]'
    reg.attrs['CompLayer._layer_range'] = 'tuple[int,int]'
    tab = "{0}._nodes_path_as_key"
    held = "(node_path in %s and p in %s[node_path].__dict__ and " \
        "p not in %s and not p.endswith(nxt_node.META_ATTRS._suffix))" % (
            tab, tab, prot)
    some_at = "any(%s for i in range(0, {1}))" % held.format(
        "at({0}, i)", '', '')
    c('nxt_layer.get_node_local_attr_names', params={
        'node_path': 'str', 'layers': ls}, returns='list[str]',
      strings='uninterpreted', requires=["chains()"],
      witness={'active_layers': ls, 'soloed_layers': ls},
      locals_={'local_attrs': 'list[str]'},
      ensures={
          'some solo': "filtered(w_soloed_layers, layers, "
          "lambda l: now_solo(l))",
          'solo': "implies(len(w_soloed_layers) > 0, "
          "filtered(w_active_layers, w_soloed_layers, "
          "lambda l: not now_mute(l)))",
          'no solo': "implies(len(w_soloed_layers) == 0, "
          "filtered(w_active_layers, layers, lambda l: not now_mute(l)))",
          'held': "all(any(%s for i in range(0, len(w_active_layers))) "
          "for p in result)" % held.format("at(w_active_layers, i)"),
          'all': "all(implies(%s, p in result) for i in "
          "range(0, len(w_active_layers)) for p in STR)" % held.format(
              "at(w_active_layers, i)"),
          'within': "all(any(%s for i in range(0, len(layers))) "
          "for p in result)" % held.format("at(layers, i)")},
      loops={
          0: Loop(inv={
              'held': "all(any(%s for i in range(0, _i)) "
              "for p in local_attrs)" % held.format("at(_it, i)"),
              'all': "all(implies(%s, p in local_attrs) for i in "
              "range(0, _i) for p in STR)" % held.format("at(_it, i)")}),
          1: Loop(inv={
              'grows': "all(p in local_attrs for p in old(local_attrs))",
              'held': "all(p in old(local_attrs) or %s for p in local_attrs)"
              % held.format('layer'),
              'all': "all(implies(at(_it, j) not in %s and not at(_it, j)."
              "endswith(nxt_node.META_ATTRS._suffix), at(_it, j) in "
              "local_attrs) for j in range(0, _i))" % prot})},
      props=['C09'])
    # a name free on a node: not reserved, held by no layer looked at
    at_ = "(node_path in %s and p in %s[node_path].__dict__ and " \
        "not p.endswith(nxt_node.META_ATTRS._suffix))" % (
            tab.format('{0}'), tab.format('{0}'))
    bare = "base_attr(attr_name).rstrip('0123456789')"
    reg.macros['base_attr'] = (['n'], "'attr' if is_none(n) else "
                               "lawful(some(n))")
    for case, ty, over in (('', LAYER, '[layer]'), ('comp', COMP, None)):
        where = "layer" if not case else "l"
        free = "(p not in %s and not %s)" % (prot, at_.format(where))
        if case:
            free = "(p not in %s and all(not %s for l in self._sub_layers))" \
                % (prot, at_.format('l'))
        inner = "(p not in %s and all(not %s for i in range(0, " \
            "len(layers))))" % (prot, at_.format('at(layers, i)'))

        def fr(x, free=free):
            import re
            return re.sub(r'\bp\b', '(%s)' % x, free)
        c('stage.Stage.get_unique_attr_name', case=case,
          params={'self': 'obj[stage.Stage]', 'node_path': 'str',
                  'layer': ty, 'attr_name': 'opt[str]'}, returns='str',
          ghost={'taken': 'int'},
          requires=["chains()", "implies(not is_none(attr_name), "
                    "some(attr_name) != '')", "taken >= 0",
                    "all(implies(i >= taken, %s) for i in INT)" %
                    fr(bare + " + str(i)")] + (
              ["0 <= layer._layer_range[0]", "layer._layer_range[0] <= "
               "layer._layer_range[1]",
               "layer._layer_range[1] <= len(self._sub_layers)"] if case
              else ["not isinstance(layer, 'CompLayer')"]),
          ensures={
              'legal': "legal(result)",
              'reserved': "result not in %s" % prot,
              'unused': "all(not %s for i in range(0, "
              "len(w_active_layers)))" % at_.format(
                  'at(w_active_layers, i)').replace(
                  'p in', 'result in').replace('not p.', 'not result.')},
          witness={'active_layers': ls},
          loops={0: Loop(inv={
              'legal': "legal(attr_name)", 'base legal': "legal(base_name)",
              'legal test': "legal(test_name)",
              'test': "test_name == attr_name or test_name == base_name + "
              "str(num_suffix)",
              'free': "implies(num_suffix > old(num_suffix) and "
              "num_suffix >= taken, %s)" % fr('test_name', inner),
              'first': "implies(num_suffix > old(num_suffix), test_name == "
              "base_name + str(num_suffix))",
              'up': "num_suffix >= old(num_suffix)",
              'count': "num_suffix >= 0",
              'bound': "num_suffix <= old(num_suffix) + 1 or "
              "num_suffix <= taken"},
              decreases="max(taken, old(num_suffix) + 1) - num_suffix")},
          props=['C09'])
