"""Contracts on the layer stack part of nxt/nxt_layer.py (C05)."""
from pyvc.engine import Loop

LAYER = 'obj[nxt_layer.SpecLayer]'


def register(reg):
    c = reg.contract
    reg.attrs.update({
        'SpecLayer.parent_layer': 'opt[%s]' % LAYER,
        'SpecLayer.filepath': 'str',
        'SpecLayer.mute': 'bool',
        'SpecLayer.solo': 'bool',
        'SpecLayer.lock': 'bool',
        'SpecLayer.alias': 'opt[str]',
        'SpecLayer.color': 'opt[str]',
        'SpecLayer.aliases': 'dict[str,str]',
        'SpecLayer.colors': 'dict[str,str]',
        'SpecLayer.locks': 'dict[str,bool]',
        'SpecLayer.comp_overrides': 'dict[str,dict[str,bool]]',
    })
    # the number of layers above one: parent layers form finite chains
    reg.uf('rank', [LAYER], 'int')
    reg.macros['chains'] = ([], "all(rank(l) >= 0 and implies("
                            "not is_none(l.parent_layer), "
                            "rank(some(l.parent_layer)) < rank(l)) "
                            "for l in objs('nxt_layer.SpecLayer'))")
    # the opinion of the outermost holder at or above a layer, for each of
    # the override dictionaries
    for a, ty in (('aliases', 'str'), ('colors', 'str'), ('locks', 'bool')):
        rd = ['SpecLayer.parent_layer', 'SpecLayer.' + a]
        reg.uf('held_' + a, [LAYER, 'str'], 'bool', reads=rd, axioms=[
            ('l: %s, p: str' % LAYER,
             "held_{0}(l, p) == (p in l.{0} or (not is_none(l.parent_layer) "
             "and held_{0}(some(l.parent_layer), p)))".format(a),
             "held_%s(l, p)" % a)])
        reg.uf('top_' + a, [LAYER, 'str'], ty, reads=rd, axioms=[
            ('l: %s, p: str' % LAYER,
             "top_{0}(l, p) == (top_{0}(some(l.parent_layer), p) if "
             "not is_none(l.parent_layer) and "
             "held_{0}(some(l.parent_layer), p) else "
             "l.{0}[p])".format(a), "top_%s(l, p)" % a)])
        c('nxt_layer.get_comped_layer_overs', case=a,
          params={'layer': LAYER}, args={'over_dict_attr': a},
          returns='dict[str,%s]' % ty, strings='uninterpreted',
          requires=["chains()"], locals_={'over_dict': 'dict[str,%s]' % ty},
          ensures={
              'held': "all((p in result) == held_%s(layer, p) "
              "for p in STR)" % a,
              'outermost': "all(implies(p in result, "
              "result[p] == top_%s(layer, p)) for p in STR)" % a},
          loops={
              0: Loop(inv={
                  'held': "all((p in over_dict or (not is_none(layer) and "
                  "held_{0}(some(layer), p))) == held_{0}(entry(layer), p) "
                  "for p in STR)".format(a),
                  'value': "all(implies(p in over_dict and (is_none(layer) "
                  "or not held_{0}(some(layer), p)), over_dict[p] == "
                  "top_{0}(entry(layer), p)) for p in STR)".format(a),
                  'above': "all(implies(not is_none(layer) and "
                  "held_{0}(some(layer), p), top_{0}(some(layer), p) == "
                  "top_{0}(entry(layer), p)) for p in STR)".format(a)},
                  types={'layer': 'opt[%s]' % LAYER},
                  decreases="0 if is_none(layer) else 1 + rank(some(layer))"),
              1: Loop(inv={
                  'held': "all((p in over_dict) == (p in old(over_dict) or "
                  "any(_it[j] == p for j in range(0, _i))) for p in STR)",
                  'kept': "all(implies(p in old(over_dict) and not "
                  "any(_it[j] == p for j in range(0, _i)), "
                  "over_dict[p] == old(over_dict)[p]) for p in STR)",
                  'new': "all(over_dict[_it[j]] == some(layer).%s[_it[j]] "
                  "for j in range(0, _i))" % a})},
          props=['C05'])
    rd = ['SpecLayer.parent_layer', 'SpecLayer.comp_overrides']
    reg.uf('held_op', [LAYER, 'str', 'str'], 'bool', reads=rd, axioms=[
        ('l: %s, p: str, k: str' % LAYER,
         "held_op(l, p, k) == ((p in l.comp_overrides and "
         "k in l.comp_overrides[p]) or (not is_none(l.parent_layer) "
         "and held_op(some(l.parent_layer), p, k)))", "held_op(l, p, k)")])
    reg.uf('top_op', [LAYER, 'str', 'str'], 'bool', reads=rd, axioms=[
        ('l: %s, p: str, k: str' % LAYER,
         "top_op(l, p, k) == (top_op(some(l.parent_layer), p, k) if "
         "not is_none(l.parent_layer) and "
         "held_op(some(l.parent_layer), p, k) else "
         "l.comp_overrides[p][k])", "top_op(l, p, k)")])
    reg.macros['has_op'] = (['d', 'p', 'k'], "p in d and k in d[p]")
    c('nxt_layer.get_comped_layer_overs', case='opinions',
      params={'layer': LAYER}, args={'over_dict_attr': 'comp_overrides'},
      returns='dict[str,dict[str,bool]]', strings='uninterpreted',
      requires=["chains()"],
      locals_={'over_dict': 'dict[str,dict[str,bool]]'},
      ensures={
          'held': "all(has_op(result, p, k) == held_op(layer, p, k) "
          "for p in STR for k in STR)",
          'outermost': "all(implies(has_op(result, p, k), "
          "result[p][k] == top_op(layer, p, k)) "
          "for p in STR for k in STR)"},
      loops={
          0: Loop(inv={
              'held': "all((has_op(over_dict, p, k) or (not is_none(layer) "
              "and held_op(some(layer), p, k))) == "
              "held_op(entry(layer), p, k) for p in STR for k in STR)",
              'value': "all(implies(has_op(over_dict, p, k) and "
              "(is_none(layer) or not held_op(some(layer), p, k)), "
              "over_dict[p][k] == top_op(entry(layer), p, k)) "
              "for p in STR for k in STR)",
              'above': "all(implies(not is_none(layer) and "
              "held_op(some(layer), p, k), top_op(some(layer), p, k) == "
              "top_op(entry(layer), p, k)) for p in STR for k in STR)"},
              types={'layer': 'opt[%s]' % LAYER},
              decreases="0 if is_none(layer) else 1 + rank(some(layer))"),
          1: Loop(inv={
              'held': "all(has_op(over_dict, p, k) == "
              "(has_op(old(over_dict), p, k) or any(_it[j] == p and "
              "k in some(layer).comp_overrides[p] for j in range(0, _i))) "
              "for p in STR for k in STR)",
              'kept': "all(implies(has_op(over_dict, p, k) and not "
              "any(_it[j] == p and k in some(layer).comp_overrides[p] "
              "for j in range(0, _i)), "
              "over_dict[p][k] == old(over_dict)[p][k]) "
              "for p in STR for k in STR)",
              'new': "all(implies(k in some(layer).comp_overrides[_it[j]], "
              "over_dict[_it[j]][k] == "
              "some(layer).comp_overrides[_it[j]][k]) "
              "for j in range(0, _i) for k in STR)"})},
      props=['C05'])
    reg.uf('outer', [LAYER], LAYER, reads=['SpecLayer.parent_layer'],
           axioms=[('l: %s' % LAYER,
                    "outer(l) == (outer(some(l.parent_layer)) if "
                    "not is_none(l.parent_layer) else l)", "outer(l)")])
    c('nxt_layer.get_root_parent', params={'layer': LAYER},
      returns='opt[%s]' % LAYER, strings='uninterpreted',
      requires=["chains()"],
      ensures={'none': "is_none(result) == is_none(layer.parent_layer)",
               'outermost': "implies(not is_none(result), "
               "some(result) == outer(layer) and "
               "is_none(some(result).parent_layer))"},
      loops={0: Loop(inv={
          'root': "implies(not is_none(root), "
          "not is_none(entry(layer.parent_layer)))",
          'start': "implies(is_none(root), "
          "parent == entry(layer.parent_layer))",
          'up': "implies(not is_none(root), "
          "parent == some(root).parent_layer and "
          "outer(some(root)) == outer(entry(layer)))",
          'top': "implies(not is_none(parent), "
          "outer(some(parent)) == outer(entry(layer)))"},
          types={'parent': 'opt[%s]' % LAYER, 'root': 'opt[%s]' % LAYER},
          decreases="0 if is_none(parent) else 1 + rank(some(parent))")},
      props=['C05'])
    reg.lemma('outermost_opinion', {'l': LAYER, 'p': 'str', 'n': 'int'},
              strings='uninterpreted', induct='n',
              requires=["chains()", "n == rank(l)"],
              ensures=["implies(p in outer(l).aliases, held_aliases(l, p) "
                       "and top_aliases(l, p) == outer(l).aliases[p])",
                       "implies(p in outer(l).colors, held_colors(l, p) "
                       "and top_colors(l, p) == outer(l).colors[p])",
                       "implies(p in outer(l).locks, held_locks(l, p) "
                       "and top_locks(l, p) == outer(l).locks[p])"],
              props=['C05'])
    reg.lemma('outermost_state', {'l': LAYER, 'p': 'str', 'k': 'str',
                                  'n': 'int'},
              strings='uninterpreted', induct='n',
              requires=["chains()", "n == rank(l)"],
              ensures=["implies(p in outer(l).comp_overrides and "
                       "k in outer(l).comp_overrides[p], held_op(l, p, k) "
                       "and top_op(l, p, k) == "
                       "outer(l).comp_overrides[p][k])"],
              props=['C05'])
    for at in ('mute', 'solo'):
        reg.uf('now_' + at, [LAYER], 'bool', reads=rd + [
            'SpecLayer.filepath', 'SpecLayer.' + at], axioms=[
            ('l: %s' % LAYER, "now_{0}(l) == (top_op(l, l.filepath, '{0}') "
             "if held_op(l, l.filepath, '{0}') else l.{0})".format(at),
             "now_%s(l)" % at)])
    for fn, at in (('get_muted', 'mute'), ('get_soloed', 'solo')):
        c('nxt_layer.SpecLayer.' + fn, params={'self': LAYER},
          args={'local': False}, returns='bool', strings='uninterpreted',
          requires=["chains()"],
          use_cases={'nxt_layer.get_comped_layer_overs': 'opinions'},
          ensures={'reported': "result == now_%s(self)" % at},
          props=['C05'])
        c('nxt_layer.SpecLayer.' + fn, case='local', params={'self': LAYER},
          args={'local': True}, returns='bool', strings='uninterpreted',
          ensures={'own': "result == self." + at}, props=['C05'])
    for fn, at, ds, ty in (('get_alias', 'alias', 'aliases', 'opt[str]'),
                           ('get_color', 'color', 'colors', 'opt[str]')):
        c('nxt_layer.SpecLayer.' + fn, params={'self': LAYER},
          args={'local': False, 'fallback_to_local': True}, returns=ty,
          strings='uninterpreted', requires=["chains()"],
          use_cases={'nxt_layer.get_comped_layer_overs': ds},
          ensures={'over': "implies(held_{0}(self, self.filepath), "
                   "not is_none(result) and some(result) == "
                   "top_{0}(self, self.filepath))".format(ds),
                   'own': "implies(not held_{0}(self, self.filepath), "
                   "result == self.{1})".format(ds, at)}, props=['C05'])
        c('nxt_layer.SpecLayer.' + fn, case='no-fallback',
          params={'self': LAYER},
          args={'local': False, 'fallback_to_local': False}, returns=ty,
          strings='uninterpreted', requires=["chains()"],
          use_cases={'nxt_layer.get_comped_layer_overs': ds},
          ensures={'over': "implies(held_{0}(self, self.filepath), "
                   "not is_none(result) and some(result) == "
                   "top_{0}(self, self.filepath))".format(ds),
                   'nothing': "implies(not held_{0}(self, self.filepath), "
                   "is_none(result))".format(ds)}, props=['C05'])
        c('nxt_layer.SpecLayer.' + fn, case='local', params={'self': LAYER},
          args={'local': True, 'fallback_to_local': True}, returns=ty,
          strings='uninterpreted',
          ensures={'own': "result == self." + at}, props=['C05'])
    c('nxt_layer.SpecLayer.get_locked', params={'self': LAYER},
      args={'local': False, 'fallback_to_local': True}, returns='bool',
      strings='uninterpreted', requires=["chains()"],
      use_cases={'nxt_layer.get_comped_layer_overs': 'locks'},
      ensures={'reported': "result == (top_locks(self, self.filepath) if "
               "held_locks(self, self.filepath) else self.lock)"},
      props=['C05'])
    c('nxt_layer.SpecLayer.get_locked', case='local', params={'self': LAYER},
      args={'local': True, 'fallback_to_local': True}, returns='bool',
      strings='uninterpreted', ensures={'own': "result == self.lock"},
      props=['C05'])
    for fn, p, ds, ty in (('set_alias_over', 'alias', 'aliases', 'str'),
                          ('set_color_over', 'color', 'colors', 'str'),
                          ('set_locked_over', 'lock', 'locks', 'bool')):
        here = "outer(self).%s" % ds
        c('nxt_layer.SpecLayer.' + fn, params={'self': LAYER,
                                               p: 'opt[%s]' % ty},
          strings='uninterpreted', requires=["chains()"],
          modifies=['heap:SpecLayer.' + ds],
          ensures={
              'top-layer': "implies(is_none(self.parent_layer), "
              "unchanged('SpecLayer.%s'))" % ds,
              'only-root': "only('SpecLayer.%s', outer(self))" % ds,
              'only-this': "all(implies(q != self.filepath, "
              "(q in {0}) == (q in old({0})) and "
              "implies(q in {0}, {0}[q] == old({0}[q]))) "
              "for q in STR)".format(here),
              'set': "implies(not is_none(self.parent_layer) and "
              "not is_none({1}), self.filepath in {0} and "
              "{0}[self.filepath] == some({1}))".format(here, p),
              'cleared': "implies(not is_none(self.parent_layer) and "
              "is_none({1}), self.filepath not in {0})".format(here, p)},
          props=['C05'])
    for fn, k in (('set_mute_over', 'mute'), ('set_solo_over', 'solo')):
        c('nxt_layer.SpecLayer.' + fn,
          params={'self': LAYER, 'layer_path': 'str', 'state': 'bool'},
          strings='uninterpreted', requires=["chains()"],
          use_cases={'nxt_layer.get_comped_layer_overs': 'opinions'},
          modifies=['self.comp_overrides'],
          ensures={
              'set': "has_op(self.comp_overrides, layer_path, '{0}') and "
              "self.comp_overrides[layer_path]['{0}'] == state".format(k),
              'rest': "all(implies(not (p == layer_path and m == '%s'), "
              "has_op(self.comp_overrides, p, m) == "
              "old(held_op(self, p, m)) and "
              "implies(has_op(self.comp_overrides, p, m), "
              "self.comp_overrides[p][m] == old(top_op(self, p, m)))) "
              "for p in STR for m in STR)" % k}, props=['C05'])
    # which layers contribute
    ls = 'list[%s]' % LAYER
    c('nxt_layer.get_soloed_layers', params={'layers': ls}, returns=ls,
      strings='uninterpreted', requires=["chains()"],
      ensures={'soloed': "filtered(result, layers, "
               "lambda l: now_solo(l))",
               'given': "all(l in layers for l in result)"}, props=['C05'])
    c('nxt_layer.get_muted_layers', params={'layers': ls}, returns=ls,
      strings='uninterpreted', requires=["chains()"],
      ensures={'muted': "filtered(result, layers, lambda l: now_mute(l))"},
      props=['C05'])
    c('nxt_layer.get_active_layers', params={'layers': ls}, returns=ls,
      strings='uninterpreted', requires=["chains()"],
      locals_={'result_layers': ls}, witness={'soloed_layers': ls},
      ensures={
          'soloed': "filtered(w_soloed_layers, layers, "
          "lambda l: now_solo(l))",
          'active-solo': "implies(len(w_soloed_layers) > 0, "
          "filtered(result, w_soloed_layers, lambda l: not now_mute(l)))",
          'active': "implies(len(w_soloed_layers) == 0, "
          "filtered(result, layers, lambda l: not now_mute(l)))",
          'given': "all(l in layers for l in result)"},
      loops={0: Loop(inv={'active': "filtered_prefix(result_layers, _it, "
                          "lambda l: not now_mute(l), _i)",
                          'from': "all(l in _it for l in result_layers)",
                          'given': "all(l in layers for l in _it)"})},
      props=['C05'])
