"""Contracts on nxt/nxt_path.py (C01, C02)."""
from pyvc.engine import Loop


def register(reg):
    reg.spec_consts['SEP'] = '/'
    # a well formed node name / absolute node path
    reg.macro('wfname', 'n', "n != '' and '/' not in n")
    reg.macro('wf', 'p', "p == '/' or (p.startswith('/') and "
              "not p.endswith('/') and '//' not in p)")
    reg.macro('head', 'p', "p.rpartition('/')[0]")
    reg.macro('leaf', 'p', "p.rpartition('/')[2]")
    reg.macro('parent', 'p', "'' if p == '/' else ('/' if head(p) == '' "
              "else head(p))")
    reg.macro('depth', 'p', "0 if p == '/' else p.count('/')")
    reg.macro('joined', 'p, n', "'/' + n if p == '/' else p + '/' + n")
    reg.macros['joined'] = (['p', 'n'], "'/' + n if p == '/' else p + '/' + n")
    reg.macros['below'] = (['p', 'a'], "p.startswith(a + '/')")

    c = reg.contract
    c('nxt_path.get_parent_path', params={'node_path': 'str'}, returns='str',
      ensures={'is-parent': "result == parent(node_path)",
               'join-back': "implies(wf(node_path) and node_path != '/', "
               "joined(result, leaf(node_path)) == node_path and "
               "wfname(leaf(node_path)))",
               'wf': "implies(wf(node_path) and node_path != '/', "
               "wf(result))",
               'depth': "implies(wf(node_path) and node_path != '/', "
               "depth(result) == depth(node_path) - 1)",
               'shorter': "implies(wf(node_path) and node_path != '/', "
               "len(result) < len(node_path))"},
      props=['C01'])
    c('nxt_path.node_name_from_node_path', params={'node_path': 'str'},
      returns='str',
      ensures={'is-leaf': "result == ('/' if node_path == '/' else "
               "leaf(node_path))",
               'wfname': "implies(wf(node_path) and node_path != '/', "
               "wfname(result))"}, props=['C01'])
    c('nxt_path.join_node_paths#one', case='')if False else None
    c('nxt_path.join_node_paths', case='one',
      params={'node_path1': 'str', 'node_path2': 'str'}, returns='str',
      requires=["wf(node_path1)", "wfname(node_path2)"],
      ensures={'joined': "result == joined(node_path1, node_path2)",
               'wf': "wf(result)",
               'parent': "parent(result) == node_path1",
               'leaf': "leaf(result) == node_path2"}, props=['C01'])
    c('nxt_path.get_root_path', params={'node_path': 'str'}, returns='str',
      requires=["wf(node_path)"],
      ensures={'wf': "implies(node_path != '/', wf(result))",
               'top': "implies(node_path != '/', '/' not in result[1:])",
               'depth': "implies(node_path != '/', depth(result) == 1)",
               'above': "implies(node_path != '/', node_path == result or "
               "below(node_path, result))",
               'world': "implies(node_path == '/', result == '/')"},
      props=['C01'])
    c('nxt_path.is_attr_path', params={'path': 'str'}, returns='bool',
      ensures={'def': "result == ('.' in path)"}, props=['C01'])
    c('nxt_path.make_attr_path',
      params={'node_path': 'str', 'attr_name': 'str'}, returns='str',
      ensures={'def': "result == node_path + '.' + attr_name"},
      props=['C01'])
    c('nxt_path.path_attr_partition', params={'str_path': 'str'},
      returns='tuple[str,opt[str]]',
      ensures={'node': "implies('.' not in str_path or "
               "str_path.endswith('.'), result[0] == str_path and "
               "is_none(result[1]))",
               'attr': "implies('.' in str_path and "
               "not str_path.endswith('.'), not is_none(result[1]) and "
               "str_path == result[0] + '.' + some(result[1]) and "
               "'.' not in some(result[1]) and some(result[1]) != '')"},
      props=['C01'])
    c('nxt_path.get_path_depth', params={'path': 'str'}, returns='int',
      ensures={'def': "result == depth(path)"}, props=['C01'])
    c('nxt_path.trim_to_depth', params={'path': 'str', 'trim_depth': 'int'},
      returns='str', requires=["wf(path)", "trim_depth >= 0"],
      ensures={'keep': "implies(depth(path) <= trim_depth, "
               "result == path)",
               'zero': "implies(trim_depth == 0, result == '/')",
               'above': "implies(0 < trim_depth and trim_depth < depth(path), "
               "below(path, result))",
               'depth': "implies(0 < trim_depth and trim_depth < depth(path), "
               "depth(result) == trim_depth)",
               'wf-start': "implies(0 < trim_depth and "
               "trim_depth < depth(path), result.startswith('/'))",
               'wf-end': "implies(0 < trim_depth and "
               "trim_depth < depth(path), not result.endswith('/'))",
               'wf-mid': "implies(0 < trim_depth and "
               "trim_depth < depth(path), '//' not in result)"},
      props=['C01'])
    c('nxt_path.is_ancestor',
      params={'path_to_check': 'str', 'ancestor_path': 'str'},
      returns='bool',
      ensures={'def': "result == (ancestor_path == '/' or "
               "below(path_to_check, ancestor_path))"}, props=['C01'])
    c('nxt_path.all_ancestor_paths', params={'path': 'str'},
      returns='list[str]', requires=["wf(path)"],
      ensures={'first': "implies(depth(path) > 1, len(result) > 0 and "
               "result[0] == parent(path))",
               'chain': "all(result[i] == parent(result[i - 1]) "
               "for i in range(1, len(result)))",
               'end': "implies(len(result) > 0, "
               "parent(result[len(result) - 1]) == '/')",
               'none': "implies(path == '/' or parent(path) == '/', "
               "len(result) == 0)",
               'below': "all(result[i] != '/' for i in range(0, len(result)))"
               },
      loops={0: Loop(inv={
          'wf': "wf(parent_path)",
          'cur': "parent_path == (parent(path) if len(ancestors) == 0 else "
          "parent(ancestors[len(ancestors) - 1]))",
          'first': "implies(len(ancestors) > 0, "
          "ancestors[0] == parent(path))",
          'chain': "all(ancestors[i] == parent(ancestors[i - 1]) "
          "for i in range(1, len(ancestors)))",
          'nz': "all(ancestors[i] != '/' for i in range(0, len(ancestors)))"},
          decreases="len(parent_path)")},
      locals_={'ancestors': 'list[str]'}, props=['C01'])
    c('nxt_path.str_path_to_node_namespace', params={'str_path': 'str'},
      returns='list[str]', requires=["wf(str_path)", "'.' not in str_path"],
      ensures={'back': "'/' + '/'.join(result) == str_path",
               'depth': "implies(str_path != '/', "
               "len(result) == depth(str_path))"}, props=['C01'])
    c('nxt_path.node_namespace_to_str_path',
      params={'namespace': 'list[str]'}, returns='str',
      ensures={'def': "result == '/' + '/'.join(namespace)"},
      props=['C01'])
    # applying directives
    reg.macros['applied'] = (['cur', 'd'], "cur.rpartition('/')[0] "
                             "if d == '..' else (cur if d == '.' or d == '' "
                             "else cur + '/' + d)")
    reg.uf('walk', ['str', 'list[str]', 'int'], 'str', axioms=[
        ('s: str, ds: list[str], i: int',
         "implies(i == 0, walk(s, ds, i) == s) and implies(i > 0, "
         "walk(s, ds, i) == applied(walk(s, ds, i - 1), ds[i - 1]))",
         "walk(s, ds, i)")])
    c('nxt_path.expand_relative_node_path',
      params={'rel_path': 'opt[str]', 'start_node_path': 'str'},
      returns='opt[str]',
      ensures={'empty': "implies(is_none(rel_path) or some(rel_path) == '', "
               "is_none(result))",
               'absolute': "implies(not is_none(rel_path) and "
               "some(rel_path).startswith('/'), not is_none(result) and "
               "some(result) == some(rel_path))",
               'walk': "implies(not is_none(rel_path) and "
               "some(rel_path) != '' and "
               "not some(rel_path).startswith('/'), not is_none(result) and "
               "some(result) == walk(start_node_path, "
               "some(rel_path).split('/'), len(some(rel_path).split('/'))))"},
      loops={0: Loop(inv={
          'walked': "current_path == walk(start_node_path, _it, _i)"})},
      props=['C02'])
    # moving the ancestor itself, and moving something `r` below it
    c('nxt_path.replace_ancestor', case='self',
      params={'path': 'str', 'old_ancestor': 'str', 'new_ancestor': 'str'},
      returns='str',
      requires=["wf(old_ancestor)", "wf(new_ancestor)", "path != '/'",
                "path == old_ancestor", "new_ancestor != '/'"],
      ensures={'moved': "result == new_ancestor"},
      props=['C01', 'C07'])
    c('nxt_path.replace_ancestor', case='below', ghost={'r': 'str'},
      params={'path': 'str', 'old_ancestor': 'str', 'new_ancestor': 'str'},
      returns='str',
      requires=["wf(path)", "wf(old_ancestor)", "wf(new_ancestor)",
                "old_ancestor != '/'", "new_ancestor != '/'", "r != ''",
                "not r.startswith('/')", "not r.endswith('/')",
                "'//' not in r",
                "path == old_ancestor + '/' + r"],
      cuts=["'//' not in new_ancestor + '/' + r",
            "(path + '/').replace(old_ancestor + '/', new_ancestor + '/', 1)"
            " == new_ancestor + '/' + r + '/'",
            "(path + '/').replace(old_ancestor + '/', new_ancestor + '/', 1)"
            "[:-1] == new_ancestor + '/' + r"],
      ensures={'moved': "result == new_ancestor + '/' + r"},
      props=['C01', 'C07'])
    c('nxt_path.replace_ancestor', case='from-world', ghost={'r': 'str'},
      params={'path': 'str', 'old_ancestor': 'str', 'new_ancestor': 'str'},
      returns='str',
      requires=["wf(new_ancestor)", "old_ancestor == '/'",
                "new_ancestor != '/'", "r != ''", "not r.startswith('/')",
                "not r.endswith('/')", "'//' not in r", "path == '/' + r"],
      cuts=["'//' not in new_ancestor + '/' + r",
            "(path + '/').replace('/', new_ancestor + '/', 1)"
            " == new_ancestor + '/' + r + '/'",
            "(path + '/').replace('/', new_ancestor + '/', 1)[:-1]"
            " == new_ancestor + '/' + r"],
      ensures={'moved': "result == new_ancestor + '/' + r"},
      props=['C01'])
    c('nxt_path.replace_ancestor', case='to-world', ghost={'r': 'str'},
      params={'path': 'str', 'old_ancestor': 'str', 'new_ancestor': 'str'},
      returns='str',
      requires=["wf(old_ancestor)", "new_ancestor == '/'",
                "old_ancestor != '/'", "r != ''", "not r.startswith('/')",
                "not r.endswith('/')", "'//' not in r",
                "path == old_ancestor + '/' + r"],
      cuts=["(path + '/').replace(old_ancestor + '/', '//', 1)"
            " == '//' + r + '/'"],
      ensures={'moved': "result == '/' + r"},
      props=['C01'])
    reg.lemma('ancestor_step', {'p': 'str', 'a': 'str'},
              requires=["wf(p)", "wf(a)", "p != '/'", "a != '/'"],
              ensures=["below(p, a) == ((parent(p) == a) or "
                       "below(parent(p), a))"], props=['C01'],
              note='with all_ancestor_paths: is_ancestor agrees with the '
                   'chain of parents')
    reg.lemma('attr_path_splits', {'p': 'str', 'a': 'str'},
              requires=["'.' not in p", "'.' not in a", "a != ''"],
              ensures=["(p + '.' + a).rpartition('.')[0] == p",
                       "(p + '.' + a).rpartition('.')[2] == a",
                       "not (p + '.' + a).endswith('.')"], props=['C01'])
