"""Contracts on file path expansion and the file root fallback (C15, C18)."""
from pyvc.engine import Loop


def register(reg):
    c = reg.contract
    T = dict(trusted=True, strings='uninterpreted')
    reg.ext_consts['os.path.sep'] = '/'
    reg.ext_consts['os.pathsep'] = ':'
    c('nxt_path.unify_env_vars', params={'path': 'str',
                                         'target_platform': 'opaque'},
      returns='str', ensures={'result': "result == unified(path)"},
      note='a function of its arguments (regular expressions)', **T)
    # what a path expands to, seen from a directory
    reg.uf('expanded', ['str', 'str'], 'str', reads=['Proc.env'], axioms=[
        ('d: str, p: str', "expanded(d, p) == real_from(d, "
         "user_of(vars_of(unified(p)))).replace('/', '/')",
         "expanded(d, p)")])
    c('nxt_path.full_file_expand',
      params={'path': 'str', 'start': 'opt[str]'}, returns='str',
      strings='uninterpreted', modifies=['heap:Proc.cwd'],
      raises={'Exception': 'maybe'},
      exc_ensures={'Exception': ["proc.cwd == old(proc.cwd)"]},
      ensures={
          'cwd kept': "proc.cwd == old(proc.cwd)",
          'expanded': "result == expanded((proc.cwd if is_none(start) or "
          "some(start) == '' else moved_to(proc.cwd, some(start))), path)"},
      props=['C15', 'C18'])
    reg.uf('roots_given', [], 'bool', reads=['Proc.env'])
    c('plugins.file_fallbacks.iter_env_roots',
      params={'only_exsiting': 'bool'}, returns='list[str]',
      strings='uninterpreted',
      requires=["only_exsiting"],
      ensures={
          'unset': "implies(not ('NXT_FILE_ROOTS' in proc.env), "
          "len(result) == 0)",
          'in order': "implies('NXT_FILE_ROOTS' in proc.env, "
          "filtered_src(result, proc.env['NXT_FILE_ROOTS'].split(':'), "
          "lambda r: exists_from(proc.cwd, r)))"},
      loops={0: Loop(inv={
          'in order': "filtered_prefix(_yields, "
          "proc.env['NXT_FILE_ROOTS'].split(':'), "
          "lambda r: exists_from(proc.cwd, r), _i)"})},
      props=['C18'])

    E = "proc.env['NXT_FILE_ROOTS'].split(':')"
    cand = "expanded(moved_to(proc.cwd, {0}), filepath)"
    hit = "(exists_from(proc.cwd, {0}) and (%s))" % \
        "exists_from(proc.cwd, %s)" % cand
    at_ = lambda i: ("%s[%s]" % (E, i))
    none = "(not ('NXT_FILE_ROOTS' in proc.env) or all(not %s " \
        "for j in range(0, len(%s))))" % (hit.format(at_('j')), E)
    own = "expanded(moved_to(proc.cwd, some(layer_dir)), filepath)"
    has_own = "(not is_none(layer_dir) and some(layer_dir) != '' and " \
        "exists_from(proc.cwd, some(layer_dir)) and " \
        "exists_from(proc.cwd, %s))" % own
    c('plugins.file_fallbacks.file_root_fallback',
      params={'filepath': 'str', 'layer_dir': 'opt[str]'}, returns='str',
      strings='uninterpreted', modifies=['heap:Proc.cwd'],
      raises={'Exception': 'maybe'},
      exc_ensures={'Exception': ["proc.cwd == old(proc.cwd)"]},
      ensures={
          'cwd kept': "proc.cwd == old(proc.cwd)",
          'first root': "%s or any(%s and result == %s and all(not %s "
          "for i in range(0, j)) for j in range(0, len(%s)))" % (
              none, hit.format(at_('j')), cand.format(at_('j')),
              hit.format(at_('i')), E),
          'layer folder': "implies(%s and %s, result == %s)" % (
              none, has_own, own),
          'nothing': "implies(%s and not %s, result == '')" % (
              none, has_own)},
      loops={0: Loop(inv={
          'cwd': "proc.cwd == old(proc.cwd)",
          'none before': "all(not exists_from(proc.cwd, %s) "
          "for j in range(0, _i))" % cand.format('_it[j]')})},
      props=['C18'])
