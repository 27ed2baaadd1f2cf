"""Contracts on reading and writing graph files (C13, C14, C15).
Specification attributes: `Proc.io_failed` (a file could not be read),
`Proc.files` (what was last written to a path), `Proc.touched` (paths opened
for writing), `FileData.origin` (the file some data was read from)."""
from pyvc.engine import Loop
from pyvc.values import Ref, parse_ty

FD = 'obj[FileData]'
LAYER = 'obj[nxt_layer.SpecLayer]'


def glob(eng, name):
    return Ref(('field', eng.so.proc(), name), parse_ty(eng.reg.attrs[name]))


def register(reg):
    c = reg.contract
    T = dict(trusted=True, strings='uninterpreted')
    reg.record('FileData', {
        'version': 'maybe[opt[str]]', 'filepath': 'maybe[str]',
        'real_path': 'maybe[str]', 'name': 'maybe[str]',
        'references': 'maybe[list[str]]',
        'parent_layer': 'maybe[opt[%s]]' % LAYER})
    reg.attrs.update({
        'FileData.origin': 'str', 'Proc.io_failed': 'bool',
        'Proc.files': 'dict[str,any]', 'Proc.touched': 'set[str]',
        'Proc.expanders': 'list[obj[Expander]]', 'File.path': 'str',
        'SpecLayer.sub_layer_paths': 'list[str]',
        'SpecLayer.sub_layers': 'list[%s]' % FD,
        'SpecLayer.real_path': 'str', 'Stage._sub_layers': 'list[%s]' % LAYER})
    reg.globals_['nxt_io'] = {
        'plugin_expanders': lambda eng: glob(eng, 'Proc.expanders')}
    keep = "proc.io_failed == old(proc.io_failed)"
    quiet = "proc.touched == old(proc.touched) and " \
        "all(proc.files[p] == old(proc.files[p]) for p in STR)"
    # ---- the file system
    reg.uf('ext_of', ['str'], 'str')
    reg.uf('stem_of', ['str'], 'str')
    reg.uf('base_of', ['str'], 'str')
    reg.uf('dir_of', ['str'], 'str')
    reg.uf('file_there', ['str', 'str'], 'bool')
    reg.uf('found_by', ['obj[Expander]', 'str'], 'str')
    c('ext:os.path.splitext', params={'path': 'str'},
      returns='tuple[str,str]', ensures={
          'stem': "result[0] == stem_of(path)",
          'ext': "result[1] == ext_of(path) and "
          "path.endswith(result[1])", 'none': "implies(path == '', "
          "result[1] == '')"}, **T)
    c('ext:os.path.basename', params={'path': 'str'}, returns='str',
      ensures={'result': "result == base_of(path)"}, **T)
    c('ext:os.path.dirname', params={'path': 'str'}, returns='str',
      ensures={'result': "result == dir_of(path)"}, **T)
    c('ext:os.path.isfile', case='io', params={'path': 'str'},
      returns='bool', ensures={
          'result': "result == file_there(proc.cwd, path)"}, **T)
    c('ext:Expander.__call__', params={'self': 'obj[Expander]',
                                       'path': 'str'}, returns='str',
      raises={'Exception': 'maybe'},
      ensures={'result': "result == found_by(self, path)"}, **T)
    c('ext:open', case='read', params={'path': 'str', 'mode': None},
      args={'mode': 'r'}, returns='obj[File]',
      modifies=['heap:Proc.io_failed'], raises={'IOError': 'maybe'},
      exc_ensures={'IOError': ["proc.io_failed"]},
      ensures={'path': "result.path == path", 'keep': keep}, **T)
    c('ext:open', case='write', params={'path': 'str', 'mode': 'any'},
      returns='obj[File]', modifies=['heap:Proc.touched'],
      raises={'IOError': 'maybe'},
      exc_ensures={'IOError': [
          "all((p in proc.touched) == (p in old(proc.touched) or p == path) "
          "for p in STR)"]},
      ensures={'path': "result.path == path", 'touched':
               "all((p in proc.touched) == (p in old(proc.touched) or "
               "p == path) for p in STR)"}, **T)
    # what a file holds when it is read
    reg.uf('no_version', ['str'], 'bool')
    reg.uf('version_in', ['str'], 'opt[str]')
    c('ext:json.load', case='file', params={'fp': 'obj[File]',
                                            'object_hook': 'opaque'},
      returns=FD, modifies=['heap:FileData.' + k for k in (
          'version', 'filepath', 'real_path', 'name', 'references',
          'parent_layer', 'origin', 'born')],
      raises={'ValueError': 'maybe'}, ensures={
          'origin': "result.origin == fp.path",
          'version': "missing(result.version) == no_version(fp.path)",
          'text': "implies(not no_version(fp.path), "
          "result.version == version_in(fp.path))"},
      note='a graph file holds a JSON object', **T)
    c('clean_json._byteify', note='only passed on', **T)
    reg.macros['num'] = (['v', 'i'], "int_of(v.split('.')[i])")
    vers = "some(version_in({0}))"
    named = "(not no_version({0}) and not is_none(version_in({0})) and " \
        "some(version_in({0})) != '')"
    maj, mnr = "num(%s, 0)" % vers, "num(%s, 1)" % vers
    old = "(%s == 0 and %s < 39)" % (maj, mnr)
    new = "(%s > {1} or (%s == {1} and %s > {2}))" % (maj, maj, mnr)
    fd = ['heap:FileData.' + k for k in (
        'version', 'filepath', 'real_path', 'name', 'references',
        'parent_layer', 'origin', 'born')]
    M, m = 1, 17
    import json
    import os
    from pyvc.source import REPO
    with open(os.path.join(REPO, 'nxt', 'version.json')) as fp:
        g = json.load(fp)['GRAPH']
        M, m = g['MAJOR'], g['MINOR']
    c('legacy.FileConverter.get_converted_data',
      params={'cls': 'opaque', 'file_data': FD}, returns=FD, modifies=fd,
      requires=["not (%s and %s)" % (named.format('file_data.origin'),
                                     new.format('file_data.origin', M, m))],
      raises={'Exception': 'maybe', 'IOError': named.format(
          'file_data.origin') + " and " + old.format('file_data.origin')},
      ensures={'origin': "result.origin == old(file_data.origin)"},
      note='the converters of the versions in between (bounded search only)',
      **T)
    use = {'ext:open': 'read', 'ext:json.load': 'file',
           'ext:os.path.isfile': 'io'}
    src = "result.origin"
    reg.io_mods = fd + ['heap:Proc.cwd', 'heap:Proc.io_failed']
    at = "expanded(old(proc.cwd), filepath)"
    c('nxt_io.load_file_data', params={'filepath': 'str'}, returns=FD,
      strings='uninterpreted', use_cases=use,
      modifies=fd + ['heap:Proc.cwd', 'heap:Proc.io_failed'],
      raises={'Exception': 'maybe', 'IOError': 'maybe',
              'ValueError': 'maybe'},
      exc_ensures={
          'Exception': ["proc.cwd == old(proc.cwd)"],
          'ValueError': ["proc.cwd == old(proc.cwd)"],
          'IOError': ["proc.cwd == old(proc.cwd)",
                      "implies(len(proc.expanders) == 0 and "
                      "not proc.io_failed, (ext_of(%s) != '.nxt' and "
                      "ext_of(%s) != '.nxtb') or (%s and (%s.count('.') == 0 "
                      "or %s or %s)))" % (
                          at, at, named.format(at), vers.format(at),
                          new.format(at, M, m), old.format(at))]},
      ensures={
          'cwd': "proc.cwd == old(proc.cwd)",
          'path given': "not missing(result.filepath) and "
          "result.filepath == filepath",
          'path read': "not missing(result.real_path) and "
          "result.real_path == result.origin",
          'extension': "ext_of(%s) == '.nxt' or ext_of(%s) == '.nxtb'" % (
              src, src),
          'dot': "implies(%s, %s.count('.') > 0)" % (
              named.format(src), vers.format(src)),
          'not newer': "implies(%s, not %s)" % (
              named.format(src), new.format(src, M, m)),
          'not too old': "implies(%s, not %s)" % (
              named.format(src), old.format(src)),
          'plain': "implies(len(proc.expanders) == 0, %s == "
          "expanded(old(proc.cwd), filepath))" % src},
      loops={0: Loop(inv={
          'cwd': "proc.cwd == old(proc.cwd)",
          'none yet': "implies(_i == 0, real_path == "
          "expanded(old(proc.cwd), filepath))"})},
      props=['C14', 'C15'])

    # ---- loading a graph with the layers it references
    ch = ['SpecLayer.parent_layer', 'SpecLayer.real_path']
    OL = 'opt[%s]' % LAYER
    reg.uf('in_chain', [OL, 'str'], 'bool', reads=ch, axioms=[
        ('l: %s, p: str' % LAYER, "implies(not is_none(l), in_chain(l, p) == "
         "(l.real_path == p or in_chain(l.parent_layer, p)))",
         "in_chain(l, p)"),
        ('p: str', "not in_chain(None, p)", "in_chain(None, p)")])
    # finitely many graph files: each layer of a chain of different files
    # leaves one less for the layers below it
    reg.uf('left_over', [OL], 'int', reads=ch, axioms=[
        ('l: %s' % LAYER, "left_over(l) >= 0", "left_over(l)"),
        ('p: str', "left_over(None) >= 0", "in_chain(None, p)"),
        ('l: %s' % LAYER, "implies(not is_none(l) and "
         "not in_chain(l.parent_layer, l.real_path), left_over(l) < left_over(l.parent_layer))", "left_over(l)")])
    c('stage.Stage.check_for_layer_ref_cycle',
      params={'parent_layer': OL, 'check_layer_path': 'str'}, returns='bool',
      strings='uninterpreted', requires=["chains()"],
      ensures={'result': "result == in_chain(parent_layer, "
               "check_layer_path)"},
      loops={0: Loop(inv={
          'above': "in_chain(parent_layer, check_layer_path) == "
          "in_chain(checking_layer, check_layer_path)",
          'below': "implies(not is_none(checking_layer), "
          "not is_none(parent_layer))"},
          types={'checking_layer': OL},
          decreases="0 if is_none(checking_layer) else "
          "1 + rank(some(checking_layer))")}, props=['C15'])
    c('stage.Stage.new_layer', params={'self': 'obj[stage.Stage]',
                                       'layer_idx': 'int', 'layer_data': FD},
      returns=OL, modifies=['heap:Stage._sub_layers',
                            'heap:SpecLayer.sub_layer_paths',
                            'heap:SpecLayer.sub_layers'],
      raises={'Exception': 'maybe'}, ensures={
          'parent': "implies(not is_none(result), some(result).parent_layer "
          "== layer_data.parent_layer and some(result).real_path == "
          "layer_data.real_path)"},
      note='building one layer of given data; it loads nothing', **T)
    here = ["proc.cwd == old(proc.cwd)"]
    c('stage.Stage.load_from_file',
      params={'self': 'obj[stage.Stage]', 'layer_data': 'opt[%s]' % FD,
              'parent_layer': OL}, returns='none', strings='uninterpreted',
      requires=["chains()", "implies(not is_none(layer_data), "
                "not in_chain(parent_layer, some(layer_data).real_path))"],
      modifies=reg.io_mods + ['heap:Stage._sub_layers',
                              'heap:SpecLayer.sub_layer_paths',
                              'heap:SpecLayer.sub_layers'],
      raises={'Exception': 'maybe'},
      exc_ensures={'Exception': here},
      ensures={'cwd': here[0]},
      decreases="left_over(parent_layer)",
      loops={
          0: Loop(inv={'old': "not is_none(parent_layer) and old_cwd == entry(proc.cwd) and "
                       "is_dir(old_cwd)"}),
          1: Loop(inv={}), 2: Loop(inv={})},
      locals_={'bad_layer_dat': 'list[%s]' % FD}, props=['C15'])

    # ---- writing
    reg.ext_consts['os.sep'] = '/'
    reg.uf('jsonable', ['any'], 'bool')
    reg.uf('savable', [LAYER], 'bool')
    files = ['heap:Proc.touched', 'heap:Proc.files']
    same = "all((p in proc.touched) == (p in old(proc.touched)) for p in STR)"
    one = "all((p in proc.touched) == (p in old(proc.touched) or p == %s) " \
        "for p in STR)"
    most = "all(implies(p in proc.touched, p in old(proc.touched) or " \
        "p == %s) for p in STR)"
    for n in ('json', 'pickle'):
        c('ext:%s.dump' % n, params={
            'data': 'any', 'fp': 'obj[File]', 'indent': 'opaque',
            'sort_keys': 'opaque', 'separators': 'opaque',
            'protocol': 'opaque'}, args={k: None for k in (
                'indent', 'sort_keys', 'separators', 'protocol')},
          modifies=['heap:Proc.files'], raises={'Exception': 'maybe'},
          ensures={'held': "all(proc.files[p] == (data if p == fp.path else "
                   "old(proc.files[p])) for p in STR)"}, **T)
    c('ext:gc.disable', **T)
    c('ext:gc.enable', **T)
    c('ext:tempfile.mkstemp', params={'prefix': 'str', 'suffix': 'str'},
      returns='tuple[int,str]', **T)
    c('ext:json.dumps', params={'data': 'any', 'indent': 'opaque',
                                'sort_keys': 'opaque'}, returns='str',
      args={'indent': None, 'sort_keys': None},
      raises={'TypeError': 'maybe', 'ValueError': 'maybe'},
      exc_ensures={'TypeError': ["not jsonable(data)"],
                   'ValueError': ["not jsonable(data)"]},
      ensures={'can': "jsonable(data)"}, **T)
    c('nxt_io.save_file_data', params={
        'save_data': 'any', 'filepath': 'str', 'file_format': 'str'},
      returns='str', strings='uninterpreted',
      use_cases={'ext:open': 'write'}, modifies=files,
      raises={'Exception': 'maybe', 'TypeError': 'maybe',
              'IOError': 'maybe'},
      exc_ensures={
          'TypeError': [same],
          'Exception': [most % "filepath"],
          'IOError': [most % "filepath"]},
      ensures={
          'path': "result == filepath",
          'extension': "ext_of(result) == '.nxt' or "
          "ext_of(result) == '.nxtb'",
          'only it': one % 'result',
          'written': "proc.files[result] == save_data"},
      props=['C13', 'C15'])
    c('nxt_layer.SpecLayer.get_save_data', params={'self': LAYER},
      returns='any', raises={'Exception': 'maybe'},
      ensures={'data': "jsonable(result) == savable(self)"},
      note='a function of the layer, whose JSON form exists or not', **T)
    c('nxt_layer.SpecLayer.get_alias', case='saving', params={
        'self': LAYER, 'local': 'bool'}, returns='opt[str]', **T)
    c('nxt_layer.SpecLayer.set_alias', params={'self': LAYER, 'alias': 'str'},
      modifies=['self.alias'], **T)
    c('nxt_layer.SpecLayer.propegate_real_path', params={'self': LAYER},
      modifies=['heap:SpecLayer.sub_layers'], raises={'Exception': 'maybe'},
      note='writes no file', **T)
    c('nxt_layer.SpecLayer.save', params={'self': LAYER,
                                          'filepath': 'opt[str]'},
      returns='any', strings='uninterpreted',
      use_cases={'nxt_layer.SpecLayer.get_alias': 'saving'},
      modifies=files + ['self.alias', 'self.real_path',
                        'heap:SpecLayer.sub_layers'],
      raises={'Exception': 'maybe', 'TypeError': 'maybe',
              'ValueError': 'maybe', 'IOError': 'maybe'},
      exc_ensures={e: ["implies(not savable(self), %s)" % same,
                       most % "(some(filepath) if not is_none(filepath) and "
                       "some(filepath) != '' else old(self.real_path))"]
                   for e in ('Exception', 'TypeError', 'ValueError',
                             'IOError')},
      ensures={'unwritable': "implies(not savable(self), %s)" % same,
               'only it': most % "(some(filepath) if not is_none(filepath) "
               "and some(filepath) != '' else old(self.real_path))",
               'written': "implies(savable(self), "
               "proc.files[self.real_path] == result)"},
      props=['C13', 'C15'])
