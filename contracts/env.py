"""Facts about the interpreter the contracts assume (trusted)."""


def register(reg):
    # the project runs on Python 3 here (PyPy 3.9)
    reg.ext_consts['sys.version_info'] = (3, 9)

    T = dict(trusted=True, strings='uninterpreted')
    c = reg.contract
    # the process: working directory and environment (specification attributes)
    reg.attrs['Proc.cwd'] = 'str'
    reg.attrs['Proc.env'] = 'dict[str,str]'
    # the file system as seen from a working directory; it does not change
    # while one of the functions under contract runs
    FS = ['Proc.cwd']
    reg.uf('is_dir', ['str'], 'bool')
    reg.uf('exists_from', ['str', 'str'], 'bool', axioms=[
        ('d: str', "not exists_from(d, '')", "exists_from(d, '')")])
    reg.uf('real_from', ['str', 'str'], 'str')
    reg.uf('vars_of', ['str'], 'str', reads=['Proc.env'])
    reg.uf('user_of', ['str'], 'str', reads=['Proc.env'])
    reg.uf('unified', ['str'], 'str')
    reg.uf('moved_to', ['str', 'str'], 'str', axioms=[
        ('d: str, p: str', "implies(is_dir(p), moved_to(d, p) == p)",
         "moved_to(d, p)")])
    c('ext:os.getcwd', returns='str', ensures={
        'cwd': "result == proc.cwd", 'dir': "is_dir(result)"},
      note='the working directory exists', **T)
    c('ext:os.chdir', params={'path': 'str'}, modifies=['heap:Proc.cwd'],
      raises={'OSError': 'not_there(path)'},
      exc_ensures={'OSError': ["proc.cwd == old(proc.cwd)"]},
      ensures={'cwd': "proc.cwd == moved_to(old(proc.cwd), path)"},
      note='going back to the directory a call started in succeeds', **T)
    reg.uf('not_there', ['str'], 'bool', axioms=[
        ('p: str', "implies(is_dir(p), not not_there(p))", "not_there(p)")])
    c('ext:os.path.exists', params={'path': 'str'}, returns='bool', ensures={
        'result': "result == exists_from(proc.cwd, path)"}, **T)
    c('ext:os.path.expandvars', params={'path': 'str'}, returns='str',
      ensures={'result': "result == vars_of(path)"}, **T)
    c('ext:os.path.expanduser', params={'path': 'str'}, returns='str',
      ensures={'result': "result == user_of(path)"}, **T)
    c('ext:os.path.realpath', params={'path': 'str'}, returns='str',
      raises={'Exception': 'maybe'},
      exc_ensures={'Exception': ["proc.cwd == old(proc.cwd)"]},
      ensures={'result': "result == real_from(proc.cwd, path)"}, **T)
    reg.ext_consts['sys.executable'] = lambda eng: eng.ops.fresh_sv(
        None, 'str', 'exe')
