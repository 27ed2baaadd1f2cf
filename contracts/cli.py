"""Contract on nxt/cli.py execute (C17).  `ran*` are specification attributes
of a session: the arguments its execute_graph was called with."""
from pyvc.engine import Loop


def register(reg):
    c = reg.contract
    SES = 'obj[session.Session]'
    PAR = 'dict[str,any]'
    reg.attrs.update({
        'Namespace.parameters': 'maybe[list[str]]',
        'Namespace.start': 'maybe[opt[str]]',
        'Namespace.context': 'maybe[opt[str]]',
        'Namespace.path': 'list[str]',
        'Session.ran': 'bool', 'Session.ran_path': 'str',
        'Session.ran_start': 'opt[str]', 'Session.ran_parameters': PAR,
        'Session.ran_context': 'opt[str]', 'Session.log_file': 'any'})
    T = dict(trusted=True, strings='uninterpreted')
    E = {'BaseException': 'maybe'}
    rec = ['heap:Session.ran', 'heap:Session.ran_path',
           'heap:Session.ran_start', 'heap:Session.ran_parameters',
           'heap:Session.ran_context']
    note = "all(s.ran == (s == self or old(s.ran)) " \
        "for s in objs('session.Session'))"
    c('session.Session.execute_graph', case='recorded', params={
        'self': SES, 'filepath': 'str', 'start': 'opt[str]',
        'parameters': PAR, 'context': 'opt[str]'}, returns='any',
      modifies=rec, raises=E, exc_ensures={'BaseException': [note]},
      ensures={'ran': note, 'path': "self.ran_path == filepath",
               'start': "self.ran_start == start",
               'context': "self.ran_context == context",
               'parameters': "self.ran_parameters == parameters"},
      note='records its arguments in specification attributes', **T)
    c('session.Session', returns=SES, note='the constructor runs nothing',
      raises=E, ensures={'new': "not result.ran"}, **T)
    reg.uf('file_exists', ['str'], 'bool')
    reg.uf('file_params', ['str'], PAR)
    c('ext:os.path.isfile', params={'path': 'str'}, returns='bool',
      ensures={'result': "result == file_exists(path)"}, **T)
    c('ext:json.load', params={'fp': 'any'}, returns=PAR, raises=E,
      note='a parameters file holds a JSON object', **T)
    ok_key = "args.parameters[2 * j].startswith('/')"
    sess = "any(s.ran and s.ran_path == args.path[0] and {0} " \
        "for s in objs('session.Session'))"
    base = dict(
        params={'args': 'obj[Namespace]'}, strings='uninterpreted',
        modifies=rec, raises=E,
        locals_={'parameters': PAR, 'start': 'opt[str]'})
    pre = ["all(not s.ran for s in objs('session.Session'))",
           "len(args.path) > 0"]
    half = "len(args.parameters)"
    bad = "(%s %% 2 != 0 and %s != 1) or (%s %% 2 == 0 and any(not %s " \
        "for j in range(0, %s // 2)))" % (half, half, half, ok_key, half)
    good = "%s %% 2 == 0 and s.ran_start == args.start and " \
        "s.ran_context == args.context and all((k in s.ran_parameters) == " \
        "any(args.parameters[2 * j] == k for j in range(0, %s // 2)) " \
        "for k in STR) and all(implies(all(args.parameters[2 * m] != " \
        "args.parameters[2 * j] for m in range(j + 1, %s // 2)), " \
        "s.ran_parameters[args.parameters[2 * j]] == " \
        "boxed(args.parameters[2 * j + 1])) " \
        "for j in range(0, %s // 2))" % (half, half, half, half)
    c('cli.execute', case='given',
      requires=pre + ["not missing(args.parameters)", "not missing(args.start)",
                      "not missing(args.context)"],
      exc_ensures={'BaseException': [
          "implies(%s, all(not s.ran for s in objs('session.Session')))"
          % bad]},
      ensures={'well formed': "not (%s)" % bad,
               'passed': "implies(%s != 1, %s)" % (half, sess.format(good))},
      loops={0: Loop(inv={
          'i': "i == 2 * _i", 'even': "%s %% 2 == 0" % half,
          'keys': "all((k in parameters) == any(args.parameters[2 * j] == k "
          "for j in range(0, _i)) for k in STR)",
          'ok': "all(%s for j in range(0, _i))" % ok_key,
          'values': "all(implies(all(args.parameters[2 * m] != "
          "args.parameters[2 * j] for m in range(j + 1, _i)), "
          "parameters[args.parameters[2 * j]] == "
          "boxed(args.parameters[2 * j + 1])) for j in range(0, _i))"})},
      use_cases={'session.Session.execute_graph': 'recorded'},
      props=['C17'], **base)
