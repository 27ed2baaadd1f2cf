"""Contracts on nxt/session.py (C19): who shuts what down, and which graphs a
session holds.  `Popen.live` is a specification attribute: the process runs."""
from pyvc.engine import Loop

SES = 'obj[session.Session]'
RPC = 'obj[session.RPCServerProcess]'
ST = 'obj[stage.Stage]'
FEWER = "all(implies(p.live, old(p.live)) for p in objs('Popen'))"
SAME = "all(p.live == old(p.live) for p in objs('Popen'))"


# a finite number of graphs: from some number on no suffixed name is taken
ALIAS = "self._loaded_files[k]._sub_layers[0].alias"
BOUND = "all(implies(i >= names, all(%s != " \
    "%%s + str(i) for k in self._loaded_files)) for i in INT)" % ALIAS
LAYERED = "all(len(self._loaded_files[k]._sub_layers) > 0 " \
    "for k in self._loaded_files)"


def register(reg):
    c = reg.contract
    reg.attrs.update({
        'Popen.live': 'bool',
        'Session.rpc_server': 'opt[%s]' % RPC,
        'Session._loaded_files': 'dict[int,%s]' % ST,
        'RPCServerProcess.terminal': 'opt[obj[Popen]]',
        'RPCServerProcess.use_custom_stdout': 'bool',
        'RPCServerProcess.server_log_file': 'str',
        'RPCServerProcess.socket_logging': 'bool',
        'RPCServerProcess.stream_handler': 'any',
        'Stage.uid': 'int',
        'Stage._name': 'str',
        'Stage._filepath': 'opt[str]',
    })
    T = dict(trusted=True, strings='uninterpreted')
    c('ext:subprocess.Popen', params={'call': 'opaque', 'stdout': 'any',
                                      'stderr': 'any'},
      returns='obj[Popen]', modifies=['heap:Popen.live'],
      raises={'OSError': 'maybe'}, exc_ensures={'OSError': [SAME]},
      ensures={'live': "result.live and not old(result.live)",
               'others': "all(implies(p != result, p.live == old(p.live)) "
               "for p in objs('Popen'))"}, **T)
    c('ext:Popen.terminate', params={'self': 'obj[Popen]'},
      modifies=['heap:Popen.live'],
      ensures={'ended': "not self.live", 'others': "all(implies(p != self, "
               "p.live == old(p.live)) for p in objs('Popen'))"},
      note='ending a child process succeeds', **T)
    c('ext:Popen.poll', params={'self': 'obj[Popen]'}, returns='opt[int]', **T)
    c('remote.client.NxtClient', returns='obj[remote.client.NxtClient]',
      raises={'Exception': 'maybe'}, **T)
    c('ext:remote.client.NxtClient.is_alive',
      params={'self': 'obj[remote.client.NxtClient]'}, returns='bool',
      raises={'Exception': 'maybe'}, **T)
    c('ext:remote.client.NxtClient.kill',
      params={'self': 'obj[remote.client.NxtClient]'},
      modifies=['heap:Popen.live'], raises={'Exception': 'maybe'},
      exc_ensures={'Exception': [SAME]},
      ensures={'ended': "all(not p.live for p in objs('Popen'))"},
      note='a kill request that is answered ends the server on the one port',
      **T)
    c('ext:remote.client.NxtClient.exec_in_headless',
      params={'self': 'obj[remote.client.NxtClient]', 'filepath': 'any',
              'start': 'any', 'cache': 'any', 'parameters': 'any',
              'context': 'any'}, returns='str',
      raises={'Exception': 'maybe'}, **T)
    c('nxt_log.shutdown_log_socket', note='only sets a flag', **T)
    c('nxt_log.startup_log_socket', params={'stream_handler': 'any'},
      raises={'Exception': 'maybe'}, **T)
    c('nxt_log.track_log_file', params={'path': 'any'},
      raises={'Exception': 'maybe'}, **T)
    c('nxt_io.generate_temp_file', params={'suffix': 'any'}, returns='str',
      raises={'Exception': 'maybe'}, **T)
    c('remote.get_running_server_address', params={'as_str': 'bool'},
      returns='tuple[str,int]', **T)
    c('ext:open', params={'path': 'str', 'mode': 'str'}, args={'mode': 'r'},
      returns='any', raises={'IOError': 'maybe'}, **T)
    c('ext:time.sleep', params={'secs': 'int'}, **T)
    c('ext:socket.socket', params={'family': 'any', 'type': 'any'},
      returns='obj[socket]', raises={'OSError': 'maybe'}, **T)
    c('ext:socket.connect_ex', params={'self': 'obj[socket]',
                                       'address': 'any'}, returns='int',
      raises={'OSError': 'maybe'}, **T)
    c('ext:socket.close', params={'self': 'obj[socket]'}, **T)
    c('constants.is_standalone', returns='bool', **T)
    c('session.RPCServerProcess.is_port_available', returns='bool',
      raises={'OSError': 'maybe'}, strings='uninterpreted', trusted=True)
    c('session.RPCServerProcess.is_running', params={'self': RPC},
      returns='bool', strings='uninterpreted', trusted=True)
    c('session.RPCServerProcess.terminate', params={'self': RPC},
      strings='uninterpreted',
      modifies=['heap:Popen.live', 'heap:RPCServerProcess.terminal',
                'heap:RPCServerProcess.server_log_file'],
      ensures={
          'ended': "implies(not is_none(old(self.terminal)), "
                   "not some(old(self.terminal)).live)",
          'no other': FEWER}, props=['C19'])
    c('session.RPCServerProcess.run', params={'self': RPC}, returns='bool',
      strings='uninterpreted', requires=["is_none(self.terminal)"],
      modifies=['heap:Popen.live', 'heap:Proc.env', 'heap:RPCServerProcess.terminal',
                'heap:RPCServerProcess.server_log_file'],
      raises={'Exception': 'maybe'}, exc_ensures={'Exception': [FEWER]},
      ensures={
          'started': "implies(result, not is_none(self.terminal) and "
          "some(self.terminal).live)",
          'only it': "all(implies(p.live and not old(p.live), result and "
          "p == some(self.terminal)) for p in objs('Popen'))",
          'else nothing': "implies(not result, %s)" % SAME,
          'objects': "all(implies(r != self, r.terminal == old(r.terminal)) "
          "for r in objs('session.RPCServerProcess'))"},
      loops={0: Loop(inv={
          'live': "not is_none(self.terminal) and some(self.terminal).live",
          'only it': "all(implies(p.live and not old(p.live), "
          "p == some(self.terminal)) for p in objs('Popen'))",
          'count': "count >= 0"}, decreases="5 - count",
          types={})},
      props=['C19'])
    start = {
        'started': "implies(not is_none(result), "
        "not is_none(some(result).terminal) and "
        "some(some(result).terminal).live)",
        'only it': "all(implies(p.live and not old(p.live), "
        "not is_none(result) and p == some(some(result).terminal)) "
        "for p in objs('Popen'))",
        'else nothing': "implies(is_none(result), %s)" % SAME}
    rpc_mod = reg.io_mods + ['heap:Popen.live', 'heap:Proc.env', 'heap:Proc.cwd', 'heap:RPCServerProcess.terminal',
               'heap:RPCServerProcess.server_log_file',
               'heap:RPCServerProcess.use_custom_stdout',
               'heap:RPCServerProcess.socket_logging',
               'heap:RPCServerProcess.stream_handler']
    fail = {'Exception': [FEWER]}
    c('session.RPCServerProcess.start',
      params={'use_custom_stdout': 'bool', 'stdout_filepath': 'opt[str]',
              'socket_log': 'bool', 'stream_handler': 'any'},
      returns='opt[%s]' % RPC, strings='uninterpreted', modifies=rpc_mod,
      raises={'Exception': 'maybe'}, exc_ensures=fail, ensures=start,
      props=['C19'])
    mine = "not is_none(self.rpc_server) and " \
        "not is_none(some(self.rpc_server).terminal) and " \
        "p == some(some(self.rpc_server).terminal)"
    own = {
        'held': "all(implies(p.live and not old(p.live), %s) "
                "for p in objs('Popen'))" % mine,
        'left': "implies(is_none(self.rpc_server), %s)" % SAME}
    c('session.Session._start_rpc_server',
      params={'self': SES, 'custom_stdout': 'bool',
              'rpc_log_filepath': 'opt[str]', 'socket_log': 'bool',
              'stream_handler': 'any'}, strings='uninterpreted',
      modifies=rpc_mod + ['self.rpc_server'],
      raises={'Exception': 'maybe'}, exc_ensures=fail, ensures=own,
      props=['C19'])
    LAYER = 'obj[nxt_layer.SpecLayer]'
    NODE = 'obj[Node]'
    reg.attrs['SpecLayer._nodes_path_as_key'] = 'dict[str,%s]' % NODE
    reg.attrs['SpecLayer._nodes_node_as_key'] = 'dict[%s,str]' % NODE
    reg.attrs['Stage._sub_layers'] = 'list[%s]' % LAYER
    c('session.Session.start_rpc_if_needed',
      params={'self': SES, 'stage': ST}, strings='uninterpreted',
      requires=["is_none(self.rpc_server)"],
      modifies=rpc_mod + ['self.rpc_server'],
      raises={'Exception': 'maybe'}, exc_ensures=fail, ensures=own,
      loops={0: Loop(inv={})}, props=['C19'])
    c('session.Session.shutdown_rpc_server', params={'self': SES},
      strings='uninterpreted',
      modifies=['heap:Popen.live', 'heap:RPCServerProcess.terminal',
                'heap:RPCServerProcess.server_log_file', 'self.rpc_server'],
      ensures={
          'released': "is_none(self.rpc_server)",
          'ended': "implies(not is_none(old(self.rpc_server)) and "
          "not is_none(old(some(self.rpc_server).terminal)), "
          "not some(old(some(self.rpc_server).terminal)).live)",
          'no other': FEWER,
          'left': "implies(is_none(old(self.rpc_server)), %s)" % SAME},
      props=['C19'])
    # what runs between start and shutdown touches no server and no session
    E = {'BaseException': 'maybe'}
    c('stage.Stage.execute', params={'self': ST, 'start': 'any',
                                     'parameters': 'any'},
      returns='any', raises=E, note='starts and ends no server', **T)
    c('stage.Stage.build_stage', params={'self': ST}, returns='any',
      raises=E, **T)
    c('stage.Stage.execute_nodes', params={
        'self': ST, 'node_paths': 'any', 'layer': 'any',
        'parameters': 'any'}, returns='any', raises=E,
      note='starts and ends no server', **T)
    c('nxt_layer.SpecLayer.load_from_filepath', params={'filepath': 'str'},
      returns='any', raises=E, **T)
    run = dict(strings='uninterpreted', ghost={'top': 'int'}, requires=[
        "is_none(self.rpc_server)",
        "all(k < top for k in self._loaded_files)"],
               modifies=rpc_mod + ['self.rpc_server',
                                   'heap:Session._loaded_files',
                                   'heap:Stage.uid'],
               raises=E, exc_ensures={'BaseException': [FEWER]},
               ensures={'ended': FEWER, 'released':
                        "is_none(self.rpc_server)"}, props=['C19'])
    c('session.Session.execute_graph', params={
        'self': SES, 'filepath': 'str', 'start': 'any', 'parameters': 'any',
        'context': 'opt[str]'}, returns='any', **run)
    c('session.Session.execute_nodes', params={
        'self': SES, 'filepath': 'str', 'node_paths': 'any',
        'parameters': 'any'}, returns='any', **run)
    reg.uf('normcase', ['str'], 'str')
    c('ext:os.path.normcase', params={'path': 'str'}, returns='str',
      ensures={'result': "result == normcase(path)"}, **T)
    # -- loaded graphs
    c('stage.Stage', params={'name': 'opt[str]', 'layer_data': 'any'},
      args={'name': None, 'layer_data': None}, returns=ST, raises=E, **T)
    one_more = {
        'one more': "all((k in self._loaded_files) == "
        "(k in old(self._loaded_files) or k == {0}.uid) for k in INT)",
        'new key': "not ({0}.uid in old(self._loaded_files))",
        'it': "self._loaded_files[{0}.uid] == {0}",
        'others': "all(self._loaded_files[k] == old(self._loaded_files)[k] "
        "for k in old(self._loaded_files))"}
    c('session.Session._track_stage', params={'self': SES, 'stage': ST},
      ghost={'top': 'int'},
      requires=["all(k < top for k in self._loaded_files)"],
      strings='uninterpreted',
      modifies=['self._loaded_files', 'stage.uid'],
      ensures={k: v.format('stage') for k, v in one_more.items()},
      loops={0: Loop(inv={
          'others': "all(implies(s != stage, s.uid == old(s.uid)) "
          "for s in objs('stage.Stage'))"},
          decreases="max(0, top - stage.uid)")},
      props=['C19'])
    c('session.Session.unload_file', params={'self': SES, 'uid': 'int'},
      strings='uninterpreted', modifies=['self._loaded_files'],
      raises={'LookupError': "not (uid in self._loaded_files)"},
      exc_ensures={'LookupError': [
          "self._loaded_files == old(self._loaded_files)"]},
      ensures={
          'known': "uid in old(self._loaded_files)",
          'removed': "all((k in self._loaded_files) == "
          "(k in old(self._loaded_files) and k != uid) for k in INT)",
          'others': "all(implies(k != uid, self._loaded_files[k] == "
          "old(self._loaded_files)[k]) for k in INT)"},
      props=['C19'])

    c('session.Session.load_file', params={'self': SES, 'filepath': 'str'},
      returns=ST, ghost={'top': 'int'},
      requires=["all(k < top for k in self._loaded_files)"],
      strings='uninterpreted',
      modifies=['self._loaded_files', 'heap:Stage.uid'] + reg.io_mods,
      raises=E, exc_ensures={'BaseException': [
          "self._loaded_files == old(self._loaded_files)"]},
      ensures={k: v.format('result') for k, v in one_more.items()},
      props=['C19'])
    c('session.Session.new_file', params={'self': SES}, returns=ST,
      ghost={'top': 'int', 'names': 'int'},
      requires=["all(k < top for k in self._loaded_files)",
                BOUND % "'untitled'", LAYERED, "names >= 1"],
      strings='uninterpreted',
      modifies=['self._loaded_files', 'heap:Stage.uid'],
      raises=E, exc_ensures={'BaseException': [
          "self._loaded_files == old(self._loaded_files)"]},
      ensures=dict({k: v.format('result') for k, v in one_more.items()}),
      props=['C19'])
    c('session.Session.get_unused_graph_name',
      params={'self': SES, 'name': 'str'}, returns='str',
      ghost={'names': 'int'}, requires=[BOUND % 'name', LAYERED,
                                        "names >= 1", "name != ''"],
      strings='uninterpreted',
      ensures={'unused': "all(%s != result for k in self._loaded_files)" % ALIAS},
      loops={0: Loop(inv={'differ': "all(_it[j]._sub_layers[0].alias != n "
                          "for j in range(0, _i))"}),
             1: Loop(inv={
                 'name': "potential_name == (name if num_suffix == 0 else "
                 "name + str(num_suffix))",
                 'count': "0 <= num_suffix and num_suffix <= names",
                 'found': "implies(result_name != '', all(%s != result_name "
                 "for k in self._loaded_files))" % ALIAS},
                 decreases="(names - num_suffix) if result_name == '' else -1")},
      props=['C19'])

    c('session.Session.get_stage', params={'self': SES, 'path': 'str'},
      returns=ST, strings='uninterpreted', ghost={'top': 'int'},
      requires=["all(k < top for k in self._loaded_files)"],
      modifies=['self._loaded_files', 'heap:Stage.uid'] + reg.io_mods,
      raises=E, exc_ensures={'BaseException': [
          "self._loaded_files == old(self._loaded_files)"]},
      ensures={
          'one more or found': "all(self._loaded_files[k] == "
          "old(self._loaded_files)[k] for k in old(self._loaded_files)) and "
          "(self._loaded_files == old(self._loaded_files) or "
          "all((k in self._loaded_files) == (k in old(self._loaded_files) "
          "or k == result.uid) for k in INT))"},
      loops={0: Loop(inv={})}, props=['C19'])
