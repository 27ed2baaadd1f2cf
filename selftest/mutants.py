L = 'nxt_layer.py'
S = 'session.py'
MUTANTS = [
    ('cli.execute#given', 'cli.py', "parameter_list[i + 1]", "parameter_list[i]"),
    ('cli.execute#given', 'cli.py', "            i += 2\n", "            i += 1\n"),
    ('cli.execute#given', 'cli.py', "start, parameters, context)", "context, parameters, start)"),
    ('cli.execute#given', 'cli.py', "if not key.startswith('/'):", "if not val.startswith('/'):"),
    ('cli.execute#given', 'cli.py', "param_arg_count % 2 != 0", "param_arg_count % 4 == 3"),
    ('session.RPCServerProcess.run', S, "            self.terminal.terminate()\n            self.terminal = None\n            raise", "            raise"),
    ('session.RPCServerProcess.terminate', S, "                    self.terminal.terminate()\n", "                    pass\n"),
    ('session.Session.shutdown_rpc_server', S, "            self.rpc_server.terminate()", "            pass"),
    ('session.Session.execute_graph', S, "            finally:\n                self.shutdown_rpc_server()", "            except IOError:\n                self.shutdown_rpc_server()"),
    ('session.Session.execute_nodes', S, "        self.start_rpc_if_needed(stage)\n        try:\n            comp_layer = stage.build_stage()", "        self.start_rpc_if_needed(stage)\n        comp_layer = stage.build_stage()\n        try:"),
    ('session.Session._track_stage', S, "while stage.uid in self._loaded_files", "if stage.uid in self._loaded_files"),
    ('session.Session.unload_file', S, "if k == uid]", "if k >= uid]"),
    ('session.Session.load_file', S, "        self._track_stage(new_stage)\n        return", "        self._loaded_files[new_stage.uid] = new_stage\n        return"),
    ('session.Session.get_unused_graph_name', S, "                num_suffix += 1\n                potential_name = name + str(num_suffix)", "                num_suffix += 1\n                result_name = name + str(num_suffix)"),
    ('session.Session.start_rpc_if_needed', S, "        if start_rpc:\n            self._start_rpc_server()", "        if start_rpc:\n            self._start_rpc_server()\n            self.rpc_server = None"),
    ('stage.Stage.extend_dirty_map', 'stage.py', "if concern is not node_path and concern not in node_concerns", "if concern is not node_path"),
    ('stage.Stage.extend_dirty_map', 'stage.py', "        if not node_concerns:\n            dirty_map[node_path] = node_concerns\n", ""),
    ('stage.Stage.remove_from_dirty_map', 'stage.py', "                v.remove(node_path)\n", "                v.remove(node_path)\n                break\n"),
    ('stage.Stage.remove_from_dirty_map', 'stage.py', "            dirty_map.pop(node_path)\n", "            return dirty_map\n"),
    ('nxt_layer.CompLayer.get_node_dirties', L, "if n not in concerns and n not in _tmp", "if n not in concerns"),
]
