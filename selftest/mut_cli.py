"""Mutants of the command line, the tasks of the machine and the setup of a run."""
MA = '__main__.py'
RU = 'scheduler/runner.py'
SU = 'scheduler/utils.py'
LG = 'common/log.py'
ST = 'scheduler/strategy.py'
AP = 'scheduler/api.py'

LOOP = '''    for _task in active_tasks:
        if _task.pid in (current_pid, parent_pid):
            continue
        try:
            _task_info = parse_task_info(_task.cmdline())
        except psutil.NoSuchProcess:
            # 该进程已经退出
            continue
        if task_name == _task_info["name"]:
            return True
'''
INFO = '''    for _idx, _item in enumerate(cmd_line):
        # 选项值既可以是下一个参数，也可以是"--name=demo"的形式
        _opt, _sep, _val = _item.partition("=")
        if _opt in ("-c", "--code"):
            info["code"] = _val if _sep else cmd_line[_idx + 1]
        elif _opt in ("-o", "--out"):
            info["out"] = _val if _sep else cmd_line[_idx + 1]
        elif _opt in ("-n", "--name"):
            info["name"] = _val if _sep else cmd_line[_idx + 1]
        elif _opt in ("-e", "--env"):
            info["env"] = _val if _sep else cmd_line[_idx + 1]
        elif _item == "--debug":
            info["debug"] = True
'''
KILL = '''        try:
            if force:
                _p.kill()
                print(f"强制停止进程 {_p.pid}")
            else:
                import signal
                _p.send_signal(signal.SIGTERM)
                print(f"尝试停止进程 {_p.pid}，已向该进程发送SIGTERM停止信号")
        except psutil.NoSuchProcess:
            # 该进程已经退出，继续停止其他进程
            return
        killed_pid.append(_p.pid)
'''
BRANCH = '''    if options.all:
        for _p in active_tasks:
            _kill(_p, options.force)
    elif options.pid:
        for _p in active_tasks:
            if _p.pid == options.pid:
                _kill(_p, options.force)
                break
    else:
        for _p in active_tasks:
            try:
                _task_info = parse_task_info(_p.cmdline())
            except psutil.NoSuchProcess:
                continue
            if options.name == _task_info["name"]:
                _kill(_p, options.force)
'''
PROC = '''                _cmd_line = " ".join(_p.cmdline())
                if "jqtrade" in _cmd_line and "start_task" in _cmd_line:
                    task_process.append(_p)
                    parent_pid.append(_p.ppid())
'''
TAIL = '''        for _p in task_process:
            if _p.pid in parent_pid:
                continue
            active_tasks.append(_p)
        return active_tasks
'''


def load(bad, same):
    # ---- C01
    bad('no name check', 'C01', (RU, 'if _exist_repeated_task(task_name):', 'if False:'))
    bad('name prefix', 'C01', (RU, 'if task_name == _task_info["name"]:', 'if _task_info["name"] and _task_info["name"].startswith(task_name):'))
    bad('first task only', 'C01', (RU, '        if task_name == _task_info["name"]:\n            return True\n', '        return task_name == _task_info["name"]\n'))
    bad('own pid not excluded', 'C01', (RU, 'if _task.pid in (current_pid, parent_pid):', 'if _task.pid == parent_pid:'))
    bad('parent not excluded', 'C01', (RU, 'if _task.pid in (current_pid, parent_pid):', 'if _task.pid == current_pid:'))
    bad('older tasks only', 'C01', (RU, 'if _task.pid in (current_pid, parent_pid):', 'if _task.pid >= current_pid or _task.pid == parent_pid:'))
    bad('ended task ends comparison', 'C01', (RU, '            # 该进程已经退出\n            continue\n', '            # 该进程已经退出\n            break\n'))
    bad('ended task fails', 'C01', (RU, 'except psutil.NoSuchProcess:', 'except psutil.AccessDenied:'))
    bad('check after log', 'C01', (RU, '''        if _exist_repeated_task(task_name):
            raise TaskError(f"检测到机器上已经运行了任务：{task_name}，不能重复运行名称相同的任务，"
                            f"需要停止该重复任务或修改当前任务名称避免重复")

        self._task_name = task_name

        self._debug = debug
        log_level = "DEBUG" if debug else "INFO"
        # 策略可能会切换工作目录，需要使用绝对路径
        self._out_file = os.path.abspath(out_file) if out_file else out_file
        if out_file:
            setup_file_logger(out_file, log_level)
        else:
            setup_logger(log_level)
''', '''        self._task_name = task_name

        self._debug = debug
        log_level = "DEBUG" if debug else "INFO"
        # 策略可能会切换工作目录，需要使用绝对路径
        self._out_file = os.path.abspath(out_file) if out_file else out_file
        if out_file:
            setup_file_logger(out_file, log_level)
        else:
            setup_logger(log_level)

        if _exist_repeated_task(task_name):
            raise TaskError(f"检测到机器上已经运行了任务：{task_name}，不能重复运行名称相同的任务，"
                            f"需要停止该重复任务或修改当前任务名称避免重复")
'''))
    bad('only logged', 'C01', (RU, 'raise TaskError(f"检测到机器上已经运行了任务：{task_name}，不能重复运行名称相同的任务，"\n                            f"需要停止该重复任务或修改当前任务名称避免重复")', 'logger.error("repeated")'))
    bad('not for debug', 'C01', (RU, 'if _exist_repeated_task(task_name):', 'if not debug and _exist_repeated_task(task_name):'))
    bad('code compared', 'C01', (RU, 'if task_name == _task_info["name"]:', 'if task_name == _task_info["code"]:'))
    bad('code and name swapped', 'C01', (MA, 'TaskRunner(options.code, options.out, options.name, options.env', 'TaskRunner(options.name, options.out, options.code, options.env'))
    bad('debug tasks passed over', 'C01', (RU, 'if task_name == _task_info["name"]:', 'if task_name == _task_info["name"] and not _task_info["debug"]:'))
    same('set of names', 'C01 C02 C03', (RU, LOOP, '''    names = set()
    for _task in active_tasks:
        if _task.pid == current_pid or _task.pid == parent_pid:
            continue
        try:
            names.add(parse_task_info(_task.cmdline())["name"])
        except psutil.NoSuchProcess:
            pass
    return task_name in names
'''))
    same('flag', 'C01 C02 C03', (RU, LOOP, '''    found = False
    for _task in active_tasks:
        if _task.pid not in (current_pid, parent_pid):
            try:
                cmd = _task.cmdline()
            except psutil.NoSuchProcess:
                continue
            found = found or parse_task_info(cmd)["name"] == task_name
    return found
'''))
    same('any over helper', 'C01 C02 C03', (RU, LOOP, '''    def _name(task):
        try:
            return parse_task_info(task.cmdline())["name"]
        except psutil.NoSuchProcess:
            return None

    return any(_name(t) == task_name for t in active_tasks if t.pid not in (current_pid, parent_pid))
'''))
    same('others first', 'C01 C02 C03', (RU, LOOP, '''    others = [t for t in active_tasks if t.pid not in (current_pid, parent_pid)]
    for _task in others:
        try:
            _cmd = _task.cmdline()
        except psutil.NoSuchProcess:
            continue
        if parse_task_info(_cmd).get("name") == task_name:
            return True
    return False
'''))
    # ---- which processes
    bad('other word', 'C01 C02 C03', (SU, 'if "jqtrade" in _cmd_line and "start_task" in _cmd_line:', 'if "jqtrade" in _cmd_line and "task" in _cmd_line:'))
    bad('only start_task', 'C01 C02 C03', (SU, 'if "jqtrade" in _cmd_line and "start_task" in _cmd_line:', 'if "start_task" in _cmd_line:'))
    bad('or', 'C01 C02 C03', (SU, '"jqtrade" in _cmd_line and "start_task"', '"jqtrade" in _cmd_line or "start_task"'))
    bad('parents of all', 'C01 C02 C03', (SU, PROC, '''                _cmd_line = " ".join(_p.cmdline())
                if "jqtrade" in _cmd_line and "start_task" in _cmd_line:
                    task_process.append(_p)
                parent_pid.append(_p.ppid())
'''))
    bad('launchers kept', 'C01 C02 C03', (SU, TAIL, '''        return task_process
'''))
    bad('children dropped', 'C01 C02 C03', (SU, TAIL, '''        for _p in task_process:
            if _p.ppid() in [x.pid for x in task_process]:
                continue
            active_tasks.append(_p)
        return active_tasks
'''))
    bad('ended process breaks', 'C01 C02 C03', (SU, '            except psutil.NoSuchProcess:\n                pass\n', '            except psutil.NoSuchProcess:\n                break\n'))
    bad('ended process raises', 'C01 C02 C03', (SU, '            except psutil.NoSuchProcess:\n                pass\n', '            except psutil.NoSuchProcess:\n                raise\n'))
    bad('python unreadable ignored', 'C01 C02 C03', (SU, '''                if 'python' in _p.name():
                    raise
                else:
                    # windows有一些系统进程，即使有管理员权限，p.cmdline仍会报错，这部分进程忽略
                    # linux没有此问题
                    pass
''', '''                pass
'''))
    bad('system unreadable raises', 'C01 C02 C03', (SU, "if 'python' in _p.name():", "if 'python' not in _p.name():"))
    bad('listing failure empty', 'C01 C02 C03', (SU, '        print("检测到你没有管理员权限，当前进程需要管理员权限来检查运行中的实盘进程")\n        raise', '        print("检测到你没有管理员权限，当前进程需要管理员权限来检查运行中的实盘进程")\n        return []'))
    bad('first task ends', 'C01 C02 C03', (SU, '            active_tasks.append(_p)\n        return active_tasks', '            active_tasks.append(_p)\n            break\n        return active_tasks'))
    same('comprehension', 'C01 C02 C03', (SU, TAIL, '''        return [_p for _p in task_process if _p.pid not in parent_pid]
'''))
    same('set of parents', 'C01 C02 C03', (SU, 'parent_pid = []', 'parent_pid = set()'), (SU, 'parent_pid.append(_p.ppid())', 'parent_pid.add(_p.ppid())'))
    same('nested ifs', 'C01 C02 C03', (SU, PROC, '''                _cmd_line = " ".join(_p.cmdline())
                if "jqtrade" not in _cmd_line:
                    continue
                if "start_task" not in _cmd_line:
                    continue
                task_process.append(_p)
                parent_pid.append(_p.ppid())
'''))
    same('helper is task', 'C01 C02 C03', (SU, PROC, '''                if _is_task(_p.cmdline()):
                    task_process.append(_p)
                    parent_pid.append(_p.ppid())
'''), (SU, 'def get_activate_task_process():', '''def _is_task(cmd_line):
    text = " ".join(cmd_line)
    return all(w in text for w in ("jqtrade", "start_task"))


def get_activate_task_process():'''))
    same('inline append', 'C01 C02 C03', (SU, TAIL, '''        active_tasks.extend(_p for _p in task_process if not _p.pid in parent_pid)
        return active_tasks
'''))
    # ---- command lines
    bad('name only short', 'C01 C02 C03', (SU, 'elif _opt in ("-n", "--name"):', 'elif _opt == "-n":'))
    bad('no = form', 'C01 C02 C03', (SU, 'elif _opt in ("-n", "--name"):\n            info["name"] = _val if _sep else cmd_line[_idx + 1]', 'elif _item in ("-n", "--name"):\n            info["name"] = cmd_line[_idx + 1]'))
    bad('same token', 'C01 C02 C03', (SU, 'info["name"] = _val if _sep else cmd_line[_idx + 1]', 'info["name"] = _val if _sep else cmd_line[_idx]'))
    bad('env into out', 'C03', (SU, 'info["env"] = _val', 'info["out"] = _val'))
    bad('rpartition', 'C03', (SU, '_opt, _sep, _val = _item.partition("=")', '_opt, _sep, _val = _item.rpartition("=")'))
    bad('any code prefix', 'C03', (SU, 'if _opt in ("-c", "--code"):', 'if _opt in ("-c", "--code", "--config"):'))
    bad('debug default missing', 'C03', (SU, '{"debug": False, "env": None', '{"env": None'))
    bad('first option only', 'C03', (SU, '            info["env"] = _val if _sep else cmd_line[_idx + 1]\n', '            info["env"] = _val if _sep else cmd_line[_idx + 1]\n            break\n'))
    same('table', 'C01 C02 C03', (SU, INFO, '''    flags = {"-c": "code", "--code": "code", "-o": "out", "--out": "out",
             "-n": "name", "--name": "name", "-e": "env", "--env": "env"}
    for _idx, _item in enumerate(cmd_line):
        _opt, _sep, _val = _item.partition("=")
        if _opt in flags:
            info[flags[_opt]] = _val if _sep else cmd_line[_idx + 1]
        elif _item == "--debug":
            info["debug"] = True
'''))
    same('value first', 'C01 C02 C03', (SU, INFO, '''    for _idx, _item in enumerate(cmd_line):
        if _item == "--debug":
            info["debug"] = True
            continue
        _opt, _sep, _val = _item.partition("=")
        for key in ("code", "out", "name", "env"):
            if _opt == "-" + key[0] or _opt == "--" + key:
                info[key] = _val if _sep else cmd_line[_idx + 1]
'''))
    same('split once', 'C01 C02 C03', (SU, '_opt, _sep, _val = _item.partition("=")', '''_parts = _item.split("=", 1)
        _opt = _parts[0]
        _sep = len(_parts) > 1
        _val = _parts[1] if _sep else ""'''))
    # ---- C02
    bad('all stops first', 'C02', (MA, '        for _p in active_tasks:\n            _kill(_p, options.force)\n    elif', '        for _p in active_tasks:\n            _kill(_p, options.force)\n            break\n    elif'))
    bad('pid before all', 'C02', (MA, '    if options.all:\n        for _p in active_tasks:\n            _kill(_p, options.force)\n    elif options.pid:', '    if options.all and not options.pid:\n        for _p in active_tasks:\n            _kill(_p, options.force)\n    elif options.pid:'))
    bad('pid prefix', 'C02', (MA, 'if _p.pid == options.pid:', 'if str(_p.pid).startswith(str(options.pid)):'))
    bad('pid or name', 'C02', (MA, 'if options.name == _task_info["name"]:', 'if options.name in _task_info["name"]:'))
    bad('first name', 'C02', (MA, '            if options.name == _task_info["name"]:\n                _kill(_p, options.force)\n', '            if options.name == _task_info["name"]:\n                _kill(_p, options.force)\n                break\n'))
    bad('kill always', 'C02', (MA, '            if force:\n                _p.kill()', '            if True:\n                _p.kill()'))
    bad('force terminates', 'C02', (MA, '_p.kill()', '_p.terminate()'))
    bad('sigint', 'C02', (MA, 'signal.SIGTERM)', 'signal.SIGINT)'))
    bad('force not passed for name', 'C02', (MA, '            if options.name == _task_info["name"]:\n                _kill(_p, options.force)', '            if options.name == _task_info["name"]:\n                _kill(_p)'))
    bad('nothing asked', 'C02', (MA, 'if not options.name and not options.pid and not options.all:', 'if options.name is None and not options.pid and not options.all and options.force:'))
    bad('any pid', 'C02', (MA, BRANCH, BRANCH.replace('''    elif options.pid:
        for _p in active_tasks:
            if _p.pid == options.pid:
                _kill(_p, options.force)
                break
''', '''    elif options.pid:
        _kill(psutil.Process(options.pid), options.force)
''')))
    bad('ended one raises', 'C02', (MA, '''            # 该进程已经退出，继续停止其他进程
            return
''', '''            raise
'''))
    bad('ended name raises', 'C02', (MA, '''            except psutil.NoSuchProcess:
                continue
            if options.name''', '''            except psutil.NoSuchProcess:
                break
            if options.name'''))
    bad('pid is text', 'C02', (MA, '"-p", "--pid", type=int,', '"-p", "--pid",'))
    bad('all by default', 'C02', (MA, '"--all", action="store_true"', '"--all", action="store_false"'))
    bad('debug tasks left', 'C02', (MA, 'if options.name == _task_info["name"]:', 'if options.name == _task_info["name"] and not _task_info["debug"]:'))
    same('collect targets', 'C01 C02 C03', (MA, BRANCH, '''    targets = []
    for _p in active_tasks:
        if options.all:
            targets.append(_p)
        elif options.pid:
            if _p.pid == options.pid:
                targets.append(_p)
        else:
            try:
                _cmd = _p.cmdline()
            except psutil.NoSuchProcess:
                continue
            if parse_task_info(_cmd)["name"] == options.name:
                targets.append(_p)
    for _p in targets:
        _kill(_p, options.force)
'''))
    same('kill helper', 'C01 C02 C03', (MA, KILL, '''        import signal
        try:
            _p.send_signal(signal.SIGKILL if force else signal.SIGTERM)
        except psutil.NoSuchProcess:
            return
        print(f"signal sent to {_p.pid}")
        killed_pid.append(_p.pid)
'''))
    same('terminate', 'C01 C02 C03', (MA, KILL, '''        stop = _p.kill if force else _p.terminate
        try:
            stop()
        except psutil.NoSuchProcess:
            return
        killed_pid.append(_p.pid)
'''))
    same('match helper', 'C01 C02 C03', (MA, BRANCH, '''    def _wanted(p):
        if options.all:
            return True
        if options.pid:
            return p.pid == options.pid
        try:
            return parse_task_info(p.cmdline())["name"] == options.name
        except psutil.NoSuchProcess:
            return False

    for _p in active_tasks:
        if _wanted(_p):
            _kill(_p, options.force)
'''))
    # ---- C03
    bad('first only', 'C03', (MA, '"cmd: {cmd}\\n\\n".format(**_task_info))\n', '"cmd: {cmd}\\n\\n".format(**_task_info))\n        break\n'))
    bad('ended ends listing', 'C03', (MA, '            # 该进程已经退出\n            continue\n', '            # 该进程已经退出\n            break\n'))
    bad('ended fails', 'C03', (MA, '        try:\n            _cmd = _p.cmdline()\n        except psutil.NoSuchProcess:\n            # 该进程已经退出\n            continue\n', '        _cmd = _p.cmdline()\n'))
    bad('out for env', 'C03', (MA, '"自定义环境变量: {env}\\n"', '"自定义环境变量: {out}\\n"'))
    bad('no debug tasks', 'C03', (MA, '        _task_info["pid"] = _p.pid\n', '        if _task_info["debug"]:\n            continue\n        _task_info["pid"] = _p.pid\n'))
    bad('names once', 'C03', (MA, '        _task_info["pid"] = _p.pid\n', '        if not _task_info["name"]:\n            return\n        _task_info["pid"] = _p.pid\n'))
    same('f-string', 'C01 C02 C03', (MA, '''        print("名称: {name}\\n"
              "pid: {pid}\\n"
              "代码路径: {code}\\n"
              "日志路径: {out}\\n"
              "自定义环境变量: {env}\\n"
              "是否debug模式: {debug}\\n"
              "cmd: {cmd}\\n\\n".format(**_task_info))
''', '''        print(f"名称: {_task_info['name']}\\npid: {_p.pid}\\n代码路径: {_task_info['code']}\\n"
              f"日志路径: {_task_info['out']}\\n自定义环境变量: {_task_info['env']}\\n"
              f"是否debug模式: {_task_info['debug']}\\ncmd: {_cmd}\\n\\n")
'''))
    same('lines', 'C01 C02 C03', (MA, '''        print("名称: {name}\\n"
              "pid: {pid}\\n"
              "代码路径: {code}\\n"
              "日志路径: {out}\\n"
              "自定义环境变量: {env}\\n"
              "是否debug模式: {debug}\\n"
              "cmd: {cmd}\\n\\n".format(**_task_info))
''', '''        print("名称: %s" % _task_info["name"])
        print("pid: %s" % _p.pid)
        for label, key in (("代码路径", "code"), ("日志路径", "out"), ("自定义环境变量", "env"), ("是否debug模式", "debug")):
            print("{}: {}".format(label, _task_info[key]))
        print("cmd:", _cmd)
        print()
'''))


def c04(bad, same):
    P, UT = 'C04', SU
    LOOP = '''            for _py_path in reversed(self._env["PYTHONPATH"].split(":")):
                sys.path.insert(0, _py_path)
'''
    PE = '''    ret = {}
    envs = env.split(sep)
    for _env in envs:
        _env = _env.strip()
        _k, _v = _env.split("=", 1)
        _k = _k.strip()
        _v = _v.strip()
        ret[_k] = _v
    return ret
'''
    UPD = '        os.environ.update(self._env)\n'
    bad('all equals signs', P, (UT, '.split("=", 1)', '.split("=")'))
    bad('rsplit', P, (UT, '_env.split("=", 1)', '_env.rsplit("=", 1)'))
    bad('rpartition', P, (UT, '_k, _v = _env.split("=", 1)', '_k, _, _v = _env.rpartition("=")'))
    bad('key not stripped', P, (UT, '        _k = _k.strip()\n', ''))
    bad('value not stripped', P, (UT, '        _v = _v.strip()\n', '        _v = _v.rstrip("\\n")\n'))
    bad('value lstrip only', P, (UT, '        _env = _env.strip()\n', ''), (UT, '_v = _v.strip()', '_v = _v.lstrip()'))
    bad('value lower', P, (UT, '_v = _v.strip()', '_v = _v.strip().lower()'))
    bad('key upper', P, (UT, '_k = _k.strip()', '_k = _k.strip().upper()'))
    bad('quotes', P, (UT, '_v = _v.strip()', '_v = _v.strip(\'"\')'))
    bad('comma', P, (UT, 'sep=";"', 'sep=","'))
    bad('first wins', P, (UT, '        ret[_k] = _v\n', '        ret.setdefault(_k, _v)\n'))
    bad('no empty', P, (UT, '        ret[_k] = _v\n', '        if _v:\n            ret[_k] = _v\n'))
    bad('stop at empty', P, (UT, '        _env = _env.strip()\n', '        _env = _env.strip()\n        if _env.startswith("#"):\n            break\n'))
    bad('existing kept', P, (RU, UPD, '        for k, v in self._env.items():\n            os.environ.setdefault(k, v)\n'))
    bad('existing kept 2', P, (RU, UPD, '        for k, v in self._env.items():\n            if k not in os.environ:\n                os.environ[k] = v\n'))
    bad('not written', P, (RU, UPD, ''))
    bad('cleared', P, (RU, UPD, '        os.environ.clear()\n' + UPD))
    bad('written late', P, (RU, UPD, ''), (RU, '        event_loop.run()\n', '        os.environ.update(self._env)\n        event_loop.run()\n'))
    bad('only debug', P, (RU, UPD, '        if debug:\n            os.environ.update(self._env)\n'))
    bad('only with out', P, (RU, '        self._env = parse_env(env) if env else {}\n', '        self._env = parse_env(env) if env and out_file else {}\n'))
    bad('more', P, (RU, UPD, UPD + '        os.environ["TZ"] = "UTC"\n'))
    bad('forward', P, (RU, LOOP, LOOP.replace('reversed(', '(')))
    bad('append', P, (RU, 'sys.path.insert(0, _py_path)', 'sys.path.append(_py_path)'))
    bad('behind cwd', P, (RU, 'sys.path.insert(0, _py_path)', 'sys.path.insert(1, _py_path)'))
    bad('not split', P, (RU, LOOP, '            sys.path.insert(0, self._env["PYTHONPATH"])\n'))
    bad('split ;', P, (RU, '.split(":")', '.split(";")'))
    bad('only first', P, (RU, 'sys.path.insert(0, _py_path)\n', 'sys.path.insert(0, _py_path)\n                break\n'))
    bad('only dirs', P, (RU, '                sys.path.insert(0, _py_path)\n', '                if os.path.isdir(_py_path):\n                    sys.path.insert(0, _py_path)\n'))
    bad('not if there', P, (RU, '                sys.path.insert(0, _py_path)\n', '                if _py_path not in sys.path:\n                    sys.path.insert(0, _py_path)\n'))
    bad('lower case name', P, (RU, '"PYTHONPATH" in', '"PYTHON_PATH" in'))
    bad('extend', P, (RU, LOOP, '            sys.path.extend(self._env["PYTHONPATH"].split(":"))\n'))
    bad('behind 2', P, (RU, LOOP, '            sys.path = sys.path + self._env["PYTHONPATH"].split(":")\n'))
    bad('reversed slice', P, (RU, LOOP, '            sys.path[:0] = self._env["PYTHONPATH"].split(":")[::-1]\n'))
    bad('no path', P, (RU, '        if "PYTHONPATH" in self._env:\n' + LOOP, ''))
    bad('path late', P, (RU, '        if "PYTHONPATH" in self._env:\n' + LOOP, ''), (RU, '        event_loop.run()\n', '        for p in reversed(self._env.get("PYTHONPATH", "").split(":")):\n            sys.path.insert(0, p)\n        event_loop.run()\n'))
    bad('env not passed', P, (MA, 'options.name, options.env, options.debug', 'options.name, None, options.debug'))
    bad('option', P, (MA, '"-e", "--env", required=False, default=None', '"-e", "--environ", required=False, default=None'))
    bad('replaced in value', P, (UT, '_v = _v.strip()', '_v = _v.strip().replace("\\\\", "/")'))
    both = P + ' C01'
    same('loop write', both, (RU, UPD, '        for k, v in self._env.items():\n            os.environ[k] = v\n'))
    same('if env', both, (RU, '        self._env = parse_env(env) if env else {}\n', '        self._env = {}\n        if env:\n            self._env = parse_env(env)\n'))
    same('write if any', both, (RU, UPD, '        if self._env:\n            os.environ.update(self._env)\n'))
    same('slice', both, (RU, LOOP, '            sys.path[:0] = self._env["PYTHONPATH"].split(":")\n'))
    same('[::-1]', both, (RU, LOOP, '            for p in self._env["PYTHONPATH"].split(":")[::-1]:\n                sys.path.insert(0, p)\n'))
    same('enumerate', both, (RU, LOOP, '            for i, p in enumerate(self._env["PYTHONPATH"].split(":")):\n                sys.path.insert(i, p)\n'))
    same('plus', both, (RU, LOOP, '            sys.path = self._env["PYTHONPATH"].split(":") + sys.path\n'))
    same('reverse()', both, (RU, LOOP, '            paths = self._env["PYTHONPATH"].split(":")\n            paths.reverse()\n            for p in paths:\n                sys.path.insert(0, p)\n'))
    same('get', both, (RU, '        if "PYTHONPATH" in self._env:\n' + LOOP, '        python_path = self._env.get("PYTHONPATH")\n        if python_path is not None:\n            for p in reversed(python_path.split(":")):\n                sys.path.insert(0, p)\n'))
    same('get truthy', both, (RU, '        if "PYTHONPATH" in self._env:\n' + LOOP, '        python_path = self._env.get("PYTHONPATH")\n        if python_path:\n            for p in reversed(python_path.split(":")):\n                sys.path.insert(0, p)\n'))
    same('helper', both, (RU, UPD + '        if "PYTHONPATH" in self._env:\n' + LOOP, '        self._setup_env()\n'), (RU, '    def run(self):\n', '''    def _setup_env(self):
        os.environ.update(self._env)
        if "PYTHONPATH" not in self._env:
            return
        for _py_path in reversed(self._env["PYTHONPATH"].split(":")):
            sys.path.insert(0, _py_path)

    def run(self):
'''))
    same('env later', both, (RU, '        self._env = parse_env(env) if env else {}\n' + UPD + '        if "PYTHONPATH" in self._env:\n' + LOOP, '        self._env = parse_env(env) if env else {}\n'),
         (RU, '        event_loop = EventLoop()\n', '        os.environ.update(self._env)\n        if "PYTHONPATH" in self._env:\n' + LOOP + '        event_loop = EventLoop()\n'))
    same('partition', both, (UT, '        _k, _v = _env.split("=", 1)\n', '        _k, _, _v = _env.partition("=")\n'))
    same('comprehension', both, (UT, PE, '    items = [x.strip().split("=", 1) for x in env.split(sep)]\n    return {k.strip(): v.strip() for k, v in items}\n'))
    same('comprehension 2', both, (UT, PE, '    return dict((k.strip(), v.strip()) for k, v in (x.split("=", 1) for x in env.split(sep)))\n'))
    same('inner strip', both, (UT, '        _env = _env.strip()\n        _k, _v = _env.split("=", 1)\n        _k = _k.strip()\n        _v = _v.strip()\n        ret[_k] = _v\n',
                               '        _k, _v = _env.split("=", maxsplit=1)\n        ret[_k.strip()] = _v.strip()\n'))
    same('skip empty items', both, (UT, '        _env = _env.strip()\n', '        _env = _env.strip()\n        if not _env:\n            continue\n'))
    same('skip without =', both, (UT, '        _env = _env.strip()\n', '        _env = _env.strip()\n        if "=" not in _env:\n            continue\n'))
    same('map', both, (UT, '        _k, _v = _env.split("=", 1)\n        _k = _k.strip()\n        _v = _v.strip()\n', '        _k, _v = [x.strip() for x in _env.split("=", 1)]\n'))
    same('find', both, (UT, '        _k, _v = _env.split("=", 1)\n', '        _pos = _env.index("=")\n        _k, _v = _env[:_pos], _env[_pos + 1:]\n'))


def c05(bad, same):
    P = 'C05'
    CX, AC = 'scheduler/context.py', 'account/config.py'
    MP = '''            periods = []
            for _period in market_period:
                if len(_period) != 2:
                    raise ValueError(f"market_period设置错误：{_period}")
                _start, _end = _period
                periods.append((parse_time(_start), parse_time(_end)))
            kwargs["market_period"] = periods
'''
    SP = MP.replace('market', 'sync')
    RD = '''        runtime_dir = os.path.abspath(os.path.expanduser(kwargs.get("runtime_dir", config.RUNTIME_DIR)))
        if not os.path.isdir(runtime_dir):
            os.makedirs(runtime_dir)
'''
    UA = '''        self._ctx.use_account = use_account = kwargs.get("use_account", config.SETUP_ACCOUNT)
        if use_account:
            self.setup_account(kwargs)
'''
    GT = '''            module_name, gate_name = account_config.TRADE_GATE.rsplit(".", 1)
            module = import_module(module_name)
            trade_gate = getattr(module, gate_name)()
'''
    CF = '''        if self._ctx.config:
            logger.info(f"account模块加载用户自定义配置：{self._ctx.config}")
            setup_account_config(self._ctx.config)
'''
    TAIL = '''        self._ctx.trade_gate = trade_gate
        account = Account(self._ctx)

        self._ctx.account = account
        portfolio = Portfolio(account)
        self._ctx.portfolio = portfolio

        self._ctx.account.setup(options)
'''
    bad('use_account dropped', P, (ST, 'kwargs["use_account"] = bool(kwargs["use_account"])', 'use = bool(kwargs.pop("use_account"))'))
    bad('use_account True', P, (ST, 'kwargs["use_account"] = bool(kwargs["use_account"])', 'kwargs["use_account"] = True'))
    bad('sync_order from balance', P, (ST, 'kwargs["sync_order"] = bool(kwargs["sync_order"])', 'kwargs["sync_order"] = bool(kwargs.get("sync_balance"))'))
    bad('sync_balance negated', P, (ST, 'kwargs["sync_balance"] = bool(kwargs["sync_balance"])', 'kwargs["sync_balance"] = not kwargs["sync_balance"]'))
    bad('int internal', P, (ST, 'float(kwargs["sync_internal"])', 'int(kwargs["sync_internal"])'))
    bad('internal at least 1', P, (ST, 'float(kwargs["sync_internal"])', 'max(1.0, float(kwargs["sync_internal"]))'))
    bad('start twice', P, (ST, SP, SP.replace('parse_time(_end)', 'parse_time(_start)')))
    bad('end first', P, (ST, MP, MP.replace('_start, _end = _period', '_end, _start = _period')))
    bad('not parsed', P, (ST, SP, SP.replace('parse_time(_start)', '_start')))
    bad('no length check', P, (ST, MP, MP.replace('''                if len(_period) != 2:
                    raise ValueError(f"market_period设置错误：{_period}")
                _start, _end = _period
''', '''                _start, _end = _period[0], _period[1]
''')))
    bad('first period only', P, (ST, SP, SP.replace('parse_time(_end)))\n', 'parse_time(_end)))\n                break\n')))
    bad('malformed skipped', P, (ST, SP, SP.replace('raise ValueError(f"sync_period设置错误：{_period}")', 'continue')))
    bad('empty periods skipped', P, (ST, SP, SP.replace('                _start, _end = _period\n', '                _start, _end = _period\n                if _start == _end:\n                    continue\n')))
    bad('sync from market', P, (ST, 'sync_period = kwargs.get("sync_period")', 'sync_period = kwargs.get("sync_period") or kwargs.get("market_period")'))
    bad('wrong key', P, (ST, 'kwargs["sync_period"] = periods', 'kwargs["market_period"] = periods'))
    bad('reversed', P, (ST, MP, MP.replace('in market_period', 'in reversed(market_period)')))
    bad('sorted out', P, (ST, 'self._options = kwargs', 'self._options = {k: v for k, v in kwargs.items() if v}'))
    bad('early options', P, (ST, 'self._options = kwargs', 'self._options = dict(self._options)'))
    bad('raw dir', P, (ST, '        kwargs["runtime_dir"] = runtime_dir\n', ''))
    bad('only expanduser', P, (ST, 'os.path.abspath(os.path.expanduser(kwargs.get("runtime_dir", config.RUNTIME_DIR)))', 'os.path.expanduser(kwargs.get("runtime_dir", config.RUNTIME_DIR))'))
    bad('only abspath', P, (ST, 'os.path.abspath(os.path.expanduser(kwargs.get("runtime_dir", config.RUNTIME_DIR)))', 'os.path.abspath(kwargs.get("runtime_dir", config.RUNTIME_DIR))'))
    bad('wrong order', P, (ST, 'os.path.abspath(os.path.expanduser(kwargs.get("runtime_dir", config.RUNTIME_DIR)))', 'os.path.expanduser(os.path.abspath(kwargs.get("runtime_dir", config.RUNTIME_DIR)))'))
    bad('only configured', P, (ST, 'kwargs.get("runtime_dir", config.RUNTIME_DIR)', 'config.RUNTIME_DIR'))
    bad('not made', P, (ST, '        if not os.path.isdir(runtime_dir):\n            os.makedirs(runtime_dir)\n', ''))
    bad('mkdir', P, (ST, 'os.makedirs(runtime_dir)', 'os.mkdir(runtime_dir)'))
    bad('made late', P, (ST, '        if not os.path.isdir(runtime_dir):\n            os.makedirs(runtime_dir)\n', ''),
        (ST, '    @property\n    def options(self):', '    def _unused(self):\n        pass\n\n    @property\n    def options(self):'),
        (ST, UA, UA + '            if not os.path.isdir(runtime_dir):\n                os.makedirs(runtime_dir)\n'))
    bad('account by default', 'C06', (ST, 'kwargs.get("use_account", config.SETUP_ACCOUNT)', 'kwargs.get("use_account", True)'))
    bad('or', 'C06', (ST, 'kwargs.get("use_account", config.SETUP_ACCOUNT)', 'kwargs.get("use_account") or config.SETUP_ACCOUNT'))
    bad('and', 'C06', (ST, 'kwargs.get("use_account", config.SETUP_ACCOUNT)', 'kwargs.get("use_account", True) and config.SETUP_ACCOUNT'))
    bad('flag not kept', 'C06', (ST, 'self._ctx.use_account = use_account = kwargs', 'self._ctx.use_account = True\n        use_account = kwargs'))
    bad('flag late', 'C06', (ST, 'self._ctx.use_account = use_account = kwargs', 'use_account = kwargs'), (ST, '        self._ctx.account.setup(options)\n', '        account.setup(options)\n        self._ctx.use_account = True\n'))
    bad('no account_no', 'C06', (ST, 'if "account_no" not in options:', 'if options.get("account_no", "") is None:'))
    bad('account_no always', 'C06', (ST, 'if "account_no" not in options:', 'if "account_no" not in options or not options.get("order_dir"):'))
    bad('gate from partition', 'C06', (ST, '.rsplit(".", 1)', '.split(".", 1)'))
    bad('gate by default', 'C06', (ST, '        if not account_config.TRADE_GATE:\n            raise ConfigError("未配置trade gate")\n', ''))
    bad('config late', 'C06', (ST, CF, ''), (ST, '        self._ctx.trade_gate = trade_gate\n', CF + '        self._ctx.trade_gate = trade_gate\n'))
    bad('no config', 'C06', (ST, CF, ''))
    bad('config debug', 'C06', (ST, '        if self._ctx.config:\n', '        if self._ctx.config and self._ctx.debug:\n'))
    bad('account late', 'C06', (ST, TAIL, '''        self._ctx.trade_gate = trade_gate
        account = Account(self._ctx)
        account.setup(options)
        self._ctx.account = account
        self._ctx.portfolio = Portfolio(account)
'''))
    bad('gate late', 'C06', (ST, TAIL, '''        account = Account(self._ctx)
        self._ctx.account = account
        self._ctx.portfolio = Portfolio(account)
        account.setup(options)
        self._ctx.trade_gate = trade_gate
'''))
    bad('other account', 'C06', (ST, 'portfolio = Portfolio(account)', 'portfolio = Portfolio(Account(self._ctx))'))
    bad('setup without options', P, (ST, 'self._ctx.account.setup(options)', 'self._ctx.account.setup({})'))
    bad('setup twice', 'C06', (ST, 'self._ctx.account.setup(options)', 'self._ctx.account.setup(options)\n        account.setup(options)'))
    bad('no setup', 'C06', (ST, '        self._ctx.account.setup(options)\n', ''))
    bad('portfolio unguarded', 'C06', (CX, '''    @property
    def portfolio(self):
        if not self._use_account:
            raise InvalidCall("检测到use_account=False，程序未加载账户组件，无法调用账户模块相关API，"
                              "请在set_options中设置use_account=True后再试")

''', '''    @property
    def portfolio(self):
'''))
    bad('account None', 'C06', (CX, '''    @property
    def account(self):
        if not self._use_account:
            raise InvalidCall("检测到use_account=False，程序未加载账户组件，无法调用账户模块相关API，"
                              "请在set_options中设置use_account=True后再试")
''', '''    @property
    def account(self):
        if not self._use_account:
            return None
'''))
    both = 'C05 C06 A12 S10'
    same('periods helper', both, (ST, MP, '            kwargs["market_period"] = self._parse_periods("market_period", market_period)\n'), (ST, SP, '            kwargs["sync_period"] = self._parse_periods("sync_period", sync_period)\n'),
         (ST, '    def setup_account(self, options):\n', '''    @staticmethod
    def _parse_periods(name, values):
        result = []
        for item in values:
            if len(item) != 2:
                raise ValueError("%s设置错误：%s" % (name, item))
            result.append((parse_time(item[0]), parse_time(item[1])))
        return result

    def setup_account(self, options):
'''))
    same('unpack raises', both, (ST, MP, '            kwargs["market_period"] = [(parse_time(s), parse_time(e)) for s, e in market_period]\n'))
    same('tuple comp', both, (ST, MP, MP.replace('periods.append((parse_time(_start), parse_time(_end)))', 'periods.append(tuple(parse_time(x) for x in (_start, _end)))')))
    same('loop over bools', both, (ST, '''        if "sync_balance" in kwargs:
            kwargs["sync_balance"] = bool(kwargs["sync_balance"])

        if "sync_order" in kwargs:
            kwargs["sync_order"] = bool(kwargs["sync_order"])
''', '''        for _name in ("sync_balance", "sync_order"):
            if _name in kwargs:
                kwargs[_name] = bool(kwargs[_name])
'''))
    same('options copy', both, (ST, '        self._options = kwargs\n', '        options = dict(kwargs)\n        self._options = options\n'))
    same('exist_ok', both, (ST, '        if not os.path.isdir(runtime_dir):\n            os.makedirs(runtime_dir)\n', '        os.makedirs(runtime_dir, exist_ok=True)\n'))
    same('if dir', both, (ST, RD, '''        runtime_dir = kwargs["runtime_dir"] if "runtime_dir" in kwargs else config.RUNTIME_DIR
        runtime_dir = os.path.expanduser(runtime_dir)
        runtime_dir = os.path.abspath(runtime_dir)
        os.makedirs(runtime_dir, exist_ok=True)
'''))
    same('flag var', both, (ST, UA, '''        if "use_account" in kwargs:
            use_account = kwargs["use_account"]
        else:
            use_account = config.SETUP_ACCOUNT
        self._ctx.use_account = use_account
        if use_account:
            self.setup_account(kwargs)
'''))
    same('gate helper', both, (ST, '        try:\n' + GT, '        try:\n            trade_gate = self._create_gate(account_config.TRADE_GATE)\n'), (ST, '    @property\n    def options(self):', '''    @staticmethod
    def _create_gate(path):
        module_name, _, cls_name = path.rpartition(".")
        gate_cls = getattr(import_module(module_name), cls_name)
        return gate_cls()

    @property
    def options(self):'''))
    same('order of context', both, (ST, TAIL, '''        account = Account(self._ctx)
        portfolio = Portfolio(account)
        self._ctx.portfolio = portfolio
        self._ctx.account = account
        self._ctx.trade_gate = trade_gate
        account.setup(options)
'''))
    same('config local', both, (ST, CF, '        custom = self._ctx.config\n        if custom:\n            setup_account_config(custom)\n'))
    same('get account_no', both, (ST, '        if "account_no" not in options:\n', '        has_account = "account_no" in options\n        if not has_account:\n'))
