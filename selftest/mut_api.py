# -*- coding: utf-8 -*-
"""mutants of the log, of the loader and of the API of a strategy"""
MA, RU, SU, LG, ST, AP, LO = ('__main__.py', 'scheduler/runner.py', 'scheduler/utils.py', 'common/log.py', 'scheduler/strategy.py', 'scheduler/api.py', 'scheduler/loader.py')


def c07(bad, same):
    P = 'C07'
    OUT = '''        if out_file:
            setup_file_logger(out_file, log_level)
        else:
            setup_logger(log_level)
'''
    PR = '''    kwargs.setdefault("flush", True)

    if ctx.out and "file" not in kwargs:
        with open(ctx.out, "a") as wf:
            kwargs["file"] = wf
            print(*args, **kwargs)
    else:
        print(*args, **kwargs)
'''
    bad('file mode w', P, (LG, 'logging.FileHandler(file)', 'logging.FileHandler(file, "w")'))
    bad('file kw mode w', P, (LG, 'logging.FileHandler(file)', 'logging.FileHandler(file, mode="w")'))
    bad('both', P, (RU, OUT, OUT.replace('        else:\n            setup', '        if not out_file or debug:\n            setup')))
    bad('stderr', P, (LG, 'stream=sys.stdout', 'stream=sys.stderr'))
    bad('default stream', P, (LG, 'logging.StreamHandler(stream=sys.stdout)', 'logging.StreamHandler()'))
    bad('levels swapped', P, (RU, '"DEBUG" if debug else "INFO"', '"INFO" if debug else "DEBUG"'))
    bad('file level lost', P, (RU, 'setup_file_logger(out_file, log_level)', 'setup_file_logger(out_file)'))
    bad('warning', P, (RU, '"DEBUG" if debug else "INFO"', '"DEBUG" if debug else "WARNING"'))
    bad('handler info', P, (LG, 'file_handler.setLevel(level)', 'file_handler.setLevel("INFO")'))
    bad('root level lost', P, (LG, '''    logging.getLogger().addHandler(file_handler)
    logging.getLogger().setLevel(level)
''', '''    logging.getLogger().addHandler(file_handler)
'''))
    bad('handler lost', P, (LG, '    logging.getLogger().addHandler(stdout_handler)\n', ''))
    bad('twice', P, (LG, '    logging.getLogger().addHandler(stdout_handler)\n', '    logging.getLogger().addHandler(stdout_handler)\n    logging.getLogger().addHandler(logging.StreamHandler(sys.stdout))\n'))
    bad('late log', P, (RU, OUT, ''), (RU, '        event_loop.run()', OUT.replace('out_file', 'self._out_file').replace('setup_file_logger(self._out_file, log_level)', 'setup_file_logger(self._out_file, "DEBUG" if self._debug else "INFO")').replace('setup_logger(log_level)', 'setup_logger("DEBUG" if self._debug else "INFO")').replace('setup_self._', 'setup_') + '\n        event_loop.run()'), (RU, 'log_level = ', '_ = '))
    bad('out to context lost', P, (RU, 'out=self._out_file)', 'out=None)'))
    bad('relative', P, (RU, 'os.path.abspath(out_file) if out_file else out_file', 'out_file'))
    bad('debug of options', P, (MA, 'options.env, options.debug, options.config', 'options.env, options.config, options.debug'))
    bad('code as out', P, (RU, 'setup_file_logger(out_file, log_level)', 'setup_file_logger(code_file + ".log", log_level)'))
    bad('print truncates', P, (AP, 'open(ctx.out, "a")', 'open(ctx.out, "w")'))
    bad('print no flush', P, (AP, '    kwargs.setdefault("flush", True)\n', ''))
    bad('print flush forced', P, (AP, 'kwargs.setdefault("flush", True)', 'kwargs.setdefault("flush", False)'))
    bad('print file ignored', P, (AP, 'if ctx.out and "file" not in kwargs:', 'if ctx.out:'))
    bad('print always stdout', P, (AP, PR, '    kwargs.setdefault("flush", True)\n    print(*args, **kwargs)\n'))
    bad('print both', P, (AP, PR, PR.replace('    else:\n    ', '')))
    bad('print options lost', P, (AP, PR, PR.replace('            print(*args, **kwargs)', '            print(*args, file=wf)', 1)))
    bad('print sep lost', P, (AP, PR, PR.replace('            print(*args, **kwargs)', '            print(*args, file=wf, end=kwargs.get("end"))', 1)))
    bad('print joined', P, (AP, PR, PR.replace('            print(*args, **kwargs)', '            print(args, **kwargs)', 1)))
    bad('print first only', P, (AP, PR, PR.replace('            print(*args, **kwargs)', '            print(args[0], **kwargs)', 1)))
    bad('print not out', P, (AP, 'if ctx.out and "file"', 'if not ctx.out and "file"'))
    bad('print nowhere', P, (AP, PR, PR.replace('    else:\n', '    elif "file" in kwargs:\n')))
    same('print early return', P, (AP, PR, '''    kwargs.setdefault("flush", True)
    if not ctx.out or "file" in kwargs:
        print(*args, **kwargs)
        return
    with open(ctx.out, "a") as wf:
        print(*args, file=wf, **kwargs)
'''))
    same('print try finally', P, (AP, PR, '''    kwargs.setdefault("flush", True)
    target = None
    if ctx.out and "file" not in kwargs:
        target = open(ctx.out, mode="a")
        kwargs["file"] = target
    try:
        print(*args, **kwargs)
    finally:
        if target is not None:
            target.close()
'''))
    same('print merged', P, (AP, PR, '''    options = {"flush": True}
    options.update(kwargs)
    if ctx.out and "file" not in options:
        with open(ctx.out, "a") as wf:
            options["file"] = wf
            print(*args, **options)
    else:
        print(*args, **options)
'''))
    same('print splat', P, (AP, PR, '''    options = {"flush": True, **kwargs}
    if "file" in options or not ctx.out:
        print(*args, **options)
    else:
        with open(ctx.out, "a") as wf:
            print(*args, **dict(options, file=wf))
'''))
    same('print stdout named', P, (AP, PR, '''    kwargs.setdefault("flush", True)
    if "file" not in kwargs:
        if ctx.out:
            with open(ctx.out, "a") as wf:
                print(*args, **kwargs, file=wf)
            return
        import sys
        kwargs["file"] = sys.stdout
    print(*args, **kwargs)
'''))
    same('print helper', P, (AP, PR, '''    kwargs.setdefault("flush", True)
    if "file" in kwargs or not ctx.out:
        print(*args, **kwargs)
    else:
        _print_to(ctx.out, args, kwargs)


def _print_to(path, args, kwargs):
    with open(path, "a") as wf:
        kwargs["file"] = wf
        print(*args, **kwargs)
'''))
    same('one setup', P, (RU, OUT, '        setup_logging(out_file, log_level)\n'), (RU, 'setup_file_logger, setup_logger', 'setup_logging'),
         (LG, 'def set_log_context(context):', '''def setup_logging(file, level):
    if file:
        handler = logging.FileHandler(file)
    else:
        handler = logging.StreamHandler(sys.stdout)
    handler.setFormatter(SystemLogFormatter(fmt, datefmt='%Y-%m-%d %H:%M:%S.%f'))
    root = logging.getLogger()
    root.addHandler(handler)
    root.setLevel(level)


def set_log_context(context):'''))
    same('level constants', P, (RU, '"DEBUG" if debug else "INFO"', 'logging.DEBUG if debug else logging.INFO'), (RU, 'import os\n', 'import os\nimport logging\n'))
    same('level if', P, (RU, '        log_level = "DEBUG" if debug else "INFO"\n', '        log_level = "INFO"\n        if debug:\n            log_level = "DEBUG"\n'))
    same('setup picked', P, (RU, OUT, '''        if not out_file:
            setup_logger(level=log_level)
        else:
            setup_file_logger(file=out_file, level=log_level)
'''))
    same('handler helper', P, (LG, '''    logging.getLogger().addHandler(file_handler)
    logging.getLogger().setLevel(level)
''', '''    _install(file_handler, level)
'''), (LG, '''    logging.getLogger().addHandler(stdout_handler)
''', '''    _install(stdout_handler, level)
'''), (LG, 'def setup_logger(', '''def _install(handler, level):
    root = logging.getLogger()
    root.setLevel(level)
    root.addHandler(handler)


def setup_logger('''))
    same('abs in handler', P, (LG, 'logging.FileHandler(file)', 'logging.FileHandler(os.path.abspath(file), mode="a")'), (LG, 'import sys\n', 'import os\nimport sys\n'))
    same('out none', P, (RU, 'os.path.abspath(out_file) if out_file else out_file', 'os.path.abspath(out_file) if out_file else None'))


def c08(bad, same):
    P = 'C08'
    SPEC = '''        spec = importlib.util.spec_from_file_location(module_name, os.path.join(self.code_dir, self.code_file))
        module = importlib.util.module_from_spec(spec)
        sys.modules.setdefault(module_name, module)
        spec.loader.exec_module(module)
        return module
'''
    SPLIT = '''        self.code_dir, self.code_file = os.path.split(path)

        if self.code_dir == "":
            self.code_dir = "."
'''
    INS = '        sys.path.insert(0, self.code_dir)\n'
    CHK = '''        if not os.path.exists(code_file):
            raise FileNotFoundError(f"未找到策略代码文件，path={code_file}")
'''
    bad('by name', P, (LO, SPEC, '        module = importlib.import_module(module_name)\n        return module\n'), (LO, 'import importlib.util', 'import importlib'))
    bad('by dunder import', P, (LO, SPEC, '        return __import__(module_name)\n'))
    bad('loaded one first', P, (LO, SPEC, '        if module_name in sys.modules:\n            return sys.modules[module_name]\n' + SPEC))
    bad('module name .py', P, (LO, 'os.path.join(self.code_dir, self.code_file)', 'os.path.join(self.code_dir, module_name + ".py")'))
    bad('cwd', P, (LO, 'os.path.join(self.code_dir, self.code_file)', 'self.code_file'))
    bad('cwd dir', P, (LO, 'os.path.join(self.code_dir, self.code_file)', 'os.path.join(".", self.code_file)'))
    bad('run twice', P, (LO, '        spec.loader.exec_module(module)\n', '        spec.loader.exec_module(module)\n        spec.loader.exec_module(module)\n'))
    bad('not run', P, (LO, '        spec.loader.exec_module(module)\n', ''))
    bad('path append', P, (LO, 'sys.path.insert(0, self.code_dir)', 'sys.path.append(self.code_dir)'))
    bad('path second', P, (LO, 'sys.path.insert(0, self.code_dir)', 'sys.path.insert(1, self.code_dir)'))
    bad('path late', P, (LO, INS, ''), (LO, '        return module\n', INS + '        return module\n'))
    bad('path none', P, (LO, INS, ''))
    bad('path cwd', P, (LO, INS, '        sys.path.insert(0, os.getcwd())\n'))
    bad('path cwd on top', P, (LO, INS, INS + '        sys.path.insert(0, os.getcwd())\n'))
    bad('always dot', P, (LO, 'if self.code_dir == "":', 'if self.code_dir != "":'))
    bad('missing unchecked', P, (RU, CHK, ''))
    bad('missing late', P, (RU, CHK, ''), (RU, '        if config:\n            path', CHK + '\n        if config:\n            path'))
    bad('out as code', P, (RU, 'loader=Loader(self._code_file)', 'loader=Loader(self._out_file)'))
    same('abs path', P, (LO, SPLIT, '        self.code_dir, self.code_file = os.path.split(os.path.abspath(path))\n'))
    same('dirname', P, (LO, SPLIT, '        self.code_dir = os.path.dirname(path) or "."\n        self.code_file = os.path.basename(path)\n'))
    same('path kept', P, (LO, SPLIT, SPLIT + '        self.path = path\n'), (LO, 'os.path.join(self.code_dir, self.code_file)', 'self.path'))
    same('helper', P, (LO, SPEC, '        return self._exec(module_name)\n\n    def _exec(self, module_name):\n' + SPEC))
    same('splitext', P, (LO, 'self.code_file.split(".")[0]', 'os.path.splitext(self.code_file)[0]'))
    same('kwargs', P, (LO, 'spec_from_file_location(module_name, os.path.join', 'spec_from_file_location(name=module_name, location=os.path.join'))
    same('source loader', P, (LO, SPEC, '''        from importlib.machinery import SourceFileLoader
        loader = SourceFileLoader(module_name, os.path.join(self.code_dir, self.code_file))
        spec = importlib.util.spec_from_loader(module_name, loader)
        module = importlib.util.module_from_spec(spec)
        sys.modules.setdefault(module_name, module)
        loader.exec_module(module)
        return module
'''))
    same('registered', P, (LO, 'sys.modules.setdefault(module_name, module)', 'if module_name not in sys.modules:\n            sys.modules[module_name] = module'))
    same('run_path', P, (LO, SPEC, '''        import runpy
        import types
        module = types.ModuleType(module_name)
        module.__dict__.update(runpy.run_path(os.path.join(self.code_dir, self.code_file)))
        return module
'''))
    same('exec', P, (LO, SPEC, '''        import types
        path = os.path.join(self.code_dir, self.code_file)
        module = types.ModuleType(module_name)
        module.__file__ = path
        with open(path, "rb") as f:
            exec(compile(f.read(), path, "exec"), module.__dict__)
        return module
'''))
    same('isfile', P, (RU, 'os.path.exists(code_file)', 'os.path.isfile(code_file)'))
    same('falsy dir', P, (LO, 'if self.code_dir == "":', 'if not self.code_dir:'))
    same('dir conditional', P, (LO, SPLIT, '        head, tail = os.path.split(path)\n        self.code_dir, self.code_file = head if head else os.curdir, tail\n'))
    same('path slice', P, (LO, INS, '        sys.path[:0] = [self.code_dir]\n'))
    same('loaded in runner', P, (RU, 'loader=Loader(self._code_file)', 'loader=self._make_loader()'), (RU, '    def run(self):\n', '    def _make_loader(self):\n        return Loader(self._code_file)\n\n    def run(self):\n'))


def c09(bad, same):
    P = 'C09'
    CALL = '''            self._user_module.process_initialize(self._user_ctx)
'''
    IF = '''        if hasattr(self._user_module, "process_initialize"):
'''
    ELSE = '''        else:
            raise TaskError("策略代码中未定义process_initialize函数")
'''
    BODY = '''            # 只允许在process_initialize中调用run_daily设置每日定时任务
            self._is_scheduler_allowed = True
            logger.info("执行用户process_initialize函数")
            self._user_module.process_initialize(self._user_ctx)
            self._is_scheduler_allowed = False
'''
    ACC = '''            for _name in account_api.__all__:
                setattr(self._user_module, _name, getattr(account_api, _name))
'''
    API = 'account/api.py'
    bad('apis late', P, (ST, '        self.make_apis()\n', ''), (ST, '        self.schedule()\n\n    def make', '        self.make_apis()\n        self.schedule()\n\n    def make'))
    bad('no print', P, (ST, '        self._user_module.print = strategy_print\n', ''))
    bad('sys ctx', P, (ST, 'self._user_module.context = self._user_ctx', 'self._user_module.context = self._ctx'))
    bad('swapped', P, (ST, 'self._user_module.set_options = self.set_options', 'self._user_module.set_options = self.run_daily'))
    bad('sys log', P, (ST, 'self._user_module.log = user_logger', 'self._user_module.log = logger'))
    bad('keep own', P, (ST, '                setattr(self._user_module, _name', '                if not hasattr(self._user_module, _name):\n                    setattr(self._user_module, _name'))
    bad('not all', P, (API, '    "get_orders",\n', ''))
    bad('wrong object', P, (API, '    "get_orders",\n', '    "get_orders",\n'), (ST, 'getattr(account_api, _name))', 'getattr(account_api, "order"))'))
    bad('call sys ctx', P, (ST, CALL, CALL.replace('_user_ctx', '_ctx')))
    bad('call twice', P, (ST, CALL, CALL + CALL))
    bad('swallow', P, (ST, BODY + ELSE, '            self._is_scheduler_allowed = True\n            try:\n                self._user_module.process_initialize(self._user_ctx)\n            except Exception:\n                logger.exception("x")\n            self._is_scheduler_allowed = False\n' + ELSE))
    bad('replace', P, (ST, BODY + ELSE, '            self._is_scheduler_allowed = True\n            try:\n                self._user_module.process_initialize(self._user_ctx)\n            except Exception as e:\n                raise TaskError(str(e))\n            self._is_scheduler_allowed = False\n' + ELSE))
    bad('missing ok', P, (ST, ELSE, ''))
    bad('missing return', P, (ST, ELSE, '        else:\n            logger.warn("x")\n            return\n'))
    bad('missing other error', P, (ST, 'raise TaskError("策略代码中未定义', 'raise InvalidCall("策略代码中未定义'))
    bad('schedule first', P, (ST, '        self.make_apis()\n', '        self.make_apis()\n        self.schedule()\n'), (ST, '        self.schedule()\n\n    def make', '\n    def make'))
    bad('not scheduled', P, (ST, '        self.schedule()\n\n    def make', '        if self._options:\n            self.schedule()\n\n    def make'))
    bad('second ctx', P, (ST, 'self._user_ctx = UserContext(self._ctx)', 'self._user_ctx = UserContext(ctx.loader)'))
    same('early return style', P, (ST, IF + BODY + ELSE, '''        if not hasattr(self._user_module, "process_initialize"):
            raise TaskError("策略代码中未定义process_initialize函数")
        self._is_scheduler_allowed = True
        logger.info("执行用户process_initialize函数")
        self._user_module.process_initialize(self._user_ctx)
        self._is_scheduler_allowed = False
'''))
    same('getattr none', P, (ST, IF + BODY + ELSE, '''        init = getattr(self._user_module, "process_initialize", None)
        if init is None:
            raise TaskError("策略代码中未定义process_initialize函数")
        self._is_scheduler_allowed = True
        init(self._user_ctx)
        self._is_scheduler_allowed = False
'''))
    same('finally', P, (ST, BODY, '''            self._is_scheduler_allowed = True
            try:
                self._user_module.process_initialize(self._user_ctx)
            finally:
                self._is_scheduler_allowed = False
'''))
    same('logged error', P, (ST, BODY, '''            self._is_scheduler_allowed = True
            try:
                self._user_module.process_initialize(self._user_ctx)
            except Exception as e:
                logger.error(e)
                raise
            self._is_scheduler_allowed = False
'''))
    same('helper', P, (ST, CALL, '            self._init_user()\n'), (ST, '    def make_apis(self):\n', '    def _init_user(self):\n        self._user_module.process_initialize(self._user_ctx)\n\n    def make_apis(self):\n'))
    same('local module', P, (ST, '''        self._user_module.run_daily = self.run_daily
        self._user_module.log = user_logger
        self._user_module.context = self._user_ctx
        self._user_module.set_options = self.set_options
        self._user_module.print = strategy_print
''', '''        module = self._user_module
        apis = {"run_daily": self.run_daily, "log": user_logger, "context": self._user_ctx,
                "set_options": self.set_options, "print": strategy_print}
        for name, obj in apis.items():
            setattr(module, name, obj)
'''))
    same('dict update', P, (ST, ACC, '            self._user_module.__dict__.update({n: getattr(account_api, n) for n in account_api.__all__})\n'))
    same('vars update', P, (ST, ACC, '            vars(self._user_module).update((n, getattr(account_api, n)) for n in account_api.__all__)\n'))
    same('account apis in helper', P, (ST, ACC, '            self._account_apis(account_api)\n'), (ST, '    def make_apis(self):\n', '    def _account_apis(self, account_api):\n        for name in account_api.__all__:\n            setattr(self._user_module, name, getattr(account_api, name))\n\n    def make_apis(self):\n'))
    same('explicit names', P, (ST, ACC, ''.join('            self._user_module.%s = account_api.%s\n' % (n, n) for n in ('LimitOrderStyle', 'MarketOrderStyle', 'order', 'cancel_order', 'batch_submit_orders', 'batch_cancel_orders', 'get_orders', 'sync_balance', 'sync_orders'))))
    same('guarded', P, (ST, '        if config.SETUP_ACCOUNT:\n            from', '        if not config.SETUP_ACCOUNT:\n            return\n        else:\n            from'))
    same('all tuple', P, (API, '__all__ = [', '__all__ = ('), (API, '"sync_balance", "sync_orders",\n]', '"sync_balance", "sync_orders",\n)'))
    same('lambda', P, (ST, 'self._user_module.run_daily = self.run_daily', 'self._user_module.run_daily = lambda func, time: self.run_daily(func, time)'))
