"""Mutants of the defaults and of the command line (C10, C11) and of the views of the strategy (S12, A06)."""
MA = '__main__.py'
SC, AC, GA, AP, CX = 'scheduler/config.py', 'account/config.py', 'account/trade_gate.py', 'scheduler/api.py', 'scheduler/context.py'


def add(bad, same):
    bad('days', 'C10', (SC, 'EVENT_DAYS_COUNT = 365', 'EVENT_DAYS_COUNT = 36'))
    bad('history', 'C10', (SC, 'ENABLE_HISTORY_START = False', 'ENABLE_HISTORY_START = True'))
    bad('morning', 'C10', (SC, 'datetime.time(11, 30)', 'datetime.time(11, 29)'))
    bad('afternoon', 'C10', (SC, 'datetime.time(13, 0)', 'datetime.time(13, 0, 1)'))
    bad('morning only', 'C10', (SC, '            (datetime.time(13, 0), datetime.time(15, 0)),\n', ''))
    bad('no account', 'C10', (SC, 'SETUP_ACCOUNT = True', 'SETUP_ACCOUNT = False'))
    bad('tilde kept', 'C10', (SC, 'os.path.abspath(os.path.expanduser("~/jqtrade"))', 'os.path.abspath("~/jqtrade")'))
    bad('other dir', 'C10', (SC, '"~/jqtrade"', '"~/.jqtrade"'))
    bad('no order sync', 'C10', (AC, 'SYNC_ORDER = True', 'SYNC_ORDER = False'))
    bad('no balance sync', 'C10', (AC, 'SYNC_BALANCE = True', 'SYNC_BALANCE = None'))
    bad('interval', 'C10', (AC, 'SYNC_INTERNAL = 5', 'SYNC_INTERNAL = 50'))
    bad('period', 'C10', (AC, '            # (datetime.time(9, 30), datetime.time(11, 30)),\n', '            (9, 10),\n'))
    bad('gate', 'C10', (AC, 'trade_gate.AnXinDMATradeGate"', 'trade_gate.AbsTradeGate"'))
    bad('counter', 'C10', (GA, 'DEFAULT_COUNTER_TYPE = "UM0"', 'DEFAULT_COUNTER_TYPE = "UMC"'))
    bad('algo', 'C10', (GA, 'DEFAULT_ALGO_TYPE = "DMA"', 'DEFAULT_ALGO_TYPE = "TWAP"'))
    bad('lock wait', 'C10', (GA, 'WAIT_LOCK_INTERNAL = 0.05', 'WAIT_LOCK_INTERNAL = 0.5'))
    bad('lock swapped', 'C10', (GA, 'options.get("wait_lock_internal", self.WAIT_LOCK_INTERNAL)', 'options.get("wait_lock_internal", self.WAIT_LOCK_TIME_OUT)'))
    bad('lock truth', 'C10', (GA, 'self._wait_lock_time_out = options.get("wait_lock_time_out", self.WAIT_LOCK_TIME_OUT)', 'self._wait_lock_time_out = options.get("wait_lock_time_out") or self.WAIT_LOCK_TIME_OUT'))
    bad('ignore truth', 'C10', (GA, 'self._options.get("ignore_error_line", self.DEFAULT_IGNORE_ERROR_LINE)', 'self._options.get("ignore_error_line") or self.DEFAULT_IGNORE_ERROR_LINE'))
    bad('ignore default', 'C10', (GA, 'DEFAULT_IGNORE_ERROR_LINE = True', 'DEFAULT_IGNORE_ERROR_LINE = False'))
    bad('encoding', 'C10', (GA, 'self._options.get("file_encoding", sys.getfilesystemencoding())', 'self._options.get("file_encoding", "utf-8")'))
    bad('encoding key', 'C10', (GA, 'self._options.get("file_encoding"', 'self._options.get("encoding"'))
    bad('algo not given', 'C10', (GA, 'self._algo_type = self._options.get("algo_type", self.DEFAULT_ALGO_TYPE)', 'self._algo_type = self.DEFAULT_ALGO_TYPE'))
    bad('order dir', 'C10', (GA, 'csvTemplate\\DMA算法"\n    DEFAULT_SYNC', 'csvTemplate\\DMA"\n    DEFAULT_SYNC'))
    bad('late change', 'C10', (GA, '        self._load_orders()\n\n', '        scheduler_config.RUNTIME_DIR = runtime_dir\n        self._load_orders()\n\n'))
    same('times', 'C10', (SC, 'datetime.time(9, 30)', 'datetime.time(9, 30, 0)'))
    same('order of defaults', 'C10', (AC, 'self.SYNC_BALANCE = True', 'self.SYNC_INTERNAL = 5\n        self.SYNC_BALANCE = bool(1)'))
    same('class default', 'C10', (SC, '    _instance = None\n', '    _instance = None\n    DEFAULT_DAYS = 365\n'), (SC, 'EVENT_DAYS_COUNT = 365', 'EVENT_DAYS_COUNT = self.DEFAULT_DAYS'))
    same('expand only', 'C10', (SC, 'os.path.abspath(os.path.expanduser("~/jqtrade"))', 'os.path.expanduser("~/jqtrade")'))
    same('joined dir', 'C10', (SC, 'os.path.abspath(os.path.expanduser("~/jqtrade"))', 'os.path.join(os.path.expanduser("~"), "jqtrade")'))
    same('if else', 'C10', (GA, 'self._algo_type = self._options.get("algo_type", self.DEFAULT_ALGO_TYPE)', 'self._algo_type = self._options["algo_type"] if "algo_type" in options else "DMA"'))
    same('option loop', 'C10', (GA, 'self._wait_lock_internal = options.get("wait_lock_internal", self.WAIT_LOCK_INTERNAL)\n        self._wait_lock_time_out = options.get("wait_lock_time_out", self.WAIT_LOCK_TIME_OUT)',
                                'for name, default in (("internal", self.WAIT_LOCK_INTERNAL), ("time_out", self.WAIT_LOCK_TIME_OUT)):\n            setattr(self, "_wait_lock_" + name, options.get("wait_lock_" + name, default))'))

    F = '        options.func(options)\n'
    bad('not run', 'C11', (MA, F, '        pass\n'))
    bad('run twice', 'C11', (MA, F, F + F))
    bad('only with name', 'C11', (MA, '    else:\n' + F, '    elif getattr(options, "name", None) or options.func is get_tasks:\n' + F))
    bad('version too', 'C11', (MA, '    else:\n' + F, '    options.func(options)\n'))
    bad('no version', 'C11', (MA, '        print(jqtrade.__version__)\n', '        print(jqtrade.__name__)\n'))
    bad('wrong function', 'C11', (MA, 'get_tasks_parser.set_defaults(func=get_tasks)', 'get_tasks_parser.set_defaults(func=stop_task)'))
    bad('no function', 'C11', (MA, '    get_tasks_parser.set_defaults(func=get_tasks)\n', ''))
    bad('one default', 'C11', (MA, 'get_tasks_parser.set_defaults(func=get_tasks)', 'stop_task_parser = get_tasks_parser.set_defaults(func=get_tasks)'), (MA, '    stop_task_parser.set_defaults(func=stop_task)\n', '    start_task_parser.set_defaults(func=stop_task)\n'))
    bad('name not needed', 'C11', (MA, '"--name", required=True, ', '"--name", '))
    bad('code not needed', 'C11', (MA, '"--code", required=True, ', '"--code", default="strategy.py", '))
    bad('out needed', 'C11', (MA, '"--out", required=False, default=None', '"--out", required=True'))
    bad('env list', 'C11', (MA, '"--env", required=False', '"--env", nargs="*", required=False'))
    bad('pid text', 'C11', (MA, '"--pid", type=int, ', '"--pid", '))
    bad('name number', 'C11', (MA, '"--name", default=None', '"--name", type=int, default=None'))
    bad('force value', 'C11', (MA, '"--force", action="store_true", ', '"--force", '))
    bad('force default', 'C11', (MA, '"--force", action="store_true", ', '"--force", action="store_true", default=True, '))
    bad('all stored false', 'C11', (MA, '"--all", action="store_true"', '"--all", action="store_false"'))
    bad('no short', 'C11', (MA, '"-o", "--out"', '"--out"'))
    bad('short swapped', 'C11', (MA, '"-e", "--env"', '"--env"'), (MA, '"--config", required', '"-e", "--config", required'))
    bad('config default', 'C11', (MA, '"--config", required=False, default=None', '"--config", required=False, default="~/jqtrade/config.py"'))
    bad('extra need', 'C11', (MA, '    start_task_parser.set_defaults', '    start_task_parser.add_argument("--account", required=True)\n    start_task_parser.set_defaults'))
    bad('positional', 'C11', (MA, '    get_tasks_parser.set_defaults', '    get_tasks_parser.add_argument("filter")\n    get_tasks_parser.set_defaults'))
    bad('command needed', 'C11', (MA, 'parser.add_subparsers()', 'parser.add_subparsers(required=True)'))
    bad('renamed', 'C11', (MA, 'sub_parsers.add_parser("get_tasks"', 'sub_parsers.add_parser("list_tasks"'))
    bad('module', 'C11', (MA, "    main()\n", "    pass\n"))
    bad('guard', 'C11', (MA, "__name__ == '__main__'", "__name__ == 'jqtrade.__main__'"))
    bad('debug off', 'C11', (MA, '"--debug", action="store_true"', '"--debug", action="store_const", const=False'))
    same('helper', 'C11', (MA, '    start_task_parser.add_argument("-c", "--code", required=True, help="策略代码路径")\n', '    def need(*flags, **kw):\n        start_task_parser.add_argument(*flags, required=True, **kw)\n    need("-c", "--code", help="策略代码路径")\n'))
    same('loop', 'C11', (MA, '    get_tasks_parser.set_defaults(func=get_tasks)\n', ''), (MA, '    stop_task_parser.set_defaults(func=stop_task)\n', '    for p, f in ((get_tasks_parser, get_tasks), (stop_task_parser, stop_task)):\n        p.set_defaults(func=f)\n'))
    same('table', 'C11', (MA, '    start_task_parser.add_argument("-c", "--code", required=True, help="策略代码路径")\n    start_task_parser.add_argument("-o", "--out", required=False, default=None, help="日志路径，不指定时打印到标准输出/错误")\n',
                          '    for flags, kw in ((("-c", "--code"), dict(required=True)), (("-o", "--out"), dict(default=None))):\n        start_task_parser.add_argument(*flags, **kw)\n'))
    same('help of none', 'C11', (MA, '    else:\n' + F, '    elif not hasattr(options, "func"):\n        parser.print_help()\n    else:\n' + F))
    same('early return', 'C11', (MA, '        print(jqtrade.__version__)\n    else:\n' + F, '        print(jqtrade.__version__)\n        return\n    options.func(options)\n'))
    same('func local', 'C11', (MA, F, '        command = options.func\n        command(options)\n'))
    same('exit code', 'C11', (MA, "    main()\n", "    import sys\n    sys.exit(main())\n"))
    same('version action', 'C11', (MA, '    if options.version:\n        import jqtrade\n', '    import jqtrade\n    if options.version:\n'))
    same('split', 'C11', (MA, '    options = parser.parse_args()\n', '    run_command(parser.parse_args())\n\n\ndef run_command(options):\n'))

    bad('user dt', 'S12', (AP, 'return self.__ctx.strategy_dt', 'return self.__ctx.current_dt'))
    bad('user now', 'S12', (AP, 'return self.__ctx.current_dt', 'return self.__ctx.strategy_dt'))
    bad('user none', 'S12', (AP, 'return self.__ctx.strategy_dt', 'return None'))
    bad('dt none', 'S12', (CX, 'return self._event_loop.strategy_dt', 'return None'))
    bad('portfolio none', 'A06', (AP, 'return self.__ctx.portfolio', 'return None'))
    same('user clock', 'S12', (AP, 'return self.__ctx.current_dt', 'import datetime\n        return datetime.datetime.now()'))
    same('user getattr', 'S12 A06', (AP, 'return self.__ctx.current_dt', 'return getattr(self.__ctx, "current_dt")'), (AP, 'return self.__ctx.portfolio', 'ctx = self.__ctx\n        return ctx.portfolio'))
    same('user name', 'S12 A06', (AP, 'self.__ctx = ctx', 'self.__context = ctx'), (AP, 'return self.__ctx.strategy_dt', 'return self.__context.strategy_dt'), (AP, 'return self.__ctx.current_dt', 'return self.__context.current_dt'), (AP, 'return self.__ctx.portfolio', 'return self.__context.portfolio'))
    bad('text stripped', 'C11', (MA, '"--name", required=True, ', '"--name", type=str.strip, required=True, '))
    bad('text cut', 'C11', (MA, '"--env", required=False', '"--env", type=lambda s: s.split(";")[0], required=False'))
    bad('from file', 'C11', (MA, 'argparse.ArgumentParser()', 'argparse.ArgumentParser(fromfile_prefix_chars="@")'))
    bad('debug from env', 'C11', (MA, '"--debug", action="store_true"', '"--debug", action="store_true", default=bool(__import__("os").environ.get("DEBUG"))'))
    same('type str', 'C11', (MA, '"--name", required=True, ', '"--name", type=str, required=True, '))
    same('type same', 'C11', (MA, '"--name", required=True, ', '"--name", type=lambda s: str(s), required=True, '))
    same('prog', 'C11', (MA, 'argparse.ArgumentParser()', 'argparse.ArgumentParser(prog="jqtrade", description="x", formatter_class=argparse.RawTextHelpFormatter)'))
    bad('derived default', 'C10', (GA, '"wait_lock_time_out", self.WAIT_LOCK_TIME_OUT', '"wait_lock_time_out", self._wait_lock_internal * 100'))
    bad('debug set', 'C11', (MA, '    if options.version:\n', '    if options.version is False:\n        options.debug = True\n    if options.version:\n'))
    same('set same', 'C11', (MA, '    if options.version:\n', '    if getattr(options, "out", None):\n        options.out = options.out\n    if options.version:\n'))
    same('logged', 'C11', (MA, '    if options.version:\n', '    print("options: %s" % vars(options))\n    if options.version:\n'))

    ES = 'scheduler/event_source.py'
    bad('his mark kept', 'S06', (ES, '        self._has_gen_his_days = False\n        self._next_day = None\n        self._days', '        self._next_day = None\n        self._days'))
    bad('next day kept', 'S06', (ES, '        self._next_day = None\n        self._days', '        self._days'))
    bad('old events kept', 'S06', (ES, '        self._events = []\n        self._has_gen_his_days = False\n        self._next', '        self._has_gen_his_days = False\n        self._next'))
    bad('seconds of span', 'S06', (ES, '(end - start).days + 1', '(end - start).seconds + 1'))
    bad('end unbounded', 'S06', (ES, 'if config.ENABLE_HISTORY_START or self._end:', 'if config.ENABLE_HISTORY_START:'))
    bad('history today', 'S06', (ES, 'if config.ENABLE_HISTORY_START or self._end:', 'if self._end:'))
    bad('fewer days', 'S06', (ES, 'range(count)', 'range(min(count, 250))'))
    bad('change unnoticed', 'S06', (ES, '        self._need_regenerate_events = True\n\n        #', '        #'))
    bad('stale reschedule', 'S06', (ES, '                # 本次调度已失效，由新的调度负责响应变化\n                return\n', '                pass\n'))
    bad('id of source', 'S06', (ES, 'self.__class__._unique_id += 1\n        schedule_id = self.__class__._unique_id', 'schedule_id = id(event_source)'))
    same('clear events', 'S06', (ES, '        self._events = []\n        self._has_gen_his_days = False\n        self._next', '        del self._events[:]\n        self._has_gen_his_days = False\n        self._next'))
    same('mode local', 'S06', (ES, 'if config.ENABLE_HISTORY_START or self._end:', 'history = config.ENABLE_HISTORY_START\n        if history or self._end is not None:'))
    same('count early', 'S06', (ES, '            count = (end - start).days + 1 if end else count\n', '            if end:\n                count = (end - start).days + 1\n'))
    same('reschedule if', 'S06', (ES, '''            if schedule_id not in self._event_sources:
                # 本次调度已失效，由新的调度负责响应变化
                return
            self.unschedule(schedule_id)
            self.schedule(es)
''', '''            if schedule_id in self._event_sources:
                self.unschedule(schedule_id)
                self.schedule(es)
'''))
    same('reschedule pop', 'S06', (ES, '''            if schedule_id not in self._event_sources:
                # 本次调度已失效，由新的调度负责响应变化
                return
            self.unschedule(schedule_id)
            self.schedule(es)
''', '''            old = self._event_sources.pop(schedule_id, None)
            if old is not None:
                self.schedule(es)
'''))
    same('events.clear', 'S06 S05', (ES, '        self._events = []\n        self._has_gen_his_days = False\n        self._next', '        self._events.clear()\n        self._has_gen_his_days = False\n        self._next'))
    RU, UT, CU = 'scheduler/runner.py', 'scheduler/utils.py', 'common/utils.py'
    RUN = '        strategy.setup()\n\n        event_loop.run()'
    bad('loop first', 'C12', (RU, RUN, '        event_loop.run()\n        strategy.setup()'))
    bad('setup swallowed', 'C12', (RU, RUN, '        try:\n            strategy.setup()\n        except Exception:\n            logger.exception("x")\n        event_loop.run()'))
    bad('other loop', 'C12', (RU, '        event_loop.run()', '        EventLoop().run()'))
    bad('loop of the context', 'C12', (RU, 'loop=event_loop,', 'loop=EventLoop(),'))
    bad('name of the code', 'C12', (RU, 'task_name=self._task_name,', 'task_name=os.path.basename(self._code_file),'))
    bad('loop only with env', 'C12', (RU, '        event_loop.run()', '        if self._env:\n            event_loop.run()'))
    bad('setup twice', 'C12', (RU, RUN, '        strategy.setup()\n        strategy.setup()\n        event_loop.run()'))
    bad('loop restarted', 'C12', (RU, '        event_loop.run()', '        while True:\n            try:\n                event_loop.run()\n                break\n            except Exception:\n                logger.exception("x")'))
    bad('not run', 'C12', ('__main__.py', '    runner.run()', '    if options.name:\n        runner.run()'))
    same('context loop', 'C12', (RU, '        event_loop.run()', '        context.loop.run()'))
    same('finally', 'C12', (RU, RUN, '        try:\n            strategy.setup()\n            event_loop.run()\n        finally:\n            logger.info("end")'))
    same('reraised', 'C12', (RU, RUN, '        try:\n            strategy.setup()\n        except Exception:\n            logger.exception("setup")\n            raise\n        event_loop.run()'))
    same('one line', 'C12', (RU, '        strategy = Strategy(context)\n        strategy.setup()', '        Strategy(context).setup()'))
    same('returned', 'C12', ('__main__.py', '    runner.run()', '    return runner.run()'))
    bad('seconds', 'C05', (CU, '"%H:%M:%S").time()', '"%H:%M:%S").time().replace(second=0)'))
    bad('minutes', 'C05', (CU, 'return datetime.datetime.strptime(t, "%H:%M:%S").time()', 'd = datetime.datetime.strptime(t, "%H:%M:%S")\n        return datetime.time(d.hour, d.minute)'))
    same('rebuilt', 'C05', (CU, 'return datetime.datetime.strptime(t, "%H:%M:%S").time()', 'd = datetime.datetime.strptime(t, "%H:%M:%S")\n        return datetime.time(d.hour, d.minute, d.second)'))
    bad('four words', 'C01 C02 C03', (UT, '" ".join(_p.cmdline())', '" ".join(_p.cmdline()[:4])'))
    bad('all launchers', 'C01 C02 C03', (UT, 'parent_pid.append(_p.ppid())', 'parent_pid.append(_p.pid)'))
    bad('but the last', 'C01', (RU, 'active_tasks = get_activate_task_process()\n', 'active_tasks = get_activate_task_process()[:-1]\n'))
    bad('short passed over', 'A19', (GA, '                    if len(_items) < len(self.ORDER_LINE_COLS):\n                        raise ParserError(f"无效订单状态信息：{_line}")', '                    if len(_items) != len(self.ORDER_LINE_COLS):\n                        continue'))
    bad('number', 'A16', (GA, '        acct_no = str(acct_no)\n', ''))
    bad('enum kept', 'A18', (GA, 'self._parse_status(order_line.status).value', 'self._parse_status(order_line.status)'))
    same('enum later', 'A18', (GA, 'order["status"] = self._parse_status(order_line.status).value', 'status = self._parse_status(order_line.status)\n        order["status"] = status.value'))
