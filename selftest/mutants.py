# -*- coding: utf-8 -*-
MUTANTS = []


def bad(name, props, *edits):
    MUTANTS.append((name, props.split(), 'bad', list(edits)))


def same(name, props, *edits):
    MUTANTS.append((name, props.split(), 'same', list(edits)))


ES, LO, ST, BUS, Q, MSG, UT = 'scheduler/event_source.py', 'scheduler/loop.py', 'scheduler/strategy.py', 'scheduler/bus.py', 'scheduler/queue.py', \
    'scheduler/message.py', 'common/utils.py'

# S01
bad('priority sign', 'S01', (MSG, '-self.priority', 'self.priority'))
bad('key order', 'S01', (MSG, 'self.time, -self.priority', '-self.priority, self.time'))
bad('no seq', 'S01', (MSG, 'self.time, -self.priority, self.seq_number', 'self.time, -self.priority, id(self)'))
bad('seq per time', 'S01', (MSG, 'self.time, -self.priority, self.seq_number', 'self.time, -self.priority, -self.seq_number'))
bad('requeue new key', 'S01', (LO, 'self.push_message(message, notify=False)', 'self._queue.push(message, (message.time, -message.priority, Message._unique_num + 1))'))
bad('seconds key', 'S01', (MSG, 'return self.time, -', 'return self.time // 1000, -'))
same('key tuple var', 'S01', (MSG, 'return self.time, -self.priority, self.seq_number', 'key = (self.time, -self.priority)\n        return key + (self.seq_number,)'))
same('key local', 'S01', (MSG, 'return self.time, -self.priority, self.seq_number', 'rank = 0 - self.priority\n        return (self.time, rank, self.seq_number)'))
# S02
bad('early by ms', 'S02', (LO, 'if message.time > now:', 'if message.time - 1000 > now:'))
bad('drop popped', 'S02', (LO, "                self.push_message(message, notify=False)\n", ""))
bad('drop if far', 'S02', (LO, "                self.push_message(message, notify=False)\n", "                if wait_time < 86400:\n                    self.push_message(message, notify=False)\n"))
bad('int wait', 'S02', (LO, '(message.time - now) / 1000.0', '(message.time - now) / 1000000.0'))
bad('round up clock', 'S02', (LO, 'int(time.time() * 1000)', 'int(time.time() * 1000) + 500'))
bad('round seconds', 'S02', (LO, 'int(time.time() * 1000)', 'int(round(time.time())) * 1000'))
bad('handled and requeued', 'S02', (LO, "                self.handle_message(message)\n", "                self.handle_message(message)\n                if message.priority > 1:\n                    self.push_message(message)\n"))
same('le', 'S02', (LO, 'if message.time > now:', 'if not message.time <= now:'))
same('inverted', 'S02', (LO, "            if message.time > now:\n", "            due = now >= message.time\n            if not due:\n"))
same('push first', 'S02', (LO, "                wait_time = (message.time - now) / 1000.0\n", "                self.push_message(message, notify=False)\n                wait_time = (message.time - now) / 1000.0\n"), (LO, "                    repeat=0)\n\n                self.push_message(message, notify=False)\n", "                    repeat=0)\n"))
# S03
bad('swallow', 'S03', (LO, "            self._exception = e\n            self.stop()\n", "            self._exception = e\n"))
bad('no reraise', 'S03', (LO, "        if self._exception:\n            raise self._exception\n", ""))
bad('lost exc', 'S03', (LO, "            self._exception = e\n", "            self._exception = self._exception\n"))
bad('bus swallow', 'S03', (BUS, "                    ret.append(_callback(event))", "                    try:\n                        ret.append(_callback(event))\n                    except ValueError:\n                        logger.error('x')"))
bad('callback swallow', 'S03', (ST, "            return callback(self._user_ctx)", "            try:\n                return callback(self._user_ctx)\n            except KeyError:\n                return None"))
bad('wrapped', 'S03', (LO, "            raise self._exception", "            raise RuntimeError(str(self._exception))"))
same('raise in var', 'S03', (LO, "        if self._exception:\n            raise self._exception\n", "        error = self._exception\n        if error is not None:\n            raise error\n"))
same('log first', 'S03', (LO, "            e.tb = traceback.format_exc()\n            self._exception = e\n            self.stop()\n", "            self._exception = e\n            self.stop()\n            e.tb = traceback.format_exc()\n"))
# S04
bad('sigint missing', 'S04', (LO, "        self.register_signal_callback(signal.SIGINT, self.handle_signal)\n", ""))
bad('sig raises', 'S04', (LO, "        logger.info(f\"handle signal: {sig}\")\n        self.stop()", "        if sig == signal.SIGINT:\n            raise KeyboardInterrupt()\n        self.stop()"))
bad('setup after', 'S04', (LO, "        self.setup()\n        self._uvloop.run()", "        self._uvloop.run()\n        self.setup()"))
bad('no notify', 'S04', (LO, "            self._stop_requested = True\n            self._notify_loop()", "            self._stop_requested = True"))
bad('notify first', 'S04', (LO, "            self._stop_requested = True\n            self._notify_loop()", "            self._notify_loop()\n            self._stop_requested = True"))
same('loop signals', 'S04', (LO, "        self.register_signal_callback(signal.SIGTERM, self.handle_signal)\n\n        # ctrl c\n        self.register_signal_callback(signal.SIGINT, self.handle_signal)\n", "        for signum in (signal.SIGTERM, signal.SIGINT):\n            self.register_signal_callback(signum, self.handle_signal)\n"))
# S05
bad('start excl', 'S05', (ES, 'if dt < self._start:', 'if dt <= self._start:'))
bad('end excl', 'S05', (ES, 'if self._end and dt > self._end:', 'if self._end and dt >= self._end:'))
bad('end date only', 'S05', (ES, 'if self._end and dt > self._end:', 'if self._end and dt.date() > self._end.date():'))
bad('live past', 'S05', (ES, 'if self._start is None or not config.ENABLE_HISTORY_START:', 'if self._start is None:'))
bad('no end passed', 'S05', (ST, 'EventSource(start=self._ctx.start, end=self._ctx.end)', 'EventSource(start=self._ctx.start)'))
same('merged window', 'S05', (ES, "        if dt < self._start:\n            return\n\n        if self._end and dt > self._end:\n            return\n\n        self._events.append((dt, event_cls()))\n", "        if dt >= self._start and (not self._end or dt <= self._end):\n            self._events.append((dt, event_cls()))\n"))
# S06
bad('pop last', 'S06', (ES, 'self._events.pop(0)', 'self._events.pop()'))
bad('reverse', 'S06', (ES, "self._events.sort(key=lambda e: e[0])", "self._events.sort(key=lambda e: e[0], reverse=True)"))
bad('sort priority', 'S06', (ES, "self._events.sort(key=lambda e: e[0])", "self._events.sort(key=lambda e: e[1].priority)"))
bad('no sort', 'S06', (ES, "        self._events.sort(key=lambda e: e[0])\n", ""))
bad('one day', 'S06', (ES, "        while len(self._events) == 0:\n            if len(self._days) == 0:\n                self._days = self._get_days()\n\n            if not self._days:\n                break\n\n            day = self._days.pop(0)\n            self._next_day = day + datetime.timedelta(days=1)\n            self.add_daily_events(day)\n",
     "        if len(self._days) == 0:\n            self._days = self._get_days()\n        if self._days:\n            day = self._days.pop(0)\n            self._next_day = day + datetime.timedelta(days=1)\n            self.add_daily_events(day)\n"))
bad('next day same', 'S06', (ES, 'day + datetime.timedelta(days=1)', 'day'))
bad('days of end', 'S06', (ES, '(end - start).days + 1 if end', '(end - start).days if end'))
bad('step 7', 'S06', (ES, 'datetime.timedelta(days=_delta)', 'datetime.timedelta(days=_delta * 7)'))
bad('not max', 'S06', (ES, 'start = max(start, self._next_day)', 'start = min(start, self._next_day)'))
bad('stale emits', 'S06', (ES, "            if schedule_id not in self._event_sources:\n                logger.debug(f\"schedule_id({schedule_id}) not found\")\n                return\n", ""))
bad('no rearm after event', 'S06', (ES, "            ctx.event_bus.emit(evt)\n            push_next_msg()", "            ctx.event_bus.emit(evt)\n            if dt.second == 0:\n                push_next_msg()"))
bad('prio lost', 'S06', (ES, "                priority=evt.priority))", "                ))"))
bad('peek pops', 'S06', (ES, "evt_dt = self._events[0]\n", "evt_dt = self._events.pop(0)\n"))
bad('arm before take', 'S06', (ES, "            dt_evt = event_source.get_next_event()\n            if", "            push_next_msg()\n            dt_evt = event_source.get_next_event()\n            if"), (ES, "            ctx.event_bus.emit(evt)\n            push_next_msg()", "            ctx.event_bus.emit(evt)"))
bad('id reuse', 'S06', (ES, "        self.__class__._unique_id += 1\n        schedule_id = self.__class__._unique_id", "        schedule_id = len(self._event_sources)"))
bad('skip dup', 'S06', (ES, "        for _time_expr, _event_cls in self._daily:\n            self.add_event(", "        for _time_expr, _event_cls in self._daily[:200]:\n            self.add_event("))
bad('first only', 'S06', (ES, "            self.add_event(day, _time_expr, _event_cls)", "            if _event_cls.priority < 1 or not self._events:\n                self.add_event(day, _time_expr, _event_cls)"))
bad('ms floor', 'S06', (UT, 'int(round(dt.timestamp() * 1000))', 'int(dt.timestamp()) * 1000'))
bad('break early', 'S06', (ES, "            self.add_daily_events(day)\n\n", "            self.add_daily_events(day)\n            if day.weekday() == 4:\n                break\n\n"))
same('comprehension days', 'S06', (ES, "        for _delta in range(count):\n            days.append(start + datetime.timedelta(days=_delta))\n", "        days = [start + datetime.timedelta(days=_delta) for _delta in range(count)]\n"))
same('while True', 'S06', (ES, "        while len(self._events) == 0:\n", "        while not self._events:\n"))
same('inline daily', 'S06', (ES, "            self.add_daily_events(day)\n", "            for _time_expr, _event_cls in self._daily:\n                self.add_event(day, _time_expr, _event_cls)\n"))
same('emit direct', 'S06', (ES, "            dt, evt = dt_evt\n            ctx.event_bus.emit(evt)", "            ctx.event_bus.emit(dt_evt[1])"))
same('empty test', 'S06', (ES, "        if len(self._events) == 0:\n            logger.debug(\"get_next_event. events empty\")\n            return\n", "        if not self._events:\n            return None\n"))
# S07
bad('second ignored', 'S07', (ES, 'second = time_info[2]', 'second = time_info[1] and 0'))
bad('minute unit', 'S07', (ES, "minutes=ret.get('m', 0), seconds=ret.get('s', 0)", "minutes=ret.get('m', 0), seconds=ret.get('m', 0)"))
bad('unit swap', 'S07', (ES, "hours=ret.get('h', 0)", "days=ret.get('h', 0)"))
bad('close of first', 'S07', (ES, 'market_period[-1][-1]', 'market_period[0][-1]'))
bad('sign', 'S07', (ES, "        if op == '+':\n            dt += offset", "        if op == '-':\n            dt += offset"))
bad('regex 2', 'S07', (ES, "([0-9]{1,2}[hms]){1,3}", "([0-9]{1,2}[hms]){1,2}"))
bad('regex prefix', 'S07', (ES, "([0-9]{1,2}[hms]){1,3})$'", "([0-9]{1,2}[hms]){1,3})'"))
bad('token 1', 'S07', (ES, "r'([0-9]{1,2})([hms])'", "r'([0-9])([hms])'"))
bad('ignores option', 'S07', (ES, 'ctx.strategy.options.get("market_period", config.MARKET_PERIOD)', 'config.MARKET_PERIOD'))
bad('alias', 'S07', (ST, "'before_open': 'open-30m'", "'before_open': 'open-3m'"))
bad('alias close', 'S07', (ST, "'after_close': 'close+30m'", "'after_close': 'close-30m'"))
same('unpack', 'S07', (ES, "            hour, minute = time_info[:2]\n", "            hour = time_info[0]\n            minute = time_info[1]\n"))
same('sign expr', 'S07', (ES, "        if op == '+':\n            dt += offset\n        else:\n            dt -= offset\n        return dt", "        return dt + offset if op == '+' else dt - offset"))
same('negate', 'S07', (ES, "        if op == '+':\n            dt += offset\n        else:\n            dt -= offset\n        return dt", "        if op != '+':\n            offset = -offset\n        return dt + offset"))
# S08
bad('late check', 'S08', (ST, "        # set options\n        self._options = kwargs\n", "        # set options\n"), (ST, "        if not self._is_scheduler_allowed:\n            raise InvalidCall(\"set_options", "        self._options = kwargs\n        if not self._is_scheduler_allowed:\n            raise InvalidCall(\"set_options"))
bad('window open', 'S08', (ST, "            self._is_scheduler_allowed = False\n        else:", "        else:"))
bad('append first', 'S08', (ST, "        if not self._is_scheduler_allowed:\n            raise InvalidCall('run_daily", "        self._schedules.append({'time': time, 'func': func, 'name': func.__name__, 'module': func.__module__})\n        if not self._is_scheduler_allowed:\n            raise InvalidCall('run_daily"), (ST, "        self._schedules.append(desc)\n", ""))
bad('only warns', 'S08', (ST, "            raise InvalidCall(\"set_options只能在process_initialize中调用\")", "            logger.warning('set_options')"))
bad('open at start', 'S08', (ST, "        self._is_scheduler_allowed = False\n\n        self._schedule_count", "        self._is_scheduler_allowed = True\n\n        self._schedule_count"))
same('try finally', 'S08', (ST, "            self._user_module.process_initialize(self._user_ctx)\n            self._is_scheduler_allowed = False\n", "            try:\n                self._user_module.process_initialize(self._user_ctx)\n            finally:\n                self._is_scheduler_allowed = False\n"))
# S09
bad('no count', 'S09', (ST, 'f"Scheduler_{_desc[\'name\']}_{self._schedule_count}"', 'f"Scheduler_{_desc[\'name\']}"'))
bad('count stuck', 'S09', (ST, "            self._schedule_count += 1", "            if _desc['time'] == 'every_minute':\n                self._schedule_count += 1"))
bad('late binding', 'S09', (ST, "self.wrap_user_callback(_callback))", "lambda event: _callback(self._user_ctx))"))
bad('by name', 'S09', (ST, "_callback = _desc['func']", "_callback = getattr(self._user_module, _desc['name'])"))
bad('skip same', 'S09', (ST, "        self._schedules.append(desc)\n", "        if desc not in self._schedules:\n            self._schedules.append(desc)\n"))
bad('shared source', 'S09', (ST, "        for _desc in self._schedules:\n", "        event_source = EventSource(start=self._ctx.start, end=self._ctx.end)\n        event_source.setup()\n        for _desc in self._schedules:\n"), (ST, "            event_source = EventSource(start=self._ctx.start, end=self._ctx.end)\n            event_source.setup()\n            if", "            if"))
bad('passes event', 'S09', (ST, "return callback(self._user_ctx)", "return callback(event)"))
same('enumerate', 'S09', (ST, "for _desc in self._schedules:", "for _idx, _desc in enumerate(self._schedules):"), (ST, "_{self._schedule_count}\"", "_{_idx}\""))
same('helper', 'S09 S10', (ST, "            event_source = EventSource(start=self._ctx.start, end=self._ctx.end)\n            event_source.setup()\n", "            event_source = self._new_source()\n"), (ST, "    def run_daily(self", "    def _new_source(self):\n        event_source = EventSource(start=self._ctx.start, end=self._ctx.end)\n        event_source.setup()\n        return event_source\n\n    def run_daily(self"))
# S10
bad('end excl', 'S10', (ST, 'while _current_dt <= _end_dt', 'while _current_dt < _end_dt'))
bad('first period', 'S10', (ST, 'for _period in market_period:\n                    if len(_period) != 2:\n                        raise ValueError(f"market period', 'for _period in market_period[:1]:\n                    if len(_period) != 2:\n                        raise ValueError(f"market period'))
bad('start shifted', 'S10', (ST, '_current_dt = _start_dt', '_current_dt = _start_dt + datetime.timedelta(minutes=1)'))
bad('skip some', 'S10', (ST, '                        event_source.daily(event_cls, _current_dt.strftime("%H:%M:%S"))', '                        if _current_dt.minute:\n                            event_source.daily(event_cls, _current_dt.strftime("%H:%M:%S"))'))
bad('12h', 'S10', (ST, 'strftime("%H:%M:%S")', 'strftime("%I:%M:%S")'))
bad('option ignored', 'S10', (ST, 'self._options.get("market_period", config.MARKET_PERIOD)', 'config.MARKET_PERIOD'))
same('if guard', 'S10', (ST, 'while _current_dt <= _end_dt', 'while not _current_dt > _end_dt'))

# ---------------------------------------------------------------- S11
BUS = 'scheduler/bus.py'
bad('type is', 'S11', (BUS, 'if not isinstance(event, _event_cls):', 'if type(event) is not _event_cls:'))
bad('no reverse', 'S11', (BUS, 'sorted(_event_subscribes, reverse=True)', 'sorted(_event_subscribes)'))
bad('unsorted', 'S11', (BUS, 'sorted(_event_subscribes, reverse=True)', 'list(_event_subscribes)'))
bad('insert front', 'S11', (BUS, '.setdefault(priority, []).append(callback)', '.setdefault(priority, []).insert(0, callback)'))
bad('no copy', 'S11', (BUS, 'for _callback in list(_event_subscribes[_priority]):', 'for _callback in _event_subscribes[_priority]:'))
bad('no class copy', 'S11', (BUS, 'for _event_cls in list(self._subscribes):', 'for _event_cls in self._subscribes:'))
bad('first class', 'S11', (BUS, '                    ret.append(_callback(event))\n', '                    ret.append(_callback(event))\n            break\n'))
bad('swallow', 'S11', (BUS, '                    ret.append(_callback(event))\n', '                    try:\n                        ret.append(_callback(event))\n                    except Exception as e:\n                        logger.exception(e)\n'))
bad('unregister one prio', 'S11', (BUS, '''        for _priority in event_subscribes:
            try:
                event_subscribes[_priority].remove(callback)
            except ValueError:
                logger.error(''', '''        try:
            for _priority in event_subscribes:
                event_subscribes[_priority].remove(callback)
        except ValueError:
                logger.error('''))
bad('dedupe', 'S11', (BUS, '                    ret.append(_callback(event))\n', '                    if _callback in ret:\n                        continue\n                    ret.append(_callback(event))\n'))
bad('until result', 'S11', (BUS, '                    ret.append(_callback(event))\n', '                    ret.append(_callback(event))\n                    if ret[-1] is not None:\n                        return ret\n'))
bad('prio zero', 'S11', (BUS, '.setdefault(priority, []).append(callback)', '.setdefault(0, []).append(callback)'))
same('emit helper', 'S11', (BUS, '''                for _callback in list(_event_subscribes[_priority]):
                    logger.debug(f"emit event: {event}, callback: {_callback.__name__}")
                    ret.append(_callback(event))
        return ret
''', '''                self._deliver(event, tuple(_event_subscribes[_priority]), ret)
        return ret

    @staticmethod
    def _deliver(event, callbacks, ret):
        for _callback in callbacks:
            logger.debug(f"emit event: {event}, callback: {_callback.__name__}")
            ret.append(_callback(event))
'''))
same('emit nested if', 'S11', (BUS, '''            if not isinstance(event, _event_cls):
                continue
            _event_subscribes = self._subscribes.get(_event_cls, {})
            for _priority in sorted(_event_subscribes, reverse=True):
                for _callback in list(_event_subscribes[_priority]):
                    logger.debug(f"emit event: {event}, callback: {_callback.__name__}")
                    ret.append(_callback(event))
''', '''            if isinstance(event, _event_cls):
                by_priority = self._subscribes.get(_event_cls) or {}
                for _priority in reversed(sorted(by_priority.keys())):
                    for _callback in by_priority[_priority][:]:
                        result = _callback(event)
                        ret.append(result)
'''))
same('register long', 'S11', (BUS, "        self._subscribes.setdefault(event_cls, {}).setdefault(priority, []).append(callback)\n", '''        by_priority = self._subscribes.get(event_cls)
        if by_priority is None:
            by_priority = self._subscribes[event_cls] = {}
        if priority not in by_priority:
            by_priority[priority] = []
        by_priority[priority].append(callback)
'''))
same('unregister if', 'S11', (BUS, '''            try:
                event_subscribes[_priority].remove(callback)
            except ValueError:
                logger.error(f"already unregister callback: {callback.__name__} of event_cls: {event_cls}")
''', '''            callbacks = event_subscribes[_priority]
            if callback in callbacks:
                callbacks.remove(callback)
            else:
                logger.error(f"already unregister callback: {callback.__name__} of event_cls: {event_cls}")
'''))
# ---------------------------------------------------------------- S12
LO = 'scheduler/loop.py'
bad('after callback', 'S12', (LO, '''            self._strategy_time = message.time
            message.callback(**message.callback_data)
''', '''            message.callback(**message.callback_data)
            self._strategy_time = message.time
'''))
bad('now', 'S12', (LO, 'self._strategy_time = message.time', 'self._strategy_time = self.get_current_time()'))
bad('strategy now', 'S12', (LO, '            return milliseconds_to_dt(self._strategy_time)\n        return None', '            return max(milliseconds_to_dt(self._strategy_time), self.current_dt)\n        return None'))
bad('seconds', 'S12', ('common/utils.py', 'fromtimestamp(milliseconds / 1000.)', 'fromtimestamp(milliseconds // 1000)'))
bad('reset on stop', 'S12', (LO, '            self._stop_requested = True\n            self._notify_loop()', '            self._stop_requested = True\n            self._strategy_time = None\n            self._notify_loop()'))
same('not none', 'S12', (LO, '''        if self._strategy_time:
            return milliseconds_to_dt(self._strategy_time)
        return None
''', '''        ms = self._strategy_time
        return None if ms is None else milliseconds_to_dt(ms)
'''))
same('helper', 'S12', (LO, '            self._strategy_time = message.time\n            message.callback(**message.callback_data)\n', '            self._call(message)\n'),
     (LO, '    def _notify_loop(self):\n', '    def _call(self, message):\n        due = message.time\n        self._strategy_time = due\n        message.callback(**message.callback_data)\n\n    def _notify_loop(self):\n'))
# ---------------------------------------------------------------- S13
QU = 'scheduler/queue.py'
bad('push unlocked', 'S13', (QU, '''        with self._lock:
            return super(ThreadSafeQueue, self).push(*args, **kwargs)
''', '''        return super(ThreadSafeQueue, self).push(*args, **kwargs)
'''))
bad('plain queue', 'S13', (LO, 'self._queue = ThreadSafeQueue()', 'self._queue = PriorityQueue()'), (LO, 'import ThreadSafeQueue, QueueEmptyError', 'import PriorityQueue, QueueEmptyError'))
bad('own lock', 'S13', (QU, '''        with self._lock:
            return super(ThreadSafeQueue, self).push(*args, **kwargs)
''', '''        with threading.Lock():
            return super(ThreadSafeQueue, self).push(*args, **kwargs)
'''))
bad('pop if', 'S13', (QU, '''        with self._lock:
            return super(ThreadSafeQueue, self).pop()
''', '''        with self._lock:
            if self.empty():
                raise QueueEmptyError()
            return super(ThreadSafeQueue, self).pop()
'''))
bad('early release', 'S13', (QU, '''        with self._lock:
            return super(ThreadSafeQueue, self).pop()
''', '''        with self._lock:
            if not self._queue:
                raise QueueEmptyError()
        return super(ThreadSafeQueue, self).pop()
'''))
same('rlock', 'S13', (QU, 'threading.Lock()', 'threading.RLock()'), (QU, '''        with self._lock:
            return super(ThreadSafeQueue, self).pop()
''', '''        with self._lock:
            if self.empty():
                raise QueueEmptyError()
            return super(ThreadSafeQueue, self).pop()
'''))
same('acquire', 'S13', (QU, '''        with self._lock:
            return super(ThreadSafeQueue, self).pop()
''', '''        self._lock.acquire()
        try:
            return super(ThreadSafeQueue, self).pop()
        finally:
            self._lock.release()
'''))
same('merged class', 'S13', (QU, '''        with self._lock:
            return super(ThreadSafeQueue, self).push(*args, **kwargs)
''', '''        with self._lock:
            heapq.heappush(self._queue, (args[1], args[0]))
'''))
# ---------------------------------------------------------------- S14
SC, AC = 'scheduler/config.py', 'account/config.py'
for nm, F, pre in (('sched', SC, 'SCHEDULER_'), ('acct', AC, 'ACCOUNT_')):
    v = nm == 'sched' and 'scheduler' or 'account'
    bad('lstrip ' + nm, 'S14', (F, '_name[len("%s"):]' % pre, '_name.lstrip("%s")' % pre))
    bad('replace ' + nm, 'S14', (F, '_name[len("%s"):]' % pre, '_name.replace("%s", "")' % pre))
    bad('case ' + nm, 'S14', (F, 'if _name.startswith("%s"):' % pre, 'if _name.startswith("%s"):' % pre.rstrip('_')))
    bad('only known ' + nm, 'S14', (F, '            %s_configs[_name' % v, '            if not configs[_name]:\n                continue\n            %s_configs[_name' % v))
    bad('cwd ' + nm, 'S14', (F, '    config.__dict__.update(custom_config)', '    if len(custom_config) > 1:\n        config.__dict__.update(custom_config)'))
    same('comp ' + nm, 'S14', (F, '''    %s_configs = {}
    for _name in configs:
        if _name.startswith("%s"):
            %s_configs[_name[len("%s"):]] = configs[_name]
    return %s_configs
''' % (v, pre, v, pre, v), '''    prefix = "%s"
    return {k[len(prefix):]: val for k, val in configs.items() if k.startswith(prefix)}
''' % pre))
    bad('comp filter ' + nm, 'S14', (F, '''    %s_configs = {}
    for _name in configs:
        if _name.startswith("%s"):
            %s_configs[_name[len("%s"):]] = configs[_name]
    return %s_configs
''' % (v, pre, v, pre, v), '''    prefix = "%s"
    return {k[len(prefix):]: val for k, val in configs.items() if k.startswith(prefix) and val is not None}
''' % pre))
    bad('upd filter ' + nm, 'S14', (F, '    config.__dict__.update(custom_config)', '    config.__dict__.update({k: v for k, v in custom_config.items() if hasattr(config, k)})'))
    bad('setattr filter ' + nm, 'S14', (F, '    config.__dict__.update(custom_config)', '    for k, v in custom_config.items():\n        if k.isupper():\n            setattr(config, k, v)'))
    same('setattr ' + nm, 'S14', (F, '    config.__dict__.update(custom_config)', '    for k, v in custom_config.items():\n        setattr(config, k, v)'))
    same('with open ' + nm, 'S14', (F, '    exec(open(path).read(), configs)', '    with open(path) as f:\n        code = f.read()\n    exec(code, configs)'))
    bad('two namespaces ' + nm, 'S14', (F, 'exec(open(path).read(), configs)', 'exec(open(path).read(), {}, configs)'))
    bad('two fresh namespaces ' + nm, 'S14', (F, 'exec(open(path).read(), configs)', 'exec(open(path).read(), dict(configs), configs)'))
    same('both ' + nm, 'S14', (F, 'exec(open(path).read(), configs)', 'exec(compile(open(path).read(), path, "exec"), configs, configs)'))
bad('relative config', 'S14', ('scheduler/runner.py', '            config = path\n', ''))
same('absolute in run', 'S14', ('scheduler/runner.py', '            config = path\n', ''), ('scheduler/runner.py', 'config=self._config,', 'config=os.path.abspath(os.path.expanduser(self._config)) if self._config else None,'))
same('absolute kept', 'S14', ('scheduler/runner.py', '            config = path\n', ''), ('scheduler/runner.py', '        self._config = config\n', '        self._config = os.path.realpath(os.path.expanduser(config)) if config else config\n'))
bad('late config', 'S14', ('scheduler/runner.py', '''            setup_scheduler_config(self._config)
''', '''            pass
'''), ('scheduler/runner.py', '''        strategy.setup()
''', '''        strategy.setup()
        if self._config:
            setup_scheduler_config(self._config)
'''))

import mut_acct
mut_acct.load(bad, same)
mut_acct.ids(bad, same)

import mut_gate
mut_gate.load(bad, same)
import mut_cli
mut_cli.load(bad, same)
mut_cli.c04(bad, same)
mut_cli.c05(bad, same)
import mut_api
mut_api.c07(bad, same)
mut_api.c08(bad, same)
mut_api.c09(bad, same)
import mut_opt
mut_opt.add(bad, same)

# S15
EV = 'scheduler/event.py'
bad('minute as default', 'S15', (EV, 'EVERY_MINUTE = 1', 'EVERY_MINUTE = 0'))
bad('sync below', 'S15', (EV, 'ACCOUNT_SYNC = 2', 'ACCOUNT_SYNC = 1'))
bad('daily above', 'S15', (EV, 'DAILY = DEFAULT = 0', 'DAILY = DEFAULT = 1'))
bad('default only', 'S15', (EV, 'def create_event_class(name, priority=EventPriority.DEFAULT):', 'def create_event_class(name, priority=EventPriority.EVERY_MINUTE):'))
bad('sync without priority', 'S15', ('account/account.py', 'create_event_class("AccountSyncEvent", priority=EventPriority.ACCOUNT_SYNC)', 'create_event_class("AccountSyncEvent")'))
bad('minute without priority', 'S15', (ST, 'create_event_class(_cls_name, priority=EventPriority.EVERY_MINUTE)', 'create_event_class(_cls_name)'))
bad('priority dropped', 'S15', (EV, '{"priority": priority}', '{}'))
bad('priority clipped', 'S15', (EV, '{"priority": priority}', '{"priority": bool(priority)}'), (EV, 'EVERY_MINUTE = 1', 'EVERY_MINUTE = True'))
bad('insert first', 'S15', (ST, 'self._schedules.append(desc)', 'self._schedules.insert(0, desc)'))
bad('reversed', 'S15', (ST, 'for _desc in self._schedules:', 'for _desc in reversed(self._schedules):'))
bad('by name', 'S15', (ST, 'for _desc in self._schedules:', "for _desc in sorted(self._schedules, key=lambda d: d['name']):"))
bad('sorted on the way', 'S15', (ST, 'self._schedules.append(desc)', "self._schedules.append(desc)\n        self._schedules.sort(key=lambda d: d['time'])"))
same('copy', 'S15 S09', (ST, 'for _desc in self._schedules:', 'for _desc in list(self._schedules):'))
same('numbered', 'S15 S09', (ST, 'for _desc in self._schedules:', 'for _i, _desc in enumerate(self._schedules):'))
same('plus equals', 'S15', (ST, 'self._schedules.append(desc)', 'self._schedules += [desc]'))
same('other numbers', 'S15', (EV, 'DAILY = DEFAULT = 0', 'DAILY = DEFAULT = 10'), (EV, 'EVERY_MINUTE = 1', 'EVERY_MINUTE = 20'), (EV, 'ACCOUNT_SYNC = 2', 'ACCOUNT_SYNC = 30'))
same('class body', 'S15', (EV, '{"priority": priority}', 'dict(priority=priority)'))
same('set later', 'S15', (EV, '        _event_classes[name] = type(name, (Event, ), {"priority": priority})', '        attrs = {}\n        attrs["priority"] = priority\n        cls = type(name, (Event, ), attrs)\n        _event_classes[name] = cls'))
same('positional', 'S15', (ST, 'create_event_class(_cls_name, priority=EventPriority.EVERY_MINUTE)', 'create_event_class(_cls_name, EventPriority.EVERY_MINUTE)'))

# S07: seconds of a clock time
bad('default second', 'S07', (ES, '                second = 0', '                second = 1'))
bad('seconds needed', 'S07', (ES, 'except IndexError', 'except KeyError'))
bad('seconds needed 2', 'S07', (ES, '                second = 0\n', '                raise InvalidParam(time_expr)\n'))
same('any error', 'S07', (ES, 'except IndexError', 'except Exception'))
same('tuple of errors', 'S07', (ES, 'except IndexError', 'except (IndexError, KeyError)'))
same('length test', 'S07', (ES, """            try:
                second = time_info[2]
            except IndexError:
                second = 0
""", '            second = time_info[2] if len(time_info) > 2 else 0\n'))
same('three parts', 'S07', (ES, """            try:
                second = time_info[2]
            except IndexError:
                second = 0
""", '            if len(time_info) == 2:\n                time_info.append(0)\n            second = time_info[2]\n'))
same('rest of the parts', 'S07', (ES, """            hour, minute = time_info[:2]
            try:
                second = time_info[2]
            except IndexError:
                second = 0
""", '            hour, minute, *rest = time_info\n            second = rest[0] if rest else 0\n'))
same('star', 'S07', (ES, "dt = datetime.datetime.combine(day, datetime.time(hour, minute, second))", "dt = datetime.datetime.combine(day, datetime.time(*[int(x) for x in time_expr.split(':')]))"))
for F in ('scheduler/config.py', 'account/config.py'):
    k, P = ('scheduler', 'SCHEDULER_') if F[0] == 's' else ('account', 'ACCOUNT_')
    bad('no exec ' + k, 'S14', (F, '    exec(open(path).read(), configs)\n', ''))
    bad('exec of the file ' + k, 'S14', (F, 'exec(open(path).read(), configs)', 'exec(open(path), configs)'))
    bad('not the first ' + k, 'S14', (F, 'for _name in configs:', 'for _name in list(configs)[1:]:'))
    bad('any name ' + k, 'S14', (F, 'if _name.startswith("%s"):' % P, 'if _name:'))
    bad('no option ' + k, 'S14', (F, '            %s_configs[_name[len("%s"):]] = configs[_name]' % (k, P), '            pass'))
    bad('result lost ' + k, 'S14', (F, 'return %s_configs' % k, 'return {}'))
    bad('all names ' + k, 'S14', (F, 'return %s_configs' % k, 'return configs'))
    same('sorted ' + k, 'S14', (F, 'for _name in configs:', 'for _name in sorted(configs):'))
    same('compiled ' + k, 'S14', (F, 'exec(open(path).read(), configs)', 'exec(compile(open(path).read(), path, "exec"), configs)'))
    same('with open ' + k, 'S14', (F, '    exec(open(path).read(), configs)', '    with open(path) as f:\n        text = f.read()\n    exec(text, configs)'))

# S16
bad('long wait ends', 'S16', (LO, '                wait_time = (message.time - now) / 1000.0\n', '                wait_time = (message.time - now) / 1000.0\n                if wait_time > 86400 * 3:\n                    self.stop()\n'))
bad('ends after first', 'S16', (LO, '                self.handle_message(message)\n', '                self.handle_message(message)\n                if not message.callback_data and now % 1000 == 0:\n                    self._stop_requested = True\n'))
bad('checker ignored', 'S16', (LO, '            if checker(self.get_current_time(), ts):\n', '            checker(self.get_current_time(), ts)\n            if False:\n'))
bad('checkers always', 'S16', (LO, '            if checker(self.get_current_time(), ts):\n', '            if checker(self.get_current_time(), ts) or True:\n'))
bad('first checker only', 'S16', (LO, '                logger.info("check_exit. exit now")\n                return True\n        return False', '                logger.info("check_exit. exit now")\n                return True\n            break\n        return False'))
bad('disagreement', 'S16', (LO, '            if checker(self.get_current_time(), ts):\n', '            if not checker(self.get_current_time(), ts):\n'))
bad('checker args', 'S16', (LO, 'checker(self.get_current_time(), ts)', 'checker(ts, self.get_current_time())'))
bad('checker seconds', 'S16', (LO, 'checker(self.get_current_time(), ts)', 'checker(self.get_current_time(), ts // 1000)'))
bad('all must agree', 'S16', (LO, """        for checker in self._exit_checkers:
            if checker(self.get_current_time(), ts):
                logger.info("check_exit. exit now")
                return True
        return False""", '        return all(checker(self.get_current_time(), ts) for checker in self._exit_checkers)'))
bad('answer unused', 'S16', (LO, '                if self.check_exit(message.time):\n                    self.stop()\n                    break\n', '                self.check_exit(message.time)\n'))
bad('not asked', 'S16', (LO, '                if self.check_exit(message.time):\n                    self.stop()\n                    break\n', ''))
bad('no stop on agreement', 'S16', (LO, '                    self.stop()\n                    break\n\n                wait', '                    break\n\n                wait'))
bad('checker dropped', 'S16', (LO, '        self._exit_checkers.append(callback)', '        if not self._exit_checkers:\n            self._exit_checkers.append(callback)'))
bad('checker not kept', 'S16', (LO, '        self._exit_checkers.append(callback)', '        pass'))
bad('one run', 'S16', (LO, 'self._uvloop.run()', 'self._uvloop.run(pyuv.UV_RUN_ONCE)'))
bad('push stops', 'S16', (LO, '        self._queue.push(message, message.sort_key)\n', '        self._queue.push(message, message.sort_key)\n        if message.priority < 0:\n            self._stop_requested = True\n'))
bad('defer seconds', 'S16', (LO, 'self.get_current_time() + int(delay)', 'self.get_current_time() + int(delay * 1000)'))
bad('defer at once', 'S16', (LO, 'self.get_current_time() + int(delay)', 'self.get_current_time()'))
bad('defer before', 'S16', (LO, 'self.get_current_time() + int(delay)', 'self.get_current_time() - int(delay)'))
bad('defer drops kws', 'S16', (LO, 'callback(*args, **kws)', 'callback(*args)'))
bad('defer drops args', 'S16', (LO, 'callback(*args, **kws)', 'callback(**kws)'))
bad('defer plain', 'S16', (LO, 'callback=lambda: callback(*args, **kws)', 'callback=callback'))
bad('defer no push', 'S16', (LO, '        self.push_message(Message(time=self.get_current_time() + int(delay), callback=lambda: callback(*args, **kws)))', '        if delay > 0:\n            self.push_message(Message(time=self.get_current_time() + int(delay), callback=lambda: callback(*args, **kws)))'))
bad('defer never called', 'S16', (LO, 'callback=lambda: callback(*args, **kws)', 'callback=lambda: callback'))
same('any checker', 'S16 S02', (LO, """        for checker in self._exit_checkers:
            if checker(self.get_current_time(), ts):
                logger.info("check_exit. exit now")
                return True
        return False""", '        return any(checker(self.get_current_time(), ts) for checker in self._exit_checkers)'))
same('copy of checkers', 'S16', (LO, 'for checker in self._exit_checkers:', 'for checker in list(self._exit_checkers):'))
same('flag found', 'S16', (LO, """        for checker in self._exit_checkers:
            if checker(self.get_current_time(), ts):
                logger.info("check_exit. exit now")
                return True
        return False""", """        found = False
        for checker in self._exit_checkers:
            if checker(self.get_current_time(), ts):
                found = True
                break
        return found"""))
same('inlined check', 'S16 S02 S03', (LO, '                if self.check_exit(message.time):\n                    self.stop()\n                    break\n', """                for checker in self._exit_checkers:
                    if checker(now, message.time):
                        self.stop()
                        break
                if self._stop_requested:
                    break
"""))
same('stop first', 'S16', (LO, '                if self.check_exit(message.time):\n                    self.stop()\n                    break\n', '                done = self.check_exit(message.time)\n                if done:\n                    self._stop_requested = True\n                    self._notify_loop()\n                    break\n'))
same('partial', 'S16', (LO, 'callback=lambda: callback(*args, **kws)', 'callback=functools.partial(callback, *args, **kws)'), (LO, 'import time\n', 'import time\nimport functools\n'))
same('defer due', 'S16', (LO, '        self.push_message(Message(time=self.get_current_time() + int(delay), callback=lambda: callback(*args, **kws)))', '        due = int(delay) + self.get_current_time()\n\n        def call():\n            return callback(*args, **kws)\n        self.push_message(Message(due, call))'))
