"""Properties that users rely on and that static analysis cannot decide here (source of properties.jsonl; see gen.py)."""
P = []


def p(id, title, statement, over, text, why, files, mech, na):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=None, note='', na=na))


LOOP, GATE, ACC = 'jqtrade/scheduler/loop.py', 'jqtrade/account/trade_gate.py', 'jqtrade/account/account.py'

p('N01', 'A task starts within a second of its due time when nothing else runs',
  'When no other message is being handled, a message is handled at most one second after its due time.',
  ['schedules'], 'every queue and every load of the machine', 'Tests use a few events on an idle machine.', [LOOP], [('timer of the loop', LOOP)],
  'A bound on real time: it depends on libuv, on the scheduler of the operating system and on changes of the clock. What the source decides (when the timer is armed, with which delay, that nothing is early or lost) is claimed in S01, S02 and S06.')
p('N02', 'Orders and the record of the day survive a power failure',
  'A line of the order or cancel file that was reported as written, and the record of the orders of the day, are still there after a crash of the machine.',
  ['crash_points'], 'every moment of a power failure', 'Tests do not cut the power.', [GATE], [('write_data, order and cancel files', GATE)],
  'jqtrade does not ask for it (no fsync) and durability is decided by file system and disk, not by this source. What holds after a crash of the process (record replaced as a whole) is claimed in A20.')
p('N03', 'A task that never returns does not stop the process from being stopped',
  'SIGTERM and SIGINT stop the process within a bounded time even while a function of the strategy or a call of the broker interface does not return.',
  ['schedules', 'programs'], 'every strategy', 'Tests run short functions.', [LOOP], [('signal handling', LOOP)],
  'Termination of arbitrary strategy and library code cannot be bounded from this source; signals are handled by the loop after the running callback returns. That a handler exists, stops the loop and leaves the queue alone is claimed in S04.')
p('N04', 'The amounts and prices of the broker survive text and arithmetic exactly',
  'Every price, cost and amount that is shown or written equals the decimal text of the broker, without rounding, in every operation.',
  ['inputs'], 'every decimal number', 'Tests use short decimals.', [GATE, ACC], [('float conversions', GATE)],
  'A property of binary floating point over runtime values; jqtrade uses float throughout. Which field is read, converted once and stored where is claimed in A09, A11, A16 and A18.')
p('N05', 'Memory and time per task stay bounded over months of operation',
  'The memory of the process and the time needed per event do not grow without bound however long it runs.',
  ['histories'], 'every length of a run', 'Tests run for seconds.', [LOOP, ACC], [('queue, order records', LOOP)],
  'A quantity of the run that depends on the strategy, on pyuv and on the interpreter; no sound static bound is in reach. The parts that are logical (one armed event per registration, orders dropped at the change of day) are claimed in S06 and A21.')
