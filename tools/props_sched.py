"""Property texts of the scheduler part (source of properties.jsonl; see gen.py)."""
P = []


def p(id, title, statement, over, text, why, files, mech, tech=None, note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note))


LOOP, QUEUE, MSG = 'jqtrade/scheduler/loop.py', 'jqtrade/scheduler/queue.py', 'jqtrade/scheduler/message.py'
ES, STRAT, BUS, API = 'jqtrade/scheduler/event_source.py', 'jqtrade/scheduler/strategy.py', 'jqtrade/scheduler/bus.py', 'jqtrade/scheduler/api.py'

p('S01', 'Pending work is handled in order of time, then priority, then insertion',
  'Whatever is scheduled or re-queued, in any order, the scheduler always handles the pending message with the earliest due time first; among '
  'messages due at the same time the one with the higher priority first, and among equal ones the one that was created first. '
  'Two different pending messages are never compared by anything else, so ordering never fails.',
  ['schedules', 'histories'], 'every set of pending messages, every push/pop history, every priority and creation order, including a not yet due message that is put back',
  'The tests push a handful of messages; ties and re-queued messages depend on the history of pushes.',
  [MSG, QUEUE, LOOP], [('sort key of a message', MSG), ('heap order of the queue', QUEUE), ('pop and re-push in the queue callback', LOOP)])
p('S02', 'Nothing is handled before its due time and nothing taken from the queue is lost',
  'A message is handled only when the current time has reached its due time. A message that is taken from the queue too early is put back unchanged '
  'and a timer wakes the loop for it; as long as the loop was not asked to stop, every message taken is either handled or put back.',
  ['schedules', 'inputs'], 'every due time and clock reading, every state of the queue, every path through the queue callback',
  'Tests run a few delays in real time; a lost or early message depends on the clock reading at the moment of the check.',
  [LOOP], [('due check, timer and re-push', LOOP)])
p('S03', 'A failing task stops the process with its own error',
  'When a task or any callback of the strategy raises an exception (SystemExit included), no further pending message is handled, the loop ends, and running the loop raises that very exception. '
  'No layer between the task and the loop swallows the exception.',
  ['fault_sequences', 'programs'], 'every user function and every point at which it may raise',
  'Tests let one task fail once; whether every layer lets every exception through is a statement about all paths.',
  [LOOP, ES, STRAT, BUS], [('exception handler around the message callback', LOOP), ('re-raise after the loop', LOOP), ('emit and schedule callbacks', ES)])
p('S04', 'SIGTERM and SIGINT stop a running strategy',
  'A running strategy reacts to SIGTERM and to SIGINT by asking its loop to stop; both signals are watched for as long as the loop runs and the reaction wakes the loop up so that it ends even when no message is due.',
  ['schedules'], 'every moment of the run at which a signal may arrive', 'Signal arrival is asynchronous; the tests send one signal at one moment.',
  [LOOP], [('signal registration before the loop runs', LOOP), ('stop request and notification', LOOP)])
p('S05', 'Events are generated exactly for the window of the run',
  'No event is generated before the start or after the end of the run, and no daily time inside the window (both bounds included) is dropped. '
  'Outside the history mode a run starts at the current time, whatever start was given, so no event of the past is ever generated.',
  ['inputs', 'configurations'], 'every start, end, day and daily time, with and without history mode',
  'The tests use a few windows; the bounds matter only for times at the edges and for the live mode.',
  [ES, STRAT], [('window test when an event is generated', ES), ('start of a source in setup', ES), ('sources built with the start and end of the run', STRAT)])
p('S06', 'Every daily registration fires once per day, and the next event is always armed',
  'As long as the registrations do not change, each day of a run yields exactly one event per registered daily time, events are taken in time order, each exactly once, and no day is generated twice or skipped (a history run without end has EVENT_DAYS_COUNT days); a change of the registrations, also before the run, takes effect for all events still to come. '
  'After each event the next pending event is armed by exactly one message with its own time and priority; a changed or unscheduled source never fires through an old message. '
  'Looking for the next event and announcing a change of registrations always end, also for a source without registrations.',
  ['histories', 'inputs'], 'every number of days and registrations, every history of events, re-registration and unscheduling',
  'Tests run one or two days with a few registrations; the guarantee is about all days of a run and all histories.',
  [ES], [('generation of days and events', ES), ('get/peek of the next event', ES), ('schedule, reschedule, unschedule', ES)])
p('S07', 'Time expressions mean what they say',
  "'HH:MM[:SS]' is that time of day; 'open', 'close', 'open+30m', 'close-1h5m3s' are the first open and the last close of the market periods (the ones set by the strategy, else the configured ones) moved by exactly the written offset in the written direction. "
  'Any other expression is rejected with an error, never silently given some other time.',
  ['inputs'], 'every string given as a time expression, every market period',
  'The tests sample expressions; the accepted language and its meaning are infinite.',
  [ES, STRAT], [('parser of relative expressions', ES), ('clock times and bases', ES), ('aliases of run_daily', STRAT)])
p('S08', 'Registration is possible only while the strategy is being initialised',
  'run_daily and set_options take effect only while process_initialize runs; at any other time, in particular from a running task, the call raises an error and changes nothing.',
  ['histories', 'programs'], 'every point of the life of a strategy at which user code may call the API',
  'Tests call the API once at the wrong time; the guarantee is about every point of the life cycle.',
  [STRAT, API], [('initialisation flag around process_initialize', STRAT)])
p('S09', 'Each registration runs exactly its own function',
  'Every accepted run_daily registration gets its own event, and when that event fires exactly the registered function is called with the context, once, and no function of another registration. '
  'All accepted registrations are scheduled, including several of the same function and time.',
  ['programs', 'inputs'], 'every set of registrations',
  'Late binding and shared event classes show only with several registrations; tests check few.',
  [STRAT], [('event class and callback per registration', STRAT)])
p('S10', 'every_minute covers every minute of every market period',
  'A task registered for every minute fires at each minute of each market period, from its first to its last minute, both included, and at no other time; the periods are those set by the strategy, else the configured ones.',
  ['inputs', 'configurations'], 'every list of market periods', 'Tests use the default periods.',
  [STRAT], [('expansion of every_minute', STRAT)])
p('S11', 'The event bus delivers an event to exactly its subscribers, in order',
  'Emitting an event calls every callback registered for its class or any of its base classes exactly once with this event, and nothing else: within a class higher priorities first, within a priority in registration order. '
  'Unregistering removes just that callback of that class. Callbacks that register or unregister callbacks during the delivery do not make another subscriber miss the event, and an exception of a callback reaches the caller of emit.',
  ['histories', 'programs'], 'every set of subscriptions, every history of register, unregister and emit, also from within callbacks',
  'Tests register a few callbacks; changes during a delivery and mixed priorities depend on the history.',
  [BUS], [('register, unregister and emit', BUS)])
p('S12', 'strategy_dt is the due time of the event being handled',
  'While a message is handled, context.strategy_dt is exactly its due time, to the millisecond and already when its callback starts; nothing else changes it, and it is None only before the first message. context.current_dt is the present time.',
  ['schedules', 'inputs'], 'every message and every moment of a run', 'Tests look at strategy_dt in one or two events.',
  [LOOP, 'jqtrade/scheduler/context.py'], [('time of the strategy set per message', LOOP), ('strategy_dt and current_dt', 'jqtrade/scheduler/context.py')])
p('S13', 'The queue is changed only under its lock',
  'Messages may be pushed from any thread: every operation that changes the queue of the loop holds the lock of the queue for all of it, and no operation takes the lock while it already holds it; the loop is woken only after the message is in the queue.',
  ['schedules', 'schedules'], 'every interleaving of threads that push messages', 'Races need an unlucky interleaving; the tests are single threaded.',
  [QUEUE, LOOP], [('lock of the queue', QUEUE)])
p('S14', 'A custom configuration file is applied completely and before it is needed',
  "A name of the custom configuration file that starts with SCHEDULER_ (ACCOUNT_) sets exactly the option named by the rest of the name, in the scheduler (account) module, to exactly its value; other names change nothing. "
  'The file is executed as one module: its functions see its names. '
  'The scheduler options are applied before the strategy is created, and the account options come from the same file even when the strategy has changed the working directory before set_options.',
  ['configurations'], 'every custom configuration file', 'The tests use one file with a few names.',
  ['jqtrade/scheduler/config.py', 'jqtrade/account/config.py', 'jqtrade/scheduler/runner.py'], [('prefix handling of the scheduler options', 'jqtrade/scheduler/config.py'), ('prefix handling of the account options', 'jqtrade/account/config.py'), ('configuration applied at the start', 'jqtrade/scheduler/runner.py')])
p('S15', 'Account sync before every_minute before timed tasks at the same moment',
  'When several events are due at the same moment, the sync of the account is handled first, then the every_minute tasks, then the tasks with a time of their own. '
  'Tasks of one kind that are due at the same moment run in the order in which process_initialize registered them.',
  ['schedules', 'inputs'], 'every set of registrations and every time at which two of them meet',
  'Which task comes first matters only when several meet; tests register tasks at different times.',
  ['jqtrade/scheduler/event.py', STRAT, 'jqtrade/account/account.py'], [('priorities of the kinds of events', 'jqtrade/scheduler/event.py'), ('order of the registrations', STRAT), ('events of the account sync', 'jqtrade/account/account.py')])
p('S16', 'The loop runs as long as messages are pending, unless it has a reason to end',
  'A running loop ends by itself only when no message is pending, when a message failed, or when an exit checker agrees: before the loop waits for a message that is not due, every registered checker is asked with the present time and the due time of that message, in milliseconds, until one agrees; then the loop ends, and when none does it waits. '
  'A call deferred with defer(delay, callback, ...) is made exactly once, with the given arguments, by a message due delay milliseconds after the present time.',
  ['schedules', 'programs'], 'every set of exit checkers and their answers, every deferred call, every history of messages',
  'The tests stop the loop by an empty queue or a signal; an end without a reason shows only after some history.',
  [LOOP], [('queue callback, exit checkers and defer', LOOP)])
