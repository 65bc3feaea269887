"""Property texts of the command line and of the environment of a task (source of properties.jsonl; see gen.py)."""
P = []


def p(id, title, statement, over, text, why, files, mech, tech=None, note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note))


MAIN, RUN, UT = 'jqtrade/__main__.py', 'jqtrade/scheduler/runner.py', 'jqtrade/scheduler/utils.py'
ST, CTX, PR = 'jqtrade/scheduler/strategy.py', 'jqtrade/scheduler/context.py', 'jqtrade/common/utils.py'
TASKS = ('Running tasks are the processes whose command line contains jqtrade and start_task, without those that are the parent of another such process (launchers); a process that ends while they are listed is passed over, '
         'a process whose command line may not be read is passed over too unless it is a Python process (then the error is raised). ')

p('C01', 'A task name runs at most once on a machine',
  TASKS + 'start_task with a name that a running task other than itself and its own parent process has, given there as -n VALUE, --name VALUE or --name=VALUE, raises TaskError before it sets up logging, environment or configuration and never runs the strategy; '
  'a name that no such task has is never refused, whatever other tasks run and whichever of them end meanwhile.',
  ['inputs', 'histories', 'schedules'], 'every set of running processes, every command line and every moment at which one of them ends', 'Tests start no second task; processes that end in between and the forms of the command line are not sampled.',
  [RUN, UT, MAIN], [('TaskRunner.__init__, _exist_repeated_task', RUN), ('get_activate_task_process, parse_task_info', UT)],
  note='Two tasks that start at the same moment are outside (there is no lock). Abbreviated (--na) and joined (-nX) options are outside.')
p('C02', 'stop_task signals exactly the tasks that were asked for',
  TASKS + 'stop_task signals every running task with --all, otherwise the running task with the pid of --pid, otherwise every running task with the name of --name, and no other process, SIGKILL with --force and SIGTERM without; a task that has ended in between never keeps the others from being stopped. '
  'ValueError is raised, and nothing signalled, exactly when none of the three options is given.',
  ['inputs', 'histories', 'schedules'], 'every set of running processes, every combination of options, every moment at which a task ends', 'Tests stop no task.',
  [MAIN, UT], [('stop_task and its options', MAIN), ('get_activate_task_process, parse_task_info', UT)])
p('C03', 'get_tasks lists every running task with what it was started with',
  TASKS + 'get_tasks prints one entry for every running task, with its name, pid, code path, log path, environment and debug flag, each under its label, also when a task ends meanwhile. '
  'Each of these is the value given on its command line with the short or long option (-n/--name, -c/--code, -o/--out, -e/--env) as VALUE in the next argument or as --option=VALUE up to the end of the argument, or None (debug: False) when it is not given.',
  ['inputs', 'histories', 'schedules'], 'every set of running processes and every command line', 'Tests list no task.',
  [MAIN, UT], [('get_tasks', MAIN), ('get_activate_task_process, parse_task_info', UT)],
  note='Abbreviated (--na) and joined (-nX) options are outside.')
p('C04', 'A task runs in exactly the environment it was started with',
  'Every variable given to start_task with -e/--env, where variables are separated by semicolons, the name ends at the first equals sign (the value may contain more) and white space around both is dropped, is in the environment of the process (os.environ), in place of an earlier value, '
  'before the strategy code is loaded, and nothing else of the environment is changed. The entries (separated by colons) of a PYTHONPATH given there are in front of all earlier entries of the import path, in their order, before the strategy code is loaded.',
  ['inputs', 'configurations'], 'every value of --env and every environment of the process', 'Tests start no task with an environment.',
  [RUN, UT, MAIN], [('TaskRunner.__init__', RUN), ('parse_env', UT)],
  note='Parts of --env without an equals sign are outside. The directory of the strategy itself is put in front of all when it is loaded.')
p('C05', 'Every option of set_options reaches strategy and account as documented',
  'Every option given to set_options is, under its name, among the options of the strategy and among those the account is set up with: unchanged, except that use_account, sync_balance and sync_order are made bool and sync_internal float, and that in market_period and sync_period every (start, end) becomes the pair of the two times '
  '(parsed when they are text HH:MM:SS), in the given order; a period that has not exactly two parts raises. '
  'The account gets as runtime_dir the given directory, or else the configured RUNTIME_DIR, with ~ expanded and made absolute, and that directory exists (it is made with its parents when missing) before the account is set up. '
  'An option that is not given is not added (but runtime_dir).',
  ['inputs', 'configurations'], 'every combination and every value of options', 'Tests set a few options.',
  [ST, PR], [('Strategy.set_options', ST), ('parse_time', PR)])
p('C06', 'The account is set up when and as it was asked for, and usable only then',
  'set_options sets the account up, exactly once and before it returns, when use_account (or, when that is not given, SETUP_ACCOUNT) is true, and not otherwise; then the broker interface is a new instance of the class that TRADE_GATE names after the custom configuration file was applied, and account, broker interface and portfolio are in place when the account is set up. '
  'Without account_no InvalidParam and without a TRADE_GATE ConfigError is raised before a broker interface is made. '
  'When the account is not used, account, broker interface and portfolio of the context raise InvalidCall, otherwise they are the ones that were set up.',
  ['inputs', 'configurations'], 'every combination of options and configuration', 'Tests use one configuration.',
  [ST, CTX], [('Strategy.set_options, Strategy.setup_account', ST), ('Context.account, trade_gate, portfolio, use_account', CTX), ('setup_account_config', 'jqtrade/account/config.py')])
p('C07', 'The output of a task goes where it was asked for, completely and once',
  'Everything a task logs from level INFO on, with --debug from DEBUG on, and nothing below, is written exactly once: appended to the file given with -o/--out, or to standard output when none is given, and nowhere else; this is set up before the strategy is set up. '
  'What the strategy prints is appended to that same file, also after it changed the working directory, or goes to standard output, at once and with the separator and end it asked for, except what it prints with a file of its own, which goes there.',
  ['inputs', 'configurations'], 'every combination of options, everything that is logged or printed', 'Tests start no task; nothing looks at the output.',
  [RUN, 'jqtrade/common/log.py', 'jqtrade/scheduler/api.py', MAIN], [('setup_logger, setup_file_logger', 'jqtrade/common/log.py'), ('TaskRunner.__init__', RUN), ('strategy_print', 'jqtrade/scheduler/api.py')])
p('C08', 'A task runs exactly the strategy file it was given',
  'start_task executes the code of the file given with -c/--code, once, whatever the name of the file and whatever other modules of that name exist or are already loaded. '
  'When it runs, the directory of that file is at the front of the import path, before the entries of PYTHONPATH. '
  'A file that does not exist raises FileNotFoundError before logging, environment and import path are changed.',
  ['inputs', 'configurations'], 'every path of a strategy file, every import path and set of loaded modules', 'Tests load one file whose name is unique.',
  ['jqtrade/scheduler/loader.py', RUN, ST, MAIN], [('Loader', 'jqtrade/scheduler/loader.py'), ('TaskRunner.__init__', RUN), ('Strategy.setup', ST)],
  note='Files that are deleted or replaced while the task starts are outside.')
p('C09', 'A strategy finds the documented interface, and process_initialize runs once',
  'When process_initialize is called its module has run_daily, set_options, log, print and context, and with SETUP_ACCOUNT also order, cancel_order, batch_submit_orders, batch_cancel_orders, get_orders, sync_balance, sync_orders, LimitOrderStyle and MarketOrderStyle, each the object of that name, whatever the module itself defines. '
  'It is called exactly once, with the user context, and after it has returned the tasks are scheduled. '
  'A strategy without process_initialize is refused with TaskError, and an error it raises ends the start unchanged; in both cases nothing is scheduled.',
  ['programs', 'configurations'], 'every strategy module and every configuration', 'Tests load a few strategies that define none of the names.',
  [ST, 'jqtrade/account/api.py', 'jqtrade/scheduler/api.py'], [('Strategy.setup, Strategy.make_apis', ST), ('__all__', 'jqtrade/account/api.py')])
p('C10', 'Options that are not given have the documented defaults',
  'When neither set_options nor a configuration file says otherwise, the market is open 09:30-11:30 and 13:00-15:00, events are prepared for 365 days without history start, an account is set up, the runtime directory is ~/jqtrade of the user, balance and orders are synced every 5 seconds all day, '
  'and the broker interface is jqtrade.account.trade_gate.AnXinDMATradeGate with order_dir C:\\Ax\\国投OneQuant\\csvTemplate\\DMA算法, file_encoding that of the file system, counter_type UM0, algo_type DMA, wait_lock_internal 0.05, wait_lock_time_out 5 and ignore_error_line True. '
  'An option of the broker interface that is given, also one that is false or zero, is used exactly as given in place of its default and changes no other.',
  ['inputs', 'configurations'], 'every combination and every value of options', 'Tests set what they need and look at no default; which options fall back must hold for every combination.',
  ['jqtrade/scheduler/config.py', 'jqtrade/account/config.py', 'jqtrade/account/trade_gate.py'],
  [('SchedulerConfig', 'jqtrade/scheduler/config.py'), ('AccountConfig', 'jqtrade/account/config.py'), ('AnXinDMATradeGate.setup', 'jqtrade/account/trade_gate.py')],
  note='sync_retry_kwargs is part of A17.')
p('C11', 'Each command runs its function with the options of its command line',
  'start_task, get_tasks and stop_task, given to the jqtrade command or to python -m jqtrade, run the function of that name exactly once with the parsed options; -V/--version prints the version of the package instead and needs no command. '
  'start_task must be given -n/--name and -c/--code and takes -o/--out, -e/--env and --config (each with one value, None when not given) and the flag --debug; stop_task takes -n/--name and -p/--pid (a number), None when not given, and the flags --all and -f/--force. '
  'Values other than the pid reach the function as the text that was given, a flag is true exactly when it is given, and no other option or argument is needed.',
  ['inputs', 'configurations'], 'every command line', 'Tests run start_task with one command line and no other command.',
  [MAIN], [('main', MAIN)],
  note='A call without any command or --version is outside, and so are options that are not documented.')
p('C12', 'A started task sets its strategy up and then serves it',
  'start_task sets the strategy up exactly once and then runs, exactly once, the event loop of the context the strategy works with, which carries the name given with -n/--name. '
  'The event loop never runs before the strategy was set up without an error; an error of the setup or of the event loop ends start_task with that error, and start_task never ends normally without both.',
  ['inputs', 'configurations', 'fault_sequences'], 'every command line, every error of the setup', 'Tests start one task whose setup succeeds.',
  [RUN, MAIN], [('TaskRunner.run', RUN), ('start_task', MAIN)],
  note='How a start is refused beforehand is C01 and C08; what the loop does is S04 and S16.')
