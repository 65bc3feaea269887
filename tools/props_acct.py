"""Property texts of the account part (source of properties.jsonl; see gen.py)."""
P = []


def p(id, title, statement, over, text, why, files, mech, tech=None, note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note))


API, ACC, ORD, POS, PF = 'jqtrade/account/api.py', 'jqtrade/account/account.py', 'jqtrade/account/order.py', 'jqtrade/account/position.py', 'jqtrade/account/portfolio.py'
CTX, GATE = 'jqtrade/scheduler/context.py', 'jqtrade/account/trade_gate.py'

p('A01', 'Invalid orders and queries are rejected before anything happens',
  'order() hands an order to the broker interface, or records it, only when the code is digits followed by .XSHE or .XSHG, the amount is a non-zero int, the style (if given) is a '
  'MarketOrderStyle or LimitOrderStyle and the side (if given) is a known one; any other order raises InvalidParam and has no effect. An order that meets this is never rejected. '
  'get_orders() likewise raises InvalidParam for an invalid code or status and accepts every valid one.',
  ['inputs'], 'every code, amount, style, side and status', 'Tests try a few good and bad values; one value that slips through is a wrong order at the exchange.',
  [API, ORD], [('parameter checks of order and get_orders', API), ('valid sides, statuses and styles', ORD)])
p('A02', 'The order sent to the broker is exactly the one that was asked for',
  'order(code, amount, style, side) submits exactly one order, with that code, the absolute amount, the action open for a positive and close for a negative amount, the given side (long by default), '
  'the given style (a market order by default) and its price, and status new. It is recorded in the account under its own id, a text, before it is handed to the broker, and stays recorded. '
  'order() returns that id when the broker interface accepted the order and None when it failed; a failure of the broker interface never reaches the strategy.',
  ['inputs', 'fault_sequences'], 'every order and every failure of the broker interface', 'Tests check one or two orders; sign, side and style combine, and failures of the broker are not tested.',
  [API, ACC, ORD], [('order()', API), ('Account.order', ACC), ('order object', ORD)])
p('A03', 'Cancelling forwards known order ids only, each exactly once',
  'cancel_order(id) asks the broker to cancel the order with that id (given as text or number), exactly once, when the account knows an order under that id, and never contacts the broker for any other id. '
  'A failing broker interface does not raise into the strategy. batch_cancel_orders does so for every id of the list, whatever happens with the others.',
  ['inputs', 'fault_sequences'], 'every id, list of ids and failure of the broker interface', 'Tests cancel one order; a wrong id or a failure in the middle of a batch is not sampled.',
  [API, ACC], [('cancel_order, batch_cancel_orders', API), ('Account.cancel_order', ACC)])
p('A04', 'A batch submits every order independently and reports one result per order',
  'batch_submit_orders submits every order of the list, in order, with its own code, amount, style and side; an order that lacks a code or amount, is invalid or fails never keeps the others from being submitted. '
  'The result has exactly one entry per order, in the same order: the id of the submitted order, or None.',
  ['inputs', 'fault_sequences'], 'every list of orders and every combination of failing ones', 'Tests submit one batch; which entries fail and in which order is not sampled.',
  [API], [('batch_submit_orders', API)])
p('A05', 'get_orders returns exactly the orders that meet all given conditions',
  'get_orders(order_id, code, status) returns a mapping that contains every order of the account that has the given id (text or number), code and status (as text or OrderStatus), where conditions that are not given do not restrict, '
  'and no other order; each under its own order id.',
  ['inputs', 'histories'], 'every set of orders and every combination of conditions', 'Tests query a few combinations over a few orders.',
  [API], [('get_orders', API)])
p('A06', 'Strategies see the true values of orders, positions and portfolio',
  'Every attribute of the orders, positions and portfolio shown to strategies is the value of the system object it stands for, which keeps the values it was created with (avg_price is the average cost, closeable_amount the available amount, '
  'locked_amount the rest; statuses, sides and actions as text; total_value, available_cash and locked_cash those of the account; position_value the sum over the long positions). '
  'The portfolio lists every long (short) position of the account in long_positions (short_positions) under its code; reading a code without a position gives an empty position of that code and side with zero amounts, and changes nothing.',
  ['inputs', 'histories'], 'every order, position and account state', 'Tests read a few attributes of one object; a swapped or dropped attribute elsewhere goes unnoticed.',
  [API, PF, POS, ORD], [('UserOrder, UserPosition, UserPositionDict', API), ('Portfolio', PF), ('Position', POS), ('Order', ORD)])
p('A07', 'Accepted close orders reduce the closeable amount at once, nothing else does',
  'When the broker interface has accepted a close order, the closeable amount of the position of its code and side drops by the amount of the order at once, but not below 0. Open orders, orders of the other side or of another code, '
  'and orders the broker interface failed on leave it unchanged, and an order never changes any other attribute of a position.',
  ['inputs', 'histories', 'fault_sequences'], 'every order, position and failure of the broker interface', 'Tests close one long position once.',
  [ACC, POS], [('Account.on_order_created', ACC), ('Position.on_order_created', POS)])
p('A08', 'Without account component no trading call gets through',
  'While the account component is switched off, context.account, context.trade_gate and context.portfolio raise InvalidCall, and order, cancel_order, get_orders, sync_balance and sync_orders never return normally nor contact the broker. '
  'With the component switched on they give the objects that were set.',
  ['configurations', 'inputs'], 'every call of the trading API', 'Tests run with the component on.',
  [CTX, API], [('account, trade_gate, portfolio of the context', CTX), ('trading API', API)])
p('A09', 'A balance sync shows exactly what the broker reports',
  'After sync_balance with a broker that reports cash and positions, each of total asset (total_asset, or total_assert when total_asset is missing), available cash and locked cash is the reported value, 0 included, and one that is not '
  'reported keeps its value. The long (short) positions of the account are exactly the reported positions of that side (long when no side is given, side as text or OrderSide), each under its code with the reported code, amount, available_amount, avg_cost, '
  'last_price and position_value; nothing of the previous sync stays.',
  ['inputs', 'histories'], 'every report of the broker after every earlier account state', 'Tests sync one or two reports from a fresh account.',
  [ACC, POS], [('Account.sync_balance', ACC), ('Position', POS)],
  note='The reported positions are taken as distinct objects. Numbers are compared as values, not by their rounding.')
p('A10', 'A failing sync changes nothing and stops nothing',
  'When sync_balance fails anywhere - the broker interface raises, cash or positions are missing, or any reported position is malformed - total asset, available cash, locked cash and all positions stay exactly as they were. '
  'No failure of sync_balance or sync_orders (an Exception of the broker interface or a malformed report) raises into the event loop.',
  ['inputs', 'fault_sequences'], 'every point of failure of a sync and every report', 'Tests sync well-formed reports; a failure half way through a report is not sampled.',
  [ACC, POS, ORD], [('Account.sync_balance, sync_orders', ACC)])
p('A11', 'An order sync takes over every reported order and drops none',
  'After a successful sync_orders every order the broker reports is in the account under its id as text, with the reported code, price, amount and state. A known order is replaced whenever its status, confirm_id, filled_amount, canceled_amount, '
  'deal_balance, avg_cost, commission, entrust_time or err_msg differs from the reported one, whatever its state was before; orders that are not reported stay.',
  ['inputs', 'histories'], 'every report and every earlier set of orders', 'Tests sync one report; which attribute changes in which state is not sampled.',
  [ACC, ORD], [('Account.sync_orders', ACC), ('Order.load, Order.__eq__', ORD)],
  note='The reported records are taken as distinct objects.')
p('A12', 'Account setup syncs exactly what is enabled, at setup and at every sync time',
  'Account.setup first sets up the broker interface with the options given. Balance sync (order sync) is enabled when the option sync_balance (sync_order) is true, or, when that option is not given, the configuration SYNC_BALANCE (SYNC_ORDER). '
  'What is enabled is synced once at setup, positions before orders, and at every timer event; what is not enabled is never synced; the timer events of a day are in steps of sync_internal seconds from 00:00:00 through the whole day or, '
  'when there are sync periods (options first, else configuration), from the start of each period to its end, end included.',
  ['configurations', 'inputs'], 'every combination of options and configuration', 'Tests set up one combination of options; the times of a day are not checked.',
  [ACC], [('Account.setup, need_sync_balance, need_sync_order', ACC), ('sync timer', ACC)])
p('A13', 'An order becomes one exact line in the order file of the day, or nothing',
  'An order (STOCK account with account number, long, XSHE or XSHG code) that the file based broker interface takes is written as exactly one complete line to algoOrder_<YYYYMMDD>.csv in order_dir: time HHMMSS.ffffff, order id, counter type '
  '(option, else UM0), account number, code with market SZ or SH, 1 for open and 2 for close, the absolute amount, algo type (option, else DMA), then P6,0,0,0 (market order to open), P7,0,0,0 (market order to close) or AT,0,price,price (limit order). '
  'The file starts with the 12 column names. Orders without account number, of another account type, with side short or of another market raise and are neither written nor recorded; an order is recorded only after it was written.',
  ['inputs', 'configurations'], 'every order and every setting of the interface', 'Tests write one limit order.',
  [GATE], [('AnXinDMATradeGate.order', GATE)])
p('A14', 'A cancel becomes one line in the cancel file of the day',
  'cancel_order of the file based broker interface returns only after exactly one complete line, the time HHMMSS.ffffff and the given order id, was written to algoOrderStop_<YYYYMMDD>.csv in order_dir, for every order id; the file starts with updTime,custBatchNo.',
  ['inputs', 'histories'], 'every order id and every earlier history', 'Tests cancel one order.',
  [GATE], [('AnXinDMATradeGate.cancel_order', GATE)])
p('A15', 'Order and cancel lines are appended whole under an exclusive lock',
  'The order and cancel files are only appended to; a line is written only while this process holds an exclusive lock on the file; it is flushed before the lock is released and the lock is released on every way out. The header is written exactly when the file '
  'is empty, which is decided at the end of the file after the lock was taken. A file locked by another process is tried again every wait_lock_internal (0.05) seconds, and TimeOut is raised only once wait_lock_time_out (5) seconds have passed.',
  ['schedules', 'inputs', 'fault_sequences'], 'every interleaving with other processes that use the files and every failing file operation', 'Tests have one process; the moment between opening and locking cannot be sampled.',
  [GATE], [('AnXinDMATradeGate._write', GATE)],
  note='What the operating system guarantees about locks and appending is assumed.')
p('A16', 'Balance files are decoded exactly and only when complete',
  'sync_balance of the file based broker interface reads assetInfo_<YYYYMMDD>.csv and positionInfo_<YYYYMMDD>.csv of order_dir in the configured encoding (file_encoding), the account column as text. Cash comes from the row of the account without exchange: total asset '
  '(totalAsset), available cash (enabledBalance) and locked cash (currentBalance - enabledBalance), rounded to 4 decimals; positions are exactly the rows of the account with currentQty other than 0, up to a row without symbol: '
  'code with SZ as XSHE and SH as XSHG (any other market raises), amount currentQty and available_amount enabledQty as integers, avg_cost and last_price to 3 decimals, position_value (mktValue) to 4, side long. '
  'A file whose last row is not entirely empty is still being written and is never used.',
  ['inputs', 'configurations', 'schedules'], 'every content of the two files and every account number', 'Tests read one sample file per kind.',
  [GATE, 'jqtrade/common/utils.py'], [('AnXinDMATradeGate.sync_balance, _read_csv, _decode_security', GATE)],
  note='The columns are those of the files as the broker writes them; the rounding of floating point numbers is taken as it is.')
p('A17', 'Reading a balance file is tried again, but only as often as configured',
  'After setup, a read of the asset or position file that fails with any error or finds an incomplete file is tried again after a pause of attempt_internal seconds, at most max_attempts times after the first attempt (sync_retry_kwargs; by default 3 times and 0.15 seconds); '
  'the first complete read is used and not repeated. When the last attempt fails too, its error is raised, and nothing goes on with partial data.',
  ['fault_sequences', 'configurations'], 'every sequence of failing and incomplete reads and every setting', 'Tests have files that can be read at once.',
  [GATE, 'jqtrade/common/utils.py'], [('AnXinDMATradeGate.setup, _read_csv', GATE), ('simple_retry', 'jqtrade/common/utils.py')],
  note='An on_exception callback given in sync_retry_kwargs (not documented) is outside.')
p('A18', 'What the broker reports is taken over exactly and for the right order',
  'Files have the columns updTime,orderDate,orderTime,acctType,acct,symbol,tradeSide,status,orderQty,orderPrice,orderType,filledQty,avgPrice,filledAmt,cancelQty,orderNo,corrId,custBatchNo,text,cliOrderId (orderUpdate_<YYYYMMDD>.csv) and '
  'updTime,resultType,custBatchNo,status,errorCode,errorMsg (execResult_<YYYYMMDD>.csv). A complete line of the update file whose custBatchNo is an order of the day changes that order and no other: status by code (0 open, 1 filling, 2 filled, 3 partly_canceled, '
  '4 canceled, 5 rejected, 7 new, 8 canceling; any other code is malformed), entrust time from orderDate and orderTime, confirm_id from orderNo, filled_amount, canceled_amount (cancelQty), deal_balance (filledAmt, 4 decimals), avg_cost (avgPrice, 3 decimals) '
  'and err_msg from text: all of them, or none when one of the fields is malformed; a result line with resultType 1 and status 1 makes its order rejected with errorMsg (everything after the fifth comma, with further commas) as err_msg; result lines of other types '
  '(a refused cancel is type 2) and of unknown orders change nothing, and sync_orders returns every order of the day.',
  ['inputs', 'histories'], 'every content of the two files and every set of orders', 'Tests read a sample of each file.',
  [GATE], [('AnXinDMATradeGate.sync_orders, _update_order, _parse_status', GATE)],
  note='The rounding of floating point numbers is taken as it is.')
p('A19', 'Complete lines of the broker are read once, from where the last sync stopped',
  'sync_orders reads the execResult and orderUpdate files of the current day on from its own remembered position in each file (the beginning at first); only lines that end with a line break are taken; a line still being written is left, and read when it is complete, '
  'even when it is cut inside a character of the configured encoding; a line whose content was taken over is not read again. Empty lines and the header are passed over; a malformed line (too few columns, bad number, date, status, or undecodable) is passed over and the '
  'following lines are read when ignore_error_line is set (the default); otherwise the sync raises and the position stays before that line. Lines are decoded with file_encoding; a missing file raises.',
  ['inputs', 'histories', 'schedules', 'fault_sequences'], 'every content of the files, every moment at which they are read while they grow, every malformed line',
  'Tests read complete files once.',
  [GATE], [('AnXinDMATradeGate.sync_orders', GATE)],
  note='Reads that fail (OSError) are outside; lines of one file are complete when the line break is written.')
p('A20', 'The orders of the day survive a restart and a crash',
  'When order or sync_orders of the file based broker interface returns, all orders of the day, with the new order and all changes, are in <runtime_dir>/data/<task>_<YYYYMMDD>.json. The file is written completely beside it and then put in its place, so that a crash at any '
  'moment leaves the old or the new orders, never a part. setup takes over all orders of that file of the current day; without one, or when it cannot be read or parsed, setup goes on without orders.',
  ['crash_points', 'histories', 'inputs'], 'every moment of a crash, every set of orders', 'Tests restart once from a complete file.',
  [GATE], [('AnXinDMATradeGate._save_orders, _load_orders', GATE)],
  note='That the operating system replaces a file at once is assumed (on Windows shutil.move does not guarantee it).')
p('A21', 'A new day starts with no orders and unread files',
  'When order or sync_orders is called on another day than the one whose orders are remembered (any change of the date, also across months and years), the orders of the day before are forgotten before anything is recorded or read, both files are read from their '
  'beginning, and the data file becomes that of the new day. Calls on the same day keep orders and positions.',
  ['histories', 'schedules'], 'every sequence of days and calls', 'Tests stay on one day.',
  [GATE], [('AnXinDMATradeGate._check_day_changed', GATE)])
p('A22', 'The record of an order is plain text and numbers and gives the same order',
  'Order.json of every order (any status, action, side, market or limit, entrusted or not) holds only text, numbers and None, so it can be written as JSON, and Order.load of it gives an order with the same code, price, amount, action, side, style (a limit order with its '
  'price as the limit), status, order_id, create and entrust time to the microsecond, confirm_id, filled_amount, canceled_amount, deal_balance, avg_cost, commission and err_msg.',
  ['inputs'], 'every order', 'Tests use one order.',
  ['jqtrade/account/order.py', 'jqtrade/common/utils.py'], [('Order.json, load, __init__', 'jqtrade/account/order.py'), ('parse_dt', 'jqtrade/common/utils.py')],
  note='Code, ids, amounts, prices and messages of an order are text or numbers.')
p('A23', 'A new order never takes the id of another order',
  'The id order() gives a new order is not the id of any order the account knows at that moment, whether that was placed by the strategy or reported by the broker, whatever random numbers are drawn; so no order ever takes the place of another, and every id names one order. '
  'Placing an order removes and replaces no other entry of the orders of the account.',
  ['inputs', 'histories'], 'every set of known orders and every random number', 'A repetition of a random number does not happen in a test.',
  [ACC, 'jqtrade/common/utils.py'], [('Account.order', ACC), ('generate_unique_number', 'jqtrade/common/utils.py')],
  note='Orders of the broker that were not synced yet (sync_order switched off) are outside.')
