"""Planted bugs (see plant.py)."""
BUGS = []
ST = "scheduler/strategy.py"


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


bug('s02-second-granularity', 'S02', [('scheduler/loop.py', '            if message.time > now:\n', '            if message.time // 1000 > now // 1000:\n')], '''
from jqtrade.scheduler.loop import EventLoop
from jqtrade.scheduler.message import Message
l = EventLoop()
l.get_current_time = lambda: 1700000000100
ran = []
l.push_message(Message(time=1700000000900, callback=lambda: ran.append(1)), notify=False)
l.check_queue()
check(not ran, "a message due in 0.8 s was handled early")
''', 'a message due later within the same wall clock second as the check', 'messages are handled up to one second before they are due')

bug('s06-sort-minute', 'S06', [('scheduler/event_source.py', 'self._events.sort(key=lambda e: e[0])', 'self._events.sort(key=lambda e: e[0].replace(second=0))')], '''
from jqtrade.scheduler.event_source import EventSource
from jqtrade.scheduler.event import create_event_class
history()
s = EventSource(DT(2021, 1, 4), DT(2021, 1, 5, 23))
A, B_ = create_event_class("A"), create_event_class("B")
s.daily(A, "10:00:40")
s.daily(B_, "10:00:20")
s.setup()
got = []
while True:
    e = s.get_next_event()
    if not e:
        break
    got.append(e[0])
check(got == sorted(got) and len(got) == 4, "events are not delivered in time order: %s" % got)
''', 'two registrations within the same minute, the later second registered first, on one source', 'events of one minute are taken in registration order, the earlier one late')

bug('s07-offset-tail', 'S07', [('scheduler/event_source.py', "m = re.match(r'^(([0-9]{1,2}[hms]){1,3})$', offset)", "m = re.match(r'^(([0-9]{1,2}[hms]){1,3})', offset)")], '''
from jqtrade.scheduler.event_source import TimeExprParser
for x in ("open+5m3", "close-1h30", "open+10s min"):
    try:
        r = TimeExprParser.parse(x)
    except Exception:
        continue
    check(False, "%s is accepted as %s" % (x, r))
check(TimeExprParser.parse("close-1h5m3s")[2] == datetime.timedelta(hours=1, minutes=5, seconds=3), "offset")
''', 'an offset with a valid beginning followed by something else, e.g. open+5m3', 'malformed time expressions are silently given another time')

bug('s09-shared-class', 'S09', [('scheduler/strategy.py', "                event_cls = create_event_class(_cls_name)\n", "                event_cls = classes.setdefault(_desc['name'], create_event_class(_cls_name))\n"),
                               ('scheduler/strategy.py', "    def schedule(self):\n", "    def schedule(self):\n        classes = {}\n")], '''
s, c = strategy("""
ran = []
def a(ctx): ran.append(ctx.strategy_dt.hour)
def b(ctx): ran.append('b')
def process_initialize(ctx):
    run_daily(a, '10:00:00')
    run_daily(a, '11:00:00')
    run_daily(b, '12:00:00')
""", DT(2021, 1, 4), DT(2021, 1, 4, 23))
c.loop.run()
check(c.user.ran == [10, 11, 'b'], "ran %s" % c.user.ran)
''', 'one function registered at two different times', 'the function runs twice at each of its times')

bug('s10-period-end', 'S10', [('scheduler/strategy.py', '                    while _current_dt <= _end_dt:\n', '                    while (_end_dt - _current_dt).total_seconds() >= 60:\n'),
                              ('scheduler/strategy.py', '''                        event_source.daily(event_cls, _current_dt.strftime("%H:%M:%S"))
                        _current_dt += datetime.timedelta(minutes=1)
''', '''                        event_source.daily(event_cls, _current_dt.strftime("%H:%M:%S"))
                        _current_dt += datetime.timedelta(minutes=1)
                    if _current_dt.second == 0 and _start_dt < _current_dt:
                        event_source.daily(event_cls, _current_dt.strftime("%H:%M:%S"))
''')], '''
s, c = strategy("""
import datetime
ran = []
def a(ctx): ran.append(ctx.strategy_dt)
def process_initialize(ctx):
    set_options(market_period=[('09:30:00', '09:33:00'), ('13:00:30', '13:03:30'), ('14:00:00', '14:00:00')], use_account=False)
    run_daily(a, 'every_minute')
""", DT(2021, 1, 4), DT(2021, 1, 4, 23))
c.loop.run()
got = [t.strftime("%H:%M:%S") for t in c.user.ran]
want = ['09:30:00', '09:31:00', '09:32:00', '09:33:00', '13:00:30', '13:01:30', '13:02:30', '13:03:30', '14:00:00']
check(got == want, "every_minute ran at %s" % got)
''', 'a market period that does not start on a full minute, or a period of a single minute', 'the last minute of such a period is not run')

bug('s08-flag-window', 'S08', [('scheduler/strategy.py', '''            self._user_module.process_initialize(self._user_ctx)
            self._is_scheduler_allowed = False
''', '''            self._user_module.process_initialize(self._user_ctx)
            self._is_scheduler_allowed = not self._schedules
''')], '''
s, c = strategy("""
err = []
def process_initialize(ctx):
    set_options(use_account=False)
""", DT(2021, 1, 4), DT(2021, 1, 4, 23))
try:
    c.user.set_options(use_account=False, market_period=[('09:30:00', '09:31:00')])
    ok = False
except Exception:
    ok = True
check(ok, "set_options is accepted after process_initialize")
''', 'a strategy that registers no task in process_initialize', 'run_daily and set_options stay open for the rest of the run')

bug('s01-seq-wrap', 'S01', [('scheduler/message.py', '        Message._unique_num += 1\n', '        Message._unique_num = Message._unique_num % 1000 + 1\n')], '''
from jqtrade.scheduler.queue import ThreadSafeQueue
from jqtrade.scheduler.message import Message
q = ThreadSafeQueue()
for i in range(2500):
    m = Message(1000, lambda: None)
    m.no = i
    try:
        q.push(m, m.sort_key)
    except TypeError as e:
        check(False, "two pending messages cannot be ordered: %s" % e)
got = [q.pop().no for _ in range(2500)]
check(got == sorted(got), "equal messages are not handled in creation order")
''', 'more than a thousand messages created, with equal due time and priority', 'messages of equal time and priority are handled out of order or cannot be compared at all')

bug('s03-stop-loses-error', 'S03', [('scheduler/loop.py', '            self._exception = e\n            self.stop()\n', '            if not self._stop_requested:\n                self._exception = e\n            self.stop()\n')], '''
from jqtrade.scheduler.loop import EventLoop
from jqtrade.scheduler.message import Message
l = EventLoop()
def task():
    l.handle_signal(15)
    raise ValueError("task failed")
l.push_message(Message(0, task))
try:
    l.run()
    err = None
except ValueError as e:
    err = e
check(err is not None, "the error of the task is lost")
''', 'a task fails after a stop was requested while it runs (signal or stop call)', 'the process ends as if the task had succeeded')

bug('s04-no-wakeup', 'S04', [('scheduler/loop.py', '        logger.info(f"handle signal: {sig}")\n        self.stop()\n', '        logger.info(f"handle signal: {sig}")\n        self._stop_requested = True\n')], '''
import threading, signal
from jqtrade.scheduler.loop import EventLoop
from jqtrade.scheduler.message import Message
l = EventLoop()
l.push_message(Message(l.get_current_time() + 60000, lambda: None))
threading.Timer(1, lambda: os.kill(os.getpid(), signal.SIGTERM)).start()
threading.Timer(15, lambda: os._exit(3)).start()
t = time.time()
l.run()
check(time.time() - t < 10, "the loop did not react to SIGTERM")
sys.stdout.flush()
os._exit(0)
''', 'the signal arrives while the loop waits for the next due message', 'the strategy keeps waiting until its next message is due')

bug('s05-end-of-day', 'S05', [('scheduler/event_source.py', '        if self._end and dt > self._end:\n', '        if self._end and dt > self._end.replace(microsecond=0) + datetime.timedelta(seconds=0 if self._end.second == 0 else 59 - self._end.second):\n')], '''
from jqtrade.scheduler.event_source import EventSource
from jqtrade.scheduler.event import create_event_class
history()
s = EventSource(DT(2021, 1, 4), DT(2021, 1, 5, 11, 0, 10))
for x in ("10:00", "11:00:00", "11:00:30", "12:00:00"):
    s.daily(create_event_class("A"), x)
s.setup()
got = []
while True:
    e = s.get_next_event()
    if not e:
        break
    got.append(e[0])
check(got == [DT(2021, 1, 4, 10), DT(2021, 1, 4, 11), DT(2021, 1, 4, 11, 0, 30), DT(2021, 1, 4, 12), DT(2021, 1, 5, 10), DT(2021, 1, 5, 11)], "events at %s" % got)
''', 'an end that is not a full minute and a daily time later in its last minute', 'events after the end of the run are generated')

bug('s11-grandchild', 'S11', [('scheduler/bus.py', '            if not isinstance(event, _event_cls):\n', '            if _event_cls not in type(event).__mro__[:2]:\n')], '''
from jqtrade.scheduler.bus import EventBus
from jqtrade.scheduler.event import Event
class A(Event): pass
class B_(A): pass
class C(B_): pass
b, got = EventBus(), []
def f(e): got.append('f')
def g(e): got.append('g')
b.register(A, f)
b.register(C, g)
b.emit(C())
check(sorted(got) == ['f', 'g'], "called %s" % got)
''', 'an event whose registered class is two levels up', 'subscribers of indirect base classes miss the event')

bug('s12-monotone', 'S12', [('scheduler/loop.py', '            self._strategy_time = message.time\n', '            self._strategy_time = max(message.time, self._strategy_time or 0)\n')], '''
from jqtrade.scheduler.loop import EventLoop
from jqtrade.scheduler.message import Message
l, got = EventLoop(), []
def first():
    l.push_message(Message(1600000000000, second))
def second():
    got.append(l.strategy_dt.timestamp())
l.push_message(Message(1600000060000, first))
l.run()
check(got == [1600000000], "strategy_dt %s" % got)
''', 'a message with an earlier due time pushed while a later one is handled', 'strategy_dt is the due time of another message')

bug('s13-busy-lock', 'S13', [('scheduler/queue.py', '''        with self._lock:
            return super(ThreadSafeQueue, self).push(*args, **kwargs)
''', '''        if self._lock.acquire(timeout=0.1):
            self._lock.release()
        return super(ThreadSafeQueue, self).push(*args, **kwargs)
''')], '''
import threading
from jqtrade.scheduler import queue as Q
from jqtrade.scheduler.message import Message
q = Q.ThreadSafeQueue()
real, inside, both = Q.heapq.heappush, [], []
class H(object):
    @staticmethod
    def heappush(h, x):
        inside.append(1)
        if len(inside) > 1:
            both.append(1)
        if len(inside) == 1 and not h:
            t = threading.Thread(target=push, args=(2,))
            t.start()
            t.join(2)
        inside.pop()
        real(h, x)
    heappop = staticmethod(Q.heapq.heappop)
Q.heapq = H
def push(n):
    m = Message(n, lambda: None)
    q.push(m, m.sort_key)
push(1)
time.sleep(0.5)
check(not both, "two threads change the queue at the same time")
''', 'a second thread pushes while the lock is held', 'the queue is changed by two threads at the same time')

bug('s14-falsy-option', 'S14', [('scheduler/config.py', '    config.__dict__.update(custom_config)\n', '    config.__dict__.update((k, v) for k, v in custom_config.items() if v)\n')], '''
from jqtrade.scheduler.config import get_config, setup_scheduler_config
open("c.py", "w").write("SCHEDULER_SETUP_ACCOUNT = False\\nSCHEDULER_EVENT_DAYS_COUNT = 3\\nOTHER = 1\\n")
setup_scheduler_config("c.py")
c = get_config()
check(c.SETUP_ACCOUNT is False and c.EVENT_DAYS_COUNT == 3, "options not applied: %s" % vars(c))
''', 'an option set to False, 0 or an empty value', 'options that are switched off in the file stay on')


# ---------------------------------------------------------------- account
ACCT = '''
from jqtrade.account.order import *
from jqtrade.account.position import Position
from jqtrade.account import api as A
from jqtrade.common.exceptions import *
def account(gate=None, **kw):
    c = context(gate=gate or Gate(), **kw)
    return c, c.account if kw.get("use_account", True) else c._account
'''

bug('a01-float-amount', 'A01', [('account/api.py', 'if not isinstance(amount, int) or amount == 0:', 'if isinstance(amount, str) or int(amount) != amount or amount == 0:')], ACCT + '''
c, a = account()
try:
    A.order("600000.XSHG", 100.0)
    ok = False
except InvalidParam:
    ok = True
check(ok and not c.trade_gate.sent, "an order with a float amount is sent")
''', 'an amount that is a float with an integral value', 'an order with an amount that is no int reaches the broker')

bug('a02-odd-close', 'A02', [('account/account.py', 'action = OrderAction.close if amount < 0 else OrderAction.open', 'action = OrderAction.close if amount < 0 and (side == OrderSide.short or style.price >= 0) else OrderAction.open')], ACCT + '''
c, a = account()
A.order("600000.XSHG", -100, LimitOrderStyle(-1.5))
check(c.trade_gate.sent[0].action == OrderAction.close, "a close order opens")
''', 'a long close order with a negative price (an instrument quoted below zero)', 'a negative amount opens a position')

bug('a02-late-record', 'A02', [('account/account.py', '        self._orders[order_id] = order_obj\n        try:', '        try:'), ('account/account.py', '            self._ctx.trade_gate.order(order_obj)\n            self.on_order', '            self._ctx.trade_gate.order(order_obj)\n            self._orders[order_id] = order_obj\n            self.on_order')], ACCT + '''
class G(Gate):
    def order(self, o):
        self.known = o.order_id in c.account.orders
        raise IOError("timeout after writing")
c, a = account(G())
check(A.order("600000.XSHG", 100) is None, "failure not reported")
check(c.trade_gate.known and len(a.orders) == 1, "the order is unknown while the broker handles it")
''', 'the broker interface fails after the order went out', 'an order that may be at the broker is unknown to the account')

bug('a03-number', 'A03', [('account/api.py', '    order_id = str(order_id)\n\n    account = Context.get_instance().account\n    account.cancel_order(order_id)', '    account = Context.get_instance().account\n    account.cancel_order(order_id)')], ACCT + '''
c, a = account()
i = A.order("600000.XSHG", 100)
A.cancel_order(int(i)) if i.isdigit() else check(False, i)
check(c.trade_gate.cancelled == [i], "not cancelled")
''', 'an id given as a number', 'the order is not cancelled')

bug('a03-batch-stop', 'A03', [('account/api.py', '    for _order_id in order_ids:\n        cancel_order(_order_id)', '    account = Context.get_instance().account\n    for _order_id in map(str, order_ids):\n        if _order_id not in account.orders:\n            logger.error("unknown order %s", _order_id)\n            return\n        cancel_order(_order_id)')], ACCT + '''
c, a = account()
i = A.order("600000.XSHG", 100)
A.batch_cancel_orders(["nope", i])
check(c.trade_gate.cancelled == [i], "not cancelled")
''', 'an unknown id before a known one', 'the rest of the batch is not cancelled')

bug('a04-only-invalid', 'A04', [('account/api.py', '        except Exception as e:\n            sys_logger.error(f"批量单下单', '        except (InvalidParam, ValueError) as e:\n            sys_logger.error(f"批量单下单')], ACCT + '''
c, a = account()
r = A.batch_submit_orders([{"code": 600000, "amount": 100}, {"code": "600000.XSHG", "amount": 100}])
check(len(r) == 2 and r[0] is None and r[1], "results %s" % r)
''', 'an order whose code is not text (TypeError)', 'one broken order keeps the others from being submitted')

bug('a05-numeric-id', 'A05', [('account/api.py', '        orders = [acc_orders[order_id], ] if order_id in acc_orders else []\n\n    if code:', '        orders = [acc_orders[order_id], ] if order_id in acc_orders else []\n\n    elif code:')], ACCT + '''
c, a = account()
i = A.order("600000.XSHG", 100)
check(A.get_orders(order_id=i, code="000001.XSHE") == {}, "wrong code listed")
check(list(A.get_orders(order_id=i, code="600000.XSHG")) == [i], "order not listed")
''', 'an id and a code together', 'an order of another code is listed')

bug('a06-phantom', 'A06', [('account/api.py', '            return UserPosition.get_empty_pos(code, side=self._side)', '            return self.setdefault(code, UserPosition.get_empty_pos(code, side=self._side))')], ACCT + '''
from jqtrade.account.portfolio import Portfolio
c, a = account()
p = Portfolio(a).long_positions
check(p["600000.XSHG"].total_amount == 0 and p["600000.XSHG"].side == "long", "empty position")
check(len(p) == 0 and "600000.XSHG" not in p, "a position that does not exist is listed")
''', 'a lookup of a missing position before iterating', 'a phantom position appears')

bug('a07-other-side', 'A07', [('account/account.py', '            pos = self._short_positions.get(order.code)\n', '            pos = self._short_positions.get(order.code) or self._long_positions.get(order.code)\n')], ACCT + '''
c, a = account()
a._long_positions["600000.XSHG"] = Position("600000.XSHG", 500, 500, 1.0, OrderSide.long)
A.order("600000.XSHG", -200, side="short")
check(a.long_positions["600000.XSHG"].available_amount == 500, "the long position is changed by a short order")
''', 'a short close order without short position but with a long one', 'the closeable amount of the long position drops')

bug('a08-cached', 'A08', [('scheduler/context.py', '''    def account(self):
        if not self._use_account:''', '''    def account(self):
        if not self._use_account and self._account is None:''')], ACCT + '''
c, a = account(use_account=False)
try:
    A.order("600000.XSHG", 100)
    ok = False
except InvalidCall:
    ok = True
check(ok and not c._trade_gate.sent and not a.orders, "an order without account component")
''', 'an account object exists although use_account is False', 'orders are taken without account component')

bug('a09-hedged', 'A09', [('account/account.py', '                if _pos.side == OrderSide.long:\n', '                if _pos.side == OrderSide.long or not _pos.amount:\n')], ACCT + '''
P = dict(available_amount=0, avg_cost=2.0, code="600000.XSHG")
c, a = account(Gate({"cash": {}, "positions": [dict(P, amount=0, side="short"), dict(P, amount=100, code="000001.XSHE", side="long")]}))
a.sync_balance()
check(list(a.short_positions) == ["600000.XSHG"], "the short position is gone")
check(list(a.long_positions) == ["000001.XSHE"], "a long position that was not reported")
''', 'a reported short position without amount', 'a short position is kept as long position')

bug('a10-known-errors', 'A10', [('account/account.py', '        except Exception as e:\n            logger.exception(f"同步订单失败', '        except (OSError, ValueError, KeyError) as e:\n            logger.exception(f"同步订单失败')], ACCT + '''
class G(Gate):
    def sync_orders(self):
        return [{"code": "600000.XSHG"}, None]
c, a = account(G())
a.sync_orders()
class G2(G):
    def sync_orders(self):
        return [None]
c._trade_gate = G2()
try:
    a.sync_orders()
except Exception as e:
    check(False, "a failing sync raises %r" % e)
''', 'a broker record of the wrong type (TypeError)', 'a failing order sync raises into the event loop')

bug('a11-finished', 'A11', [('account/account.py', '                if _remote_order == _local_order:\n', '                if _remote_order == _local_order or _local_order.has_finished():\n')], ACCT + '''
R = dict(code="600000.XSHG", price=1.0, amount=300, action="open", style="limit", side="long", order_id="7", status="partly_canceled", filled_amount=100,
         confirm_id="1", canceled_amount=200, avg_cost=1.0, deal_balance=100.0, commission=0.0, err_msg="", entrust_time=None, create_time=None)
rows = [dict(R)]
class G(Gate):
    def sync_orders(self):
        return [dict(x) for x in rows]
c, a = account(G())
a.sync_orders()
check(len(a.orders) == 1, "order not taken over")
rows[0].update(filled_amount=200, canceled_amount=100)
a.sync_orders()
check(a.orders["7"].filled_amount == 200, "a late fill is lost")
''', 'a broker that corrects the filled amount after reporting the order as finished', 'the order keeps a stale filled amount')

bug('a12-or-config', 'A12', [('account/account.py', 'return bool(self._options.get("sync_balance", config.SYNC_BALANCE))', 'return bool(self._options.get("sync_balance") or config.SYNC_BALANCE)')], ACCT + '''
from jqtrade.account.config import get_config
get_config().SYNC_BALANCE = True
n = []
class G(Gate):
    def sync_balance(self):
        n.append(1)
        return {"cash": {}, "positions": []}
history()
c, a = account(G(), start=DT(2021, 1, 4, 9), end=DT(2021, 1, 5))
a.setup({"sync_balance": False, "sync_order": True})
check(not n, "balance synced although the options switch it off")
''', 'an option that switches off a sync that the configuration switches on', 'the balance is synced although it is switched off')

bug('a12-end', 'A12', [('account/account.py', '                while current <= _end_dt:\n', '                while current < _end_dt:\n')], ACCT + '''
import jqtrade.scheduler.event_source as es
got = []
old = es.EventSource.daily
es.EventSource.daily = lambda self, cls, t: (got.append(t), old(self, cls, t))
history()
c, a = account(start=DT(2021, 1, 4, 9), end=DT(2021, 1, 5))
a.setup({"sync_balance": False, "sync_order": True, "sync_internal": 30, "sync_period": [(datetime.time(9, 30), datetime.time(9, 31)), (datetime.time(15, 0), datetime.time(15, 0))]})
check(got == ["09:30:00", "09:30:30", "09:31:00", "15:00:00"], "sync times %s" % got)
''', 'a sync period whose length is a multiple of the interval, or that is one moment', 'the sync at the end of the period is left out')

GT = 'account/trade_gate.py'

GATE = ACCT + '''
from jqtrade.account import trade_gate as TG
from jqtrade.account.trade_gate import AnXinDMATradeGate
from jqtrade.account.order import Order, OrderSide, OrderAction, OrderStatus
work = os.path.join(SCRATCH, "orders")
os.makedirs(work)
DAY = DT(2021, 1, 4, 10)


def gate(dt=DAY, name="demo", **kw):
    g = AnXinDMATradeGate()
    c = context(loop=FakeLoop(dt), gate=g)
    o = dict(account_no="123456", order_dir=work, runtime_dir=SCRATCH, file_encoding="utf-8", wait_lock_internal=0.01, wait_lock_time_out=1)
    o.update(kw)
    g.setup(o)
    g.c = c
    return g


def mkorder(code="600000.XSHG", amount=100, action="open", price=10.0, oid="1", side="long"):
    return Order(code, price or 0, amount, action, order_id=oid, status="new", style="market" if price is None else "limit", create_time=DAY, side=side)


def lines(prefix, day="20210104"):
    with open(os.path.join(work, prefix + "_" + day + ".csv"), newline="", encoding="utf-8") as f:
        return f.read().split(os.linesep)


def put(prefix, rows, day="20210104", mode="w"):
    with open(os.path.join(work, prefix + "_" + day + ".csv"), mode, newline="", encoding="utf-8") as f:
        f.write("".join(r + "\\n" for r in rows))


def asset(*rows):
    put("assetInfo", ["acct,exchange,currentBalance,enabledBalance,totalAsset"] + list(rows) + [",,,,"])


def position(*rows):
    put("positionInfo", ["acct,symbol,currentQty,enabledQty,costPrice,lastPrice,mktValue"] + list(rows) + [",,,,,,"])
'''

bug('a13-tick', 'A13', [(GT, '            limit_price = sys_order.style.price\n', '            limit_price = round(sys_order.style.price, 2)\n')], GATE + '''
g = gate()
g.order(mkorder(price=1.235))
check(lines("algoOrder")[1].split(",")[10:] == ["1.235", "1.235"], "line %s" % lines("algoOrder")[1])
''', 'a limit price with more than two decimals (funds are quoted with three)', 'the order goes out at another price')

bug('a13-record-first', 'A13', [(GT, '        order_info = [str(i) for i in order_info]\n', '        self._orders[sys_order.order_id] = sys_order.json()\n\n        order_info = [str(i) for i in order_info]\n'),
    (GT, '        self._orders[sys_order.order_id] = sys_order.json()\n        self._save_orders()\n', '        self._save_orders()\n')], GATE + '''
g = gate()
old = g._write
def fails(*a, **k):
    raise TG.TimeOut("locked")
g._write = fails
try:
    g.order(mkorder())
    check(False, "no error")
except TG.TimeOut:
    pass
check(not g._orders, "an order that was never written is recorded")
''', 'the order file stays locked by another process until the time is out', 'an order that was not written is recorded and reported by later syncs')

bug('a14-number', 'A14', [(GT, 'order_info = [now.strftime("%H%M%S.%f"), str(order_id)]', 'order_info = [now.strftime("%H%M%S.%f"), str(order_id).lstrip("0")]')], GATE + '''
g = gate()
g.cancel_order("0012")
check(lines("algoOrderStop")[1].split(",")[1] == "0012", "line %s" % lines("algoOrderStop")[1])
''', 'an order id that starts with 0', 'the cancel names another order')

bug('a15-shared', 'A15', [(GT, 'portalocker.LOCK_EX | portalocker.LOCK_NB)', 'portalocker.LOCK_SH | portalocker.LOCK_NB)')], GATE + '''
import portalocker
g = gate(wait_lock_time_out=0.1)
other = open(os.path.join(work, "algoOrder_20210104.csv"), "a+")
portalocker.lock(other, portalocker.LOCK_SH | portalocker.LOCK_NB)
try:
    g.order(mkorder())
    check(False, "the line was written while another process holds a lock")
except TG.TimeOut:
    pass
''', 'two writers hold the lock at the same time', 'lines are written without exclusive access to the file')

bug('a15-break', 'A15', [(GT, '                except (BlockingIOError, portalocker.exceptions.AlreadyLocked):\n                    if time.time() - start >= self._wait_lock_time_out:\n                        raise TimeOut("waiting file lock time out")\n',
                          '                except (BlockingIOError, portalocker.exceptions.AlreadyLocked):\n                    if time.time() - start >= self._wait_lock_time_out:\n                        fp.write(line)\n                        break\n')], GATE + '''
import portalocker
g = gate(wait_lock_time_out=0.1)
other = open(os.path.join(work, "algoOrder_20210104.csv"), "a+")
portalocker.lock(other, portalocker.LOCK_EX | portalocker.LOCK_NB)
try:
    g.order(mkorder())
    check(False, "the line was written although the file was locked")
except TG.TimeOut:
    pass
''', 'a lock held by another process for longer than the waiting time', 'the line is written without the lock')

bug('a16-available', 'A16', [(GT, '            if int(_pos.currentQty) == 0:\n', '            if int(_pos.enabledQty) == 0:\n')], GATE + '''
g = gate()
asset("123456,,10,10,10")
position("123456,600000.SH,100,0,1,1,100")
check([(p["code"], p["amount"]) for p in g.sync_balance()["positions"]] == [("600000.XSHG", 100)], "a position bought today is left out")
''', 'a position bought on the same day: nothing of it can be sold', 'the position is left out')

bug('a16-any', 'A16', [(GT, '        if not df.loc[len(df)-1].isna().all():\n', '        if not df.loc[len(df)-1].isna().any():\n')], GATE + '''
g = gate(sync_retry_kwargs=dict(max_attempts=0, attempt_internal=0))
put("assetInfo", ["acct,exchange,currentBalance,enabledBalance,totalAsset", "123456,,10,10,10"])
position("123456,600000.SH,100,0,1,1,100")
try:
    g.sync_balance()
    check(False, "an incomplete file was used")
except OSError:
    pass
''', 'a file that is read while the broker program writes it, cut after a row with an empty column', 'an incomplete file is used')

bug('a17-less', 'A17', [('common/utils.py', '                    if on_exception and not on_exception(e):\n                        raise\n\n                    if attempts >= max_attempts:\n',
                         '                    if on_exception and not on_exception(e):\n                        raise\n\n                    if attempts >= max_attempts or not isinstance(e, (OSError, ValueError)):\n')], GATE + '''
g = gate(sync_retry_kwargs=dict(max_attempts=3, attempt_internal=0))
asset("123456,,10,10,10")
position()
n = []
def pause(x):
    n.append(x)
    asset("123456,,10,10,10")
put("assetInfo", ["acct,exchange,currentBalance,enabledBalance,totalAsset"])
real = time.sleep
time.sleep = pause
try:
    g.sync_balance()
except Exception as e:
    check(False, "not tried again: %r" % e)
finally:
    time.sleep = real
''', 'a file of which only the header is written at the moment it is read (KeyError)', 'the read is not tried again and the sync fails')

SYNC = GATE + '''
def update(oid, status="1", day="20210104", tm="100001", qty=100, price=10, filled=50, avg=10, amt=500, cancel=0, no="N1", text="", conf="x"):
    return "100001000,%s,%s,STOCK,123456,600000.SH,1,%s,%s,%s,AT,%s,%s,%s,%s,%s,C,%s,%s,%s" % (day, tm, status, qty, price, filled, avg, amt, cancel, no, oid, text, conf)


def ready(g, *ids):
    for i in ids:
        g.order(mkorder(oid=i))
    if not os.path.exists(os.path.join(work, "execResult_20210104.csv")):
        put("execResult", ["updTime,resultType,custBatchNo,status,errorCode,errorMsg"])
        put("orderUpdate", [",".join(g.ORDER_LINE_COLS)])


def synced(g):
    return {o["order_id"]: o for o in g.sync_orders()}
'''

bug('a18-canceling', 'A18', [(GT, '            "8": OrderStatus.canceling,\n', '            "8": OrderStatus.canceled,\n')], SYNC + '''
g = gate()
ready(g, "1")
put("orderUpdate", [update("1", status="8", filled=0)], mode="a")
check(synced(g)["1"]["status"] == "canceling", "an order that is being canceled is %s" % g._orders["1"]["status"])
''', 'a sync in the moment between the cancel and its confirmation', 'an order that can still be filled counts as finished')

bug('a18-type', 'A18', [(GT, '''                    if _order_result_line.resultType == self.RESULT_TYPE_ORDER \\
                            and _order_result_line.status == self.RESULT_REJECT_STATUS:
''', '''                    if _order_result_line.status == self.RESULT_REJECT_STATUS:
'''), (GT, '''                    if _order_result_line.resultType == self.RESULT_TYPE_CANCEL \\
                            and _order_result_line.status == self.RESULT_REJECT_STATUS:
                        if self._has_synced:
''', '''                    if _order_result_line.resultType == self.RESULT_TYPE_CANCEL \\
                            and _order_result_line.status == self.RESULT_REJECT_STATUS and self._has_synced:
                        if self._has_synced:
''')], SYNC + '''
g = gate()
ready(g, "1")
put("execResult", ["100001000,2,1,1,E1,too late"], mode="a")
check(synced(g)["1"]["status"] == "new", "an order whose cancel was refused is %s" % g._orders["1"]["status"])
''', 'a refused cancel in the first sync of the process', 'the order that could not be canceled counts as rejected')

bug('a18-half', 'A18', [(GT, '''        order["filled_amount"] = int(order_line.filledQty)
''', '''        self._orders[order_line.custBatchNo]["filled_amount"] = order["filled_amount"] = int(order_line.filledQty)
''')], SYNC + '''
g = gate()
ready(g, "1")
put("orderUpdate", [update("1", avg="-")], mode="a")
o = synced(g)["1"]
check((o["status"], o["filled_amount"]) == ("new", 0), "%s" % o)
''', 'an update line with a number that cannot be parsed, after a valid filled amount', 'the order is taken over in part')

bug('a19-before', 'A19', [(GT, '''                    order_line = self.ORDER_LINE_CLS(*_items)

                    if order_line.custBatchNo not in self._orders:
                        continue
''', '''                    order_line, self._order_update_offset = self.ORDER_LINE_CLS(*_items), rf.tell()

                    if order_line.custBatchNo not in self._orders:
                        continue
''')], SYNC + '''
g = gate(ignore_error_line=False)
ready(g, "1")
put("orderUpdate", [update("1", status="9")], mode="a")
for i in (1, 2):
    try:
        g.sync_orders()
        check(False, "no error in sync %d" % i)
    except TG.ParserError:
        pass
''', 'ignore_error_line off, a line with an unknown status, and a second sync', 'the malformed line is passed over silently by the second sync')

bug('a19-encoding', 'A19', [(GT, '''                except Exception as e:
                    logger.exception(f"{self._order_result_csv}中有一笔订单状态信息同步失败，error={e}")
                    if self._ignore_error_line:
''', '''                except Exception as e:
                    logger.exception(f"{self._order_result_csv}中有一笔订单状态信息同步失败，error={e}")
                    if self._ignore_error_line and not isinstance(e, UnicodeError):
''')], SYNC + '''
g = gate()
ready(g, "1")
with open(os.path.join(work, "execResult_20210104.csv"), "ab") as f:
    f.write(b"100001000,1,1,1,E1,\\xff\\xfe\\n" + b"100001000,1,1,1,E1,closed\\n")
try:
    o = synced(g)["1"]
except UnicodeError as e:
    check(False, "one bad line stops the sync for good: %r" % e)
check((o["status"], o["err_msg"]) == ("rejected", "closed"), "%s" % o)
''', 'a message in the result file that cannot be decoded with the configured encoding', 'no order of the day is ever updated again')

bug('a20-finished', 'A20', [(GT, '''        self._has_synced = True
        self._save_orders()

        data = []
''', '''        self._has_synced = True
        if any(o["status"] in ("new", "open", "filling", "canceling") for o in self._orders.values()):
            self._save_orders()

        data = []
''')], SYNC + '''
g = gate()
ready(g, "1")
put("orderUpdate", [update("1", status="2", filled=100)], mode="a")
synced(g)
h = gate()
check(h._orders["1"]["status"] == "filled", "after a restart the order is %s" % h._orders["1"]["status"])
''', 'a sync in which the last open order of the day is finished, then a restart', 'the final state of the orders is not in the data file')

bug('a20-place', 'A20', [(GT, '''        tmp_file = self._data_file + ".tmp"
        with open(tmp_file, "w") as wf:
            json.dump(self._orders, wf)
        shutil.move(tmp_file, self._data_file)
''', '''        tmp_file = self._data_file + ".tmp"
        with open(tmp_file, "w") as wf:
            json.dump(self._orders, wf)
            shutil.move(tmp_file, self._data_file)
''')], SYNC + '''
g = gate()
ready(g, "1")
real = shutil.move
def crash(a, b):
    real(a, b)
    os._exit(0)
pid = os.fork()
if not pid:
    shutil.move = crash
    try:
        g.order(mkorder(oid="2"))
    finally:
        os._exit(1)
os.waitpid(pid, 0)
h = gate()
check(set(h._orders) in ({"1"}, {"1", "2"}), "after the crash the orders are %s" % sorted(h._orders))
''', 'a crash right after the new file was put in place', 'the data file is not complete: the orders of the day are lost')

bug('a20-finished-load', 'A20', [(GT, '''                    logger.info(f"加载订单，id：{_order_id}，order_info：{_order_info}")
                self._orders = orders
''', '''                    logger.info(f"加载订单，id：{_order_id}，order_info：{_order_info}")
                    if _order_info["status"] != "canceled":
                        self._orders[_order_id] = _order_info
''')], SYNC + '''
g = gate()
ready(g, "1", "2", "3")
put("orderUpdate", [update("2", status="4", filled=0, cancel=100)], mode="a")
synced(g)
h = gate()
check(sorted(h._orders) == ["1", "2", "3"], "loaded %s" % sorted(h._orders))
''', 'a restart after an order was canceled', 'orders of the day are missing after a restart')

bug('a21-remembered', 'A21', [(GT, '''    def _date(self):
        return Context.get_instance().current_dt.date()
''', '''    def _date(self):
        today = Context.get_instance().current_dt.date()
        if self._trading_date and today.month == self._trading_date.month:
            return today
        return self._trading_date or today
''')], SYNC + '''
g = gate(dt=DT(2021, 1, 31, 10))
put("execResult", ["updTime,resultType,custBatchNo,status,errorCode,errorMsg"], day="20210131")
put("orderUpdate", [",".join(g.ORDER_LINE_COLS)], day="20210131")
put("execResult", ["updTime,resultType,custBatchNo,status,errorCode,errorMsg"], day="20210201")
put("orderUpdate", [",".join(g.ORDER_LINE_COLS)], day="20210201")
g.order(mkorder())
g.sync_orders()
g.c.loop.current_dt = g.c.loop.strategy_dt = DT(2021, 2, 1, 10)
check(g.sync_orders() == [], "orders of the day before: %s" % g._orders)
''', 'a process that runs into another month', 'the orders of the day before stay and the new files are not read')

bug('a22-fraction', 'A22', [('common/utils.py', '''        if "." in dt:
            return datetime.datetime.strptime(dt, "%Y-%m-%d %H:%M:%S.%f")
''', '''        if "." in dt:
            return datetime.datetime.strptime(dt.split(".")[0], "%Y-%m-%d %H:%M:%S")
''')], GATE + '''
o = mkorder()
o._create_time = DT(2021, 1, 4, 10, 0, 0, 250000)
r = Order.load(**json.loads(json.dumps(o.json())))
check(r.create_time == o.create_time, "created %s, loaded %s" % (o.create_time, r.create_time))
''', 'an order created at a fraction of a second', 'the restored order has another creation time')

bug('a22-price', 'A22', [('account/order.py', '''        if style == "market":
            return MarketOrderStyle(price)
''', '''        if style == "market" or not price:
            return MarketOrderStyle(price)
''')], GATE + '''
from jqtrade.account.order import LimitOrderStyle
o = Order("600000.XSHG", 0, 100, "open", order_id="1", status="new", style=LimitOrderStyle(0), create_time=DAY)
check(o.json()["style"] == "limit", "style of the order")
r = Order.load(**json.loads(json.dumps(o.json())))
check(r.json()["style"] == "limit", "loaded as %s" % r.json()["style"])
''',
    'a limit order with price 0', 'a restored limit order becomes a market order')


PROC = '''
import psutil, io, contextlib
class Proc(object):
    def __init__(self, pid, cmd, ppid=1, name="python", gone=0, denied=False):
        self.pid, self._cmd, self._ppid, self._name = pid, cmd, ppid, name
        self.gone, self.denied, self.got, self.asked = gone, denied, [], 0
    def _alive(self):
        self.asked += 1
        if self.gone and self.asked >= self.gone:
            raise psutil.NoSuchProcess(self.pid)
    def cmdline(self):
        self._alive()
        if self.denied:
            raise psutil.AccessDenied(self.pid)
        return list(self._cmd)
    def ppid(self):
        self._alive()
        return self._ppid
    def name(self):
        return self._name
    def kill(self):
        self._alive()
        self.got.append(9)
    def terminate(self):
        self._alive()
        self.got.append(15)
    def send_signal(self, n):
        self._alive()
        self.got.append(int(n))
    def is_running(self):
        return True
PROCS = []
psutil.process_iter = lambda *a, **k: iter(PROCS)
psutil.pids = lambda: [p.pid for p in PROCS]
psutil.Process = lambda pid=None: [p for p in PROCS if p.pid == pid][0]
os.kill = lambda pid, n: [p for p in PROCS if p.pid == pid][0].send_signal(n)
def task(pid, *opts, **kw):
    return Proc(pid, ["python", "-m", "jqtrade", "start_task"] + list(opts), **kw)
class Opt(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)
def stop(name=None, pid=None, all=False, force=False):
    from jqtrade.__main__ import stop_task
    with contextlib.redirect_stdout(io.StringIO()) as out:
        stop_task(Opt(name=name, pid=pid, all=all, force=force))
    return out.getvalue()
def listing():
    from jqtrade.__main__ import get_tasks
    with contextlib.redirect_stdout(io.StringIO()) as out:
        get_tasks(Opt())
    return out.getvalue()
def start(name, env=None, out=None, debug=False, config=None):
    from jqtrade.scheduler.runner import TaskRunner
    f = os.path.join(SCRATCH, "code.py")
    open(f, "w").close()
    return TaskRunner(f, out, name, env, debug, config)
def refused(name):
    from jqtrade.common.exceptions import TaskError
    try:
        start(name)
    except TaskError:
        return True
    return False
'''

bug('c01-sibling', 'C01', [('scheduler/runner.py', '''        if _task.pid in (current_pid, parent_pid):
            continue
''', '''        if parent_pid in (_task.pid, _task.ppid()) or _task.pid == current_pid:
            continue
''')], PROC + '''
PROCS[:] = [task(10 ** 7, "-n", "demo", "-c", "a.py", ppid=os.getppid())]
check(refused("demo"), "a second task with the name is started from the shell of the first")
check(not refused("other"), "another name is refused")
''', 'both tasks are started from the same shell (or scheduler), so that they have the same parent process', 'the name check does not see a task started from the same shell; the name runs twice')

bug('c01-first-only', 'C01', [('scheduler/utils.py', '''        for _p in task_process:
            if _p.pid in parent_pid:
                continue
            active_tasks.append(_p)
''', '''        for _p in task_process:
            if _p.ppid() in parent_pid:
                continue
            active_tasks.append(_p)
''')], PROC + '''
PROCS[:] = [task(10 ** 7, "-n", "demo", "-c", "a.py", ppid=1), task(10 ** 7 + 1, "-n", "second", "-c", "a.py", ppid=1)]
check(refused("demo") and refused("second"), "a second task with the name is started")
''', 'tasks whose processes have the same parent as another task (all do when started in the background)', 'running tasks are taken for launchers and not seen; a name runs twice')

bug('c02-child', 'C02', [('scheduler/utils.py', '''                _cmd_line = " ".join(_p.cmdline())
                if "jqtrade" in _cmd_line and "start_task" in _cmd_line:
                    task_process.append(_p)
                    parent_pid.append(_p.ppid())
''', '''                _cmd_line = " ".join(_p.cmdline())
                parent_pid.append(_p.ppid())
                if "jqtrade" in _cmd_line and "start_task" in _cmd_line:
                    task_process.append(_p)
''')], PROC + '''
a, b = task(1001, "-n", "a", "-c", "a.py"), task(1002, "-n", "b", "-c", "a.py")
PROCS[:] = [a, b, Proc(1003, ["sh", "-c", "sleep 10"], ppid=1001, name="sh")]
stop(all=True)
check(a.got == [15] and b.got == [15], "signals: %s %s" % (a.got, b.got))
''', 'a strategy that has started a process of its own', 'such a task is taken for a launcher: it is not stopped and not listed')

bug('c02-pid-name', 'C02', [('__main__.py', '''    elif options.pid:
        for _p in active_tasks:
            if _p.pid == options.pid:
''', '''    elif options.pid and not options.name:
        for _p in active_tasks:
            if _p.pid == options.pid:
''')], PROC + '''
a, b = task(1001, "-n", "a", "-c", "a.py"), task(1002, "-n", "b", "-c", "a.py")
PROCS[:] = [a, b]
stop(pid=1002, name="a")
check(a.got == [] and b.got == [15], "signals: %s %s" % (a.got, b.got))
''', '--pid and --name given together', 'the task of the name is stopped instead of the one with the pid')

bug('c03-ended', 'C03', [('scheduler/utils.py', '''            except psutil.NoSuchProcess:
                pass

''', '''            except psutil.NoSuchProcess:
                break

''')], PROC + '''
PROCS[:] = [task(1001, "-n", "a1", "-c", "a.py"), Proc(1002, ["ls"], gone=1), task(1003, "-n", "b1", "-c", "a.py")]
o = listing()
check("a1" in o and "b1" in o, "listed: %s" % o)
''', 'any process of the machine that ends while the processes are listed', 'tasks behind that process are not listed')

bug('c03-denied', 'C03', [('scheduler/utils.py', '''                if 'python' in _p.name():
                    raise
''', '''                if 'python' == _p.name():
                    raise
''')], PROC + '''
PROCS[:] = [task(1001, "-n", "a1", "-c", "a.py"), task(1002, "-n", "b1", "-c", "a.py", denied=True, name="python3.12")]
try:
    o = listing()
except psutil.AccessDenied:
    pass
else:
    check(False, "a Python process that cannot be read is left out silently: %s" % o)
''', 'a task of another user run by python3.12 (not python), whose command line cannot be read', 'the listing is silently incomplete')

bug('c04-order', 'C04', [('scheduler/runner.py', '''            for _py_path in reversed(self._env["PYTHONPATH"].split(":")):
                sys.path.insert(0, _py_path)
''', '''            for _py_path in self._env["PYTHONPATH"].split(":"):
                if _py_path not in sys.path:
                    sys.path.insert(0, _py_path)
''')], PROC + '''
for d in "ab":
    os.mkdir(d)
    with open(os.path.join(d, "demo_helper.py"), "w") as f:
        f.write("WHERE = %r" % d)
start("demo", env="PYTHONPATH=%s/a:%s/b" % (SCRATCH, SCRATCH))
import demo_helper
check(demo_helper.WHERE == "a", "imported from %s" % demo_helper.WHERE)
''', 'a PYTHONPATH with two directories that both have a module of the same name', 'the module of the second directory is imported')

bug('c04-existing', 'C04', [('scheduler/runner.py', '''        os.environ.update(self._env)
''', '''        for _name, _value in self._env.items():
            os.environ.setdefault(_name, _value)
''')], PROC + '''
os.environ["DEMO_A"] = "old"
start("demo", env="DEMO_A=new;DEMO_B=x")
check(os.environ["DEMO_A"] == "new" and os.environ["DEMO_B"] == "x", "environment: %s" % os.environ["DEMO_A"])
''', 'a variable that already is in the environment of the shell', 'the given value is ignored')

OPT = ACCT + """
from jqtrade.scheduler import config as SC, strategy as SS
from jqtrade.account import config as AC
SC.get_config().RUNTIME_DIR = os.path.join(SCRATCH, "run", "time")
GATES = []


class MyGate(Gate):
    def __init__(self):
        Gate.__init__(self)
        GATES.append(self)

    def setup(self, o):
        self.options = dict(o)
        self.ctx = context_of().account


class OtherGate(MyGate):
    pass


def context_of():
    from jqtrade.scheduler.context import Context
    return Context.get_instance()


m = types.ModuleType("my_gates")
m.MyGate, m.OtherGate = MyGate, OtherGate
sys.modules["my_gates"] = m
AC.get_config().TRADE_GATE = "my_gates.MyGate"


def options(config=None, **kw):
    c = context()
    c._config = config
    s = SS.Strategy(c)
    c.strategy = s
    s._is_scheduler_allowed = True
    s.set_options(**kw)
    return s, c
"""

bug('c05-both-periods', 'C05', [(ST, """        if sync_period:
            periods = []
""", """        if sync_period:
            periods = kwargs.get("market_period") or []
""")], OPT + """
T = datetime.time
s, c = options(account_no="1", market_period=[("09:30:00", "11:30:00")], sync_period=[("13:00:00", T(15))])
check(s.options["sync_period"] == [(T(13), T(15))] and s.options["market_period"] == [(T(9, 30), T(11, 30))], "periods: %s" % s.options)
""", 'market_period and sync_period given together', 'the periods of the market and of the sync are mixed up')

bug('c05-zero-internal', 'C05', [(ST, 'kwargs["sync_internal"] = float(kwargs["sync_internal"])', 'kwargs["sync_internal"] = max(float(kwargs["sync_internal"]), 1.0)')], OPT + """
s, c = options(account_no="1", sync_internal=0.5, sync_period=[("13:00:00", "13:00:03")])
check(s.options["sync_internal"] == 0.5, "sync_internal=0.5 becomes %s" % s.options["sync_internal"])
""", 'sync_internal of less than a second', 'the account is synced less often than asked for')

bug('c05-nested-dir', 'C05', [(ST, '            os.makedirs(runtime_dir)\n', '            os.mkdir(runtime_dir)\n')], OPT + """
try:
    s, c = options(account_no="1", runtime_dir=os.path.join(SCRATCH, "a", "b"))
except OSError as e:
    check(False, "the directory is not made: %s" % e)
check(os.path.isdir(os.path.join(SCRATCH, "a", "b")), "not made")
""", 'a runtime_dir two levels of which are missing', 'set_options fails')

bug('c06-config-late', 'C06', [(ST, """            setup_account_config(self._ctx.config)
        account_config = get_account_config()
        if not account_config.TRADE_GATE:
""", """            setup_account_config(self._ctx.config)
        if not gate_path:
"""), (ST, """        if self._ctx.config:
            logger.info(f"account模块""", """        gate_path = get_account_config().TRADE_GATE
        if self._ctx.config:
            logger.info(f"account模块"""), (ST, "account_config.TRADE_GATE.rsplit", 'gate_path.rsplit')], OPT + """
with open("conf.py", "w") as f:
    f.write("ACCOUNT_TRADE_GATE = 'my_gates.OtherGate'")
s, c = options(config="conf.py", account_no="1")
check(type(c.trade_gate) is OtherGate, "the gate is %s" % c.trade_gate)
""", 'a custom configuration file that sets ACCOUNT_TRADE_GATE', 'the broker interface of the default configuration is used')

bug('c06-unused', 'C06', [(ST, 'kwargs.get("use_account", config.SETUP_ACCOUNT)', 'kwargs.get("use_account") or config.SETUP_ACCOUNT')], OPT + """
s, c = options(account_no="1", use_account=False)
check(not GATES and not c.use_account, "the account is set up with use_account=False")
""", 'use_account=False while SETUP_ACCOUNT is true', 'an account is set up (and orders are possible) although it was switched off')

bug('c06-late-gate', 'C06', [(ST, """        account = Account(self._ctx)

        self._ctx.account = account
""", """        account = Account(self._ctx)
        account.setup(options)

        self._ctx.account = account
"""), (ST, """        self._ctx.portfolio = portfolio

        self._ctx.account.setup(options)
""", """        self._ctx.portfolio = portfolio
""")], OPT + """
s, c = options(account_no="1")
check(GATES[-1].ctx is c.account and c.account is not None, "no account while it is set up: %s" % GATES[-1].ctx)
""", 'a broker interface that uses the account of the context while it is set up', 'the account of the context is None during the setup')

bug('a23-short', 'A23', [('account/account.py', '        action = OrderAction.close if amount < 0 else OrderAction.open\n', '        order_id, action = order_id[-6:], OrderAction.close if amount < 0 else OrderAction.open\n')], ACCT + """
from jqtrade.account import account as AM
c, a = account()
ids = iter([1234567, 3234567, 4234567])
AM.generate_unique_number = lambda: next(ids)
A.order("600000.XSHG", 100)
A.order("000001.XSHE", 200)
check(len(a.orders) == 2, "%d of 2 orders are left" % len(a.orders))
""", 'two random numbers with the same last six digits', 'the second order takes the place of the first, which is lost')

bug('a23-purge', 'A23', [('account/account.py', '        self._orders[order_id] = order_obj\n        try:', '        self._orders = {k: o for k, o in self._orders.items() if o.status != OrderStatus.rejected}\n        self._orders[order_obj.order_id] = order_obj\n        try:')], ACCT + """
c, a = account()
first = A.order("600000.XSHG", 100)
a.orders[first]._status = OrderStatus.rejected
A.order("000001.XSHE", 200)
check(first in a.orders and len(a.orders) == 2, "the rejected order is no longer known")
""", 'an order placed after another one was rejected', 'orders that were rejected vanish from the account')

OUTPUT = PROC + """
logging.disable(logging.NOTSET)
def run(code, **kw):
    from jqtrade.scheduler.config import get_config
    import jqtrade.scheduler.runner as R
    get_config().SETUP_ACCOUNT = False
    get_config().RUNTIME_DIR = SCRATCH
    R.EventLoop.run = lambda self: None
    t = start("demo", **kw)
    with open(os.path.join(SCRATCH, "code.py"), "w") as f:
        f.write(code)
    with contextlib.redirect_stdout(io.StringIO()) as out:
        t.run()
    return out.getvalue()
def text(f):
    with open(os.path.join(SCRATCH, f)) as g:
        return g.read()
"""
LOGF = 'common/log.py'

bug('c07-restart', 'C07', [(LOGF, 'logging.FileHandler(file)', 'logging.FileHandler(file, mode="w")')], OUTPUT + """
with open("out.log", "w") as f:
    f.write("of the morning\\n")
run("def process_initialize(context):\\n    log.info('hello')\\n", out="out.log")
check("of the morning" in text("out.log") and "hello" in text("out.log"), "log: %s" % text("out.log"))
""", 'a restart of a task with the same log file', 'the log of the run before is lost')

bug('c07-debug-file', 'C07', [(LOGF, '    file_handler.setLevel(level)\n', '    file_handler.setLevel("INFO")\n')], OUTPUT + """
run("def process_initialize(context):\\n    log.debug('hello')\\n", out="out.log", debug=True)
check("hello" in text("out.log"), "log: %s" % text("out.log"))
""", '--debug together with --out', 'debug lines are missing in the log file')

bug('c07-own-file', 'C07', [('scheduler/api.py', 'if ctx.out and "file" not in kwargs:', 'if ctx.out:')], OUTPUT + """
run("def process_initialize(context):\\n    with open('mine', 'w') as f:\\n        print('hello', file=f)\\n", out="out.log")
check("hello" in text("mine") and "hello" not in text("out.log"), "mine: %s" % text("mine"))
""", 'a strategy that prints to a file of its own while --out is given', 'what it prints goes to the log, its own file stays empty')

bug('c07-truncated', 'C07', [('scheduler/api.py', 'with open(ctx.out, "a") as wf:', 'with open(ctx.out, "r+") as wf:\n            wf.seek(0, 2)')], OUTPUT + """
run("import os\\ndef process_initialize(context):\\n    os.rename(%r, %r)\\n    print('hello')\\n" % (os.path.join(SCRATCH, "out.log"), os.path.join(SCRATCH, "out.1")), out="out.log")
check("hello" in text("out.log"), "not printed")
""", 'a log file that was moved away (rotated) while the task runs', 'print raises in the strategy')

bug('c08-known-dir', 'C08', [('scheduler/loader.py', '        sys.path.insert(0, self.code_dir)\n', '        if self.code_dir not in sys.path:\n            sys.path.insert(0, self.code_dir)\n')], OUTPUT + """
os.makedirs(os.path.join(SCRATCH, "lib"))
for d in ("lib", "."):
    with open(os.path.join(SCRATCH, d, "helper_of_demo.py"), "w") as f:
        f.write("WHERE = %r\\n" % d)
import jqtrade.scheduler.runner as R
from jqtrade.scheduler.config import get_config
with open(os.path.join(SCRATCH, "code.py"), "w") as f:
    f.write("import sys, helper_of_demo\\nsys.seen = helper_of_demo.WHERE\\ndef process_initialize(context):\\n    pass\\n")
PROCS[:] = []
get_config().SETUP_ACCOUNT = False
R.EventLoop.run = lambda self: None
t = R.TaskRunner(code_file=os.path.join(SCRATCH, "code.py"), out_file=None, task_name="demo", env="PYTHONPATH=%s:%s" % (os.path.join(SCRATCH, "lib"), SCRATCH))
with contextlib.redirect_stdout(io.StringIO()):
    t.run()
check(sys.seen == ".", "the helper module comes from %s" % sys.seen)
""", 'a PYTHONPATH that has the directory of the strategy after another one with a module of the same name as one beside the strategy', 'the strategy imports the other module')

bug('c08-late-missing', 'C08', [('scheduler/runner.py', '''        if not os.path.exists(code_file):
            raise FileNotFoundError(f"未找到策略代码文件，path={code_file}")
''', ''), ('scheduler/runner.py', '''        if config:
            path = os.path''', '''        if not os.path.exists(code_file):
            raise FileNotFoundError(f"未找到策略代码文件，path={code_file}")
        if config:
            path = os.path''')], OUTPUT + """
import jqtrade.scheduler.runner as R
PROCS[:] = []
try:
    R.TaskRunner(code_file=os.path.join(SCRATCH, "missing.py"), out_file=os.path.join(SCRATCH, "new.log"), task_name="demo", env="DEMO_LEFT=1")
    check(False, "started")
except FileNotFoundError:
    pass
check(not os.path.exists("new.log") and "DEMO_LEFT" not in os.environ, "log or environment was changed")
""", 'a strategy file that does not exist together with --out or --env', 'a log file and changed environment are left by a start that is refused')

bug('c09-own-name', 'C09', [(ST, '                setattr(self._user_module, _name, getattr(account_api, _name))\n', '                if not hasattr(self._user_module, _name):\n                    setattr(self._user_module, _name, getattr(account_api, _name))\n')], OUTPUT + """
from jqtrade.scheduler.config import get_config
import jqtrade.scheduler.runner as R
from jqtrade.account import api
R.EventLoop.run = lambda self: None
t = start("demo")
with open(os.path.join(SCRATCH, "code.py"), "w") as f:
    f.write("import sys\\ndef order(*a, **k):\\n    pass\\ndef process_initialize(context):\\n    sys.seen = order\\n")
with contextlib.redirect_stdout(io.StringIO()):
    t.run()
check(sys.seen is api.order, "order is %s" % sys.seen)
""", 'a strategy module that has a name of the interface already, such as a stub for backtests', 'orders of the strategy go to its stub, none reaches the broker')

bug('c09-init-error', 'C09', [(ST, '''            self._user_module.process_initialize(self._user_ctx)
''', '''            try:
                self._user_module.process_initialize(self._user_ctx)
            except InvalidParam as e:
                raise TaskError(f"process_initialize: {e}")
''')], OUTPUT + """
from jqtrade.common.exceptions import InvalidParam
try:
    run("def process_initialize(context):\\n    run_daily(5, 'open')\\n")
except AttributeError:
    pass
try:
    run("from jqtrade.common.exceptions import InvalidParam\\ndef process_initialize(context):\\n    raise InvalidParam('mine')\\n")
    check(False, "no error")
except InvalidParam:
    pass
except Exception as e:
    check(False, "%s" % type(e))
""", 'an InvalidParam raised inside process_initialize', 'the start ends with another error than the one of the strategy')


# ---------------------------------------------------------------- S15
MEET = """
s, c = strategy('''
ran = []
def a(ctx): ran.append(('a', ctx.strategy_dt.strftime('%H:%M')))
def b(ctx): ran.append(('b', ctx.strategy_dt.strftime('%H:%M')))
def m(ctx): ran.append(('m', ctx.strategy_dt.strftime('%H:%M')))
def process_initialize(ctx):
    set_options(use_account=False, market_period=[('09:30:00', '09:32:00')])
    run_daily(b, 'open+1m')
    run_daily(a, '09:31:00')
    run_daily(m, 'every_minute')
    run_daily(a, '09:32')
    run_daily(b, 'close')
''', DT(2021, 1, 4), DT(2021, 1, 4, 9, 40))
"""
bug('s15-sync-level', 'S15', [('account/account.py', 'create_event_class("AccountSyncEvent", priority=EventPriority.ACCOUNT_SYNC)', 'create_event_class("AccountSyncEvent", priority=EventPriority.EVERY_MINUTE)')], MEET + '''
from jqtrade.account.account import Account
class G(Gate):
    def sync_orders(self):
        c.user.ran.append(("sync", getattr(c.loop.strategy_dt, "strftime", lambda f: "")("%H:%M")))
        return []
c.use_account = True
c.trade_gate = G()
c.account = Account(c)
c.account.setup({"sync_balance": False, "sync_internal": 30, "sync_period": [(datetime.time(9, 30), datetime.time(9, 31))]})
c.user.ran[:] = []
c.loop.run()
at = [[x for x, t in c.user.ran if t == m] for m in ("09:30", "09:31")]
check(at[0][:2] == ["sync", "m"] and at[1] == ["sync", "m", "b", "a"], "at 09:30 and 09:31 ran %s" % at)
''', 'an every_minute task and an account sync at the same second, the task scheduled first', 'the task sees the account as it was before the sync of its minute')

bug('s15-oldest-last', 'S15', [('scheduler/strategy.py', "        for _desc in self._schedules:\n", "        for _desc in sorted(self._schedules, key=lambda d: (d['time'] != 'every_minute', d['time'])):\n")], MEET + '''
c.loop.run()
want = [("m", "09:30"), ("m", "09:31"), ("b", "09:31"), ("a", "09:31"), ("m", "09:32"), ("a", "09:32"), ("b", "09:32")]
check(c.user.ran == want, "ran %s" % c.user.ran)
''', 'two tasks with the same time, written differently', 'tasks with the same time run in the order of the text of their times')

bug('s15-minute-last', 'S15', [(ST, 'create_event_class(_cls_name, priority=EventPriority.EVERY_MINUTE)', 'create_event_class(_cls_name)')], MEET + '''
c.loop.run()
want = [("m", "09:30"), ("m", "09:31"), ("b", "09:31"), ("a", "09:31"), ("m", "09:32"), ("a", "09:32"), ("b", "09:32")]
check(c.user.ran == want, "ran %s" % c.user.ran)
''', 'an every_minute task registered after a task with the same time', 'the task with a time of its own runs before the every_minute task')

LOOP16 = '''
from jqtrade.scheduler.loop import EventLoop
from jqtrade.scheduler.message import Message
import threading
threading.Timer(20, lambda: os._exit(3)).start()
def done():
    sys.stdout.flush()
    os._exit(0)
l = EventLoop()
ran = []
'''
bug('s16-last-checker', 'S16', [('scheduler/loop.py', '''            if checker(self.get_current_time(), ts):
                logger.info("check_exit. exit now")
                return True
        return False
''', '''            leave = checker(self.get_current_time(), ts)
        if self._exit_checkers and leave:
            logger.info("check_exit. exit now")
            return True
        return False
''')], LOOP16 + '''
asked = []
l.register_exit_checker(lambda now, due: asked.append((now, due)) or due - now > 1500)
l.register_exit_checker(lambda now, due: False)
due = l.get_current_time() + 3000
l.push_message(Message(l.get_current_time() + 200, lambda: ran.append(1)))
l.push_message(Message(due, lambda: ran.append(2)))
l.run()
check(ran == [1] and asked[-1][1] == due, "ran %s although the first checker agreed to leave" % ran)
done()
''', 'more than one exit checker, and only one that is not the last agrees', 'the loop waits although a checker asked to leave')

bug('s16-checker-clock', 'S16', [('scheduler/loop.py', 'if checker(self.get_current_time(), ts):', 'if checker(self._strategy_time or self.get_current_time(), ts):')], LOOP16 + '''
asked = []
l.register_exit_checker(lambda now, due: asked.append((now, l.get_current_time(), due)) and False)
t = l.get_current_time()
l.push_message(Message(t - 60000, lambda: ran.append(1)))
l.push_message(Message(t + 500, lambda: ran.append(2)))
l.run()
check(ran == [1, 2] and asked and all(abs(a - b) < 1000 for a, b, c in asked), "the checker was asked with the time %s" % asked)
done()
''', 'a checker asked after a message that was handled later than it was due', 'checkers see the time of the last message as the present time')

bug('s16-defer-late', 'S16', [('scheduler/loop.py', 'self.push_message(Message(time=self.get_current_time() + int(delay), ', 'self.push_message(Message(time=(self._strategy_time or self.get_current_time()) + int(delay), ')], LOOP16 + '''
t0 = l.get_current_time()
def task():
    l.defer(1000, lambda a, b: ran.append((a, b, l.get_current_time())), 1, b=2)
l.push_message(Message(t0 - 5000, task))
l.run()
check(len(ran) == 1 and ran[0][:2] == (1, 2) and ran[0][2] - t0 >= 900, "the deferred call ran after %s ms" % [x[2] - t0 for x in ran])
done()
''', 'a call deferred by a message that was handled late', 'the deferred call runs at once instead of after its delay')

bug('s16-idle-wait', 'S16', [('scheduler/loop.py', '''                if self.check_exit(message.time):
                    self.stop()
                    break
''', '''                if self.check_exit(message.time) or message.time - now > 86400000 * 3:
                    self.stop()
                    break
''')], LOOP16 + '''
l.register_exit_checker(lambda now, due: False)
l.push_message(Message(l.get_current_time() + 86400000 * 4, lambda: ran.append(2)))
started = []
threading.Timer(2, lambda: (started.append(1), sys.stdout.flush(), os._exit(0))).start()
l.run()
print("BROKEN: the loop ended although a message was pending and no checker agreed")
sys.stdout.flush()
os._exit(1)
''', 'the next event is more than three days away (weekend and holiday)', 'the process ends over a long weekend although tasks are still planned')

CMD = """
import jqtrade.__main__ as M
got = []
for _n in ("start_task", "get_tasks", "stop_task"):
    setattr(M, _n, lambda o, _n=_n: got.append((_n, o)))
def run(*argv):
    del got[:]
    sys.argv = ["jqtrade"] + list(argv)
    try:
        M.main()
    except SystemExit as e:
        check(False, "%s ended with %s" % (" ".join(argv), e.code))
    check(len(got) == 1, "%s ran %s" % (" ".join(argv), [n for n, o in got]))
    return got[0]
"""
bug('c10-derived-wait', 'C10', [(GT, 'options.get("wait_lock_time_out", self.WAIT_LOCK_TIME_OUT)', 'options.get("wait_lock_time_out", self._wait_lock_internal * 100)')], GATE + """
import portalocker
g = AnXinDMATradeGate()
g.c = context(loop=FakeLoop(DAY), gate=g)
g.setup(dict(account_no="123456", order_dir=work, runtime_dir=SCRATCH, file_encoding="utf-8", wait_lock_internal=0.001))
g.order(mkorder(oid="1"))
calls = []
def busy(*a, **k):
    calls.append(1)
    if time.time() - first < 1:
        raise portalocker.exceptions.AlreadyLocked("locked")
lock, portalocker.lock = portalocker.lock, busy
first = time.time()
try:
    g.order(mkorder(oid="2"))
except Exception as e:
    check(False, "the order was given up after %.1f s although wait_lock_time_out was not set: %r" % (time.time() - first, e))
""", 'wait_lock_internal is given and wait_lock_time_out is not, and the file is locked for a while', 'orders are refused after a tenth of a second')

bug('c10-strict-lines', 'C10', [(GT, 'self._options.get("ignore_error_line", self.DEFAULT_IGNORE_ERROR_LINE)', 'self._options.get("ignore_error_line") or self.DEFAULT_IGNORE_ERROR_LINE')], SYNC + """
g = gate(ignore_error_line=False)
ready(g, "1")
put("orderUpdate", [update("1", status="9")], mode="a")
try:
    g.sync_orders()
except Exception:
    sys.exit(0)
check(False, "a line that cannot be read is ignored although ignore_error_line is False")
""", 'ignore_error_line=False is given and the broker writes a line that cannot be read', 'the line is skipped silently')

bug('c11-at-file', 'C11', [('__main__.py', '    parser = argparse.ArgumentParser()\n', '    parser = argparse.ArgumentParser(fromfile_prefix_chars="@")\n')], CMD + """
n, o = run("stop_task", "--all")
check(n == "stop_task" and o.all is True and o.force is False, "stop_task")
n, o = run("start_task", "-n", "@demo", "-c", "a.py")
check(n == "start_task" and o.name == "@demo", "the name is %s" % o.name)
""", 'a name (or path or environment) that begins with @', 'the option is replaced by the lines of a file of that name, or the command fails')

bug('c11-env-list', 'C11', [('__main__.py', '"-e", "--env", required=False, default=None,', '"-e", "--env", required=False, default=None, type=lambda v: v.strip(";"),')], CMD + """
n, o = run("start_task", "-n", "demo", "-c", "a.py", "-e", "A=1;B=2")
check(o.env == "A=1;B=2", "env is %s" % o.env)
n, o = run("start_task", "-n", "demo", "-c", "a.py", "-e", "A=1;LIST=a,b;;")
check(o.env == "A=1;LIST=a,b;;", "env is %s" % o.env)
""", 'an environment that ends with a semicolon', 'the text that reaches the task is not the one that was given')

bug('c11-debug-env', 'C11', [('__main__.py', """    options = parser.parse_args()
""", """    options = with_environment(parser.parse_args())
"""), ('__main__.py', """def start_task(options):
""", """def with_environment(options):
    if os.environ.get("JQTRADE_DEBUG"):
        options.debug = True
    return options


def start_task(options):
"""), ('__main__.py', 'import argparse\n', 'import argparse\nimport os\n')], CMD + """
n, o = run("start_task", "-n", "demo", "-c", "a.py")
check(o.debug is False and o.out is None, "debug is %s" % o.debug)
os.environ["JQTRADE_DEBUG"] = "0"
n, o = run("start_task", "-n", "demo", "-c", "a.py")
check(o.debug is False, "debug is %s although --debug is not given" % o.debug)
""", 'a variable JQTRADE_DEBUG in the environment of the user', 'the task runs in debug mode although --debug was not given')

bug('s12-user-second', 'S12', [('scheduler/api.py', 'return self.__ctx.strategy_dt', 'return self.__ctx.strategy_dt.replace(microsecond=0)')], '''
from jqtrade.scheduler.loop import EventLoop
from jqtrade.scheduler.message import Message
from jqtrade.scheduler.api import UserContext
l, got = EventLoop(), []
u = UserContext(context(loop=l))
l.push_message(Message(1600000000250, lambda: got.append(u.strategy_dt.timestamp())))
l.push_message(Message(1600000001000, lambda: got.append(u.strategy_dt.timestamp())))
l.run()
check(got == [1600000000.25, 1600000001.0], "context.strategy_dt %s" % got)
''', 'a message that is due in between two seconds', 'context.strategy_dt is not the due time of the message that is handled')

bug('a05-unknown-id', 'A05', [('account/api.py', '        orders = [acc_orders[order_id], ] if order_id in acc_orders else []\n', '        orders = [acc_orders.get(order_id)]\n'),
                              ('account/api.py', 'if o.code == code]', 'if o and o.code == code]'), ('account/api.py', 'if o.status.value == status]', 'if o and o.status.value == status]')], ACCT + '''
c, a = account()
i = A.order("600000.XSHG", 100)
check(list(A.get_orders(order_id=i)) == [i], "order not listed")
check(A.get_orders(order_id="nothing", code="600000.XSHG") == {}, "an unknown order is listed")
try:
    r = A.get_orders(order_id="nothing")
except Exception as e:
    check(False, "get_orders of an unknown id raises %r" % e)
check(r == {}, "an unknown order is listed")
''', 'get_orders with an id that is not known and nothing else', 'get_orders raises instead of returning nothing')

bug('a11-new-order', 'A11', [('account/account.py', 'logger.info(f"从trade_gate同步到本地不存在的订单: {_order_info}")', 'logger.info(f"从trade_gate同步到本地不存在的订单: {_order_info}, 本地状态: {_local_order.status}")')], ACCT + '''
R = dict(code="600000.XSHG", price=1.0, amount=300, action="open", style="limit", side="long", order_id="7", status="open", filled_amount=0,
         confirm_id="1", canceled_amount=0, avg_cost=0.0, deal_balance=0.0, commission=0.0, err_msg="", entrust_time=None, create_time=None)
rows = [dict(R)]
class G(Gate):
    def sync_orders(self):
        return [dict(x) for x in rows]
c, a = account(G())
a.sync_orders()
rows.append(dict(R, order_id="8"))
a.sync_orders()
check(sorted(a.orders) == ["7", "8"], "orders known after the second sync: %s" % sorted(a.orders))
''', 'an order that was placed elsewhere appears after the first sync', 'it and all orders after it are never taken over')

ES6 = """
history()
from jqtrade.scheduler.event_source import EventSource
from jqtrade.scheduler.event import create_event_class
c = context("")
E1, E2 = create_event_class("E1"), create_event_class("E2")
def drain(es, n=5000):
    out = []
    while len(out) < n:
        x = es.get_next_event()
        if x is None:
            break
        out.append((x[0], type(x[1]).__name__))
    return out
"""
bug('s06-fewer-days', 'S06', [('scheduler/event_source.py', 'for _delta in range(count):', 'for _delta in range(min(count, 300)):')], ES6 + """
es = EventSource(start=DT(2021, 1, 1))
es.setup()
es.daily(E1, "10:00:00")
got = drain(es)
check(len(got) == 365 and got[-1][0] == DT(2021, 12, 31, 10), "%d days" % len(got))
""", 'a history run without end, or one of more than 300 days', 'the run ends early')

bug('s06-kept-events', 'S06', [('scheduler/event_source.py', """            return

        self._events = []
""", """            return

        self._events = [e for e in self._events if e[0] > self._start]
""")], ES6 + """
es = EventSource(start=DT(2021, 1, 1), end=DT(2021, 1, 3))
es.setup()
es.daily(E1, "10:00:00")
check(len(drain(es)) == 2, "events")
es = EventSource(start=DT(2021, 1, 1), end=DT(2021, 1, 3))
es.setup()
es.daily(E1, "10:00:00")
es.peek_next_event()
es.daily(E2, "09:00:00")
got = drain(es)
check(got == [(DT(2021, 1, d, h), n) for d in (1, 2) for h, n in ((9, "E2"), (10, "E1"))], "events %s" % got)
""", 'a task is registered after the next event of the source was looked at', 'an event fires twice')

bug('c12-setup-error', 'C12', [('scheduler/runner.py', """        strategy.setup()
""", """        try:
            strategy.setup()
        except ImportError:
            logger.exception("策略代码依赖的模块加载失败")
""")], OUTPUT + """
import jqtrade.scheduler.runner as R
from jqtrade.scheduler.config import get_config
get_config().SETUP_ACCOUNT = False
PROCS[:] = []
ran = []
R.EventLoop.run = lambda self: ran.append(1)
for text, ok in (("def process_initialize(context):\\n    pass\\n", True), ("def process_initialize(context):\\n    import no_such_module_of_demo\\n", False)):
    del ran[:]
    with open(os.path.join(SCRATCH, "code.py"), "w") as f:
        f.write(text)
    t = R.TaskRunner(code_file=os.path.join(SCRATCH, "code.py"), out_file=None, task_name="demo", env=None)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            t.run()
        check(ok, "the task runs although its code could not be loaded")
    except ImportError:
        check(not ok, "refused")
    check(bool(ran) == ok, "the loop ran %s times" % len(ran))
""", 'a strategy whose process_initialize imports a module that is not there', 'the task stays up for ever without a strategy')

bug('c12-account-loop', 'C12', [('scheduler/runner.py', """        event_loop = EventLoop()
        context = Context(task_name=self._task_name,""", """        event_loop = EventLoop()
        context = Context(task_name=self._task_name.strip().replace(" ", "_"),""")], OUTPUT + """
import jqtrade.scheduler.runner as R
from jqtrade.scheduler.context import Context
from jqtrade.scheduler.config import get_config
get_config().SETUP_ACCOUNT = False
PROCS[:] = []
R.EventLoop.run = lambda self: None
with open(os.path.join(SCRATCH, "code.py"), "w") as f:
    f.write("def process_initialize(context):\\n    pass\\n")
for name in ("demo", "my task", "my_task"):
    t = R.TaskRunner(code_file=os.path.join(SCRATCH, "code.py"), out_file=None, task_name=name, env=None)
    with contextlib.redirect_stdout(io.StringIO()):
        t.run()
    check(Context.get_instance().task_name == name, "the task %r is called %r" % (name, Context.get_instance().task_name))
""", 'a task name with a space', 'two tasks with different names share the file of the orders of the day')

bug('c12-debug-loop', 'C12', [('scheduler/runner.py', """        event_loop.run()""", """        try:
            event_loop.run()
        except OSError:
            logger.exception("事件循环异常退出")""")], OUTPUT + """
import jqtrade.scheduler.runner as R
from jqtrade.scheduler.config import get_config
get_config().SETUP_ACCOUNT = False
PROCS[:] = []
def fail(self):
    raise ConnectionError("broker")
R.EventLoop.run = fail
with open(os.path.join(SCRATCH, "code.py"), "w") as f:
    f.write("def process_initialize(context):\\n    pass\\n")
t = R.TaskRunner(code_file=os.path.join(SCRATCH, "code.py"), out_file=None, task_name="demo", env=None)
try:
    with contextlib.redirect_stdout(io.StringIO()):
        t.run()
except ConnectionError:
    sys.exit(0)
check(False, "the task ends as if it had been stopped")
""", 'a strategy whose callback fails with an OSError', 'the process ends with exit code 0, a supervisor does not start it again')

bug('a18-enum', 'A18', [(GT, 'OrderStatus.rejected.value\n                            _order["err', 'OrderStatus.rejected\n                            _order["err')], SYNC + '''
g = gate()
ready(g, "1")
put("execResult", ["100001000,1,1,1,E1,closed"], mode="a")
o = synced(g)["1"]
check(o["status"] == "rejected" and o["err_msg"] == "closed", "%s" % o)
''', 'an order that the broker program rejects', 'the orders can no longer be saved: every later sync fails')

bug('a19-short', 'A19', [(GT, '''                    if len(_items) < len(self.ORDER_LINE_COLS):
''', '''                    if len(_items) < 2:
                        self._order_update_offset = rf.tell()
                        continue
                    if len(self.ORDER_LINE_COLS) > len(_items):
''')], SYNC + '''
g = gate(ignore_error_line=False)
ready(g, "1")
put("orderUpdate", ["100002000"], mode="a")
try:
    g.sync_orders()
except TG.ParserError:
    sys.exit(0)
check(False, "a line with one column is passed over although ignore_error_line is off")
''', 'ignore_error_line off and a line with too few columns', 'the update is lost silently')


bug('c02-long-python', 'C02', [('scheduler/utils.py', '" ".join(_p.cmdline())', '" ".join(_p.cmdline()[:4])')], PROC + '''
a = Proc(1001, ["python", "-m", "jqtrade", "start_task", "-n", "a", "-c", "a.py"])
b = Proc(1002, ["python", "-W", "ignore", "-m", "jqtrade", "start_task", "-n", "b", "-c", "a.py"])
PROCS[:] = [a, b]
stop(all=True)
check(a.got == [15] and b.got == [15], "signals: %s %s" % (a.got, b.got))
''', 'a task whose interpreter was started with options (python -W ignore -m jqtrade)', 'that task is not found: not listed, not stopped, and a second one of its name is accepted')

bug('c01-last', 'C01', [('scheduler/runner.py', '''    for _task in active_tasks:
''', '''    # 最近启动的进程就是当前进程
    for _task in sorted(active_tasks, key=lambda _p: _p.pid)[:-1] if len(active_tasks) > 1 else active_tasks:
''')], PROC + '''
import jqtrade.scheduler.runner as R
a, b = Proc(1001, ["python", "-m", "jqtrade", "start_task", "-n", "a", "-c", "a.py"]), Proc(10 ** 8, ["python", "-m", "jqtrade", "start_task", "-n", "b", "-c", "a.py"])
PROCS[:] = [a, b]
check(R._exist_repeated_task("a") and R._exist_repeated_task("b") and not R._exist_repeated_task("c"), "a running task is not noticed")
''', 'a pid counter that has wrapped around', 'a second task of the same name is started')

bug('c05-seconds', 'C05', [('common/utils.py', 'datetime.datetime.strptime(t, "%H:%M:%S").time()', 'datetime.datetime.strptime(t, "%H:%M:%S").time().replace(second=0)')], OPT + """
T = datetime.time
s, c = options(account_no="1", market_period=[("09:30:00", "11:30:00")], sync_period=[("09:29:30", T(15))])
check(s.options["sync_period"] == [(T(9, 29, 30), T(15))], "periods: %s" % s.options)
""", 'a period given as text with seconds', 'the period begins or ends at another time')
