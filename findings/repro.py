#!/opt/venv/bin/python
# -*- coding: utf-8 -*-
"""Reproductions of the genuine defects found while building the checks (see DESIGN.md, known_findings.txt).

usage: repro.py NAME [REPO]    exit 0: behaviour is right, exit 1: the defect shows.
Not used by any check: the checks are purely static.  Every file it writes is in a scratch directory it removes.
"""
import sys, os, tempfile, shutil, datetime, time, types, json, multiprocessing
ME = os.path.abspath(__file__)
REPO = os.path.abspath(sys.argv[2] if len(sys.argv) > 2 else "/repo")
sys.path.insert(0, REPO)
os.environ.setdefault("TZ", "Asia/Shanghai"); time.tzset()
SCRATCH = tempfile.mkdtemp(prefix="jqrepro")
os.chdir(SCRATCH)
os.environ["HOME"] = SCRATCH

import logging
logging.disable(logging.CRITICAL)


class Loop(object):
    def __init__(self, dt): self.current_dt = dt; self.strategy_dt = dt; self.messages = []
    def push_message(self, m, notify=True): self.messages.append(m)


def ctx(dt=None, gate=None, use_account=True, name="t"):
    from jqtrade.scheduler.context import Context
    from jqtrade.scheduler.bus import EventBus
    from jqtrade.scheduler.event_source import EventSourceScheduler
    from jqtrade.account.account import Account
    c = Context(name, EventBus(), Loop(dt or datetime.datetime.now()), EventSourceScheduler(), None, False, None, None)
    c.use_account = use_account
    c.trade_gate = gate
    c.account = Account(c)
    return c


def dma(dt=None, **opts):
    from jqtrade.account.trade_gate import AnXinDMATradeGate
    g = AnXinDMATradeGate()
    c = ctx(dt, g)
    d = os.path.join(SCRATCH, "orders"); os.makedirs(d, exist_ok=True)
    o = dict(account_no="1", order_dir=d, runtime_dir=os.path.join(SCRATCH, "rt"), file_encoding="utf-8")
    o.update(opts)
    g.setup(o)
    return c, g, d


class Gate(object):
    def __init__(self, bal=None, orders=()): self.sent = []; self.cancelled = []; self.bal = bal; self.o = orders
    def setup(self, o): pass
    def order(self, o): self.sent.append(o)
    def cancel_order(self, i): self.cancelled.append(i)
    def sync_balance(self): return json.loads(json.dumps(self.bal))
    def sync_orders(self): return self.o


POS = {"code": "000001.XSHE", "amount": 1000, "available_amount": 100, "avg_cost": 11.1, "side": "long"}


def F01():  # a short order is sent as a long one
    from jqtrade.account import api
    from jqtrade.account.order import OrderSide
    g = Gate(); ctx(gate=g)
    api.order("000001.XSHE", 100, side="short")
    assert g.sent[0].side == OrderSide.short, g.sent[0].side


def F02():  # a cash figure that becomes 0 keeps its old value
    g = Gate({"cash": {"total_asset": 10, "available_cash": 5, "locked_cash": 5}, "positions": []})
    c = ctx(gate=g); c.account.sync_balance()
    g.bal = {"cash": {"total_asset": 10, "available_cash": 10, "locked_cash": 0}, "positions": []}
    c.account.sync_balance()
    assert c.account.locked_cash == 0, c.account.locked_cash


def F03():  # a failing balance sync loses the positions (and half of the cash)
    g = Gate({"cash": {"total_asset": 10, "available_cash": 5, "locked_cash": 5}, "positions": [POS]})
    c = ctx(gate=g); c.account.sync_balance()
    bad = dict(POS); del bad["amount"]
    g.bal = {"cash": {"total_asset": 11, "available_cash": 6, "locked_cash": 5}, "positions": [bad]}
    c.account.sync_balance()
    assert list(c.account.long_positions) == ["000001.XSHE"], c.account.long_positions
    assert c.account.total_assert == 10


def F04():  # side is documented as optional in a gate's positions
    p = dict(POS); del p["side"]
    g = Gate({"cash": {"total_asset": 10, "available_cash": 5, "locked_cash": 5}, "positions": [p]})
    c = ctx(gate=g); c.account.sync_balance()
    assert list(c.account.long_positions) == ["000001.XSHE"], c.account.long_positions


def F05():  # the documented key total_assert is ignored
    g = Gate({"cash": {"total_assert": 10, "available_cash": 5, "locked_cash": 5}, "positions": []})
    c = ctx(gate=g); c.account.sync_balance()
    assert c.account.total_assert == 10, c.account.total_assert


def F06():  # Portfolio.position_value iterates over the codes
    from jqtrade.account.portfolio import Portfolio
    g = Gate({"cash": {"total_asset": 10, "available_cash": 5, "locked_cash": 5}, "positions": [dict(POS, position_value=7)]})
    c = ctx(gate=g); c.account.sync_balance()
    assert Portfolio(c.account).position_value == 7


def F07():  # custom configuration: lstrip strips a character set
    from jqtrade.scheduler import config as sc
    from jqtrade.account import config as ac
    p = os.path.join(SCRATCH, "etc.py")
    open(p, "w").write("SCHEDULER_RUNTIME_DIR='/x'\nSCHEDULER_EVENT_DAYS_COUNT=3\nACCOUNT_TRADE_GATE='a.b'\n")
    sc.setup_scheduler_config(p); ac.setup_account_config(p)
    assert sc.get_config().RUNTIME_DIR == "/x", sc.get_config().__dict__
    assert ac.get_config().TRADE_GATE == "a.b", ac.get_config().__dict__


def F08():  # command lines argparse accepts are not recognised in the process table
    from jqtrade.scheduler.utils import parse_task_info
    i = parse_task_info(["python", "-m", "jqtrade", "start_task", "--name=demo", "--code=x.py"])
    assert i.get("name") == "demo" and i.get("code") == "x.py", i


def F09():  # environment values that contain '='
    from jqtrade.scheduler.utils import parse_env
    assert parse_env("OPTS=a=b;X=1") == {"OPTS": "a=b", "X": "1"}


def F10():  # malformed code accepted
    from jqtrade.account import api
    from jqtrade.common.exceptions import InvalidParam
    g = Gate(); ctx(gate=g)
    try:
        api.order("600000aXSHG", 100)
    except InvalidParam:
        return
    assert not g.sent, g.sent[0].code


def F11():  # broker updates to err_msg / entrust_time alone never reach the strategy
    o = dict(order_id="1", code="000001.XSHE", price=1, amount=1, action="open", status="rejected", style="limit",
             create_time="2023-01-01 10:00:00", err_msg="")
    g = Gate(orders=[dict(o)]); c = ctx(gate=g); c.account.sync_orders()
    g.o = [dict(o, err_msg="no cash")]; c.account.sync_orders()
    assert c.account.orders["1"].err_msg == "no cash"


def F12():  # the side of an order without style is lost
    from jqtrade.account.order import Order, OrderSide
    assert Order("000001.XSHE", 1, 1, "open").side == OrderSide.long


def F13():  # order lines are written after the lock is released, header test is stale
    import portalocker
    c, g, d = dma()
    seen = []
    real = portalocker.unlock
    def unlock(fp):
        seen.append(os.path.getsize(fp.name)); return real(fp)
    import jqtrade.account.trade_gate as tg
    tg.portalocker = types.SimpleNamespace(lock=portalocker.lock, unlock=unlock, LOCK_EX=portalocker.LOCK_EX,
                                           LOCK_NB=portalocker.LOCK_NB, exceptions=portalocker.exceptions)
    g.cancel_order("7")
    assert seen[-1] > 0, "lock released while the file was still empty"
    # header: another process writes between open and lock
    p = g._cancel_csv; os.unlink(p)
    def lock(fp, flags):
        if not os.path.getsize(p):
            with open(p, "a") as f: f.write(g.CANCEL_CSV_HEADER + os.linesep + "x,1" + os.linesep)
        return portalocker.lock(fp, flags)
    tg.portalocker.lock = lock
    g.cancel_order("8")
    assert open(p).read().count(g.CANCEL_CSV_HEADER) == 1, open(p).read()


def F14():  # runtime_dir "~/x" is created, but the cache goes to ./~/x
    from jqtrade.scheduler.strategy import Strategy
    m = types.ModuleType("m"); m.process_initialize = lambda context: m.set_options(
        account_no="1", order_dir=SCRATCH, runtime_dir="~/rt", sync_balance=False, sync_order=False)
    c = ctx(); c._loader = types.SimpleNamespace(load=lambda: m)
    Strategy(c).setup()
    assert not os.path.exists(os.path.join(SCRATCH, "~")), "literal ~ directory created"


ORDER = dict(status="new", code="000001.XSHE", price=1, amount=100, action="open", order_id="1", style="limit",
             create_time="2023-01-01 10:00:00.0", side="long")


def upd(g, oid, status, filled, text="", cli="c1"):
    v = dict(updTime="1", orderDate="20230101", orderTime="100000", acctType="UM0", acct="1", symbol="000001.SZ",
             tradeSide="1", status=status, orderQty="100", orderPrice="1", orderType="0", filledQty=str(filled),
             avgPrice="1", filledAmt="1", cancelQty="0", orderNo="77", corrId="", custBatchNo=oid, text=text, cliOrderId=cli)
    return ",".join(v[c] for c in g.ORDER_LINE_COLS)


def files(g, upd_text="", res_text="", enc="utf-8"):
    with open(g._order_update_csv, "a", encoding=enc, newline="") as f: f.write(upd_text)
    with open(g._order_result_csv, "a", encoding=enc, newline="") as f: f.write(res_text)


def F15():  # execResult is not read with the configured encoding
    c, g, d = dma(file_encoding="GBK")
    g._orders["1"] = dict(ORDER)
    files(g, "", "100000,1,1,1,9,资金不足\n", enc="gbk")
    g.sync_orders()
    assert g._orders["1"]["status"] == "rejected" and g._orders["1"]["err_msg"] == "资金不足", g._orders


def F16():  # a line caught half-written in its last column blocks all later updates
    c, g, d = dma()
    g._orders["1"] = dict(ORDER); g._orders["2"] = dict(ORDER, order_id="2")
    line = upd(g, "1", "1", 50, cli="abcdef")
    files(g, line[:-3]); g.sync_orders()
    files(g, line[-3:] + "\n" + upd(g, "2", "2", 100) + "\n"); g.sync_orders(); g.sync_orders()
    assert g._orders["2"]["status"] == "filled", g._orders["2"]


def F17():  # a complete but malformed (short or blank) line blocks all later updates
    c, g, d = dma()
    g._orders["1"] = dict(ORDER)
    files(g, "\nbroken,line\n" + upd(g, "1", "2", 100) + "\n"); g.sync_orders(); g.sync_orders()
    assert g._orders["1"]["status"] == "filled", g._orders["1"]


def F18():  # a comma in the broker's message loses the rejection
    c, g, d = dma()
    g._orders["1"] = dict(ORDER)
    files(g, "", "100000,1,1,1,9,no cash, sorry\n"); g.sync_orders()
    assert g._orders["1"]["status"] == "rejected", g._orders["1"]


def F19():  # the read position survives midnight although the files change; orders go to yesterday's cache
    d1 = datetime.datetime(2023, 1, 2, 10); d2 = datetime.datetime(2023, 1, 3, 10)
    c, g, d = dma(d1)
    g._orders["1"] = dict(ORDER)
    files(g, upd(g, "1", "2", 100) + "\n" + upd(g, "1", "2", 100) + "\n"); g.sync_orders()
    c.loop.current_dt = d2
    from jqtrade.account.order import LimitOrderStyle, OrderSide
    i = c.account.order("000001.XSHE", 100, LimitOrderStyle(1), OrderSide.long)
    files(g, upd(g, i, "2", 100) + "\n"); g.sync_orders()
    assert g._orders[i]["status"] == "filled", g._orders[i]
    c, g, d = dma(d2)
    assert i in g._orders, "order of the new day not recovered after a restart"


def F20():  # periodic sync of the next day starts at the time of day the process was started
    g = Gate({"cash": {}, "positions": []}); c = ctx(gate=g)
    got = []
    c.scheduler.schedule = got.append
    real = datetime.datetime
    class D(real):
        @classmethod
        def now(cls, tz=None): return real(2023, 1, 2, 14, 55, 0)
    import jqtrade.account.account as a
    a.datetime = types.SimpleNamespace(datetime=D, timedelta=datetime.timedelta, time=datetime.time)
    c.account.setup({})
    first = min(t for t, _ in got[0]._daily)
    assert first < "00:01:00", first


def _hang():
    from jqtrade.scheduler.event_source import EventSource
    es = EventSource(); es.setup(); es.peek_next_event()


def F21():  # a source without any daily time hangs the process
    p = multiprocessing.get_context("fork").Process(target=_hang); p.start(); p.join(5)
    alive = p.is_alive(); p.kill(); p.join()
    assert not alive, "hangs"


def F22():  # after the generated days are used up the last day is generated again
    import jqtrade.scheduler.event_source as m
    from jqtrade.scheduler.event import create_event_class
    real_date, real_dt = datetime.date, datetime.datetime
    clock = [real_dt(2023, 1, 2, 8)]
    class D(real_date):
        @classmethod
        def today(cls): return clock[0].date()
    class T(real_dt):
        @classmethod
        def now(cls, tz=None): return clock[0]
    m.datetime = types.SimpleNamespace(date=D, datetime=T, timedelta=datetime.timedelta, time=datetime.time)
    es = m.EventSource(); es.setup(); es.daily(create_event_class("E22"), "10:00:00")
    seen = []
    for _ in range(400):
        dt, _e = es.get_next_event()
        clock[0] = max(clock[0], dt)
        seen.append(dt)
    assert len(set(seen)) == len(seen), "an event was generated twice"


def F23():  # EVENT_DAYS_COUNT is read at import time only
    from jqtrade.scheduler.config import get_config
    from jqtrade.scheduler.event_source import EventSource
    get_config().EVENT_DAYS_COUNT = 3
    es = EventSource(); es.setup()
    assert len(es._days) == 3, len(es._days)


def F24():  # run_daily runs whatever the strategy module has under the function's name
    from jqtrade.scheduler.strategy import Strategy
    hits = []
    m = types.ModuleType("m")
    def helper(context): hits.append("right")
    def init(context): m.run_daily(lambda context: hits.append("right"), "10:00:00"); m.run_daily(helper, "10:00:00")
    m.process_initialize = init
    c = ctx(); c._loader = types.SimpleNamespace(load=lambda: m)
    Strategy(c).setup()
    for cls in list(c.event_bus._subscribes): c.event_bus.emit(cls())
    assert hits == ["right", "right"], hits


def F25():  # microseconds counted twice
    from jqtrade.common.utils import dt_to_milliseconds, milliseconds_to_dt
    dt = datetime.datetime(2023, 1, 2, 9, 30, 0, 500000)
    assert milliseconds_to_dt(dt_to_milliseconds(dt)) == dt


def F26():  # an unknown base with an offset is not reported as InvalidParam
    from jqtrade.scheduler.event_source import TimeExprParser
    from jqtrade.common.exceptions import InvalidParam
    try:
        TimeExprParser.parse("opne-30m")
    except InvalidParam:
        return
    assert False


def F27():  # documented attributes of UserPosition
    from jqtrade.account.api import UserPosition
    from jqtrade.account.position import Position
    p = UserPosition(Position("000001.XSHE", 10, 4, 1, None))
    assert p.code == "000001.XSHE" and p.locked_amount == 6


def F28():  # a callback that unregisters itself makes its successor miss the event
    from jqtrade.scheduler.bus import EventBus
    from jqtrade.scheduler.event import Event
    b = EventBus(); hits = []
    def one(e): hits.append(1); b.unregister(Event, one)
    def two(e): hits.append(2)
    b.register(Event, one); b.register(Event, two)
    b.emit(Event())
    assert hits == [1, 2], hits


def F29():  # a broker row without a trailing newline / sync file encodings: asset file in the configured encoding
    c, g, d = dma(file_encoding="GBK", sync_retry_kwargs={"max_attempts": 0, "attempt_internal": 0})
    with open(g._assert_info_csv, "w", encoding="gbk") as f:
        f.write("acct,exchange,totalAsset,enabledBalance,currentBalance,name\n1,,10,5,6,资金\n,,,,,\n")
    with open(g._position_info_csv, "w", encoding="gbk") as f:
        f.write("acct,symbol,currentQty,enabledQty,costPrice,lastPrice,mktValue,name\n1,000001.SZ,10,5,1,1,10,平安\n,,,,,,,\n")
    assert g.sync_balance()["cash"]["total_asset"] == 10


def _change():
    from jqtrade.scheduler.event_source import EventSource
    from jqtrade.scheduler.event import create_event_class
    c = ctx(); c.strategy = types.SimpleNamespace(options={})
    es = EventSource(); es.setup(); c.scheduler.schedule(es)
    es.daily(create_event_class("E30"), "10:00:00")
    es.daily(create_event_class("E30"), "11:00:00")
    # exactly one of the armed messages is still live
    live = []
    es.get_next_event = lambda: live.append(1)
    for m in c.loop.messages: m.callback()
    os._exit(0 if len(live) == 1 else 3)


def F30():  # adding a daily time to a scheduled source never returns
    p = multiprocessing.get_context("fork").Process(target=_change); p.start(); p.join(5)
    alive = p.is_alive(); p.kill(); p.join()
    assert not alive, "hangs"
    assert p.exitcode == 0, p.exitcode


def _partial():
    c, g, d = dma()
    g._orders["1"] = dict(ORDER)
    line = upd(g, "1", "2", 100) + "\n"
    files(g, "", "100000,1,9,1,9,x\n")
    with open(g._order_update_csv, "ab") as f: f.write(line.encode())
    with open(g._order_result_csv, "ab") as f: f.write("100000,1,8,1,9,资金不足".encode()[:-1])
    g.sync_orders()
    os._exit(0 if g._orders["1"]["status"] == "filled" else 3)


def F31():  # a file that ends within a character of an unfinished line hangs the process
    p = multiprocessing.get_context("fork").Process(target=_partial); p.start(); p.join(5)
    alive = p.is_alive(); p.kill(); p.join()
    assert not alive, "hangs"
    assert p.exitcode == 0, p.exitcode


def F32():  # a line that cannot be parsed leaves the order half updated
    c, g, d = dma()
    g._orders["1"] = dict(ORDER)
    line = upd(g, "1", "2", 77)
    assert ",77," in line, line
    files(g, line.replace(",77,", ",7x,") + "\n"); g.sync_orders()
    assert g._orders["1"] == ORDER, g._orders["1"]


class _Proc(object):
    """a running task as psutil shows it; gone: it has ended since it was listed"""
    def __init__(self, pid, name, gone=False):
        self.pid, self.n, self.gone, self.got = pid, name, gone, []
        self.seen = 0

    def cmdline(self):
        import psutil
        self.seen += 1
        if self.gone and self.seen > 1: raise psutil.NoSuchProcess(self.pid)
        return ["python", "-m", "jqtrade", "start_task", "-n", self.n, "-c", "x.py"]

    def ppid(self): return 1

    def name(self): return "python"

    def send_signal(self, s):
        import psutil
        if self.gone: raise psutil.NoSuchProcess(self.pid)
        self.got.append(s)

    def kill(self): self.send_signal("kill")


def _tasks(*ps):
    import psutil
    psutil.process_iter = lambda *a, **k: iter(ps)


def F33():  # a task that ends while tasks are stopped keeps the others running
    import argparse
    from jqtrade.__main__ import stop_task
    for kw in (dict(all=True, name=None), dict(all=False, name="demo")):
        a, b = _Proc(10, "demo", True), _Proc(11, "demo")
        _tasks(a, b)
        try: stop_task(argparse.Namespace(pid=None, force=False, **kw))
        except Exception as e: assert False, repr(e)
        assert b.got, "not stopped"


def F34():  # a task that ends while another is started makes the start fail
    from jqtrade.scheduler.runner import _exist_repeated_task
    a, b = _Proc(10, "other", True), _Proc(11, "demo")
    _tasks(a, b)
    assert _exist_repeated_task("demo")
    b.n = "b"
    assert not _exist_repeated_task("demo")


def F35():  # another module than the given file is loaded
    from jqtrade.scheduler.loader import Loader
    os.makedirs("s")
    for f in ("a.py", "a.b.py", "json.py"):
        with open(os.path.join("s", f), "w") as o: o.write("WHERE = %r" % f)
    for f in ("a.b.py", "json.py"):
        m = Loader(os.path.join("s", f)).load()
        assert getattr(m, "WHERE", None) == f, m


def F36():  # two orders get the same id: the first one is lost
    from jqtrade.account import account
    from jqtrade.account.order import MarketOrderStyle, OrderSide
    class G(object):
        def order(self, o): pass
    ids = iter([7, 7, 8])
    account.generate_unique_number = lambda: next(ids)
    c = ctx(gate=G())
    a = c.account.order("600000.XSHG", 100, MarketOrderStyle(0), OrderSide.long)
    b = c.account.order("000001.XSHE", 100, MarketOrderStyle(0), OrderSide.long)
    assert a != b and len(c.account.orders) == 2


def F37():  # what a strategy prints after it changed the directory is not in the log file
    import jqtrade.scheduler.runner as R
    from jqtrade.scheduler.config import get_config
    import jqtrade.scheduler.utils as U
    R.get_activate_task_process = lambda: []
    get_config().SETUP_ACCOUNT = False
    get_config().RUNTIME_DIR = SCRATCH
    os.mkdir("d")
    R.EventLoop.run = lambda self: None
    with open("s.py", "w") as o: o.write("import os\ndef process_initialize(ctx):\n    os.chdir('d')\n    print('hello')\n")
    R.TaskRunner("s.py", "out.log", "t", None).run()
    assert "hello" in open(os.path.join(SCRATCH, "out.log")).read()


def F38():  # a relative --config is not found by the account after the strategy changed the directory
    import jqtrade.scheduler.runner as R
    from jqtrade.scheduler.config import get_config
    from jqtrade.account.config import get_config as get_account
    R.get_activate_task_process = lambda: []
    get_config().RUNTIME_DIR = SCRATCH
    os.mkdir("d2")
    R.EventLoop.run = lambda self: None
    with open("c.py", "w") as o: o.write("ACCOUNT_SYNC_INTERNAL = 7\nACCOUNT_TRADE_GATE = ''\n")
    with open("s2.py", "w") as o: o.write("import os\ndef process_initialize(ctx):\n    os.chdir('d2')\n    set_options(account_no='1')\n")
    from jqtrade.common.exceptions import ConfigError
    try:
        R.TaskRunner("s2.py", None, "t", None, config="c.py").run()
    except ConfigError:
        pass          # the trade gate of the file is empty
    assert get_account().SYNC_INTERNAL == 7


def F39():  # a function in the custom configuration does not see the names of the file
    from jqtrade.scheduler.config import get_config, setup_scheduler_config
    from jqtrade.account.config import get_config as get_account, setup_account_config
    with open("c2.py", "w") as o: o.write("import datetime\ndef at(h):\n    return datetime.time(h)\nSCHEDULER_MARKET_PERIOD = [(at(9), at(11))]\nACCOUNT_SYNC_PERIOD = [(at(9), at(11))]\n")
    setup_scheduler_config("c2.py")
    setup_account_config("c2.py")
    assert len(get_config().MARKET_PERIOD) == 1 and len(get_account().SYNC_PERIOD) == 1


def F40():  # a task that calls sys.exit leaves a process that handles no event and does not end
    import threading
    from jqtrade.scheduler.loop import EventLoop
    from jqtrade.scheduler.message import Message
    l = EventLoop()
    def exit_():
        sys.exit(3)
    l.push_message(Message(time=l.get_current_time(), callback=exit_))
    t = threading.Timer(3, l.stop)
    t.start()
    try:
        l.run()
        code = None
    except SystemExit as e:
        code = e.code
    t.cancel()
    assert code == 3


if __name__ == "__main__":
    names = [n for n in sorted(globals()) if n[0] == "F" and n[1:].isdigit()] if sys.argv[1] == "all" else [sys.argv[1]]
    rc = 0
    try:
        if len(names) == 1:
            try:
                globals()[names[0]](); print(names[0], "ok")
            except AssertionError as e:
                print(names[0], "DEFECT", repr(e)[:200]); rc = 1
            except Exception as e:
                print(names[0], "DEFECT (exception)", repr(e)[:200]); rc = 1
        else:
            import subprocess
            for n in names:
                rc |= subprocess.call([sys.executable, ME, n, REPO])
    finally:
        os.chdir("/")
        shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.exit(rc)
