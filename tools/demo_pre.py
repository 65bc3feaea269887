import sys, os, tempfile, shutil, datetime, time, types, json, atexit, logging
REPO = os.getcwd()
sys.path.insert(0, REPO)
time.tzset()
SCRATCH = tempfile.mkdtemp(prefix="demo")
atexit.register(shutil.rmtree, SCRATCH, True)
os.chdir(SCRATCH)
os.environ["HOME"] = SCRATCH
logging.disable(logging.CRITICAL)


class FakeLoop(object):
    """stands in for the event loop: records what is armed"""
    def __init__(self, dt):
        self.current_dt = dt
        self.strategy_dt = dt
        self.messages = []
        self.checkers = []

    def push_message(self, m, notify=True):
        self.messages.append(m)

    def run(self, n=100):
        for _ in range(n):
            if not self.messages:
                return
            self.messages.sort(key=lambda m: m.sort_key)
            m = self.messages.pop(0)
            self.current_dt = self.strategy_dt = datetime.datetime.fromtimestamp(m.time / 1000.0)
            m.callback(**m.callback_data)


class FakeLoader(object):
    def __init__(self, mod):
        self.mod = mod

    def load(self):
        return self.mod


def context(code="", loop=None, start=None, end=None, gate=None, use_account=True):
    from jqtrade.scheduler.context import Context
    from jqtrade.scheduler.bus import EventBus
    from jqtrade.scheduler.event_source import EventSourceScheduler
    mod = types.ModuleType("user_strategy")
    sys.modules["user_strategy"] = mod
    exec(code, mod.__dict__)
    c = Context("demo", EventBus(), loop or FakeLoop(start or datetime.datetime.now()), EventSourceScheduler(), FakeLoader(mod), False, None, None,
                start=start, end=end)
    c.user = mod
    if gate is not None:
        from jqtrade.account.account import Account
        c.use_account = use_account
        c.trade_gate = gate
        c.account = Account(c)
    return c


def history():
    from jqtrade.scheduler.config import get_config
    get_config().ENABLE_HISTORY_START = True
    get_config().SETUP_ACCOUNT = False
    get_config().RUNTIME_DIR = SCRATCH


def strategy(code, start, end, loop=None):
    """a strategy of the given code, set up in history mode; returns (strategy, context)"""
    history()
    from jqtrade.scheduler.strategy import Strategy
    c = context(code, loop or FakeLoop(start), start, end)
    s = Strategy(c)
    s.setup()
    return s, c


class Gate(object):
    """a broker that records what reaches it"""
    def __init__(self, bal=None, orders=()):
        self.sent = []
        self.cancelled = []
        self.bal = bal
        self.o = orders

    def setup(self, o):
        pass

    def order(self, o):
        self.sent.append(o)

    def cancel_order(self, i):
        self.cancelled.append(i)

    def sync_balance(self):
        return json.loads(json.dumps(self.bal))

    def sync_orders(self):
        return self.o


def check(cond, msg):
    if not cond:
        print("BROKEN: %s" % msg)
        sys.stdout.flush()
        sys.exit(1)


DT = datetime.datetime
