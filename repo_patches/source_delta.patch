From fa40822fa772bd21ba35eede3cc2c76d97c49de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 01/40] fix: pass the requested side on to the order (short
 orders were sent as long)

---
 jqtrade/account/account.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index 4e83498..6ec1d75 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -163,7 +163,7 @@ class Account(AbsAccount):
         action = OrderAction.close if amount < 0 else OrderAction.open
         order_obj = Order(code=code, price=style.price, amount=abs(amount), action=action,
                           order_id=order_id, style=style, create_time=datetime.datetime.now(),
-                          status=OrderStatus.new)
+                          status=OrderStatus.new, side=side)
         self._orders[order_id] = order_obj
         try:
             logger.info(f"提交订单，订单id：{order_id}，code：{code}，price：{style.price}，amount：{amount}，"
-- 
2.43.0


From 5652febca8e35537c87de59456f16454ae617efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 02/40] fix: take over cash figures of 0 from the broker

---
 jqtrade/account/account.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index 6ec1d75..a9bfacf 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -198,9 +198,9 @@ class Account(AbsAccount):
                 raise ValueError("trade_gate.sync_balance未返回持仓数据")
 
             cash_info = account_info["cash"]
-            self._total_assert = cash_info.get("total_asset") or self._total_assert
-            self._available_cash = cash_info.get("available_cash") or self._available_cash
-            self._locked_cash = cash_info.get("locked_cash") or self._locked_cash
+            self._total_assert = cash_info.get("total_asset", self._total_assert)
+            self._available_cash = cash_info.get("available_cash", self._available_cash)
+            self._locked_cash = cash_info.get("locked_cash", self._locked_cash)
 
             # 每次全量同步持仓前，清空缓存中的持仓，然后使用交易接口同步到的持仓更新内存。由于框架是单线程，所以这样处理没问题。
             # 这样的处理逻辑依赖交易接口返回正常的持仓，相较于原地更新，逻辑简单，不容易出问题。
-- 
2.43.0


From 77e3e09c0c3940197b61b05043be86bd2874d3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 03/40] fix: accept the documented total_assert key in a trade
 gate's cash info

---
 jqtrade/account/account.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index a9bfacf..d082735 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -198,7 +198,7 @@ class Account(AbsAccount):
                 raise ValueError("trade_gate.sync_balance未返回持仓数据")
 
             cash_info = account_info["cash"]
-            self._total_assert = cash_info.get("total_asset", self._total_assert)
+            self._total_assert = cash_info.get("total_asset", cash_info.get("total_assert", self._total_assert))
             self._available_cash = cash_info.get("available_cash", self._available_cash)
             self._locked_cash = cash_info.get("locked_cash", self._locked_cash)
 
-- 
2.43.0


From 6644339835bacd16be5beea11b3c631fda64d398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 04/40] fix: side is an optional field of a trade gate's
 positions

---
 jqtrade/account/account.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index d082735..f91ded8 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -209,7 +209,7 @@ class Account(AbsAccount):
 
             positions = account_info["positions"]
             for _pos_info in positions:
-                _side = OrderSide.get_side(_pos_info.pop("side"))
+                _side = OrderSide.get_side(_pos_info.pop("side", OrderSide.long))
                 _pos = Position(
                     code=_pos_info.pop("code"),
                     amount=_pos_info.pop("amount"),
-- 
2.43.0


From 9a0b8f4c44e43f0339878b877b6a590060de4c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 05/40] fix: a failing balance sync keeps the last good cash
 and positions

---
 jqtrade/account/account.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index f91ded8..c61724a 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -198,14 +198,14 @@ class Account(AbsAccount):
                 raise ValueError("trade_gate.sync_balance未返回持仓数据")
 
             cash_info = account_info["cash"]
-            self._total_assert = cash_info.get("total_asset", cash_info.get("total_assert", self._total_assert))
-            self._available_cash = cash_info.get("available_cash", self._available_cash)
-            self._locked_cash = cash_info.get("locked_cash", self._locked_cash)
+            total_assert = cash_info.get("total_asset", cash_info.get("total_assert", self._total_assert))
+            available_cash = cash_info.get("available_cash", self._available_cash)
+            locked_cash = cash_info.get("locked_cash", self._locked_cash)
 
-            # 每次全量同步持仓前，清空缓存中的持仓，然后使用交易接口同步到的持仓更新内存。由于框架是单线程，所以这样处理没问题。
-            # 这样的处理逻辑依赖交易接口返回正常的持仓，相较于原地更新，逻辑简单，不容易出问题。
-            self._long_positions.clear()
-            self._short_positions.clear()
+            # 每次全量同步持仓，先解析交易接口同步到的所有持仓，全部解析成功后再整体替换内存中的资金、持仓，
+            # 这样某次同步失败时，内存中仍保留上一次同步成功的完整数据。
+            long_positions = {}
+            short_positions = {}
 
             positions = account_info["positions"]
             for _pos_info in positions:
@@ -220,9 +220,15 @@ class Account(AbsAccount):
                 )
 
                 if _pos.side == OrderSide.long:
-                    self._long_positions[_pos.code] = _pos
+                    long_positions[_pos.code] = _pos
                 else:
-                    self._short_positions[_pos.code] = _pos
+                    short_positions[_pos.code] = _pos
+
+            self._total_assert = total_assert
+            self._available_cash = available_cash
+            self._locked_cash = locked_cash
+            self._long_positions = long_positions
+            self._short_positions = short_positions
         except Exception as e:
             logger.exception(f"同步资金和持仓失败，error={e}")
 
-- 
2.43.0


From 1e0dc1678059e39d5c079a9da068d15a1182dd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 06/40] fix: Portfolio.position_value sums the positions, not
 their codes

---
 jqtrade/account/portfolio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/account/portfolio.py b/jqtrade/account/portfolio.py
index 7c84a57..44d3590 100644
--- a/jqtrade/account/portfolio.py
+++ b/jqtrade/account/portfolio.py
@@ -39,7 +39,7 @@ class Portfolio(object):
 
     @property
     def position_value(self):
-        return sum(_pos.position_value for _pos in self.long_positions)
+        return sum(_pos.position_value for _pos in self.long_positions.values())
 
     def __str__(self):
         return f"Portfolio(total_assert={self.total_value}, available_assert={self.available_cash}, " \
-- 
2.43.0


From bb9aee6c79084eec8a19d33a66a1312009631b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 07/40] fix: custom configuration: remove the prefix, not a set
 of characters

---
 jqtrade/account/config.py   | 2 +-
 jqtrade/scheduler/config.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/jqtrade/account/config.py b/jqtrade/account/config.py
index df1dfd9..a05bb2d 100644
--- a/jqtrade/account/config.py
+++ b/jqtrade/account/config.py
@@ -38,7 +38,7 @@ def _load_config(path):
     account_configs = {}
     for _name in configs:
         if _name.startswith("ACCOUNT_"):
-            account_configs[_name.lstrip("ACCOUNT_")] = configs[_name]
+            account_configs[_name[len("ACCOUNT_"):]] = configs[_name]
     return account_configs
 
 
diff --git a/jqtrade/scheduler/config.py b/jqtrade/scheduler/config.py
index c5ff826..7fa99a8 100644
--- a/jqtrade/scheduler/config.py
+++ b/jqtrade/scheduler/config.py
@@ -44,7 +44,7 @@ def _load_config(path):
     scheduler_configs = {}
     for _name in configs:
         if _name.startswith("SCHEDULER_"):
-            scheduler_configs[_name.lstrip("SCHEDULER_")] = configs[_name]
+            scheduler_configs[_name[len("SCHEDULER_"):]] = configs[_name]
     return scheduler_configs
 
 
-- 
2.43.0


From 905dcaa6656f25f4848f6da28abdf51f3c1d9696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 08/40] fix: recognise running tasks started with
 --option=value

---
 jqtrade/scheduler/utils.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/jqtrade/scheduler/utils.py b/jqtrade/scheduler/utils.py
index 77ac4c2..cba320a 100644
--- a/jqtrade/scheduler/utils.py
+++ b/jqtrade/scheduler/utils.py
@@ -2,16 +2,18 @@
 
 
 def parse_task_info(cmd_line):
-    info = {"debug": False, "env": None, "out": None}
+    info = {"debug": False, "env": None, "out": None, "code": None, "name": None}
     for _idx, _item in enumerate(cmd_line):
-        if _item in ("-c", "--code"):
-            info["code"] = cmd_line[_idx+1]
-        elif _item in ("-o", "--out"):
-            info["out"] = cmd_line[_idx + 1]
-        elif _item in ("-n", "--name"):
-            info["name"] = cmd_line[_idx + 1]
-        elif _item in ("-e", "--env"):
-            info["env"] = cmd_line[_idx + 1]
+        # 选项值既可以是下一个参数，也可以是"--name=demo"的形式
+        _opt, _sep, _val = _item.partition("=")
+        if _opt in ("-c", "--code"):
+            info["code"] = _val if _sep else cmd_line[_idx + 1]
+        elif _opt in ("-o", "--out"):
+            info["out"] = _val if _sep else cmd_line[_idx + 1]
+        elif _opt in ("-n", "--name"):
+            info["name"] = _val if _sep else cmd_line[_idx + 1]
+        elif _opt in ("-e", "--env"):
+            info["env"] = _val if _sep else cmd_line[_idx + 1]
         elif _item == "--debug":
             info["debug"] = True
     return info
-- 
2.43.0


From 285e31f40ddc6f578515278282cf258bf161a130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 09/40] fix: environment values may contain "="

---
 jqtrade/scheduler/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/scheduler/utils.py b/jqtrade/scheduler/utils.py
index cba320a..50475e1 100644
--- a/jqtrade/scheduler/utils.py
+++ b/jqtrade/scheduler/utils.py
@@ -57,7 +57,7 @@ def parse_env(env, sep=";"):
     envs = env.split(sep)
     for _env in envs:
         _env = _env.strip()
-        _k, _v = _env.split("=")
+        _k, _v = _env.split("=", 1)
         _k = _k.strip()
         _v = _v.strip()
         ret[_k] = _v
-- 
2.43.0


From 067ef61aadcb813dd50d16b110c0a7503320871a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 10/40] fix: security codes need the dot before the exchange

---
 jqtrade/account/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/account/api.py b/jqtrade/account/api.py
index 05e880a..6bbf2c8 100644
--- a/jqtrade/account/api.py
+++ b/jqtrade/account/api.py
@@ -11,7 +11,7 @@ logger = sys_logger.getChild("account.api")
 
 
 def _check_code(code):
-    if not (code[-4:] in ("XSHE", "XSHG") and code[:-5].isdigit()):
+    if not (code[-5:] in (".XSHE", ".XSHG") and code[:-5].isdigit()):
         raise InvalidParam(f"标的代码错误: {code}")
 
 
-- 
2.43.0


From 0b9eb89a5ae99b7a8f5f1c533075c43c22560db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 11/40] fix: an order whose broker message or entrust time
 changed is not unchanged

---
 jqtrade/account/order.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jqtrade/account/order.py b/jqtrade/account/order.py
index ade33d2..79cc430 100644
--- a/jqtrade/account/order.py
+++ b/jqtrade/account/order.py
@@ -308,4 +308,6 @@ class Order(object):
             and self._deal_balance == other.deal_balance
             and self._avg_cost == other.avg_cost
             and self._commission == other.commission
+            and self._entrust_time == other.entrust_time
+            and self._err_msg == other.err_msg
         )
-- 
2.43.0


From de4c2fe14ca1d5f8a33d94880a0469893e6629ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 12/40] fix: the side of an order does not depend on its style

---
 jqtrade/account/order.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/account/order.py b/jqtrade/account/order.py
index 79cc430..ad88d00 100644
--- a/jqtrade/account/order.py
+++ b/jqtrade/account/order.py
@@ -176,7 +176,7 @@ class Order(object):
         self._entrust_time = parse_dt(entrust_time) if entrust_time else None
 
         # 委托方向
-        self._side = OrderSide.get_side(side) if style else None
+        self._side = OrderSide.get_side(side) if side else None
 
         # 券商返回的委托号
         self._confirm_id = kwargs.get("confirm_id", None)
-- 
2.43.0


From bb1aafbb0b50f98257431736e4cf00d846f63499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 13/40] fix: write order lines, and decide on the header, while
 the file lock is held

---
 jqtrade/account/trade_gate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 91bbf13..6ac7da1 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -290,9 +290,13 @@ class AnXinDMATradeGate(AbsTradeGate):
             with open(file, mode, encoding=self._file_coding) as fp:
                 try:
                     portalocker.lock(fp, portalocker.LOCK_EX | portalocker.LOCK_NB)  # no block
+                    # 拿到锁之后再定位到文件末尾，打开文件到拿到锁期间其他进程可能写入了数据
+                    fp.seek(0, os.SEEK_END)
                     if fp.tell() == 0 and header:
                         line = header + os.linesep + line
                     fp.write(line)
+                    # 释放锁之前写入文件
+                    fp.flush()
                     break
                 except (BlockingIOError, portalocker.exceptions.AlreadyLocked):
                     if time.time() - start >= self._wait_lock_time_out:
-- 
2.43.0


From 7a64692c98c4174a05e1c199d5cda5a06afd86b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 14/40] fix: the trade gate uses the expanded runtime_dir too

---
 jqtrade/scheduler/strategy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jqtrade/scheduler/strategy.py b/jqtrade/scheduler/strategy.py
index 0f29ef1..ac1115a 100644
--- a/jqtrade/scheduler/strategy.py
+++ b/jqtrade/scheduler/strategy.py
@@ -205,6 +205,7 @@ class Strategy(object):
         if not os.path.isdir(runtime_dir):
             os.makedirs(runtime_dir)
         logger.info(f"程序运行时目录：{runtime_dir}")
+        kwargs["runtime_dir"] = runtime_dir
 
         self._ctx.use_account = use_account = kwargs.get("use_account", config.SETUP_ACCOUNT)
         if use_account:
-- 
2.43.0


From 07c0ea4e7c5fc5edacfebb9e33c58e3e40c7d238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 15/40] fix: read the order result file with the configured
 encoding

---
 jqtrade/account/trade_gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 6ac7da1..b36bb1a 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -400,7 +400,7 @@ class AnXinDMATradeGate(AbsTradeGate):
         self.check_file_exists(self._order_update_csv)
         self.check_file_exists(self._order_result_csv)
 
-        with open(self._order_result_csv, "r") as rf:
+        with open(self._order_result_csv, "r", encoding=self._file_coding) as rf:
             rf.seek(pre_order_result_offset)
             while True:
                 try:
-- 
2.43.0


From c5d24744e3080faf6f3311201160abf7d9294e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 16/40] fix: read the asset and position files with the
 configured encoding

---
 jqtrade/account/trade_gate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index b36bb1a..2fa0199 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -315,7 +315,8 @@ class AnXinDMATradeGate(AbsTradeGate):
             raise InvalidParam("未设置account_no信息，请使用set_account设置资金账号")
 
         acct_no = str(acct_no)
-        asset_infos = self._read_csv(self._assert_info_csv, dtype={"acct": str, "exchange": str})
+        asset_infos = self._read_csv(self._assert_info_csv, dtype={"acct": str, "exchange": str},
+                                     encoding=self._file_coding)
         if len(asset_infos) == 0:
             raise AnXinDMAError("文件单中未查询到资产数据")
         for _asset_info in asset_infos.itertuples():
@@ -334,7 +335,8 @@ class AnXinDMATradeGate(AbsTradeGate):
         self.check_file_exists(self._position_info_csv)
 
         data["positions"] = []
-        position_info = self._read_csv(self._position_info_csv, dtype={"acct": str, "symbol": str})
+        position_info = self._read_csv(self._position_info_csv, dtype={"acct": str, "symbol": str},
+                                       encoding=self._file_coding)
         for _pos in position_info.itertuples():
             if _pos.acct != acct_no:
                 continue
-- 
2.43.0


From 58639474cd6b9ddd75c66d13a45bf6b9d1e56ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 17/40] fix: do not consume an order file line before it is
 completely written

---
 jqtrade/account/trade_gate.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 2fa0199..dda8153 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -406,7 +406,11 @@ class AnXinDMATradeGate(AbsTradeGate):
             rf.seek(pre_order_result_offset)
             while True:
                 try:
-                    _line = rf.readline().strip()
+                    _line = rf.readline()
+                    if not _line.endswith("\n"):
+                        # 文件末尾或还未写完整的行，下次同步时再处理
+                        break
+                    _line = _line.strip()
                     if not _line:
                         break
 
@@ -447,7 +451,11 @@ class AnXinDMATradeGate(AbsTradeGate):
             rf.seek(pre_order_update_offset)
             while True:
                 try:
-                    _line = rf.readline().strip()
+                    _line = rf.readline()
+                    if not _line.endswith("\n"):
+                        # 文件末尾或还未写完整的行，下次同步时再处理
+                        break
+                    _line = _line.strip()
                     if not _line:
                         break
 
-- 
2.43.0


From bade5360c61435d1262c3d433e8d12151fee50b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 18/40] fix: a blank or malformed order file line must not
 block all later lines

---
 jqtrade/account/trade_gate.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index dda8153..de0bbc7 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -411,16 +411,13 @@ class AnXinDMATradeGate(AbsTradeGate):
                         # 文件末尾或还未写完整的行，下次同步时再处理
                         break
                     _line = _line.strip()
-                    if not _line:
-                        break
-
-                    if _line.startswith(self.ORDER_RESULT_COLS[0]):
+                    if not _line or _line.startswith(self.ORDER_RESULT_COLS[0]):
                         self._order_result_offset = rf.tell()
                         continue
 
                     _items = [_s.strip() for _s in _line.split(",")]
                     if len(_items) < len(self.ORDER_RESULT_COLS):
-                        break
+                        raise ParserError(f"无效订单结果：{_line}")
 
                     _order_result_line = self.ORDER_RESULT_CLS(*_items)
                     if _order_result_line.resultType == self.RESULT_TYPE_CANCEL \
@@ -456,16 +453,13 @@ class AnXinDMATradeGate(AbsTradeGate):
                         # 文件末尾或还未写完整的行，下次同步时再处理
                         break
                     _line = _line.strip()
-                    if not _line:
-                        break
-
-                    if _line.startswith(self.ORDER_LINE_COLS[0]):
+                    if not _line or _line.startswith(self.ORDER_LINE_COLS[0]):
                         self._order_update_offset = rf.tell()
                         continue
 
                     _items = [_s.strip() for _s in _line.split(",")]
                     if len(_items) < len(self.ORDER_LINE_COLS):
-                        break
+                        raise ParserError(f"无效订单状态信息：{_line}")
 
                     order_line = self.ORDER_LINE_CLS(*_items)
 
-- 
2.43.0


From fe326709861b1153159e99b94f1a7fd6d7bad919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 19/40] fix: a comma in the broker's error message must not
 lose the rejection

---
 jqtrade/account/trade_gate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index de0bbc7..dd15053 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -415,7 +415,8 @@ class AnXinDMATradeGate(AbsTradeGate):
                         self._order_result_offset = rf.tell()
                         continue
 
-                    _items = [_s.strip() for _s in _line.split(",")]
+                    # 最后一列errorMsg中可能包含逗号
+                    _items = [_s.strip() for _s in _line.split(",", len(self.ORDER_RESULT_COLS) - 1)]
                     if len(_items) < len(self.ORDER_RESULT_COLS):
                         raise ParserError(f"无效订单结果：{_line}")
 
-- 
2.43.0


From a46447f14fd6eff9ee092dce47a8b2163f35a43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 20/40] fix: start with fresh order files and a fresh order
 cache on a new day

---
 jqtrade/account/trade_gate.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index dd15053..6df2df7 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -223,6 +223,9 @@ class AnXinDMATradeGate(AbsTradeGate):
         self._order_update_offset = 0
         self._order_result_offset = 0
 
+        # 以上缓存数据和文件读取位置所属的日期
+        self._trading_date = None
+
         self._has_synced = False
 
         self._file_coding = None
@@ -236,6 +239,8 @@ class AnXinDMATradeGate(AbsTradeGate):
         self._algo_type = None
 
     def order(self, sys_order):
+        self._check_day_changed()
+
         acct_no = self._options.get("account_no")
         if not acct_no:
             raise InvalidParam("未设置account_no信息，请使用set_account设置资金账号")
@@ -395,7 +400,24 @@ class AnXinDMATradeGate(AbsTradeGate):
         else:
             raise ValueError(f"invalid code: {code}")
 
+    def _check_day_changed(self):
+        """ 跨日后，算法单和本地缓存都切换为当日的文件，需要重置当日订单缓存和文件读取位置 """
+        if self._trading_date == self._date:
+            return
+
+        self._trading_date = self._date
+        self._data_file = self._get_data_file()
+        self._orders = {}
+        self._order_update_offset = 0
+        self._order_result_offset = 0
+
+    def _get_data_file(self):
+        task_name = Context.get_instance().task_name
+        return os.path.join(self._data_dir, f"{task_name}_{self._date.strftime('%Y%m%d')}.json")
+
     def sync_orders(self):
+        self._check_day_changed()
+
         pre_order_update_offset = self._order_update_offset
         pre_order_result_offset = self._order_result_offset
 
@@ -542,7 +564,6 @@ class AnXinDMATradeGate(AbsTradeGate):
         if self._algo_type != self.DEFAULT_ALGO_TYPE:
             logger.warn(f"检测到当前使用的算法交易类型是{self._algo_type}, 请与您的客户经理确认是否开通了此算法交易类型，否则将影响交易")
 
-        ctx = Context.get_instance()
         runtime_dir = options.get("runtime_dir", scheduler_config.RUNTIME_DIR)
 
         self._data_dir = os.path.join(runtime_dir, "data")
@@ -550,7 +571,8 @@ class AnXinDMATradeGate(AbsTradeGate):
         if not os.path.exists(self._data_dir):
             os.makedirs(self._data_dir)
 
-        self._data_file = os.path.join(self._data_dir, f"{ctx.task_name}_{self._date.strftime('%Y%m%d')}.json")
+        self._trading_date = self._date
+        self._data_file = self._get_data_file()
 
         self._file_coding = self._options.get("file_encoding", sys.getfilesystemencoding())
         self._ignore_error_line = self._options.get("ignore_error_line", self.DEFAULT_IGNORE_ERROR_LINE)
-- 
2.43.0


From cb74f38a66e596acea57c3b04460b645762ff512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 21/40] fix: periodic account sync covers the whole day, not
 only the time of day after the start

---
 jqtrade/account/account.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index c61724a..474f4d9 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -132,7 +132,8 @@ class Account(AbsAccount):
         sync_internal = float(self._options.get("sync_internal", config.SYNC_INTERNAL))
         sync_period = self._options.get("sync_period", config.SYNC_PERIOD)
         if not sync_period:
-            current = now + datetime.timedelta(seconds=sync_internal)
+            # 定时任务每天都会执行，因此需要覆盖全天，早于启动时间的事件不会生成
+            current = now.replace(hour=0, minute=0, second=0)
             while current <= now.replace(hour=23, minute=59, second=59):
                 event_source.daily(event_cls, current.strftime("%H:%M:%S"))
                 current += datetime.timedelta(seconds=sync_internal)
-- 
2.43.0


From cd84d5240483566539944c4b4028c52f5a9e26db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 22/40] fix: an event source without daily tasks must not hang
 the process

---
 jqtrade/scheduler/event_source.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jqtrade/scheduler/event_source.py b/jqtrade/scheduler/event_source.py
index d35df7f..e21eaf3 100644
--- a/jqtrade/scheduler/event_source.py
+++ b/jqtrade/scheduler/event_source.py
@@ -118,6 +118,10 @@ class EventSource(object):
         if len(self._events):
             return
 
+        # 没有任何定时任务时不会产生事件
+        if not self._daily:
+            return
+
         while len(self._events) == 0:
             if len(self._days) == 0:
                 self._days = self._get_days()
-- 
2.43.0


From 288acb76a206313a5dfc5954cdc1b3fbfd448259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 23/40] fix: do not generate the last day's events a second
 time when the generated days are used up

---
 jqtrade/scheduler/event_source.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/jqtrade/scheduler/event_source.py b/jqtrade/scheduler/event_source.py
index e21eaf3..a308a36 100644
--- a/jqtrade/scheduler/event_source.py
+++ b/jqtrade/scheduler/event_source.py
@@ -42,6 +42,9 @@ class EventSource(object):
 
         self._has_gen_his_days = False
 
+        # 下一个待生成事件的日期
+        self._next_day = None
+
     def setup(self):
         if self._start is None or not config.ENABLE_HISTORY_START:
             self._start = datetime.datetime.now()
@@ -56,6 +59,7 @@ class EventSource(object):
 
         self._events = []
         self._has_gen_his_days = False
+        self._next_day = None
         self._days = self._get_days()
         self._need_regenerate_events = False
 
@@ -71,6 +75,9 @@ class EventSource(object):
             count = (end - start).days + 1 if end else count
         else:
             start = datetime.date.today()
+            if self._next_day:
+                # 已生成过事件的日期不能重复生成
+                start = max(start, self._next_day)
 
         for _delta in range(count):
             days.append(start + datetime.timedelta(days=_delta))
@@ -130,6 +137,7 @@ class EventSource(object):
                 break
 
             day = self._days.pop(0)
+            self._next_day = day + datetime.timedelta(days=1)
             self.add_daily_events(day)
 
         self._events.sort(key=lambda e: e[0])
-- 
2.43.0


From 92de569eca48aceb5007cc34188d30bcc5e7f19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 24/40] fix: use the configured EVENT_DAYS_COUNT

---
 jqtrade/scheduler/event_source.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jqtrade/scheduler/event_source.py b/jqtrade/scheduler/event_source.py
index a308a36..178095d 100644
--- a/jqtrade/scheduler/event_source.py
+++ b/jqtrade/scheduler/event_source.py
@@ -63,9 +63,12 @@ class EventSource(object):
         self._days = self._get_days()
         self._need_regenerate_events = False
 
-    def _get_days(self, count=config.EVENT_DAYS_COUNT):
+    def _get_days(self, count=None):
         days = []
 
+        if count is None:
+            count = config.EVENT_DAYS_COUNT
+
         if config.ENABLE_HISTORY_START or self._end:
             # 历史模式下，日期只有效生成一次
             if self._has_gen_his_days:
-- 
2.43.0


From 23fe34a7bb1664f744ad53f83e6a81c69f33e2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 25/40] fix: run the function passed to run_daily, not one
 looked up by its name

---
 jqtrade/scheduler/strategy.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/jqtrade/scheduler/strategy.py b/jqtrade/scheduler/strategy.py
index ac1115a..9c89d13 100644
--- a/jqtrade/scheduler/strategy.py
+++ b/jqtrade/scheduler/strategy.py
@@ -99,7 +99,7 @@ class Strategy(object):
         for _desc in self._schedules:
             logger.info(f"设置定时任务: {_desc}")
 
-            _callback = self._get_handle(_desc['name'])
+            _callback = _desc['func']
             _cls_name = f"Scheduler_{_desc['name']}_{self._schedule_count}"
 
             event_source = EventSource(start=self._ctx.start, end=self._ctx.end)
@@ -137,11 +137,12 @@ class Strategy(object):
 
         time = self.TIME_DICT.get(time) or time
 
-        module, func = self._check_handle(func)
+        module, name = self._check_handle(func)
 
         desc = {
             'module': module,
-            'name': func,
+            'name': name,
+            'func': func,
             'time': time,
         }
         self._schedules.append(desc)
@@ -152,9 +153,6 @@ class Strategy(object):
             raise InvalidParam(f"{func} is not callable")
         return func.__module__, func.__name__
 
-    def _get_handle(self, func_name):
-        return getattr(self._user_module, func_name, None)
-
     @property
     def user_module(self):
         return self._user_module
-- 
2.43.0


From 94c1e2b3a1f2432c37e5dbd9dbf43510b1853a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 26/40] fix: count the microseconds of an event time once

---
 jqtrade/common/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/common/utils.py b/jqtrade/common/utils.py
index c846a1b..3746e95 100644
--- a/jqtrade/common/utils.py
+++ b/jqtrade/common/utils.py
@@ -55,7 +55,7 @@ def parse_time(t):
 
 
 def dt_to_milliseconds(dt):
-    return int(dt.timestamp() * 1000 + dt.microsecond / 1000)
+    return int(round(dt.timestamp() * 1000))
 
 
 def milliseconds_to_dt(milliseconds):
-- 
2.43.0


From 8f1ad225423e6c8ede6de60d4029dc0dc4e16e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 27/40] fix: report an unknown time base with an offset as
 InvalidParam

---
 jqtrade/scheduler/event_source.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jqtrade/scheduler/event_source.py b/jqtrade/scheduler/event_source.py
index 178095d..44bfa03 100644
--- a/jqtrade/scheduler/event_source.py
+++ b/jqtrade/scheduler/event_source.py
@@ -275,4 +275,6 @@ class TimeExprParser(object):
             raise InvalidParam(f'invalid time expr {expr}')
         else:
             base, op, offset = ret
+            if base not in cls.ALLOWED_BASE:
+                raise InvalidParam(f'invalid time base {base}, time base must be one of {cls.ALLOWED_BASE}')
             return base, op, cls._parse_offset(offset)
-- 
2.43.0


From 66c4fcdf5d19a4c3b9c1db4574ee8f4bf807b2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 28/40] fix: provide the documented code and locked_amount of
 UserPosition

---
 jqtrade/account/api.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jqtrade/account/api.py b/jqtrade/account/api.py
index 6bbf2c8..ba72c0c 100644
--- a/jqtrade/account/api.py
+++ b/jqtrade/account/api.py
@@ -283,10 +283,16 @@ class UserPosition(object):
     def security(self):
         return self.__position.code
 
+    code = security
+
     @property
     def total_amount(self):
         return self.__position.amount
 
+    @property
+    def locked_amount(self):
+        return self.__position.locked_amount
+
     @property
     def closeable_amount(self):
         return self.__position.available_amount
-- 
2.43.0


From 4ce7736c9ec61f3f4209bd87b4e90f79f2d94f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 29/40] fix: a callback that (un)registers callbacks must not
 disturb the running emit

---
 jqtrade/scheduler/bus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jqtrade/scheduler/bus.py b/jqtrade/scheduler/bus.py
index 083b1fb..e6a549e 100644
--- a/jqtrade/scheduler/bus.py
+++ b/jqtrade/scheduler/bus.py
@@ -51,12 +51,12 @@ class EventBus(object):
             event: event_class实例
         """
         ret = []
-        for _event_cls in self._subscribes:
+        for _event_cls in list(self._subscribes):
             if not isinstance(event, _event_cls):
                 continue
             _event_subscribes = self._subscribes.get(_event_cls, {})
             for _priority in sorted(_event_subscribes, reverse=True):
-                for _callback in _event_subscribes[_priority]:
+                for _callback in list(_event_subscribes[_priority]):
                     logger.debug(f"emit event: {event}, callback: {_callback.__name__}")
                     ret.append(_callback(event))
         return ret
-- 
2.43.0


From ed8bceb69f08509958885b4a81b2da0ed2cfb781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:19 +0000
Subject: [PATCH 30/40] fix: adding a daily time to a scheduled event source
 never returned

---
 jqtrade/scheduler/event_source.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jqtrade/scheduler/event_source.py b/jqtrade/scheduler/event_source.py
index 44bfa03..2a2d852 100644
--- a/jqtrade/scheduler/event_source.py
+++ b/jqtrade/scheduler/event_source.py
@@ -97,7 +97,8 @@ class EventSource(object):
     def on_events_changed(self):
         self._need_regenerate_events = True
 
-        for _callback in self._event_changed_callback:
+        # 回调中可能会注册新的回调，遍历拷贝避免死循环
+        for _callback in list(self._event_changed_callback):
             _callback(self)
 
     def register_event_changed(self, callback):
@@ -215,6 +216,9 @@ class EventSourceScheduler(object):
 
         def reschedule(es):
             logger.debug(f"reschedule es: {es}")
+            if schedule_id not in self._event_sources:
+                # 本次调度已失效，由新的调度负责响应变化
+                return
             self.unschedule(schedule_id)
             self.schedule(es)
 
-- 
2.43.0


From c34aa7726d6210643173f900e402211bdf7ccb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:53 +0000
Subject: [PATCH 31/40] fix: a status file that ends within a character must
 not hang or lose updates

---
 jqtrade/account/trade_gate.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 6df2df7..449bfc5 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -424,15 +424,16 @@ class AnXinDMATradeGate(AbsTradeGate):
         self.check_file_exists(self._order_update_csv)
         self.check_file_exists(self._order_result_csv)
 
-        with open(self._order_result_csv, "r", encoding=self._file_coding) as rf:
+        with open(self._order_result_csv, "rb") as rf:
             rf.seek(pre_order_result_offset)
             while True:
                 try:
                     _line = rf.readline()
-                    if not _line.endswith("\n"):
+                    if not _line.endswith(b"\n"):
                         # 文件末尾或还未写完整的行，下次同步时再处理
                         break
-                    _line = _line.strip()
+                    # 读到完整的行之后再解码，未写完整的行可能在一个字符中间截断
+                    _line = _line.decode(self._file_coding).strip()
                     if not _line or _line.startswith(self.ORDER_RESULT_COLS[0]):
                         self._order_result_offset = rf.tell()
                         continue
@@ -467,15 +468,16 @@ class AnXinDMATradeGate(AbsTradeGate):
                     else:
                         raise
 
-        with open(self._order_update_csv, "r", encoding=self._file_coding) as rf:
+        with open(self._order_update_csv, "rb") as rf:
             rf.seek(pre_order_update_offset)
             while True:
                 try:
                     _line = rf.readline()
-                    if not _line.endswith("\n"):
+                    if not _line.endswith(b"\n"):
                         # 文件末尾或还未写完整的行，下次同步时再处理
                         break
-                    _line = _line.strip()
+                    # 读到完整的行之后再解码，未写完整的行可能在一个字符中间截断
+                    _line = _line.decode(self._file_coding).strip()
                     if not _line or _line.startswith(self.ORDER_LINE_COLS[0]):
                         self._order_update_offset = rf.tell()
                         continue
-- 
2.43.0


From 1d7ff71d4f33c758f3bba7e543e99a5f126286c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:54 +0000
Subject: [PATCH 32/40] fix: an update that cannot be parsed must not change
 half of the order

---
 jqtrade/account/trade_gate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 449bfc5..431737a 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -491,7 +491,10 @@ class AnXinDMATradeGate(AbsTradeGate):
                     if order_line.custBatchNo not in self._orders:
                         continue
 
-                    self._update_order(self._orders[order_line.custBatchNo], order_line)
+                    # 全部字段解析成功后再替换订单，避免解析失败时订单只更新了一部分
+                    _order = self._orders[order_line.custBatchNo].copy()
+                    self._update_order(_order, order_line)
+                    self._orders[order_line.custBatchNo] = _order
 
                     # 记录下当前成功解析了的订单的位置
                     self._order_update_offset = rf.tell()
-- 
2.43.0


From 06b1e738133fc184b37d76eabef27d166fce42df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 33/40] fix: a task that has just ended must not keep stop_task
 from stopping the others

---
 jqtrade/__main__.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/jqtrade/__main__.py b/jqtrade/__main__.py
index 0d7fba2..fd39742 100644
--- a/jqtrade/__main__.py
+++ b/jqtrade/__main__.py
@@ -84,6 +84,8 @@ def stop_task(options):
     python -m quant_engine stop_task -p 12345
     python -m quant_engine stop_task --all
     """
+    import psutil
+
     from .scheduler.utils import get_activate_task_process, parse_task_info
 
     active_tasks = get_activate_task_process()
@@ -94,13 +96,17 @@ def stop_task(options):
     killed_pid = []
 
     def _kill(_p, force=False):
-        if force:
-            _p.kill()
-            print(f"强制停止进程 {_p.pid}")
-        else:
-            import signal
-            _p.send_signal(signal.SIGTERM)
-            print(f"尝试停止进程 {_p.pid}，已向该进程发送SIGTERM停止信号")
+        try:
+            if force:
+                _p.kill()
+                print(f"强制停止进程 {_p.pid}")
+            else:
+                import signal
+                _p.send_signal(signal.SIGTERM)
+                print(f"尝试停止进程 {_p.pid}，已向该进程发送SIGTERM停止信号")
+        except psutil.NoSuchProcess:
+            # 该进程已经退出，继续停止其他进程
+            return
         killed_pid.append(_p.pid)
 
     if options.all:
@@ -113,7 +119,10 @@ def stop_task(options):
                 break
     else:
         for _p in active_tasks:
-            _task_info = parse_task_info(_p.cmdline())
+            try:
+                _task_info = parse_task_info(_p.cmdline())
+            except psutil.NoSuchProcess:
+                continue
             if options.name == _task_info["name"]:
                 _kill(_p, options.force)
 
-- 
2.43.0


From e52fd8ac9401c0abc2bbe3a8f2608e182ace8bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 34/40] fix: a task that ends while tasks are listed must not
 make start_task or get_tasks fail

---
 jqtrade/__main__.py         | 8 +++++++-
 jqtrade/scheduler/runner.py | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/jqtrade/__main__.py b/jqtrade/__main__.py
index fd39742..ba0803b 100644
--- a/jqtrade/__main__.py
+++ b/jqtrade/__main__.py
@@ -56,6 +56,8 @@ def get_tasks(options):
     """
     python -m quant_engine get_tasks
     """
+    import psutil
+
     from .scheduler.utils import get_activate_task_process, parse_task_info
 
     active_tasks = get_activate_task_process()
@@ -65,7 +67,11 @@ def get_tasks(options):
 
     print("当前活跃的实盘任务进程".center(30, "-"))
     for _p in active_tasks:
-        _cmd = _p.cmdline()
+        try:
+            _cmd = _p.cmdline()
+        except psutil.NoSuchProcess:
+            # 该进程已经退出
+            continue
         _task_info = parse_task_info(_cmd)
         _task_info["pid"] = _p.pid
         _task_info["cmd"] = _cmd
diff --git a/jqtrade/scheduler/runner.py b/jqtrade/scheduler/runner.py
index cd20006..a5e6eee 100644
--- a/jqtrade/scheduler/runner.py
+++ b/jqtrade/scheduler/runner.py
@@ -19,6 +19,8 @@ logger = sys_logger.getChild("runner")
 
 
 def _exist_repeated_task(task_name):
+    import psutil
+
     current_pid = os.getpid()
     parent_pid = os.getppid()
 
@@ -26,7 +28,11 @@ def _exist_repeated_task(task_name):
     for _task in active_tasks:
         if _task.pid in (current_pid, parent_pid):
             continue
-        _task_info = parse_task_info(_task.cmdline())
+        try:
+            _task_info = parse_task_info(_task.cmdline())
+        except psutil.NoSuchProcess:
+            # 该进程已经退出
+            continue
         if task_name == _task_info["name"]:
             return True
 
-- 
2.43.0


From 5fb8d63e5e717b1596e15c8f757955b31648e959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 35/40] fix: load the given strategy file, not another module
 of the same name

---
 jqtrade/scheduler/loader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jqtrade/scheduler/loader.py b/jqtrade/scheduler/loader.py
index 6a199ef..4707d05 100644
--- a/jqtrade/scheduler/loader.py
+++ b/jqtrade/scheduler/loader.py
@@ -1,7 +1,7 @@
 # -*- coding: utf-8 -*-
 import os
 import sys
-import importlib
+import importlib.util
 
 from ..common.log import sys_logger
 
@@ -26,5 +26,9 @@ class Loader(object):
         sys.path.insert(0, self.code_dir)
 
         module_name = self.code_file.split(".")[0]
-        module = importlib.import_module(module_name)
+        # 按文件路径加载，避免加载到同名的其他模块
+        spec = importlib.util.spec_from_file_location(module_name, os.path.join(self.code_dir, self.code_file))
+        module = importlib.util.module_from_spec(spec)
+        sys.modules.setdefault(module_name, module)
+        spec.loader.exec_module(module)
         return module
-- 
2.43.0


From 9b0d5da77702e0890680eb644e9280bef2ceba76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 36/40] fix: a new order must not get the id of another order

---
 jqtrade/account/account.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index 474f4d9..e8326ce 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -161,6 +161,9 @@ class Account(AbsAccount):
 
     def order(self, code, amount, style, side):
         order_id = str(generate_unique_number())
+        while order_id in self._orders:
+            # 随机数可能与已有订单的id重复
+            order_id = str(generate_unique_number())
         action = OrderAction.close if amount < 0 else OrderAction.open
         order_obj = Order(code=code, price=style.price, amount=abs(amount), action=action,
                           order_id=order_id, style=style, create_time=datetime.datetime.now(),
-- 
2.43.0


From b1ee59bd35e3e3255d870b0d1dd6da91eefa531f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 37/40] fix: what a strategy prints after changing the
 directory must go to the log file

---
 jqtrade/scheduler/runner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jqtrade/scheduler/runner.py b/jqtrade/scheduler/runner.py
index a5e6eee..7cc8acc 100644
--- a/jqtrade/scheduler/runner.py
+++ b/jqtrade/scheduler/runner.py
@@ -58,7 +58,8 @@ class TaskRunner(object):
 
         self._debug = debug
         log_level = "DEBUG" if debug else "INFO"
-        self._out_file = out_file
+        # 策略可能会切换工作目录，需要使用绝对路径
+        self._out_file = os.path.abspath(out_file) if out_file else out_file
         if out_file:
             setup_file_logger(out_file, log_level)
         else:
-- 
2.43.0


From 46d3a57f8d794856d8d77b23461a7c8ebf12dfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:12 +0000
Subject: [PATCH 38/40] fix: a relative custom configuration file must be found
 after the strategy changed the directory

---
 jqtrade/scheduler/runner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jqtrade/scheduler/runner.py b/jqtrade/scheduler/runner.py
index 7cc8acc..5caf0c0 100644
--- a/jqtrade/scheduler/runner.py
+++ b/jqtrade/scheduler/runner.py
@@ -75,6 +75,8 @@ class TaskRunner(object):
             path = os.path.abspath(os.path.expanduser(config))
             if not os.path.exists(path):
                 raise FileNotFoundError(f"找不到自定义配置文件: {path}")
+            # 策略可能会切换工作目录，需要使用绝对路径
+            config = path
         self._config = config
 
     def run(self):
-- 
2.43.0


From 819a6eae5aa38a2d0a3bd5f845fdbf93bb2e07e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:12 +0000
Subject: [PATCH 39/40] fix: functions in the custom configuration file must
 see the names of the file

---
 jqtrade/account/config.py   | 3 ++-
 jqtrade/scheduler/config.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/jqtrade/account/config.py b/jqtrade/account/config.py
index a05bb2d..19f8c71 100644
--- a/jqtrade/account/config.py
+++ b/jqtrade/account/config.py
@@ -33,7 +33,8 @@ class AccountConfig(object):
 
 def _load_config(path):
     configs = {}
-    exec(open(path).read(), {}, configs)
+    # 使用同一个命名空间，否则配置文件中的函数访问不到文件中定义的名称
+    exec(open(path).read(), configs)
 
     account_configs = {}
     for _name in configs:
diff --git a/jqtrade/scheduler/config.py b/jqtrade/scheduler/config.py
index 7fa99a8..37cf012 100644
--- a/jqtrade/scheduler/config.py
+++ b/jqtrade/scheduler/config.py
@@ -39,7 +39,8 @@ class SchedulerConfig(object):
 
 def _load_config(path):
     configs = {}
-    exec(open(path).read(), {}, configs)
+    # 使用同一个命名空间，否则配置文件中的函数访问不到文件中定义的名称
+    exec(open(path).read(), configs)
 
     scheduler_configs = {}
     for _name in configs:
-- 
2.43.0


From 00bf5ddeda152f060b64d2fffd8d2fde288be77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:59 +0000
Subject: [PATCH 40/40] fix: a task that raises SystemExit must end the event
 loop

---
 jqtrade/scheduler/loop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jqtrade/scheduler/loop.py b/jqtrade/scheduler/loop.py
index 3e826ac..ee67b3b 100644
--- a/jqtrade/scheduler/loop.py
+++ b/jqtrade/scheduler/loop.py
@@ -98,7 +98,8 @@ class EventLoop(object):
             logger.debug(f"handle message: {message}")
             self._strategy_time = message.time
             message.callback(**message.callback_data)
-        except Exception as e:
+        except BaseException as e:
+            # 包括SystemExit等，否则异常会被pyuv吞掉，事件循环既不退出也不再处理后续事件
             logger.exception(f"handle message failed. message={message}, error={e}")
             e.tb = traceback.format_exc()
             self._exception = e
-- 
2.43.0

