"""Mutants of the file based broker interface."""
GT = 'account/trade_gate.py'
OR = 'account/order.py'
UT = 'common/utils.py'


def load(bad, same):
    # ---- A13
    bad('swap sides', 'A13', (GT, '        "B": 1,\n        "S": 2\n', '        "B": 2,\n        "S": 1\n'))
    bad('side by amount', 'A13', (GT, '''        if sys_order.action == OrderAction.open:
            order_info.append(''', '''        if sys_order.amount > 100:
            order_info.append('''))
    bad('signed amount', 'A13', (GT, 'order_info.extend([abs(sys_order.amount), self._algo_type])', 'order_info.extend([-sys_order.amount if sys_order.action == OrderAction.close else sys_order.amount, self._algo_type])'))
    bad('P6 P7', 'A13', (GT, '''["P7", 0, 0, 0])''', '''["P6", 0, 0, 0])'''))
    bad('P6 for zero price', 'A13', (GT, 'if isinstance(sys_order.style, MarketOrderStyle):', 'if isinstance(sys_order.style, MarketOrderStyle) or not sys_order.price:'))
    bad('one price', 'A13', (GT, '["AT", 0, limit_price, limit_price]', '["AT", 0, limit_price, 0]'))
    bad('ticks', 'A13', (GT, '["AT", 0, limit_price, limit_price]', '["AT", 1, limit_price, limit_price]'))
    bad('no tick column', 'A13', (GT, '["AT", 0, limit_price, limit_price]', '["AT", limit_price, limit_price]'))
    bad('raw code', 'A13', (GT, 'self._encode_security(sys_order.code)]', 'sys_order.code]'))
    bad('SH for XSHE', 'A13', (GT, 'return code.replace("XSHE", "SZ")', 'return code.replace("XSHE", "SH")'))
    bad('account and counter', 'A13', (GT, '''                      self._counter_type, acct_no,
''', '''                      acct_no, self._counter_type,
'''))
    bad('short allowed', 'A13', (GT, '''        if sys_order.side != OrderSide.long:
            raise InvalidParam("当前版本仅支持做多")

''', ''))
    bad('type unchecked when set', 'A13', (GT, 'if account_type != self.DEFAULT_ACCOUNT_TYPE:\n            raise', 'if not account_type:\n            raise'))
    bad('no account', 'A13', (GT, '''        acct_no = self._options.get("account_no")
        if not acct_no:
            raise InvalidParam("未设置account_no信息，请使用set_account设置资金账号")

        account_type''', '''        acct_no = self._options.get("account_no")
        account_type'''))
    bad('market default', 'A13', (GT, '''        elif code.endswith("XSHG"):
            return code.replace("XSHG", "SH")
        else:
            raise ValueError(f"invalid code: {code}")
''', '''        else:
            return code.replace("XSHG", "SH")
'''))
    bad('no newline', 'A13', (GT, '''        order_line = ",".join(order_info) + os.linesep
        self._write(self._order_csv''', '''        order_line = os.linesep + ",".join(order_info)
        self._write(self._order_csv'''))
    bad('cancel file', 'A13', (GT, 'self._write(self._order_csv, order_line, header=self.ORDER_CSV_HEADER)', 'self._write(self._cancel_csv, order_line, header=self.ORDER_CSV_HEADER)'))
    bad('wrong header', 'A13', (GT, '"targetQty,algoId,priceType,ticks,highLimitPrice,lowLimitPrice"', '"targetQty,algoId,priceType,highLimitPrice,lowLimitPrice"'))
    bad('recorded first', 'A13', (GT, '''        order_info = [str(i) for i in order_info]
''', '''        self._orders[sys_order.order_id] = sys_order.json()
        order_info = [str(i) for i in order_info]
'''))
    bad('timeout ignored', 'A13', (GT, '''                        raise TimeOut("waiting file lock time out")
''', '''                        logger.error("waiting file lock time out")
                        break
'''))
    bad('date format', 'A13', (GT, '''f"algoOrder_{self._date.strftime('%Y%m%d')}.csv"''', '''f"algoOrder_{self._date.strftime('%y%m%d')}.csv"'''))
    bad('algo default', 'A13', (GT, 'DEFAULT_ALGO_TYPE = "DMA"', 'DEFAULT_ALGO_TYPE = "TWAP"'))
    bad('big orders rejected', 'A13', (GT, '        now = datetime.datetime.now()\n        order_info = [now.strftime("%H%M%S.%f"), sys_order.order_id,', '        if sys_order.amount > 1000000:\n            raise InvalidParam("too big")\n        now = datetime.datetime.now()\n        order_info = [now.strftime("%H%M%S.%f"), sys_order.order_id,'))
    same('columns tuple', 'A13 A15', (GT, '''        order_info = [str(i) for i in order_info]
        order_line = ",".join(order_info) + os.linesep
        self._write(self._order_csv''', '''        order_line = ",".join(map(str, order_info)) + os.linesep
        self._write(self._order_csv'''))
    same('columns helper', 'A13 A15', (GT, '''        if isinstance(sys_order.style, MarketOrderStyle):
            if sys_order.action == OrderAction.open:
                order_info.extend(["P6", 0, 0, 0])     # 涨停价
            else:
                order_info.extend(["P7", 0, 0, 0])     # 跌停价
        else:
            limit_price = sys_order.style.price
            order_info.extend(["AT", 0, limit_price, limit_price])
''', '''        order_info.extend(self._price_columns(sys_order))
'''), (GT, '''    def cancel_order(self, order_id):
        now''', '''    @staticmethod
    def _price_columns(sys_order):
        if not isinstance(sys_order.style, MarketOrderStyle):
            p = sys_order.style.price
            return "AT", 0, p, p
        kind = "P7" if sys_order.action == OrderAction.close else "P6"
        return [kind] + [0] * 3

    def cancel_order(self, order_id):
        now'''))
    same('f string line', 'A13 A15', (GT, '''        order_info = [str(i) for i in order_info]
        order_line = ",".join(order_info) + os.linesep
        self._write(self._order_csv, order_line''', '''        line = ""
        for i in order_info:
            line += f"{i},"
        self._write(self._order_csv, line[:-1] + os.linesep'''))
    same('code map', 'A13', (GT, '''        if code.endswith("XSHE"):
            return code.replace("XSHE", "SZ")
        elif code.endswith("XSHG"):
            return code.replace("XSHG", "SH")
        else:
            raise ValueError(f"invalid code: {code}")
''', '''        for market, suffix in (("XSHE", "SZ"), ("XSHG", "SH")):
            if code.endswith(market):
                return code.replace(market, suffix)
        raise ValueError(f"invalid code: {code}")
'''))
    # ---- A14
    bad('cancel id first', 'A14', (GT, 'order_info = [now.strftime("%H%M%S.%f"), str(order_id)]', 'order_info = [str(order_id), now.strftime("%H%M%S.%f")]'))
    bad('cancel into orders', 'A14', (GT, 'self._write(self._cancel_csv, order_line, header=self.CANCEL_CSV_HEADER)', 'self._write(self._order_csv, order_line, header=self.CANCEL_CSV_HEADER)'))
    bad('cancel header', 'A14', (GT, 'CANCEL_CSV_HEADER = "updTime,custBatchNo"', 'CANCEL_CSV_HEADER = "custBatchNo,updTime"'))
    bad('cancel int id', 'A14', (GT, 'str(order_id)]\n', 'str(order_id).zfill(10)]\n'))
    bad('cancel only known', 'A14', (GT, '''    def cancel_order(self, order_id):
        now''', '''    def cancel_order(self, order_id):
        if order_id not in self._orders:
            return
        now'''))
    bad('cancel finished skip', 'A14', (GT, '''    def cancel_order(self, order_id):
        now''', '''    def cancel_order(self, order_id):
        if self._orders.get(order_id, {}).get("status") == "filled":
            raise InvalidParam("finished")
        now'''))
    bad('cancel twice', 'A14', (GT, '''        self._write(self._cancel_csv, order_line, header=self.CANCEL_CSV_HEADER)
''', '''        self._write(self._cancel_csv, order_line, header=self.CANCEL_CSV_HEADER)
        if order_id not in self._orders:
            self._write(self._cancel_csv, order_line, header=self.CANCEL_CSV_HEADER)
'''))
    # ---- A15
    bad('overwrite', 'A15', (GT, 'def _write(self, file, line, mode="a", header=None)', 'def _write(self, file, line, mode="w", header=None)'))
    bad('no lock', 'A15', (GT, '''                    portalocker.lock(fp, portalocker.LOCK_EX | portalocker.LOCK_NB)  # no block
''', ''))
    bad('shared lock', 'A15', (GT, 'portalocker.LOCK_EX | portalocker.LOCK_NB', 'portalocker.LOCK_SH | portalocker.LOCK_NB'))
    bad('no flush', 'A15', (GT, '                    fp.flush()\n', ''))
    bad('flush after unlock', 'A15', (GT, '                    fp.flush()\n', ''), (GT, '''                    portalocker.unlock(fp)
''', '''                    portalocker.unlock(fp)
                    fp.flush()
'''))
    bad('no seek', 'A15', (GT, '                    fp.seek(0, os.SEEK_END)\n', ''))
    bad('tell before lock', 'A15', (GT, '''                try:
                    portalocker.lock(''', '''                try:
                    empty = fp.tell() == 0
                    portalocker.lock('''), (GT, 'if fp.tell() == 0 and header:', 'if empty and header:'))
    bad('seek before lock', 'A15', (GT, '''                try:
                    portalocker.lock(''', '''                try:
                    fp.seek(0, os.SEEK_END)
                    portalocker.lock('''), (GT, '''                    # 拿到锁之后再定位到文件末尾，打开文件到拿到锁期间其他进程可能写入了数据
                    fp.seek(0, os.SEEK_END)
''', ''))
    bad('exists', 'A15', (GT, '''        start = time.time()
        while True:
            with open(file''', '''        start = time.time()
        new = not os.path.exists(file)
        while True:
            with open(file'''), (GT, 'if fp.tell() == 0 and header:', 'if new and header:'))
    bad('header always', 'A15', (GT, 'if fp.tell() == 0 and header:', 'if header:'))
    bad('header never', 'A15', (GT, 'if fp.tell() == 0 and header:', 'if fp.tell() < 0 and header:'))
    bad('header last', 'A15', (GT, 'line = header + os.linesep + line', 'line = line + header + os.linesep'))
    bad('wait forever', 'A15', (GT, '''                    if time.time() - start >= self._wait_lock_time_out:
                        raise TimeOut("waiting file lock time out")
''', ''))
    bad('limit reset', 'A15', (GT, '''        start = time.time()
        while True:
            with open(file''', '''        while True:
            start = time.time()
            with open(file'''))
    bad('limit sign', 'A15', (GT, 'if time.time() - start >= self._wait_lock_time_out:', 'if time.time() - start <= self._wait_lock_time_out:'))
    bad('limit is pause', 'A15', (GT, 'if time.time() - start >= self._wait_lock_time_out:', 'if time.time() - start >= self._wait_lock_internal:'))
    bad('no pause', 'A15', (GT, '                    time.sleep(self._wait_lock_internal)\n', ''))
    bad('busy raises', 'A15', (GT, 'except (BlockingIOError, portalocker.exceptions.AlreadyLocked):', 'except portalocker.exceptions.LockException:\n                    raise\n                except BlockingIOError:'))
    bad('option mixup', 'A15', (GT, 'self._wait_lock_time_out = options.get("wait_lock_time_out", self.WAIT_LOCK_TIME_OUT)', 'self._wait_lock_time_out = options.get("wait_lock_internal", self.WAIT_LOCK_TIME_OUT)'))
    bad('unlock inside', 'A15', (GT, '''                    fp.write(line)
''', '''                    portalocker.unlock(fp)
                    fp.write(line)
'''))
    bad('separate header', 'A15', (GT, '''        start = time.time()
        while True:
            with open(file''', '''        start = time.time()
        if header and not os.path.exists(file):
            with open(file, "w", encoding=self._file_coding) as hp:
                hp.write(header + os.linesep)
        while True:
            with open(file'''), (GT, '''                    if fp.tell() == 0 and header:
                        line = header + os.linesep + line
''', ''))
    same('with write', 'A13 A14 A15', (GT, '''                    if fp.tell() == 0 and header:
                        line = header + os.linesep + line
                    fp.write(line)
''', '''                    if header and not fp.tell():
                        fp.write(header)
                        fp.write(os.linesep)
                    fp.write(line)
'''))
    same('lock helper', 'A13 A14 A15', (GT, '''                    # 拿到锁之后再定位到文件末尾，打开文件到拿到锁期间其他进程可能写入了数据
                    fp.seek(0, os.SEEK_END)
                    if fp.tell() == 0 and header:
                        line = header + os.linesep + line
                    fp.write(line)
                    # 释放锁之前写入文件
                    fp.flush()
                    break
''', '''                    self._append(fp, header, line)
                    return
'''), (GT, '''    def sync_balance(self):
        data''', '''    @staticmethod
    def _append(fp, header, line):
        end = fp.seek(0, os.SEEK_END)
        text = line if fp.tell() or not header else header + os.linesep + line
        fp.write(text)
        fp.flush()

    def sync_balance(self):
        data'''))
    same('write attempts', 'A13 A14 A15', (GT, '''        start = time.time()
        while True:
            with open(file, mode, encoding=self._file_coding) as fp:
                try:
                    portalocker.lock(fp, portalocker.LOCK_EX | portalocker.LOCK_NB)  # no block
                    # 拿到锁之后再定位到文件末尾，打开文件到拿到锁期间其他进程可能写入了数据
                    fp.seek(0, os.SEEK_END)
                    if fp.tell() == 0 and header:
                        line = header + os.linesep + line
                    fp.write(line)
                    # 释放锁之前写入文件
                    fp.flush()
                    break
                except (BlockingIOError, portalocker.exceptions.AlreadyLocked):
                    if time.time() - start >= self._wait_lock_time_out:
                        raise TimeOut("waiting file lock time out")
                    time.sleep(self._wait_lock_internal)
                finally:
                    portalocker.unlock(fp)
''', '''        deadline = time.time() + self._wait_lock_time_out
        done = False
        while not done:
            with open(file, mode, encoding=self._file_coding) as fp:
                done = self._try_write(fp, line, header)
            if not done:
                if time.time() >= deadline:
                    raise TimeOut("waiting file lock time out")
                time.sleep(self._wait_lock_internal)

    @staticmethod
    def _try_write(fp, line, header):
        try:
            portalocker.lock(fp, portalocker.LOCK_EX | portalocker.LOCK_NB)
        except (BlockingIOError, portalocker.exceptions.AlreadyLocked):
            return False
        try:
            fp.seek(0, os.SEEK_END)
            if fp.tell() == 0 and header:
                line = header + os.linesep + line
            fp.write(line)
            fp.flush()
        finally:
            portalocker.unlock(fp)
        return True
'''))
    # ---- A16
    bad('asset of any account', 'A16', (GT, '''            if _asset_info.acct != acct_no:
                continue

            if not''', '''            if not'''))
    bad('exchange row', 'A16', (GT, 'if not pd.isna(_asset_info.exchange):', 'if pd.isna(_asset_info.exchange):'))
    bad('no exchange test', 'A16', (GT, '''            if not pd.isna(_asset_info.exchange):
                continue

''', ''))
    bad('available is current', 'A16', (GT, '"available_cash": round(float(_asset_info.enabledBalance), 4)', '"available_cash": round(float(_asset_info.currentBalance), 4)'))
    bad('locked sign', 'A16', (GT, 'round(float(_asset_info.currentBalance) - float(_asset_info.enabledBalance), 4)', 'round(float(_asset_info.enabledBalance) - float(_asset_info.currentBalance), 4)'))
    bad('total two decimals', 'A16', (GT, 'round(float(_asset_info.totalAsset), 4)', 'round(float(_asset_info.totalAsset), 2)'))
    bad('int account', 'A16', (GT, 'dtype={"acct": str, "symbol": str}', 'dtype={"symbol": str}'))
    bad('positions of any account', 'A16', (GT, '''            if _pos.acct != acct_no:
                continue

            # 最后一行''', '''            # 最后一行'''))
    bad('stop at other account', 'A16', (GT, '''            if _pos.acct != acct_no:
                continue

            # 最后一行''', '''            if _pos.acct != acct_no:
                break

            # 最后一行'''))
    bad('available zero', 'A16', (GT, 'if int(_pos.currentQty) == 0:', 'if int(_pos.enabledQty) == 0:'))
    bad('negative dropped', 'A16', (GT, 'if int(_pos.currentQty) == 0:', 'if int(_pos.currentQty) <= 0:'))
    bad('zero kept', 'A16', (GT, '''            if int(_pos.currentQty) == 0:
                continue

''', ''))
    bad('amount available', 'A16', (GT, '"available_amount": int(_pos.enabledQty)', '"available_amount": int(_pos.currentQty)'))
    bad('cost two decimals', 'A16', (GT, 'round(float(_pos.costPrice), 3)', 'round(float(_pos.costPrice), 2)'))
    bad('decode SH', 'A16', (GT, 'return code.replace("SH", "XSHG")', 'return code.replace("SH", "XSHE")'))
    bad('decode default', 'A16', (GT, '''        elif code.endswith("SH"):
            return code.replace("SH", "XSHG")
        else:
            raise ValueError(f"invalid code: {code}")
''', '''        else:
            return code.replace("SH", "XSHG")
'''))
    bad('raw symbol', 'A16', (GT, '"code": self._decode_security(str(_pos.symbol))', '"code": _pos.symbol'))
    bad('incomplete used', 'A16', (GT, '''        if not df.loc[len(df)-1].isna().all():
            raise OSError(f"检测到文件不完整：{path}")
''', ''))
    bad('any missing', 'A16', (GT, '.isna().all():', '.isna().any():'))
    bad('first row', 'A16', (GT, 'df.loc[len(df)-1]', 'df.loc[0]'))
    bad('only logged', 'A16', (GT, '            raise OSError(f"检测到文件不完整：{path}")', '            logger.error("incomplete")'))
    bad('swapped files', 'A16', (GT, 'position_info = self._read_csv(self._position_info_csv,', 'position_info = self._read_csv(self._assert_info_csv,'))
    bad('default encoding', 'A16', (GT, '''dtype={"acct": str, "symbol": str},
                                       encoding=self._file_coding)''', '''dtype={"acct": str, "symbol": str})'''))
    bad('short positions', 'A16', (GT, '                "side": OrderSide.long,', '                "side": OrderSide.long if int(_pos.currentQty) > 0 else OrderSide.short,'))
    same('asset filter', 'A16', (GT, '''            if _asset_info.acct != acct_no:
                continue

            if not pd.isna(_asset_info.exchange):
                continue

            data["cash"] = {
                "total_asset": round(float(_asset_info.totalAsset), 4),
                "available_cash": round(float(_asset_info.enabledBalance), 4),
                "locked_cash": round(float(_asset_info.currentBalance) - float(_asset_info.enabledBalance), 4),
            }
''', '''            if _asset_info.acct == acct_no and pd.isnull(_asset_info.exchange):
                enabled = float(_asset_info.enabledBalance)
                current = float(_asset_info.currentBalance)
                data["cash"] = dict(total_asset=round(float(_asset_info.totalAsset), 4),
                                    available_cash=round(enabled, 4), locked_cash=round(current - enabled, 4))
'''))
    same('position helper', 'A16 A17', (GT, '''        data["positions"] = []
        position_info''', '''        positions = []
        position_info'''), (GT, '''            data["positions"].append({
                "code": self._decode_security(str(_pos.symbol)),
                "amount": int(_pos.currentQty),
                "available_amount": int(_pos.enabledQty),
                "avg_cost": round(float(_pos.costPrice), 3),

                "side": OrderSide.long,
                "last_price": round(float(_pos.lastPrice), 3),
                "position_value": round(float(_pos.mktValue), 4),
            })

        return data
''', '''            positions.append(self._position_of(_pos))
        data["positions"] = positions
        return data

    def _position_of(self, row):
        amount = int(row.currentQty)
        price = round(float(row.lastPrice), 3)
        return {
            "code": self._decode_security(str(row.symbol)), "amount": amount, "available_amount": int(row.enabledQty),
            "avg_cost": round(float(row.costPrice), 3), "side": OrderSide.long, "last_price": price,
            "position_value": round(float(row.mktValue), 4),
        }
'''))
    same('iloc', 'A16 A17', (GT, '''        if not df.loc[len(df)-1].isna().all():
            raise OSError(f"检测到文件不完整：{path}")
        return df
''', '''        last = df.iloc[-1]
        if last.isna().all():
            return df
        raise OSError(f"检测到文件不完整：{path}")
'''))
    # ---- A17
    bad('no retry', 'A17', (GT, '        AnXinDMATradeGate._read_csv = simple_retry(**_sync_retry_kwargs)(AnXinDMATradeGate._read_csv)\n', ''), (GT, '        path = args[1]\n', '        path = args[0]\n'), (GT, 'pd.read_csv(*args[1:], **kwargs)', 'pd.read_csv(*args, **kwargs)'))
    bad('one more', 'A17', (UT, 'if attempts >= max_attempts:', 'if attempts > max_attempts:'))
    bad('one less', 'A17', (UT, 'if attempts >= max_attempts:', 'if attempts + 1 >= max_attempts:'))
    bad('endless', 'A17', (UT, '                    attempts += 1\n', ''))
    bad('endless option', 'A17', (UT, 'if attempts >= max_attempts:', 'if max_attempts and attempts >= max_attempts:'))
    bad('never paused', 'A17', (UT, '                    time.sleep(attempt_internal)\n', ''))
    bad('pause grows', 'A17', (UT, '                    time.sleep(attempt_internal)\n', '                    time.sleep(attempt_internal * attempts)\n'))
    bad('only os errors', 'A17', (UT, '                except Exception as e:\n                    if on_ex', '                except OSError as e:\n                    if on_ex'))
    bad('returns none', 'A17', (UT, '''                    if attempts >= max_attempts:
                        raise
''', '''                    if attempts >= max_attempts:
                        return None
'''))
    bad('defaults used', 'A17', (GT, '_sync_retry_kwargs = options.get("sync_retry_kwargs", self.DEFAULT_SYNC_RETRY_KWARGS)', '_sync_retry_kwargs = self.DEFAULT_SYNC_RETRY_KWARGS'))
    bad('max 30', 'A17', (GT, '        "max_attempts": 3,\n        "attempt_internal": 0.15\n    }\n    DEFAULT_IG', '        "max_attempts": 30,\n        "attempt_internal": 0.15\n    }\n    DEFAULT_IG'))
    same('for retry', 'A16 A17', (UT, '''            attempts = 0
            while True:
                try:
                    return func(*args, **kwargs)
                except Exception as e:
                    if on_exception and not on_exception(e):
                        raise

                    if attempts >= max_attempts:
                        raise

                    time.sleep(attempt_internal)
                    attempts += 1
''', '''            for attempt in range(max_attempts + 1):
                try:
                    return func(*args, **kwargs)
                except Exception as e:
                    if on_exception and not on_exception(e):
                        raise
                    if attempt == max_attempts:
                        raise
                    time.sleep(attempt_internal)
'''))
    same('count tries', 'A16 A17', (UT, '''            attempts = 0
            while True:
                try:
                    return func(*args, **kwargs)
                except Exception as e:
                    if on_exception and not on_exception(e):
                        raise

                    if attempts >= max_attempts:
                        raise

                    time.sleep(attempt_internal)
                    attempts += 1
''', '''            tries = 1
            while True:
                try:
                    res = func(*args, **kwargs)
                except Exception as e:
                    give_up = tries > max_attempts
                    if give_up or (on_exception and not on_exception(e)):
                        raise
                    tries += 1
                    time.sleep(attempt_internal)
                else:
                    return res
'''))
    # ---- A18
    UPD = '''                    _order = self._orders[order_line.custBatchNo].copy()
                    self._update_order(_order, order_line)
                    self._orders[order_line.custBatchNo] = _order
'''
    bad('confirm id column', 'A18', (GT, 'order["confirm_id"] = order_line.orderNo', 'order["confirm_id"] = order_line.corrId'))
    bad('filled ordered', 'A18', (GT, 'int(order_line.filledQty)', 'int(order_line.orderQty)'))
    bad('balance digits', 'A18', (GT, 'round(float(order_line.filledAmt), 4)', 'round(float(order_line.filledAmt), 2)'))
    bad('cost is price', 'A18', (GT, 'round(float(order_line.avgPrice), 3)', 'round(float(order_line.orderPrice), 3)'))
    bad('canceled is filled', 'A18', (GT, 'int(order_line.cancelQty)', 'int(order_line.orderQty) - int(order_line.filledQty)'))
    bad('no err msg', 'A18', (GT, '        order["err_msg"] = order_line.text\n', ''))
    bad('two columns swapped', 'A18', (GT, '"filledAmt", "cancelQty", "orderNo"', '"cancelQty", "filledAmt", "orderNo"'))
    bad('status swapped', 'A18', (GT, '''            "3": OrderStatus.partly_canceled,
            "4": OrderStatus.canceled,''', '''            "3": OrderStatus.canceled,
            "4": OrderStatus.partly_canceled,'''))
    bad('status 7 missing', 'A18', (GT, '            "7": OrderStatus.new,\n', ''))
    bad('unknown is open', 'A18', (GT, '''        if status not in self.STATUS_MAP:
            raise ParserError(f"无效订单状态：{status}")
        return self.STATUS_MAP[status]''', '''        return self.STATUS_MAP.get(status, OrderStatus.open)'''))
    bad('no date', 'A18', (GT, 'strptime(order_line.orderDate + order_line.orderTime,', 'strptime(order_line.updTime + order_line.orderTime,'))
    bad('month minute', 'A18', (GT, '"%Y%m%d%H%M%S").strftime', '"%Y%M%d%H%m%S").strftime'))
    bad('12 hours', 'A18', (GT, 'strftime("%Y-%m-%d %H:%M:%S.%f")\n        order["confirm', 'strftime("%Y-%m-%d %I:%M:%S.%f")\n        order["confirm'))
    bad('only open orders', 'A18', (GT, UPD, '''                    _order = self._orders[order_line.custBatchNo].copy()
                    if _order["status"] == OrderStatus.canceled.value:
                        self._order_update_offset = rf.tell()
                        continue
                    self._update_order(_order, order_line)
                    self._orders[order_line.custBatchNo] = _order
'''))
    bad('only this account', 'A18', (GT, '                    if order_line.custBatchNo not in self._orders:\n', '                    if order_line.custBatchNo not in self._orders or order_line.acct != self._options.get("account_no"):\n'))
    bad('only fills', 'A18', (GT, '                    self._update_order(_order, order_line)\n', '                    if int(order_line.filledQty) >= _order["filled_amount"]:\n                        self._update_order(_order, order_line)\n'))
    bad('by broker id', 'A18', (GT, '''                    if order_line.custBatchNo not in self._orders:
                        continue
''', '''                    if order_line.cliOrderId not in self._orders:
                        continue
'''), (GT, UPD, UPD.replace('custBatchNo', 'cliOrderId')))
    bad('foreign orders', 'A18', (GT, '''                    if order_line.custBatchNo not in self._orders:
                        continue
''', ''), (GT, 'self._orders[order_line.custBatchNo].copy()', 'self._orders.get(order_line.custBatchNo, {}).copy()'))
    bad('half update', 'A18', (GT, UPD, '''                    _order = self._orders[order_line.custBatchNo]
                    self._update_order(_order, order_line)
'''))
    bad('half update dict', 'A18', (GT, UPD, '''                    _order = self._orders[order_line.custBatchNo]
                    _order["status"] = self._parse_status(order_line.status).value
                    _order = _order.copy()
                    self._update_order(_order, order_line)
                    self._orders[order_line.custBatchNo] = _order
'''))
    bad('lose the rest', 'A18', (GT, UPD, '''                    _order = {}
                    self._update_order(_order, order_line)
                    self._orders[order_line.custBatchNo] = _order
'''))
    bad('not stored', 'A18', (GT, UPD, '''                    _order = self._orders[order_line.custBatchNo].copy()
                    self._update_order(_order, order_line)
'''))
    bad('cancel result', 'A18', (GT, '''                    if _order_result_line.resultType == self.RESULT_TYPE_ORDER \\
                            and _order_result_line.status''', '''                    if _order_result_line.status'''), (GT, '''                    if _order_result_line.resultType == self.RESULT_TYPE_CANCEL \\
                            and _order_result_line.status == self.RESULT_REJECT_STATUS:
                        if self._has_synced''', '''                    if _order_result_line.resultType == self.RESULT_TYPE_CANCEL \\
                            and _order_result_line.status == self.RESULT_REJECT_STATUS \\
                            and _order_result_line.custBatchNo not in self._orders:
                        if self._has_synced'''))
    bad('types swapped', 'A18', (GT, '''    RESULT_TYPE_ORDER = "1"
    RESULT_TYPE_CANCEL = "2"''', '''    RESULT_TYPE_ORDER = "2"
    RESULT_TYPE_CANCEL = "1"'''))
    bad('accepted is rejected', 'A18', (GT, 'RESULT_REJECT_STATUS = "1"', 'RESULT_REJECT_STATUS = "0"'))
    bad('rejected canceled', 'A18', (GT, '_order["status"] = OrderStatus.rejected.value', '_order["status"] = OrderStatus.canceled.value'))
    bad('reason code', 'A18', (GT, '_order["err_msg"] = _order_result_line.errorMsg', '_order["err_msg"] = _order_result_line.errorCode'))
    bad('reason cut', 'A18', (GT, '_line.split(",", len(self.ORDER_RESULT_COLS) - 1)]', '_line.split(",")][:len(self.ORDER_RESULT_COLS)]'))
    bad('reason cut 2', 'A18', (GT, '_line.split(",", len(self.ORDER_RESULT_COLS) - 1)]', '_line.split(",", len(self.ORDER_RESULT_COLS))][:len(self.ORDER_RESULT_COLS)]'))
    bad('reason lost', 'A18', (GT, '                            _order["err_msg"] = _order_result_line.errorMsg\n', ''))
    bad('only new rejected', 'A18', (GT, '                        if _order:\n                            _order["status"]', '                        if _order and _order["status"] == OrderStatus.new.value:\n                            _order["status"]'))
    bad('first sync', 'A18', (GT, '                        if _order:\n                            _order["status"]', '                        if _order and self._has_synced:\n                            _order["status"]'))
    bad('open returned', 'A18', (GT, '            data.append(_order.copy())\n        return data', '            if _order["status"] != OrderStatus.rejected.value:\n                data.append(_order.copy())\n        return data'))
    bad('synced returned', 'A18', (GT, '            data.append(_order.copy())\n        return data', '            if "confirm_id" in _order:\n                data.append(_order.copy())\n        return data'))
    bad('last only', 'A18', (GT, '        for _order in self._orders.values():\n            data.append', '        for _order in list(self._orders.values())[-100:]:\n            data.append'))
    same('direct', 'A18', (GT, '''        data = []
        for _order in self._orders.values():
            data.append(_order.copy())
        return data''', '''        return [dict(_order) for _order in self._orders.values()]'''))
    same('items', 'A18', (GT, '''        for _order in self._orders.values():
            data.append(_order.copy())''', '''        for _id, _order in self._orders.items():
            data.append({**_order})'''))
    same('keys', 'A18', (GT, '''        for _order in self._orders.values():
            data.append(_order.copy())''', '''        for _id in self._orders:
            data.append(self._orders[_id].copy())'''))
    same('dict copy', 'A18', (GT, UPD, '''                    _order = dict(self._orders[order_line.custBatchNo])
                    self._update_order(_order, order_line)
                    self._orders[order_line.custBatchNo] = _order
'''))
    same('update at once', 'A18', (GT, UPD, '''                    _state = {}
                    self._update_order(_state, order_line)
                    self._orders[order_line.custBatchNo].update(_state)
'''))
    same('merged', 'A18', (GT, UPD, '''                    _state = {}
                    self._update_order(_state, order_line)
                    self._orders[order_line.custBatchNo] = {**self._orders[order_line.custBatchNo], **_state}
'''))
    same('nested', 'A18', (GT, '''                    if order_line.custBatchNo not in self._orders:
                        continue

                    # 全部字段解析成功后再替换订单，避免解析失败时订单只更新了一部分
''' + UPD, '''                    _id = order_line.custBatchNo
                    if _id in self._orders:
                        _order = self._orders[_id].copy()
                        self._update_order(_order, order_line)
                        self._orders[_id] = _order
'''))
    same('get', 'A18', (GT, '''                    if order_line.custBatchNo not in self._orders:
                        continue

                    # 全部字段解析成功后再替换订单，避免解析失败时订单只更新了一部分
''' + UPD, '''                    _known = self._orders.get(order_line.custBatchNo)
                    if _known is None:
                        continue
                    _order = _known.copy()
                    self._update_order(_order, order_line)
                    self._orders[order_line.custBatchNo] = _order
'''))
    same('reorder fields', 'A18', (GT, '''        order["confirm_id"] = order_line.orderNo
        order["filled_amount"] = int(order_line.filledQty)
''', '''        order["filled_amount"] = int(order_line.filledQty)
        order["confirm_id"] = order_line.orderNo
'''))
    same('parsed first', 'A18', (GT, '''        order["status"] = self._parse_status(order_line.status).value
        order["entrust_time"] = datetime.datetime.strptime(order_line.orderDate + order_line.orderTime,
                                                           "%Y%m%d%H%M%S").strftime("%Y-%m-%d %H:%M:%S.%f")
''', '''        entrust_time = datetime.datetime.strptime(f"{order_line.orderDate} {order_line.orderTime}", "%Y%m%d %H%M%S")
        order["status"] = self._parse_status(order_line.status).value
        order["entrust_time"] = entrust_time.strftime("%Y-%m-%d %H:%M:%S.%f")
'''))
    same('try status', 'A18', (GT, '''        if status not in self.STATUS_MAP:
            raise ParserError(f"无效订单状态：{status}")
        return self.STATUS_MAP[status]''', '''        try:
            return self.STATUS_MAP[status]
        except KeyError:
            raise ParserError(f"无效订单状态：{status}")'''))
    same('status get', 'A18', (GT, '''        if status not in self.STATUS_MAP:
            raise ParserError(f"无效订单状态：{status}")
        return self.STATUS_MAP[status]''', '''        parsed = self.STATUS_MAP.get(status)
        if parsed is None:
            raise ParserError(f"无效订单状态：{status}")
        return parsed'''))
    same('rejected nested', 'A18', (GT, '''                    if _order_result_line.resultType == self.RESULT_TYPE_ORDER \\
                            and _order_result_line.status == self.RESULT_REJECT_STATUS:
                        _order = self._orders.get(_order_result_line.custBatchNo)
                        if _order:
                            _order["status"] = OrderStatus.rejected.value
                            _order["err_msg"] = _order_result_line.errorMsg
''', '''                    _id = _order_result_line.custBatchNo
                    if _order_result_line.status == self.RESULT_REJECT_STATUS:
                        if _order_result_line.resultType == self.RESULT_TYPE_ORDER and _id in self._orders:
                            self._orders[_id].update(status=OrderStatus.rejected.value,
                                                     err_msg=_order_result_line.errorMsg)
'''))
    same('rejected helper', 'A18', (GT, '''                        _order = self._orders.get(_order_result_line.custBatchNo)
                        if _order:
                            _order["status"] = OrderStatus.rejected.value
                            _order["err_msg"] = _order_result_line.errorMsg
''', '''                        self._reject(_order_result_line.custBatchNo, _order_result_line.errorMsg)
'''), (GT, '''    def _update_order(self, order, order_line):
''', '''    def _reject(self, order_id, reason):
        order = self._orders.get(order_id)
        if not order:
            return
        order["status"] = OrderStatus.rejected.value
        order["err_msg"] = reason

    def _update_order(self, order, order_line):
'''))
    same('for lines', 'A18', (GT, '''            while True:
                try:
                    _line = rf.readline()
                    if not _line.endswith(b"\\n"):
                        # 文件末尾或还未写完整的行，下次同步时再处理
                        break
                    # 读到完整的行之后再解码，未写完整的行可能在一个字符中间截断
                    _line = _line.decode(self._file_coding).strip()
                    if not _line or _line.startswith(self.ORDER_LINE_COLS[0]):''', '''            for _raw in iter(rf.readline, b""):
                try:
                    if not _raw.endswith(b"\\n"):
                        # 文件末尾或还未写完整的行，下次同步时再处理
                        break
                    # 读到完整的行之后再解码，未写完整的行可能在一个字符中间截断
                    _line = _raw.decode(self._file_coding).strip()
                    if not _line or _line.startswith(self.ORDER_LINE_COLS[0]):'''))
    same('by index', 'A18', (GT, '''                    order_line = self.ORDER_LINE_CLS(*_items)
''', '''                    order_line = self.ORDER_LINE_CLS._make(_items)
'''))
    # ---- A19
    RL = '''        with open(self._order_result_csv, "rb") as rf:
            rf.seek(pre_order_result_offset)
            while True:
                try:
                    _line = rf.readline()
                    if not _line.endswith(b"\\n"):
                        # 文件末尾或还未写完整的行，下次同步时再处理
                        break
'''
    UL = '''        with open(self._order_update_csv, "rb") as rf:
            rf.seek(pre_order_update_offset)
            while True:
                try:
                    _line = rf.readline()
                    if not _line.endswith(b"\\n"):
                        # 文件末尾或还未写完整的行，下次同步时再处理
                        break
'''
    UH = '''                except EOFError:
                    break
                except Exception as e:
                    logger.exception(f"{self._order_update_csv}中有一笔订单状态信息同步失败, error={e}")
                    if self._ignore_error_line:
                        self._order_update_offset = rf.tell()
                    else:
                        raise
'''
    UA = '''                    self._orders[order_line.custBatchNo] = _order

                    # 记录下当前成功解析了的订单的位置
                    self._order_update_offset = rf.tell()
'''
    bad('offsets swapped', 'A19', (GT, 'rf.seek(pre_order_result_offset)', 'rf.seek(pre_order_update_offset)'))
    bad('offset of other file', 'A19', (GT, UA, UA.replace('_update_offset', '_result_offset')))
    bad('no seek', 'A19', (GT, '            rf.seek(pre_order_update_offset)\n', ''))
    bad('seek late start', 'A19', (GT, 'rf.seek(pre_order_update_offset)', 'rf.seek(max(pre_order_update_offset - 1, 0))'))
    bad('seek from end', 'A19', (GT, 'rf.seek(pre_order_update_offset)', 'rf.seek(pre_order_update_offset, os.SEEK_END)'))
    bad('incomplete taken', 'A19', (GT, UL, UL.replace('if not _line.endswith(b"\\n"):', 'if not _line:')))
    bad('incomplete result taken', 'A19', (GT, RL, RL.replace('if not _line.endswith(b"\\n"):', 'if not _line:')))
    bad('incomplete skipped', 'A19', (GT, UL, UL.replace('                        break\n', '                        self._order_update_offset = rf.tell()\n                        break\n')))
    bad('decode before complete', 'A19', (GT, UL, UL.replace('_line = rf.readline()', '_line = rf.readline()\n                    _line.decode(self._file_coding)')))
    bad('text mode', 'A19', (GT, 'open(self._order_update_csv, "rb")', 'open(self._order_update_csv, "r", encoding=self._file_coding)'), (GT, UL.split('\n', 1)[1], UL.split('\n', 1)[1].replace('b"\\n"', '"\\n"')),
        (GT, '''                    _line = _line.decode(self._file_coding).strip()
                    if not _line or _line.startswith(self.ORDER_LINE_COLS[0]):''', '''                    _line = _line.strip()
                    if not _line or _line.startswith(self.ORDER_LINE_COLS[0]):'''))
    bad('default coding', 'A19', (GT, '''_line = _line.decode(self._file_coding).strip()
                    if not _line or _line.startswith(self.ORDER_RESULT_COLS[0]):''', '''_line = _line.decode().strip()
                    if not _line or _line.startswith(self.ORDER_RESULT_COLS[0]):'''))
    bad('replace errors', 'A19', (GT, '''_line = _line.decode(self._file_coding).strip()
                    if not _line or _line.startswith(self.ORDER_RESULT_COLS[0]):''', '''_line = _line.decode(self._file_coding, "replace").strip()
                    if not _line or _line.startswith(self.ORDER_RESULT_COLS[0]):'''))
    bad('stop at header', 'A19', (GT, '''                    if not _line or _line.startswith(self.ORDER_LINE_COLS[0]):
                        self._order_update_offset = rf.tell()
                        continue
''', '''                    if not _line:
                        break
                    if _line.startswith(self.ORDER_LINE_COLS[0]):
                        self._order_update_offset = rf.tell()
                        continue
'''))
    bad('stop at unknown', 'A19', (GT, '''                    if order_line.custBatchNo not in self._orders:
                        continue
''', '''                    if order_line.custBatchNo not in self._orders:
                        break
'''))
    bad('stop at malformed', 'A19', (GT, UH, UH.replace('self._order_update_offset = rf.tell()', 'self._order_update_offset = rf.tell()\n                        break')))
    bad('always ignored', 'A19', (GT, UH, UH.replace('''                    if self._ignore_error_line:
                        self._order_update_offset = rf.tell()
                    else:
                        raise
''', '''                    self._order_update_offset = rf.tell()
''')))
    bad('never ignored', 'A19', (GT, UH, UH.replace('''                    if self._ignore_error_line:
                        self._order_update_offset = rf.tell()
                    else:
                        raise
''', '''                    raise
''')))
    bad('ignored not passed', 'A19', (GT, UH, UH.replace('''                    if self._ignore_error_line:
                        self._order_update_offset = rf.tell()
                    else:
                        raise
''', '''                    if not self._ignore_error_line:
                        raise
''')))
    bad('passed before raise', 'A19', (GT, UH, UH.replace('''                    if self._ignore_error_line:
                        self._order_update_offset = rf.tell()
                    else:
                        raise
''', '''                    self._order_update_offset = rf.tell()
                    if not self._ignore_error_line:
                        raise
''')))
    bad('offset first', 'A19', (GT, '''                    _order = self._orders[order_line.custBatchNo].copy()
                    self._update_order''', '''                    self._order_update_offset = rf.tell()
                    _order = self._orders[order_line.custBatchNo].copy()
                    self._update_order'''))
    bad('never remembered', 'A19', (GT, UA, '''                    self._orders[order_line.custBatchNo] = _order
'''))
    bad('ignore default', 'A19', (GT, 'DEFAULT_IGNORE_ERROR_LINE = True', 'DEFAULT_IGNORE_ERROR_LINE = False'))
    bad('ignore option name', 'A19', (GT, 'self._options.get("ignore_error_line", self', 'self._options.get("ignore_error_lines", self'))
    bad('wrong file', 'A19', (GT, 'open(self._order_result_csv, "rb")', 'open(self._order_update_csv, "rb")'))
    bad('end after loop', 'A19', (GT, '''        self._has_synced = True
        self._save_orders()
''', '''        self._has_synced = True
        self._order_update_offset = os.path.getsize(self._order_update_csv)
        self._save_orders()
'''))
    bad('narrow handler', 'A19', (GT, UH, UH.replace('except Exception as e', 'except (ParserError, ValueError) as e')), (GT, 'class AnXinDMAError', 'from pandas.errors import ParserError as PE\n\n\nclass AnXinDMAError'))
    same('position variable', 'A19', (GT, UA, '''                    self._orders[order_line.custBatchNo] = _order

                    _position = rf.tell()
                    self._order_update_offset = _position
'''))
    same('seek direct', 'A19', (GT, 'rf.seek(pre_order_update_offset)', 'rf.seek(self._order_update_offset)'))
    same('seek whence', 'A19', (GT, 'rf.seek(pre_order_update_offset)', 'rf.seek(pre_order_update_offset, os.SEEK_SET)'))
    same('eof first', 'A19', (GT, UL, UL.replace('''                    if not _line.endswith(b"\\n"):
''', '''                    if not _line or not _line.endswith(b"\\n"):
''')))
    same('last byte', 'A19', (GT, UL, UL.replace('''if not _line.endswith(b"\\n"):''', '''if _line[-1:] != b"\\n":''')))
    same('raise first', 'A19', (GT, UH, UH.replace('''                    if self._ignore_error_line:
                        self._order_update_offset = rf.tell()
                    else:
                        raise
''', '''                    if not self._ignore_error_line:
                        raise
                    self._order_update_offset = rf.tell()
''')))
    same('no eof handler', 'A19', (GT, UH, UH.replace('''                except EOFError:
                    break
''', '')))
    same('decode out', 'A18 A19', (GT, '''                    _line = _line.decode(self._file_coding).strip()
                    if not _line or _line.startswith(self.ORDER_LINE_COLS[0]):''', '''                    _line = str(_line, self._file_coding).strip()
                    if not _line or _line.startswith(self.ORDER_LINE_COLS[0]):'''))
    same('header first', 'A18 A19', (GT, '''                    if not _line or _line.startswith(self.ORDER_LINE_COLS[0]):
                        self._order_update_offset = rf.tell()
                        continue
''', '''                    if _line.startswith(self.ORDER_LINE_COLS[0]) or len(_line) == 0:
                        self._order_update_offset = rf.tell()
                        continue
'''))
    same('for lines', 'A19', (GT, '''            while True:
                try:
                    _line = rf.readline()
                    if not _line.endswith(b"\\n"):
                        # 文件末尾或还未写完整的行，下次同步时再处理
                        break
                    # 读到完整的行之后再解码，未写完整的行可能在一个字符中间截断
                    _line = _line.decode(self._file_coding).strip()
                    if not _line or _line.startswith(self.ORDER_LINE_COLS[0]):''', '''            for _raw in iter(rf.readline, b""):
                try:
                    if not _raw.endswith(b"\\n"):
                        # 文件末尾或还未写完整的行，下次同步时再处理
                        break
                    # 读到完整的行之后再解码，未写完整的行可能在一个字符中间截断
                    _line = _raw.decode(self._file_coding).strip()
                    if not _line or _line.startswith(self.ORDER_LINE_COLS[0]):'''))
    same('apply helper', 'A18 A19', (GT, '''                    if order_line.custBatchNo not in self._orders:
                        continue

                    # 全部字段解析成功后再替换订单，避免解析失败时订单只更新了一部分
                    _order = self._orders[order_line.custBatchNo].copy()
                    self._update_order(_order, order_line)
                    self._orders[order_line.custBatchNo] = _order

                    # 记录下当前成功解析了的订单的位置
                    self._order_update_offset = rf.tell()
''', '''                    self._apply_update(order_line)
                    self._order_update_offset = rf.tell()
'''), (GT, '''    def _update_order(self, order, order_line):
''', '''    def _apply_update(self, line):
        if line.custBatchNo not in self._orders:
            return
        order = self._orders[line.custBatchNo].copy()
        self._update_order(order, line)
        self._orders[line.custBatchNo] = order

    def _update_order(self, order, order_line):
'''))
    same('parse helper', 'A18 A19', (GT, '''                    _items = [_s.strip() for _s in _line.split(",")]
                    if len(_items) < len(self.ORDER_LINE_COLS):
                        raise ParserError(f"无效订单状态信息：{_line}")

                    order_line = self.ORDER_LINE_CLS(*_items)
''', '''                    order_line = self._parse_update(_line)
'''), (GT, '''    def _update_order(self, order, order_line):
''', '''    def _parse_update(self, text):
        items = [s.strip() for s in text.split(",")]
        if len(items) < len(self.ORDER_LINE_COLS):
            raise ParserError(f"无效订单状态信息：{text}")
        return self.ORDER_LINE_CLS(*items)

    def _update_order(self, order, order_line):
'''))
    same('two methods', 'A18 A19', (GT, '''        with open(self._order_update_csv, "rb") as rf:
            rf.seek(pre_order_update_offset)
''', '''        self._sync_updates(pre_order_update_offset)

        self._has_synced = True
        self._save_orders()

        data = []
        for _order in self._orders.values():
            data.append(_order.copy())
        return data

    def _sync_updates(self, start):
        with open(self._order_update_csv, "rb") as rf:
            rf.seek(start)
'''), (GT, UH + '''
        self._has_synced = True
        self._save_orders()

        data = []
        for _order in self._orders.values():
            data.append(_order.copy())
        return data
''', UH))
    same('generator', 'A18 A19', (GT, '''            while True:
                try:
                    _line = rf.readline()
                    if not _line.endswith(b"\\n"):
                        # 文件末尾或还未写完整的行，下次同步时再处理
                        break
                    # 读到完整的行之后再解码，未写完整的行可能在一个字符中间截断
                    _line = _line.decode(self._file_coding).strip()
                    if not _line or _line.startswith(self.ORDER_LINE_COLS[0]):''', '''            for _raw in self._complete_lines(rf):
                try:
                    _line = _raw.decode(self._file_coding).strip()
                    if not _line or _line.startswith(self.ORDER_LINE_COLS[0]):'''), (GT, '''    def _update_order(self, order, order_line):
''', '''    @staticmethod
    def _complete_lines(rf):
        while True:
            line = rf.readline()
            if not line.endswith(b"\\n"):
                return
            yield line

    def _update_order(self, order, order_line):
'''))
    # ------------------------------------------------------------ A20
    SAVE = '''        tmp_file = self._data_file + ".tmp"
        with open(tmp_file, "w") as wf:
            json.dump(self._orders, wf)
        shutil.move(tmp_file, self._data_file)
'''
    REC = '''        self._orders[sys_order.order_id] = sys_order.json()
        self._save_orders()
'''
    LOAD = '''                orders = json.load(rf)
                for _order_id, _order_info in orders.items():
                    logger.info(f"加载订单，id：{_order_id}，order_info：{_order_info}")
                self._orders = orders
'''
    SYN = '''        self._has_synced = True
        self._save_orders()
'''
    PATH = '''        return os.path.join(self._data_dir, f"{task_name}_{self._date.strftime('%Y%m%d')}.json")
'''
    bad('no save in order', 'A20', (GT, REC, REC.split('\n')[0] + '\n'))
    bad('save before record', 'A20', (GT, REC, '''        self._save_orders()
        self._orders[sys_order.order_id] = sys_order.json()
'''))
    bad('no save in sync', 'A20', (GT, SYN, '        self._has_synced = True\n'))
    bad('first save only', 'A20', (GT, SYN, '''        if not self._has_synced:
            self._save_orders()
        self._has_synced = True
'''))
    bad('save only if orders', 'A20', (GT, '        self._has_synced = True\n        self._save_orders()\n', '''        self._has_synced = True
        if len(self._orders) > 1:
            self._save_orders()
'''))
    bad('save before updates', 'A20', (GT, SYN, '        self._has_synced = True\n'), (GT, '''        with open(self._order_update_csv, "rb") as rf:
''', '''        self._save_orders()
        with open(self._order_update_csv, "rb") as rf:
'''))
    bad('in place', 'A20', (GT, SAVE, '''        with open(self._data_file, "w") as wf:
            json.dump(self._orders, wf)
'''))
    bad('move in with', 'A20', (GT, SAVE, '''        tmp_file = self._data_file + ".tmp"
        with open(tmp_file, "w") as wf:
            json.dump(self._orders, wf)
            shutil.move(tmp_file, self._data_file)
'''))
    bad('appended', 'A20', (GT, '''        with open(tmp_file, "w") as wf:
''', '''        with open(tmp_file, "a") as wf:
'''))
    bad('only open saved', 'A20', (GT, '            json.dump(self._orders, wf)\n', '            json.dump({k: v for k, v in self._orders.items() if v["status"] != "filled"}, wf)\n'))
    bad('move when exists', 'A20', (GT, '        shutil.move(tmp_file, self._data_file)\n', '''        if not os.path.exists(self._data_file):
            shutil.move(tmp_file, self._data_file)
'''))
    bad('swallowed dump', 'A20', (GT, '            json.dump(self._orders, wf)\n', '''            try:
                json.dump(self._orders, wf)
            except Exception:
                logger.exception("save")
'''))
    bad('move the wrong way', 'A20', (GT, 'shutil.move(tmp_file, self._data_file)', 'shutil.move(self._data_file, tmp_file)'))
    bad('not per task', 'A20', (GT, PATH, '''        return os.path.join(self._data_dir, f"orders_{self._date.strftime('%Y%m%d')}.json")
'''))
    bad('not per day', 'A20', (GT, PATH, '''        return os.path.join(self._data_dir, f"{task_name}.json")
'''))
    bad('month day', 'A20', (GT, PATH, '''        return os.path.join(self._data_dir, f"{task_name}_{self._date.strftime('%m%d')}.json")
'''))
    bad('order dir', 'A20', (GT, PATH, PATH.replace('self._data_dir', 'self._order_dir')))
    bad('load of yesterday', 'A20', (GT, '''            with open(self._data_file, "r") as rf:
''', '''            with open(self._data_file + ".tmp", "r") as rf:
'''))
    bad('load raises', 'A20', (GT, '''        except Exception as e:
            logger.exception(f"从本地缓存文件恢复策略当日订单信息失败，error={e}")
''', '''        except KeyError as e:
            logger.exception(f"从本地缓存文件恢复策略当日订单信息失败，error={e}")
'''))
    bad('not loaded', 'A20', (GT, '        self._load_orders()\n', '        pass\n'))
    bad('load then empty', 'A20', (GT, '        self._load_orders()\n', '        self._load_orders()\n        self._orders = {}\n'))
    bad('open loaded only', 'A20', (GT, LOAD, '''                orders = json.load(rf)
                self._orders = {k: v for k, v in orders.items() if v["status"] == "open"}
'''))
    bad('load for one order', 'A20', (GT, '                self._orders = orders\n', '''                if len(orders) > 1:
                    self._orders = orders
'''))
    bad('load before path', 'A20', (GT, '''        self._trading_date = self._date
        self._data_file = self._get_data_file()

        self._file_coding''', '''        self._trading_date = self._date
        self._load_orders()
        self._data_file = self._get_data_file()

        self._file_coding'''), (GT, '''_time_out", self.WAIT_LOCK_TIME_OUT)

        self._load_orders()
''', '''_time_out", self.WAIT_LOCK_TIME_OUT)
'''))
    same('os.replace', 'A20', (GT, 'shutil.move(tmp_file, self._data_file)', 'os.replace(tmp_file, self._data_file)'))
    same('os.rename', 'A20', (GT, 'shutil.move(tmp_file, self._data_file)', 'os.rename(tmp_file, self._data_file)'))
    same('dumps', 'A20', (GT, '            json.dump(self._orders, wf)\n', '            wf.write(json.dumps(self._orders))\n'))
    same('dumps first', 'A20', (GT, SAVE, '''        text = json.dumps(self._orders)
        target = self._data_file
        tmp_file = f"{target}.tmp"
        with open(tmp_file, mode="w") as wf:
            wf.write(text)
        shutil.move(tmp_file, target)
'''))
    same('save helper', 'A20 A21', (GT, SAVE, '''        _write_json(self._data_file, self._orders)
'''), (GT, 'class AnXinDMAError(Exception):', '''def _write_json(path, data):
    tmp_file = path + ".tmp"
    with open(tmp_file, "w") as wf:
        json.dump(data, wf)
    shutil.move(tmp_file, path)


class AnXinDMAError(Exception):'''))
    same('close by hand', 'A20', (GT, SAVE, '''        tmp_file = self._data_file + ".tmp"
        wf = open(tmp_file, "w")
        try:
            json.dump(self._orders, wf)
        finally:
            wf.close()
        shutil.move(tmp_file, self._data_file)
'''))
    same('record helper', 'A20', (GT, REC, '''        self._remember(sys_order)
'''), (GT, '''    def cancel_order(self, order_id):
        now''', '''    def _remember(self, order):
        self._orders.update({order.order_id: order.json()})
        self._save_orders()

    def cancel_order(self, order_id):
        now'''))
    same('load inverted', 'A20', (GT, '''        if not os.path.exists(self._data_file):
            logger.info(f"本地无策略当日订单缓存文件，忽略加载历史订单信息，data_file：{self._data_file}")
            return

        try:
            with open(self._data_file, "r") as rf:
''' + LOAD + '''        except Exception as e:
            logger.exception(f"从本地缓存文件恢复策略当日订单信息失败，error={e}")
''', '''        if os.path.exists(self._data_file):
            try:
                with open(self._data_file) as rf:
                    self._orders = json.loads(rf.read())
            except Exception as e:
                logger.exception(f"从本地缓存文件恢复策略当日订单信息失败，error={e}")
'''))
    same('load returns', 'A20', (GT, '        self._load_orders()\n', '''        orders = self._read_orders()
        if orders is not None:
            self._orders = orders
'''), (GT, '''    def _load_orders(self):
''', '''    def _read_orders(self):
        if not os.path.exists(self._data_file):
            return None
        try:
            with open(self._data_file, "r") as rf:
                return json.load(rf)
        except Exception:
            logger.exception("load")
            return None

    def _load_orders(self):
'''))
    same('name first', 'A20 A21', (GT, PATH, '''        day = self._date.strftime('%Y%m%d')
        name = task_name + "_" + day + ".json"
        return os.path.join(self._data_dir, name)
'''))
    same('name format', 'A20 A21', (GT, PATH, '''        return os.path.join(self._data_dir, "{}_{}.json".format(task_name, self._date.strftime('%Y%m%d')))
'''))
    # ------------------------------------------------------------ A21
    DAY = '''        if self._trading_date == self._date:
            return

        self._trading_date = self._date
        self._data_file = self._get_data_file()
        self._orders = {}
        self._order_update_offset = 0
        self._order_result_offset = 0
'''
    bad('no day check in order', 'A21', (GT, '''        self._check_day_changed()

        acct_no''', '''        acct_no'''))
    bad('no day check in sync', 'A21', (GT, '''        self._check_day_changed()

        pre_order_update''', '''        pre_order_update'''))
    for x in ('_order_update_offset', '_order_result_offset'):
        bad('no reset of ' + x, 'A21', (GT, DAY, DAY.replace('        self.%s = 0\n' % x, '')))
    bad('orders stay', 'A21', (GT, DAY, DAY.replace('        self._orders = {}\n', '')))
    bad('file stays', 'A21', (GT, DAY, DAY.replace('        self._data_file = self._get_data_file()\n', '')))
    bad('day stays', 'A21', (GT, DAY, DAY.replace('        self._trading_date = self._date\n', '')))
    bad('day of month', 'A21', (GT, DAY, DAY.replace('self._trading_date == self._date', 'self._trading_date.day == self._date.day')))
    bad('only later months', 'A21', (GT, DAY, DAY.replace('self._trading_date == self._date', 'self._trading_date == self._date or self._date.day == 1')))
    bad('always reset', 'A21', (GT, DAY, DAY.replace('''        if self._trading_date == self._date:
            return

''', '')))
    bad('positions first', 'A21', (GT, '''        self._check_day_changed()

        pre_order_update_offset = self._order_update_offset
        pre_order_result_offset = self._order_result_offset
''', '''        pre_order_update_offset = self._order_update_offset
        pre_order_result_offset = self._order_result_offset
        self._check_day_changed()
'''))
    bad('after reading', 'A21', (GT, '''        self._check_day_changed()

        pre_order_update''', '''        pre_order_update'''), (GT, SYN, '        self._check_day_changed()\n' + SYN))
    bad('no day in setup', 'A21', (GT, '''        self._trading_date = self._date
        self._data_file = self._get_data_file()

        self._file''', '''        self._data_file = self._get_data_file()

        self._file'''))
    bad('day of the order file', 'A21', (GT, '''    def order(self, sys_order):
        self._check_day_changed()

        acct_no''', '''    def order(self, sys_order):
        acct_no'''), (GT, '''        logger.info(f"订单已提交到文件单，订单id：{sys_order.order_id}")

''', '''        logger.info(f"订单已提交到文件单，订单id：{sys_order.order_id}")
        self._orders[sys_order.order_id] = sys_order.json()
        self._check_day_changed()
'''))
    bad('orders of yesterday', 'A21', (GT, DAY, DAY.replace('self._orders = {}', 'self._orders = dict(self._orders)')))
    bad('begin at 1', 'A21', (GT, DAY, DAY.replace('self._order_update_offset = 0', 'self._order_update_offset = 1')))
    same('inverted', 'A21', (GT, DAY, '''        if self._trading_date != self._date:
            self._trading_date = self._date
            self._data_file = self._get_data_file()
            self._orders = {}
            self._order_update_offset = 0
            self._order_result_offset = 0
'''))
    same('local today', 'A21', (GT, DAY, '''        today = self._date
        if today == self._trading_date:
            return
        self._order_update_offset = self._order_result_offset = 0
        self._orders = dict()
        self._trading_date = today
        self._data_file = self._get_data_file()
'''))
    same('start day helper', 'A21', (GT, DAY, '''        if self._trading_date == self._date:
            return

        self._start_day()
        self._orders = {}
        self._order_update_offset = 0
        self._order_result_offset = 0

    def _start_day(self):
        self._trading_date = self._date
        self._data_file = self._get_data_file()
'''), (GT, '''        self._trading_date = self._date
        self._data_file = self._get_data_file()

        self._file''', '''        self._start_day()

        self._file'''))
    same('clear', 'A21', (GT, DAY, DAY.replace('self._orders = {}', 'self._orders.clear()')))
    same('path at use', 'A20 A21', (GT, SAVE, '''        target = self._get_data_file()
        tmp_file = target + ".tmp"
        with open(tmp_file, "w") as wf:
            json.dump(self._orders, wf)
        shutil.move(tmp_file, target)
'''))
    same('text day', 'A21', (GT, '''        if self._trading_date == self._date:
            return
''', '''        if self._trading_date == self._date.strftime("%Y%m%d"):
            return
'''), (GT, 'self._trading_date = self._date\n', 'self._trading_date = self._date.strftime("%Y%m%d")\n'))
    same('day in caller', 'A21', (GT, '''        self._check_day_changed()

        acct_no''', '''        if self._trading_date != self._date:
            self._check_day_changed()

        acct_no'''))
    CDT = "        return Context.get_instance().current_dt.date()\n"
    for nm, pid, pr in (('order', 'A13', 'algoOrder'), ('cancel', 'A14', 'algoOrderStop'), ('result', 'A19', 'execResult'), ('update', 'A19', 'orderUpdate'), ('asset', 'A16', 'assetInfo'), ('position', 'A16', 'positionInfo')):
        bad('file of the first day: ' + nm, pid, (GT, pr + "_{self._date.strftime", pr + "_{self._first.strftime"), (GT, '''        self._options = options

        self._order_dir''', '''        self._options = options
        self._first = self._date

        self._order_dir'''))
        bad('file of yesterday: ' + nm, pid, (GT, pr + "_{self._date.strftime", pr + "_{(self._date - datetime.timedelta(days=1)).strftime"))
    same('datetime today', 'A13 A14 A16 A19 A20 A21', (GT, CDT, "        return datetime.date.today()\n"))
    same('datetime now', 'A13 A14 A16 A19 A20 A21', (GT, CDT, "        return datetime.datetime.now().date()\n"))
    same('day text helper', 'A13 A14 A16 A19 A20 A21', (GT, "self._date.strftime('%Y%m%d')", "self._day"), (GT, '''    @property
    def _date(self):
''', '''    @property
    def _day(self):
        return self._date.strftime('%Y%m%d')

    @property
    def _date(self):
'''))
    same('dir file helper', 'A13 A14 A16 A19 A20 A21', (GT, """        return os.path.join(self._order_dir, f"algoOrder_{self._date.strftime('%Y%m%d')}.csv")
""", """        return self._daily("algoOrder")
"""), (GT, """        return os.path.join(self._order_dir, f"orderUpdate_{self._date.strftime('%Y%m%d')}.csv")
""", """        return self._daily("orderUpdate")
"""), (GT, '''    @property
    def _date(self):
''', '''    def _daily(self, kind):
        day = self._date
        name = "%s_%s.csv" % (kind, day.strftime("%Y%m%d"))
        return os.path.join(self._order_dir, name)

    @property
    def _date(self):
'''))
    same('trading date for files', 'A19', (GT, "orderUpdate_{self._date.strftime", "orderUpdate_{self._trading_date.strftime"))
    # ------------------------------------------------------------ A22
    UT_ = 'common/utils.py'
    for f in ('code', 'price', 'amount', 'action', 'order_id', 'status', 'side', 'confirm_id', 'filled_amount', 'canceled_amount', 'deal_balance', 'avg_cost', 'commission', 'err_msg'):
        ln = '            "%s": self._%s%s,\n' % (f, f, '.value' if f in ('action', 'status', 'side') else '')
        if f not in ('code', 'price', 'amount', 'action'):
            bad('record without ' + f, 'A22', (OR, ln, ''))
        if f in ('action', 'status', 'side'):
            bad('enum in record: ' + f, 'A22', (OR, ln, ln.replace('.value', '')))
    bad('record without style', 'A22', (OR, '            "style": self._style.value,\n', ''))
    bad('record of cost 0', 'A22', (OR, '"avg_cost": self._avg_cost,', '"avg_cost": self._avg_cost or 0,'))
    bad('rounded price', 'A22', (OR, '"price": self._price,', '"price": round(self._price, 2),'))
    bad('seconds only', 'A22', (OR, '"create_time": self._create_time.strftime("%Y-%m-%d %H:%M:%S.%f")', '"create_time": self._create_time.strftime("%Y-%m-%d %H:%M:%S")'))
    bad('minutes', 'A22', (UT_, '''strptime(dt, "%Y-%m-%d %H:%M:%S.%f")''', '''strptime(dt, "%Y-%d-%m %H:%M:%S.%f")'''))
    bad('no fraction read', 'A22', (UT_, '''strptime(dt, "%Y-%m-%d %H:%M:%S.%f")''', '''strptime(dt.split(".")[0], "%Y-%m-%d %H:%M:%S")'''))
    bad('entrust is create', 'A22', (OR, '"entrust_time": self._entrust_time.strftime(', '"entrust_time": self._create_time.strftime('))
    bad('datetime in record', 'A22', (OR, '"create_time": self._create_time.strftime("%Y-%m-%d %H:%M:%S.%f"),', '"create_time": self._create_time,'))
    bad('entrust always', 'A22', (OR, '%f") if self._entrust_time else None,', '%f"),'))
    bad('status value', 'A22', (OR, 'partly_canceled = "partly_canceled"', 'partly_canceled = "part_canceled"'))
    bad('side value', 'A22', (OR, 'short = "short"', 'short = "sell"'))
    bad('style value', 'A22', (OR, '        return "limit"', '        return "limited"'))
    bad('market is limit', 'A22', (OR, 'if style == "market":', 'if style == "market" and not price:'))
    bad('filled lost', 'A22', (OR, 'self._filled_amount = kwargs.get("filled_amount", 0)', 'self._filled_amount = kwargs.get("filled", 0)'))
    bad('finished loaded', 'A22', (OR, 'kwargs.get("canceled_amount", 0)', 'kwargs.get("cancel_amount", 0)'))
    bad('side of style', 'A22', (OR, 'self._side = OrderSide.get_side(side) if side else None', 'self._side = OrderSide.get_side(side) if style else None'), (OR, '            "style": self._style.value,\n', '            "style": None,\n'))
    bad('canceling reads canceled', 'A22', (OR, '''        try:
            return cls.__members__[status]
        except KeyError:
            raise ValueError(f"bad status: {status}")
''', '''        if status.startswith("cancel"):
            return cls.canceled
        try:
            return cls.__members__[status]
        except KeyError:
            raise ValueError(f"bad status: {status}")
'''))
    same('format constant', 'A22', (OR, 'self._create_time.strftime("%Y-%m-%d %H:%M:%S.%f")', 'self._create_time.strftime(TIME_FORMAT)'), (OR, 'self._entrust_time.strftime("%Y-%m-%d %H:%M:%S.%f") if', 'self._entrust_time.strftime(TIME_FORMAT) if'), (OR, 'class OrderStatus(Enum):', 'TIME_FORMAT = "%Y-%m-%d %H:%M:%S.%f"\n\n\nclass OrderStatus(Enum):'))
    same('format helper', 'A22', (OR, '"entrust_time": self._entrust_time.strftime("%Y-%m-%d %H:%M:%S.%f") if self._entrust_time else None', '"entrust_time": _text(self._entrust_time)'), (OR, 'class OrderStatus(Enum):', '''def _text(dt):
    if not dt:
        return None
    return dt.strftime("%Y-%m-%d %H:%M:%S.%f")


class OrderStatus(Enum):'''))
    same('through properties', 'A22', *[(OR, '"%s": self._%s' % (x, x), '"%s": self.%s' % (x, x)) for x in ('code', 'price', 'amount', 'order_id', 'confirm_id', 'avg_cost', 'err_msg')])
    same('names', 'A22', (OR, '"action": self._action.value', '"action": self._action.name'), (OR, '"status": self._status.value', '"status": self._status.name'))
    same('by value', 'A22', (OR, '''            return cls.__members__[status]
        except KeyError:''', '''            return cls(status)
        except ValueError:'''))
    same('record by loop', 'A22', (OR, '''            "confirm_id": self._confirm_id,
            "filled_amount": self._filled_amount,
            "canceled_amount": self._canceled_amount,
            "deal_balance": self._deal_balance,
            "avg_cost": self._avg_cost,
            "commission": self._commission,
            "err_msg": self._err_msg,
        }
''', '''            **{name: getattr(self, "_" + name) for name in ("confirm_id", "filled_amount", "canceled_amount",
                                                            "deal_balance", "avg_cost", "commission", "err_msg")},
        }
'''))
    same('record step by step', 'A22', (OR, '''        return {
            "code": self._code,''', '''        record = {
            "code": self._code,'''), (OR, '''            "err_msg": self._err_msg,
        }
''', '''        }
        record["err_msg"] = self._err_msg
        return record
'''))
    same('get in init', 'A22', (OR, 'kwargs.get("confirm_id", None)', 'kwargs.get("confirm_id")'), (OR, 'kwargs.get("err_msg", "")', 'kwargs["err_msg"] if "err_msg" in kwargs else ""'))
    same('try parse', 'A22', (UT_, '''        if "." in dt:
            return datetime.datetime.strptime(dt, "%Y-%m-%d %H:%M:%S.%f")
        else:
            return datetime.datetime.strptime(dt, "%Y-%m-%d %H:%M:%S")
''', '''        fmt = "%Y-%m-%d %H:%M:%S"
        if dt.find(".") >= 0:
            fmt += ".%f"
        return datetime.datetime.strptime(dt, fmt)
'''))
    same('isoformat', 'A22', (OR, 'self._create_time.strftime("%Y-%m-%d %H:%M:%S.%f")', 'self._create_time.isoformat(" ", "microseconds")'))
