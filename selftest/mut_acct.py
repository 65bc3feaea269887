# -*- coding: utf-8 -*-
"""mutants of the account part"""


def load(bad, same):
    AP, AC, OR, PO, PF, CX = ('account/api.py', 'account/account.py', 'account/order.py', 'account/position.py', 'account/portfolio.py',
                              'scheduler/context.py')
    # A01 validation
    bad('amount zero', 'A01', (AP, 'not isinstance(amount, int) or amount == 0', 'not isinstance(amount, int)'))
    bad('amount float', 'A01', (AP, 'not isinstance(amount, int)', 'not isinstance(amount, (int, float))'))
    bad('code digits', 'A01', (AP, ' and code[:-5].isdigit()', ''))
    bad('code or', 'A01', (AP, ' and code[:-5].isdigit()', ' or code[:-5].isdigit()'))
    bad('code suffix 2', 'A01', (AP, '(".XSHE", ".XSHG")', '(".XSHE", ".XSHG", ".XSHH")'))
    bad('code slice', 'A01', (AP, 'code[:-5].isdigit()', 'code[:-6].isdigit()'))
    bad('style base', 'A01', (OR, 'isinstance(style, (MarketOrderStyle, LimitOrderStyle))', 'isinstance(style, OrderStyle)'))
    bad('side skipped', 'A01', (AP, '        _check_side(side)\n', '        side = side if OrderSide.is_valid_side(side) else "long"\n'))
    bad('style after', 'A01', (AP, '    if style:\n        _check_style(style)', '    if style:\n        pass'))
    bad('status unchecked', 'A01', (AP, '            _check_status(status)\n', '            pass\n'))
    bad('code unchecked in query', 'A01', (AP, '    if code:\n        _check_code(code)\n', ''))
    bad('check logs', 'A01', (AP, '        raise InvalidParam(f"委托数量错误，只能是非零整数：{amount}")', '        logger.error("bad amount")'))
    bad('valueerror', 'A01', (AP, '        raise InvalidParam(f"标的代码错误: {code}")', '        raise ValueError(f"标的代码错误: {code}")'))
    same('inline checks', 'A01 A02', (AP, '    _check_code(code)\n    _check_amount(amount)\n\n    if style', '    if isinstance(amount, int) is False or amount == 0:\n        raise InvalidParam("amount")\n    _check_code(code)\n\n    if style'))
    same('endswith', 'A01 A02 A05', (AP, 'not (code[-5:] in (".XSHE", ".XSHG") and code[:-5].isdigit())', 'not code.endswith((".XSHE", ".XSHG")) or not code[:-5].isdigit()'))
    same('side try', 'A01 A02 A04', (AP, '''    if side:
        _check_side(side)
    else:
        side = "long"

    side = OrderSide.get_side(side)
''', '''    side = _side_of(side)
'''), (AP, 'def order(code,', '''def _side_of(side):
    if not side:
        return OrderSide.long
    _check_side(side)
    return OrderSide.get_side(side)


def order(code,'''))
    same('style helper', 'A01 A02 A04', (AP, '''    if style:
        _check_style(style)
    else:
        style = MarketOrderStyle(0)
''', '''    if not style:
        style = MarketOrderStyle(0)
    _check_style(style)
'''))
    # A02 order
    bad('action flip', 'A02', (AC, 'OrderAction.close if amount < 0 else OrderAction.open', 'OrderAction.close if amount > 0 else OrderAction.open'))
    bad('no abs', 'A02', (AC, 'amount=abs(amount)', 'amount=amount'))
    bad('side dropped', 'A02', (AC, 'status=OrderStatus.new, side=side)', 'status=OrderStatus.new)'))
    bad('status open', 'A02', (AC, 'status=OrderStatus.new, side=side)', 'status=OrderStatus.open, side=side)'))
    bad('not recorded', 'A02', (AC, '        self._orders[order_id] = order_obj\n        try:', '        try:'))
    bad('recorded after', 'A02', (AC, '        self._orders[order_id] = order_obj\n        try:', '        try:'), (AC, '            self.on_order_created(order_obj)\n            return', '            self._orders[order_id] = order_obj\n            self.on_order_created(order_obj)\n            return'))
    bad('price zero', 'A02', (AC, 'code=code, price=style.price', 'code=code, price=style.price or 1'))
    bad('fail returns id', 'A02', (AC, 'side={side}, error={e}")\n', 'side={side}, error={e}")\n            return order_id\n'))
    bad('send twice', 'A02', (AC, '            self._ctx.trade_gate.order(order_obj)\n', '            self._ctx.trade_gate.order(order_obj)\n            if amount > 100000:\n                self._ctx.trade_gate.order(order_obj)\n'))
    bad('int id', 'A02', (AC, 'order_id = str(generate_unique_number())', 'order_id = generate_unique_number()'))
    bad('limit to market', 'A02', (AP, '    side = OrderSide.get_side(side)\n', '    side = OrderSide.get_side(side)\n    if style.price == 0:\n        style = MarketOrderStyle(0)\n'))
    bad('market price', 'A02', (AP, 'style = MarketOrderStyle(0)', 'style = LimitOrderStyle(0)'))
    bad('fail deletes', 'A02', (AC, '            logger.exception(f"内部下单异常', '            self._orders.pop(order_id)\n            logger.exception(f"内部下单异常'))
    same('order helper', 'A02 A04 A07', (AC, '''        action = OrderAction.close if amount < 0 else OrderAction.open
''', '''        action = self._action_of(amount)
'''), (AC, '    def order(self, code, amount, style, side):\n        order_id', '''    @staticmethod
    def _action_of(amount):
        if amount >= 0:
            return OrderAction.open
        return OrderAction.close

    def order(self, code, amount, style, side):
        order_id'''))
    same('abs neg', 'A02', (AC, 'amount=abs(amount)', 'amount=-amount if amount < 0 else amount'))
    same('return after', 'A02 A07', (AC, '            self.on_order_created(order_obj)\n            return order_id\n', '            self.on_order_created(order_obj)\n'), (AC, 'side={side}, error={e}")\n', 'side={side}, error={e}")\n            return None\n        return order_id\n'))
    # A03 cancel
    bad('cancel unknown', 'A03', (AC, '''            if order_id not in self._orders:
                logger.error(f"发起撤单失败，本地找不到内部委托id为{order_id}的委托")
                return

''', ''))
    bad('cancel raw', 'A03', (AP, '''    order_id = str(order_id)

    account''', '''    account'''))
    bad('cancel finished skip', 'A03', (AC, '            logger.info(f"提交撤单', '            if self._orders[order_id].has_finished():\n                return\n            logger.info(f"提交撤单'))
    bad('cancel raises', 'A03', (AC, '''            logger.exception(f"内部撤单异常，order_id={order_id}, error={e}")
            return
''', '''            logger.exception(f"内部撤单异常，order_id={order_id}, error={e}")
            raise
'''))
    bad('batch cancel stops', 'A03', (AP, '        cancel_order(_order_id)', '        if not _order_id:\n            break\n        cancel_order(_order_id)'))
    bad('batch cancel set', 'A03', (AP, '    for _order_id in order_ids:', '    for _order_id in order_ids[1:]:'))
    same('cancel else', 'A03', (AC, '''                return

            logger.info(f"提交撤单，被撤订单id：{order_id}")
            self._ctx.trade_gate.cancel_order(order_id)
''', '''            else:
                logger.info(f"提交撤单，被撤订单id：{order_id}")
                self._ctx.trade_gate.cancel_order(order_id)
'''))
    same('cancel get', 'A03', (AC, 'if order_id not in self._orders:', 'if self._orders.get(order_id) is None:'))
    # A04 batch
    bad('batch raises', 'A04', (AP, '        except Exception as e:\n            sys_logger.error(f"批量单下单', '        except InvalidParam as e:\n            sys_logger.error(f"批量单下单'))
    bad('batch skip', 'A04', (AP, '            _order_id = None\n', '            continue\n'))
    bad('batch no style', 'A04', (AP, 'order(_code, _amount, _style, _side)', 'order(_code, _amount, side=_side)'))
    bad('batch stale id', 'A04', (AP, '            _order_id = None\n\n        order_ids', '            pass\n\n        order_ids'), (AP, '    order_ids = []\n    for _order_info', '    order_ids = []\n    _order_id = None\n    for _order_info'))
    bad('batch dict', 'A04', (AP, '        order_ids.append(_order_id)', '        if _order_id not in order_ids:\n            order_ids.append(_order_id)'))
    bad('batch break', 'A04', (AP, '            _order_id = None\n', '            _order_id = None\n            if _code is None:\n                break\n'))
    same('batch helper', 'A04', (AP, '''        try:
            if _code is None:
                raise InvalidParam(f"批量单缺少标的代码字段code，请检查订单信息: {_order_info}")

            if _amount is None:
                raise InvalidParam(f"批量单缺少标的代码字段amount，请检查订单信息: {_order_info}")

            _order_id = order(_code, _amount, _style, _side)
        except''', '''        try:
            for key in ("code", "amount"):
                if _order_info.get(key) is None:
                    raise InvalidParam(f"批量单缺少标的代码字段，请检查订单信息: {_order_info}")

            _order_id = order(_code, _amount, _style, _side)
        except'''))
    same('batch one', 'A04', (AP, '        order_ids.append(_order_id)\n    return order_ids', '        order_ids.append(_order_id)\n    else:\n        logger.info("done")\n    return order_ids'))
    same('batch comp', 'A04', (AP, '''    order_ids = []
    for _order_info in orders:
        _code''', '''    return [_submit_one(o) for o in orders]


def _submit_one(_order_info):
        _code'''), (AP, '''
        order_ids.append(_order_id)
    return order_ids
''', '''
        return _order_id
'''))
    same('batch enum', 'A04', (AP, '    for _order_info in orders:', '    for i, _order_info in enumerate(orders):\n        logger.debug("batch order %s", i)'))
    same('batch prealloc', 'A04', (AP, '    order_ids = []\n    for _order_info in orders:', '    order_ids = [None] * len(orders)\n    for i, _order_info in enumerate(orders):'), (AP, '        order_ids.append(_order_id)', '        order_ids[i] = _order_id'))
    same('batch two lists', 'A03', (AP, '    for _order_id in order_ids:\n        cancel_order(_order_id)', '    ids = [str(i) for i in order_ids]\n    for i in range(len(ids)):\n        cancel_order(ids[i])'))
    same('batch while', 'A03', (AP, '    for _order_id in order_ids:\n        cancel_order(_order_id)', '    pending = list(order_ids)\n    while pending:\n        cancel_order(pending.pop(0))'))
    # A05 query
    bad('or id', 'A05', (AP, '        orders = [acc_orders[order_id], ] if order_id in acc_orders else []\n', '        orders = [acc_orders[order_id], ] if order_id in acc_orders else orders\n'))
    bad('code in', 'A05', (AP, 'if o.code == code]', 'if code in o.code or o.code[:6] == code[:6]]'))
    bad('status live', 'A05', (AP, 'if o.status.value == status]', 'if o.status.value == status or not o.has_finished()]'))
    bad('id raw', 'A05', (AP, '        order_id = str(order_id)\n        orders', '        orders'))
    bad('keyed by confirm', 'A05', (AP, '{_order.order_id: UserOrder', '{_order.confirm_id: UserOrder'))
    bad('code only no id', 'A05', (AP, '    if code:\n        orders = [', '    if code and not order_id:\n        orders = ['))
    bad('status elif', 'A05', (AP, '    if status:\n        orders = [o', '    elif status:\n        orders = [o'))
    bad('drops finished', 'A05', (AP, 'UserOrder(_order) for _order in orders}', 'UserOrder(_order) for _order in orders if _order.amount}'))
    same('loop build', 'A05', (AP, '    return {_order.order_id: UserOrder(_order) for _order in orders}', '''    result = {}
    for o in orders:
        result[o.order_id] = UserOrder(o)
    return result'''))
    same('one pass', 'A05', (AP, '''    if code:
        orders = [o for o in orders if o.code == code]

    if status:
        orders = [o for o in orders if o.status.value == status]

    return {_order.order_id: UserOrder(_order) for _order in orders}''', '''    result = {}
    for o in orders:
        if code and o.code != code:
            continue
        if status and o.status.value != status:
            continue
        result[o.order_id] = UserOrder(o)
    return result'''))
    same('get status', 'A05', (AP, '            status = status.value\n        else:\n            _check_status(status)\n', '            pass\n        else:\n            _check_status(status)\n            status = OrderStatus.get_status(status)\n'), (AP, 'if o.status.value == status]', 'if o.status == status]'))
    # A06 views
    bad('action view', 'A06', (AP, 'return self.__order.action.value', 'return self.__order.side.value'))
    bad('avg price', 'A06', (AP, 'return self.__order.avg_cost', 'return self.__order.price'))
    bad('filled', 'A06', (AP, 'return self.__order.filled_amount', 'return self.__order.amount - self.__order.canceled_amount'))
    bad('closeable', 'A06', (AP, 'return self.__position.available_amount', 'return self.__position.amount'))
    bad('locked', 'A06', (PO, 'return self._amount - self._available_amount', 'return self._available_amount - self._amount'))
    bad('empty pos none', 'A06', (AP, 'Position(code, 0, 0, 0, side, position_value=0, last_price=0)', 'Position(code, 0, 0, 0, side, position_value=0)'))
    bad('empty side', 'A06', (AP, 'get_empty_pos(code, side=self._side)', 'get_empty_pos(code, side=OrderSide.long)'))
    bad('portfolio short', 'A06', (PF, '        positions = UserPositionDict(OrderSide.short)\n        for _code, _pos in self.__account.short_positions', '        positions = UserPositionDict(OrderSide.short)\n        for _code, _pos in self.__account.long_positions'))
    bad('skip empty', 'A06', (PF, '            positions[_code] = UserPosition(_pos)\n        return positions\n\n    positions', '            if _pos.amount:\n                positions[_code] = UserPosition(_pos)\n        return positions\n\n    positions'))
    bad('stores empty', 'A06', (AP, '            return UserPosition.get_empty_pos(code, side=self._side)', '            self[code] = UserPosition.get_empty_pos(code, side=self._side)\n            return dict.__getitem__(self, code)'))
    bad('total from cash', 'A06', (PF, 'return self.__account.total_assert', 'return self.__account.available_cash + self.__account.locked_cash'))
    bad('pv with short', 'A06', (PF, 'for _pos in self.long_positions.values())', 'for _pos in self.short_positions.values())'))
    bad('order status mapping', 'A06', (OR, '    def status(self):\n        return self._status\n', '    def status(self):\n        return OrderStatus.filled if self._filled_amount == self._amount else self._status\n'))
    same('view helper', 'A06', (PF, '''        positions = UserPositionDict(OrderSide.long)
        for _code, _pos in self.__account.long_positions.items():
            positions[_code] = UserPosition(_pos)
        return positions
''', '''        return self._view(OrderSide.long, self.__account.long_positions)
'''), (PF, '''        positions = UserPositionDict(OrderSide.short)
        for _code, _pos in self.__account.short_positions.items():
            positions[_code] = UserPosition(_pos)
        return positions
''', '''        return self._view(OrderSide.short, self.__account.short_positions)

    @staticmethod
    def _view(side, sys_positions):
        res = UserPositionDict(side)
        for code in sys_positions:
            res[code] = UserPosition(sys_positions[code])
        return res
'''))
    same('sum loop', 'A06', (PF, 'return sum(_pos.position_value for _pos in self.long_positions.values())', '''total = 0
        for pos in self.long_positions.values():
            total += pos.position_value
        return total'''))
    same('missing', 'A06', (AP, '''        try:
            return dict.__getitem__(self, code)
        except KeyError:
            sys_logger''', '''        if code in self:
            return dict.__getitem__(self, code)
        else:
            sys_logger'''))
    # A07 closeable
    bad('open reduces', 'A07', (PO, 'if order.action == OrderAction.close:', 'if order.action:'))
    bad('no floor', 'A07', (PO, 'max(self._available_amount - order.amount, 0)', 'self._available_amount - order.amount'))
    bad('before gate', 'A07', (AC, '            self._ctx.trade_gate.order(order_obj)\n            self.on_order_created(order_obj)\n', '            self.on_order_created(order_obj)\n            self._ctx.trade_gate.order(order_obj)\n'))
    bad('wrong side pos', 'A07', (AC, '            pos = self._short_positions.get(order.code)', '            pos = self._short_positions.get(order.code) or self._long_positions.get(order.code)'))
    bad('total reduced', 'A07', (PO, '            self._available_amount = max(', '            self._amount = self._amount - order.amount\n            self._available_amount = max('))
    bad('zeroed', 'A07', (PO, 'max(self._available_amount - order.amount, 0)', 'max(self._amount - order.amount, 0)'))
    same('floor if', 'A07', (PO, 'self._available_amount = max(self._available_amount - order.amount, 0)', '''rest = self._available_amount - order.amount
            self._available_amount = rest if rest > 0 else 0'''))
    same('early return', 'A07', (PO, '''        if order.action == OrderAction.close:
            self._available''', '''        if order.action != OrderAction.close:
            return
        if True:
            self._available'''))
    same('pos not none', 'A07', (AC, '        if pos:\n            pos.on', '        if pos is not None:\n            pos.on'))
    same('side short', 'A07', (AC, '''        if order.side == OrderSide.long:
            pos = self._long_positions.get(order.code)
        else:
            pos = self._short_positions.get(order.code)
''', '''        positions = self._short_positions if order.side == OrderSide.short else self._long_positions
        pos = positions.get(order.code)
'''))
    # A08 use_account off
    bad('no guard account', 'A08', (CX, '''    def account(self):
        if not self._use_account:''', '''    def account(self):
        if self._use_account is None:'''))
    bad('no guard portfolio', 'A08', (CX, '''    def portfolio(self):
        if not self._use_account:
            raise InvalidCall("检测到use_account=False，程序未加载账户组件，无法调用账户模块相关API，"
                              "请在set_options中设置use_account=True后再试")
''', '''    def portfolio(self):
'''))

    # A09 balance
    bad('asset key', 'A09', (AC, 'cash_info.get("total_asset", cash_info.get("total_assert", self._total_assert))', 'cash_info.get("total_assert", self._total_assert)'))
    bad('zero cash kept', 'A09', (AC, 'cash_info.get("available_cash", self._available_cash)', 'cash_info.get("available_cash") or self._available_cash'))
    bad('locked zero', 'A09', (AC, 'cash_info.get("locked_cash", self._locked_cash)', 'cash_info.get("locked_cash", 0)'))
    bad('merge positions', 'A09', (AC, '            long_positions = {}\n            short_positions = {}', '            long_positions = dict(self._long_positions)\n            short_positions = {}'))
    bad('default short', 'A09', (AC, '_pos_info.pop("side", OrderSide.long)', '_pos_info.pop("side", OrderSide.short)'))
    bad('all long', 'A09', (AC, '                if _pos.side == OrderSide.long:\n', '                if _pos.side:\n'))
    bad('zero amount skipped', 'A09', (AC, '                if _pos.side == OrderSide.long:\n', '                if not _pos.amount:\n                    continue\n                if _pos.side == OrderSide.long:\n'))
    bad('available as amount', 'A09', (AC, 'amount=_pos_info.pop("amount"),', 'amount=_pos_info["available_amount"],'))
    bad('kw dropped', 'A09', (AC, '                    side=_side,\n                    **_pos_info\n', '                    side=_side\n'))
    bad('first only', 'A09', (AC, '                    long_positions[_pos.code] = _pos\n', '                    long_positions.setdefault(_pos.code, _pos)\n                    break\n'))
    bad('skip if unchanged', 'A09', (AC, '            self._total_assert = total_assert\n', '            if available_cash == self._available_cash and locked_cash == self._locked_cash:\n                return\n            self._total_assert = total_assert\n'))
    bad('keep if empty', 'A09', (AC, '            self._long_positions = long_positions\n', '            if long_positions:\n                self._long_positions = long_positions\n'))
    bad('swap', 'A09', (AC, '            self._long_positions = long_positions\n            self._short_positions = short_positions\n', '            self._long_positions = short_positions\n            self._short_positions = long_positions\n'))
    same('balance helper', 'A09 A10', (AC, '''                _side = OrderSide.get_side(_pos_info.pop("side", OrderSide.long))
                _pos = Position(
                    code=_pos_info.pop("code"),
                    amount=_pos_info.pop("amount"),
                    available_amount=_pos_info.pop("available_amount"),
                    avg_cost=_pos_info.pop("avg_cost"),
                    side=_side,
                    **_pos_info
                )
''', '''                _pos = self._parse_position(_pos_info)
'''), (AC, '''    def sync_orders(self, *args, **kwargs):
        logger''', '''    @staticmethod
    def _parse_position(info):
        info = dict(info)
        info["side"] = OrderSide.get_side(info.get("side", OrderSide.long))
        return Position(**info)

    def sync_orders(self, *args, **kwargs):
        logger'''))
    same('balance tuple', 'A09 A10', (AC, '''            self._total_assert = total_assert
            self._available_cash = available_cash
            self._locked_cash = locked_cash
            self._long_positions = long_positions
            self._short_positions = short_positions
''', '''            self._long_positions, self._short_positions = long_positions, short_positions
            self._total_assert, self._available_cash, self._locked_cash = total_assert, available_cash, locked_cash
'''))
    same('balance by side', 'A09 A10', (AC, '''                if _pos.side == OrderSide.long:
                    long_positions[_pos.code] = _pos
                else:
                    short_positions[_pos.code] = _pos
''', '''                target = long_positions if _pos.side == OrderSide.long else short_positions
                target[_pos.code] = _pos
'''))
    same('balance by dict', 'A09 A10', (AC, '''                if _pos.side == OrderSide.long:
                    long_positions[_pos.code] = _pos
                else:
                    short_positions[_pos.code] = _pos
''', '''                {OrderSide.long: long_positions, OrderSide.short: short_positions}[_pos.side][_pos.code] = _pos
'''))
    same('balance two passes', 'A09 A10', (AC, '''            positions = account_info["positions"]
            for _pos_info in positions:
''', '''            parsed = []
            for _pos_info in account_info["positions"]:
'''), (AC, '''                if _pos.side == OrderSide.long:
                    long_positions[_pos.code] = _pos
                else:
                    short_positions[_pos.code] = _pos
''', '''                parsed.append(_pos)

            for p in parsed:
                if p.side == OrderSide.long:
                    long_positions[p.code] = p
                else:
                    short_positions[p.code] = p
'''))
    same('balance comp', 'A09 A10', (AC, '''            long_positions = {}
            short_positions = {}

            positions = account_info["positions"]
            for _pos_info in positions:
''', '''            parsed = []
            for _pos_info in account_info["positions"]:
'''), (AC, '''                if _pos.side == OrderSide.long:
                    long_positions[_pos.code] = _pos
                else:
                    short_positions[_pos.code] = _pos
''', '''                parsed.append(_pos)
            long_positions = {p.code: p for p in parsed if p.side == OrderSide.long}
            short_positions = {p.code: p for p in parsed if p.side != OrderSide.long}
'''))
    same('cash if in', 'A09 A10', (AC, '            available_cash = cash_info.get("available_cash", self._available_cash)\n', '            if "available_cash" in cash_info:\n                available_cash = cash_info["available_cash"]\n            else:\n                available_cash = self._available_cash\n'))
    same('try else', 'A09 A10', (AC, '''            self._total_assert = total_assert
            self._available_cash = available_cash
            self._locked_cash = locked_cash
            self._long_positions = long_positions
            self._short_positions = short_positions
        except Exception as e:
            logger.exception(f"同步资金和持仓失败，error={e}")
''', '''        except Exception as e:
            logger.exception(f"同步资金和持仓失败，error={e}")
        else:
            self._total_assert = total_assert
            self._available_cash = available_cash
            self._locked_cash = locked_cash
            self._long_positions = long_positions
            self._short_positions = short_positions
'''))
    # A10
    bad('early cash', 'A10', (AC, '''            total_assert = cash_info.get(''', '''            self._available_cash = cash_info.get("available_cash", self._available_cash)
            total_assert = cash_info.get('''))
    bad('early clear', 'A10', (AC, '            positions = account_info["positions"]\n', '            positions = account_info["positions"]\n            self._long_positions = {}\n'))
    bad('clear in place', 'A10', (AC, '            positions = account_info["positions"]\n', '            positions = account_info["positions"]\n            self._long_positions.clear()\n'))
    bad('in place store', 'A10', (AC, '                    long_positions[_pos.code] = _pos\n', '                    long_positions[_pos.code] = _pos\n                    self._long_positions[_pos.code] = _pos\n'))
    bad('finally', 'A10', (AC, '''            self._long_positions = long_positions
            self._short_positions = short_positions
        except Exception as e:
            logger.exception(f"同步资金和持仓失败，error={e}")
''', '''        except Exception as e:
            logger.exception(f"同步资金和持仓失败，error={e}")
        self._long_positions = long_positions
        self._short_positions = short_positions
'''))
    bad('narrow handler', 'A10', (AC, '        except Exception as e:\n            logger.exception(f"同步资金和持仓失败', '        except (ValueError, KeyError) as e:\n            logger.exception(f"同步资金和持仓失败'))
    bad('reraise orders', 'A10', (AC, '            logger.exception(f"同步订单失败，error={e}")\n', '            logger.exception(f"同步订单失败，error={e}")\n            if not self.has_synced:\n                raise\n'))
    bad('gate outside try', 'A10', (AC, '''        try:
            orders = self._ctx.trade_gate.sync_orders()
''', '''        orders = self._ctx.trade_gate.sync_orders()
        try:
'''))

    # A11
    for f in ('status', 'confirm_id', 'filled_amount', 'canceled_amount', 'deal_balance', 'avg_cost', 'commission', 'entrust_time', 'err_msg'):
        if f != 'status':
            bad('eq without ' + f, 'A11', (OR, '            and self._%s == other.%s\n' % (f, f), ''))
    bad('eq amount', 'A11', (OR, 'self._filled_amount == other.filled_amount', 'abs(self._filled_amount - other.filled_amount) < 1'))
    bad('eq swapped', 'A11', (OR, 'self._canceled_amount == other.canceled_amount', 'self._canceled_amount == other.filled_amount'))
    bad('finished not replaced', 'A11', (AC, '                if _remote_order == _local_order:\n', '                if _remote_order == _local_order or _local_order.has_finished():\n'))
    bad('int key', 'A11', (AC, '_order_id = str(_order_info["order_id"])', '_order_id = _order_info["order_id"]'))
    bad('confirm key', 'A11', (AC, '_order_id = str(_order_info["order_id"])', '_order_id = str(_order_info["confirm_id"])'))
    bad('new skipped', 'A11', (AC, '''                    self._orders[_order_id] = _remote_order
                    continue
''', '''                    if not self.has_synced:
                        self._orders[_order_id] = _remote_order
                    continue
'''))
    bad('stop at unchanged', 'A11', (AC, '''                if _remote_order == _local_order:
                    continue
''', '''                if _remote_order == _local_order:
                    break
'''))
    bad('replace all', 'A11', (AC, '            self.has_synced = True\n', '            self._orders = {str(o["order_id"]): Order.load(**o) for o in orders}\n            self.has_synced = True\n'))
    bad('purge finished', 'A11', (AC, '            self.has_synced = True\n', '            for k in list(self._orders):\n                if self._orders[k].has_finished():\n                    del self._orders[k]\n            self.has_synced = True\n'))
    bad('keeps local', 'A11', (AC, '''                    self._orders[_order_id] = _remote_order
                    self.on_order_updated(_local_order, _remote_order)
''', '''                    self.on_order_updated(_local_order, _remote_order)
'''))
    bad('load drops err', 'A11', (OR, '        return cls(**kwargs)', '        kwargs.pop("err_msg", None)\n        return cls(**kwargs)'))
    same('ne', 'A11 A10', (AC, '''                if _remote_order == _local_order:
                    continue
                else:
                    self._orders[_order_id] = _remote_order
                    self.on_order_updated(_local_order, _remote_order)
''', '''                if _remote_order != _local_order:
                    self._orders[_order_id] = _remote_order
                    self.on_order_updated(_local_order, _remote_order)
'''))
    same('always replace', 'A11', (AC, '''                if _remote_order == _local_order:
                    continue
                else:
                    self._orders[_order_id] = _remote_order
                    self.on_order_updated(_local_order, _remote_order)
''', '''                self._orders[_order_id] = _remote_order
                if not _remote_order == _local_order:
                    self.on_order_updated(_local_order, _remote_order)
'''))
    same('merge helper', 'A11 A10', (AC, '''            for _order_info in orders:
                _order_id = str(_order_info["order_id"])
                _local_order = self._orders.get(_order_id)
                _remote_order = Order.load(**_order_info)
                if _local_order is None:
                    if self.has_synced:
                        logger.info(f"从trade_gate同步到本地不存在的订单: {_order_info}")
                    else:
                        logger.info(f"从trade_gate同步订单: {_order_info}")
                    self._orders[_order_id] = _remote_order
                    continue

                if _remote_order == _local_order:
                    continue
                else:
                    self._orders[_order_id] = _remote_order
                    self.on_order_updated(_local_order, _remote_order)

            self.has_synced = True
        except Exception as e:
            logger.exception(f"同步订单失败，error={e}")
''', '''            for info in orders:
                self._merge_order(info)

            self.has_synced = True
        except Exception as e:
            logger.exception(f"同步订单失败，error={e}")

    def _merge_order(self, info):
        oid = str(info["order_id"])
        remote = Order.load(**info)
        if oid not in self._orders:
            logger.info(f"从trade_gate同步订单: {info}")
            self._orders[oid] = remote
            return
        local = self._orders[oid]
        if not (remote == local):
            self._orders[oid] = remote
            self.on_order_updated(local, remote)
'''))
    same('eq all', 'A11 A10', (OR, '''        return (
            self._status == other.status
            and self._confirm_id == other.confirm_id
            and self._filled_amount == other.filled_amount
            and self._canceled_amount == other.canceled_amount
            and self._deal_balance == other.deal_balance
            and self._avg_cost == other.avg_cost
            and self._commission == other.commission
            and self._entrust_time == other.entrust_time
            and self._err_msg == other.err_msg
        )
''', '''        names = ("status", "confirm_id", "filled_amount", "canceled_amount", "deal_balance", "avg_cost", "commission",
                 "entrust_time", "err_msg")
        return all(getattr(self, n) == getattr(other, n) for n in names)
'''))
    same('eq tuple', 'A11 A10', (OR, '''        return (
            self._status == other.status
            and self._confirm_id == other.confirm_id
            and self._filled_amount == other.filled_amount
            and self._canceled_amount == other.canceled_amount
            and self._deal_balance == other.deal_balance
            and self._avg_cost == other.avg_cost
            and self._commission == other.commission
            and self._entrust_time == other.entrust_time
            and self._err_msg == other.err_msg
        )
''', '''        return self._state() == other._state()

    def _state(self):
        return (self._status, self._confirm_id, self._filled_amount, self._canceled_amount, self._deal_balance,
                self._avg_cost, self._commission, self._entrust_time, self._err_msg)
'''))
    same('on updated log', 'A11 A10', (AC, '        self._notify_changed(local_order, remote_order)\n', '        handler = getattr(self, "_notify_changed")\n        handler(local_order, remote_order)\n'))
    # ---- A12
    bad('late gate', 'A12', (AC, '''        # 初始化券商交易接口
        self._ctx.trade_gate.setup(options)

''', ''), (AC, '''            if self.need_sync_order:
                self.sync_orders()

    @property''', '''            if self.need_sync_order:
                self.sync_orders()
        self._ctx.trade_gate.setup(options)

    @property'''))
    bad('gate only when syncing', 'A12', (AC, '''        self._ctx.trade_gate.setup(options)

''', ''), (AC, '''            self._setup_sync_timer()

''', '''            self._ctx.trade_gate.setup(options)
            self._setup_sync_timer()

'''))
    bad('either option', 'A12', (AC, '''            if self.need_sync_order:
                self.sync_orders()

    @property''', '''            self.sync_orders()

    @property'''))
    bad('option or config', 'A12', (AC, 'return bool(self._options.get("sync_order", config.SYNC_ORDER))', 'return bool(self._options.get("sync_order") or config.SYNC_ORDER)'))
    bad('wrong option', 'A12', (AC, 'return bool(self._options.get("sync_order", config.SYNC_ORDER))', 'return bool(self._options.get("sync_balance", config.SYNC_ORDER))'))
    bad('wrong config', 'A12', (AC, 'return bool(self._options.get("sync_order", config.SYNC_ORDER))', 'return bool(self._options.get("sync_order", config.SYNC_BALANCE))'))
    bad('orders first', 'A12', (AC, '''            if self.need_sync_balance:
                self.sync_balance()

            if self.need_sync_order:
                self.sync_orders()
''', '''            if self.need_sync_order:
                self.sync_orders()

            if self.need_sync_balance:
                self.sync_balance()
'''))
    bad('elif register', 'A12', (AC, '''        if self.need_sync_order:
            self._ctx.event_bus.register(''', '''        elif self.need_sync_order:
            self._ctx.event_bus.register('''))
    bad('register always', 'A12', (AC, '''        if self.need_sync_order:
            self._ctx.event_bus.register(event_cls, self.sync_orders)
''', '''        self._ctx.event_bus.register(event_cls, self.sync_orders)
'''))
    bad('register twice balance', 'A12', (AC, 'register(event_cls, self.sync_orders)', 'register(event_cls, self.sync_balance)'))
    bad('from start', 'A12', (AC, 'current = now.replace(hour=0, minute=0, second=0)', 'current = now.replace(hour=9, minute=0, second=0)'))
    bad('from now', 'A12', (AC, 'current = now.replace(hour=0, minute=0, second=0)', 'current = now.replace(minute=0, second=0)'))
    bad('to 15h', 'A12', (AC, 'while current <= now.replace(hour=23, minute=59, second=59):', 'while current <= now.replace(hour=15, minute=59, second=59):'))
    bad('end excluded', 'A12', (AC, 'while current <= _end_dt:', 'while current < _end_dt:'))
    bad('step first', 'A12', (AC, '''                while current <= _end_dt:
                    event_source.daily(event_cls, current.strftime("%H:%M:%S"))
                    current += datetime.timedelta(seconds=sync_internal)
''', '''                while current <= _end_dt:
                    current += datetime.timedelta(seconds=sync_internal)
                    event_source.daily(event_cls, current.strftime("%H:%M:%S"))
'''))
    bad('minutes', 'A12', (AC, '''                while current <= _end_dt:
                    event_source.daily(event_cls, current.strftime("%H:%M:%S"))
                    current += datetime.timedelta(seconds=sync_internal)
''', '''                while current <= _end_dt:
                    event_source.daily(event_cls, current.strftime("%H:%M:%S"))
                    current += datetime.timedelta(minutes=sync_internal)
'''))
    bad('first period', 'A12', (AC, 'for _period in sync_period:', 'for _period in sync_period[:1]:'))
    bad('swapped period', 'A12', (AC, '_start, _end = _period\n', '_end, _start = _period\n'))
    bad('format', 'A12', (AC, '''                while current <= _end_dt:
                    event_source.daily(event_cls, current.strftime("%H:%M:%S"))''', '''                while current <= _end_dt:
                    event_source.daily(event_cls, current.strftime("%H:%M"))'''))
    bad('config period', 'A12', (AC, 'sync_period = self._options.get("sync_period", config.SYNC_PERIOD)', 'sync_period = config.SYNC_PERIOD'))
    bad('config step', 'A12', (AC, 'sync_internal = float(self._options.get("sync_internal", config.SYNC_INTERNAL))', 'sync_internal = float(config.SYNC_INTERNAL)'))
    bad('skip minute', 'A12', (AC, '''                while current <= _end_dt:
                    event_source.daily(''', '''                while current <= _end_dt:
                    if current > _start_dt:
                      event_source.daily('''))
    bad('break after first', 'A12', (AC, '''                    current += datetime.timedelta(seconds=sync_internal)

        if''', '''                    current += datetime.timedelta(seconds=sync_internal)
                if _end_dt > now:
                    break

        if'''))
    bad('no schedule', 'A12', (AC, '        self._ctx.scheduler.schedule(event_source)\n', '        if self.need_sync_order:\n            self._ctx.scheduler.schedule(event_source)\n'))
    bad('not has options', 'A12', (AC, 'self._ctx.trade_gate.setup(options)', 'self._ctx.trade_gate.setup({})'))
    same('timer helper', 'A12', (AC, '''                current = _start_dt
                while current <= _end_dt:
                    event_source.daily(event_cls, current.strftime("%H:%M:%S"))
                    current += datetime.timedelta(seconds=sync_internal)
''', '''                self._every(event_source, event_cls, _start_dt, _end_dt, sync_internal)
'''), (AC, '''    def order(self, code, amount, style, side):
''', '''    @staticmethod
    def _every(source, cls, first, last, step):
        delta = datetime.timedelta(seconds=step)
        moment = first
        while not moment > last:
            source.daily(cls, moment.strftime("%H:%M:%S"))
            moment = moment + delta

    def order(self, code, amount, style, side):
'''))
    same('timer one loop', 'A12', (AC, '''            # 定时任务每天都会执行，因此需要覆盖全天，早于启动时间的事件不会生成
            current = now.replace(hour=0, minute=0, second=0)
            while current <= now.replace(hour=23, minute=59, second=59):
                event_source.daily(event_cls, current.strftime("%H:%M:%S"))
                current += datetime.timedelta(seconds=sync_internal)
        else:
            for _period in sync_period:
''', '''            sync_period = [(datetime.time(0, 0, 0), datetime.time(23, 59, 59))]
        if True:
            for _period in sync_period:
'''))
    same('timer times list', 'A12', (AC, '''                current = _start_dt
                while current <= _end_dt:
                    event_source.daily(event_cls, current.strftime("%H:%M:%S"))
                    current += datetime.timedelta(seconds=sync_internal)
''', '''                times = []
                current = _start_dt
                while current <= _end_dt:
                    times.append(current.strftime("%H:%M:%S"))
                    current += datetime.timedelta(seconds=sync_internal)
                for t in times:
                    event_source.daily(event_cls, t)
'''))
    same('setup early return', 'A12', (AC, '''        if self.need_sync_balance or self.need_sync_order:
            logger.info(f"初始化同步定时任务。sync_balance: {self.need_sync_balance}, sync_order: {self.need_sync_order}")
            self._setup_sync_timer()

            # setup触发一次同步
            if self.need_sync_balance:
                self.sync_balance()

            if self.need_sync_order:
                self.sync_orders()
''', '''        balance, orders = self.need_sync_balance, self.need_sync_order
        if not (balance or orders):
            return
        self._setup_sync_timer()
        if balance:
            self.sync_balance()
        if orders:
            self.sync_orders()
'''))
    same('need if in', 'A12', (AC, 'return bool(self._options.get("sync_order", config.SYNC_ORDER))', '''if "sync_order" in self._options:
            return self._options["sync_order"]
        return config.SYNC_ORDER'''))


def ids(bad, same):
    AC = 'account/account.py'
    NEW = '''        order_id = str(generate_unique_number())
        while order_id in self._orders:
            # 随机数可能与已有订单的id重复
            order_id = str(generate_unique_number())
'''
    HELP = '    def order(self, code, amount, style, side):\n        order_id = '
    P = 'A23'
    U = 'common/utils.py'
    bad('no test', P, (AC, NEW, '        order_id = str(generate_unique_number())\n'))
    bad('tested once', P, (AC, 'while order_id in self._orders', 'if order_id in self._orders'))
    bad('number tested', P, (AC, 'while order_id in self._orders', 'while int(order_id) in self._orders'))
    bad('count', P, (AC, NEW, '        order_id = str(len(self._orders) + 1)\n'))
    bad('moment', P, (AC, NEW, '        order_id = datetime.datetime.now().strftime("%H%M%S%f")\n'))
    bad('other dict', P, (AC, 'while order_id in self._orders', 'while order_id in self._long_positions'))
    bad('active only', P, (AC, 'while order_id in self._orders', 'while order_id in [o.order_id for o in self._orders.values() if o.status == OrderStatus.open]'))
    bad('tested then cut', P, (AC, NEW, NEW + '        order_id = order_id[:6]\n'))
    bad('bounded', P, (AC, NEW, NEW.replace('while order_id in self._orders:', 'for _ in range(3):\n            if order_id not in self._orders:\n                break')))
    ALL = 'A01 A02 A23 A04'
    same('new id while true', ALL, (AC, NEW, '''        while True:
            order_id = str(generate_unique_number())
            if order_id not in self._orders:
                break
'''))
    same('new id helper', ALL, (AC, '    def order(self, code, amount, style, side):\n' + NEW, '''    def _new_order_id(self):
        while True:
            order_id = str(generate_unique_number())
            if order_id not in self._orders:
                return order_id

    def order(self, code, amount, style, side):
        order_id = self._new_order_id()
'''))
    same('new id keys', ALL, (AC, 'while order_id in self._orders:', 'while order_id in self._orders.keys():'))
    same('new id property', ALL, (AC, 'while order_id in self._orders:', 'while order_id in self.orders:'))
    same('new id get', ALL, (AC, 'while order_id in self._orders:', 'while self._orders.get(order_id) is not None:'))
    same('new id number', ALL, (AC, NEW, '''        number = generate_unique_number()
        while str(number) in self._orders:
            number = generate_unique_number()
        order_id = str(number)
'''))
    same('new id fmt', ALL, (AC, NEW, '''        order_id = "%d" % generate_unique_number()
        while order_id in self._orders:
            order_id = "%d" % generate_unique_number()
'''))
    same('new id fstring', ALL, (AC, NEW, '''        order_id = f"{generate_unique_number()}"
        while order_id in self._orders:
            order_id = f"{generate_unique_number()}"
'''))
    same('new id whole uuid', 'A01 A23 A04', (AC, NEW, '''        import uuid
        order_id = uuid.uuid4().hex
'''))
    same('new id recursion', ALL, (AC, NEW, '''        order_id = next(i for i in iter(lambda: str(generate_unique_number()), None) if i not in self._orders)
'''))
    same('new id setdefault', ALL, (AC, NEW, '''        order_id = str(generate_unique_number())
        while order_id in self._orders:
            order_id = str(generate_unique_number())
        if False:
            pass
'''))
    PUT = '        self._orders[order_id] = order_obj\n        try:'
    for i, x in enumerate(('self._orders = dict(self._orders)\n        self._orders[order_id] = order_obj', 'self._orders = {**self._orders, order_id: order_obj}', 'self._orders.update({order_id: order_obj})',
                           'self._orders.setdefault(order_id, order_obj)', 'self._orders = {k: o for k, o in self._orders.items()}\n        self._orders[order_id] = order_obj', 'self._orders.update([(order_id, order_obj)])')):
        same('new id put %d' % i, ALL, (AC, PUT, '        ' + x + '\n        try:'))
