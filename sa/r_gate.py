"""Rules of the file based broker interface (account/trade_gate.py)."""
from .r_acct import *
from .r_acct import _mkst
import ast
import re
from . import core, model

CHECKS = {}
GATE = 'AnXinDMATradeGate'


def prop(pid):
    def deco(f):
        CHECKS.setdefault(pid, []).append(f)
        return f
    return deco


# ---------------------------------------------------------------- files
class File(object):
    """one place where a file is opened"""
    def __init__(self, r, e):
        self.r, self.e, self.res = r, e, e.res
        self.path = e.args[0]
        m = e.arg(1, 'mode') if len(e.args) > 1 or 'mode' in (e.kw or {}) else None
        self.modes = [(e.g, 'r')] if m is None else [(B.AND(e.g, g), cval(t) if is_const(t) else None) for g, t in m.ls]

    def ops(self, *names):
        """events on this file: methods ('.write') or functions that take it as an argument ('portalocker.lock')"""
        return [e for e in self.r.events if e.i > self.e.i and (not names or e.fn in names or e.kind in names) and
                (e.recv is not None and e.recv is self.res or e.kind == 'call' and any(t is self.res for a in list(e.args) + list((e.kw or {}).values()) if isinstance(a, V) for t in terms(a)))]


def opens(r):
    return [File(r, e) for e in evs(r, 'call') if e.fn in ('builtins.open', 'io.open', 'codecs.open')]


def parts_of(t):
    """text as a list of str and terms"""
    if t.op == 'const' and is_text(t):
        return [cval(t)]
    if t.op == 'cat':
        return [p for a in t.args[0] for p in parts_of(a)]
    if t.op == 'app' and t.args[0] in ('os.path.join', 'posixpath.join', 'ntpath.join'):
        out = []
        for i, a in enumerate(t.args[1:]):
            out += (['/'] if i else []) + parts_of(a)
        return out
    if t.op == 'app' and t.args[0] in ('str', 'os.path.abspath', 'os.path.expanduser', 'os.path.normpath', 'pathlib.Path', 'os.fspath'):
        return parts_of(t.args[1])
    return [t]


def is_text(t):
    return is_const(t) and isinstance(cval(t), str)


def file_name(t):
    """last part of a path; dates as <format>, other values as ?; (name, directory parts)"""
    ps = parts_of(t)
    name, i = '', len(ps) - 1
    while i >= 0:
        p = ps[i]
        if isinstance(p, str):
            if '/' in p:
                a, b = p.rsplit('/', 1)
                return b + name, ps[:i] + ([a] if a else [])
            name = p + name
        elif p.op == 'app' and p.args[0] == 'strftime' and is_const(p.args[2]):
            name = '<%s>' % cval(p.args[2]) + name
        else:
            name = '?' + name
        i -= 1
    return name, []


def named(r, prefix):
    """files whose name starts with the prefix"""
    return [f for f in opens(r) if any(file_name(t)[0].startswith(prefix) for t in terms(f.path))]


def is_eol(p):
    return isinstance(p, T) and show(p) == 'os.linesep'


def lines_of(t):
    """text as lines: [(columns, complete)], a column is a list of str and terms"""
    out, cols = [], [[]]
    fresh = True
    for p in parts_of(t):
        if is_eol(p):
            out.append((cols, True))
            cols, fresh = [[]], True
            continue
        if isinstance(p, str):
            for i, line in enumerate(p.replace('\r\n', '\n').split('\n')):
                if i:
                    out.append((cols, True))
                    cols, fresh = [[]], True
                for j, c in enumerate(line.split(',')):
                    if j:
                        cols.append([])
                    if c:
                        cols[-1].append(c)
                        fresh = False
                    if j:
                        fresh = False
        else:
            cols[-1].append(p)
            fresh = False
    if not fresh:
        out.append((cols, False))
    return out


def col_text(c):
    return ''.join(x if isinstance(x, str) else '{%s}' % show(x) for x in c)


def open_loop_values(r, e, g, t, soft=FALSE):
    """[(guard, term)] with the variables of the enclosing while loops replaced by their values before the loop; None when the loop changes them
    (outcomes in soft do not count)"""
    out = [(g, t)]
    for L in reversed(e.loops):
        nxt = []
        for h, x in out:
            ent = [v for v in L.mod.values() if isinstance(v[0], V) and isinstance(v[2], T) and v[2] in core_subterms(x)]
            if not ent:
                nxt.append((h, x))
                continue
            cur = [(h, {})]
            for init, step, mu in ent:
                for a, y in under(step, B.AND(L.end_pc, B.NOT(soft))):
                    if y is not mu and not all(y is z for z in terms(init)):
                        return None
                cur = [(B.AND(hh, a), dict(m, **{})) if False else (B.AND(hh, a), {**m, mu: y}) for hh, m in cur for a, y in init.ls]
            for hh, m in cur:
                if sat(hh):
                    nxt.append((hh, r.interp.subst_t(x, m, {})))
        out = nxt
    return out


class Write(object):
    """text written to a file: by one call, or by all calls on one opened file together"""
    def __init__(self, f, e, g, parts, done=None):
        self.f, self.e, self.g = f, e, g
        self.done = B.AND(g, B.NOT(raised(e))) if done is None else done
        self.term = core.cat(parts)
        self.lines = lines_of(self.term)

    def where(self):
        return self.e.where()


FILE_OPS = ('.write', '.seek', '.flush', '.tell', 'os.fsync', '.truncate')


def single_writes(r, f):
    """[(event, guard, parts)]"""
    out = []
    odd = B.any(raised(x) for x in f.ops() if x.fn not in LOCKS)
    for e in f.ops():
        if e.fn == '.write':
            v, tail = e.args[0], []
        elif e.fn == 'builtins.print':
            if len(e.args) != 1 or set(e.kw or {}) - {'file', 'flush'}:
                raise Undecided('print with more arguments')
            v, tail = e.args[0], [const('\n')]
        elif e.fn in ('.writelines', 'json.dump', 'shutil.copyfileobj', 'csv.writer', 'csv.DictWriter', 'pickle.dump'):
            raise Undecided('written with %s' % e.fn)
        else:
            continue
        for g, t in under(v, e.g):
            vs = open_loop_values(r, e, g, t, odd)
            if vs is None:
                raise Undecided('what a loop writes')
            for h, x in vs:
                out.append((e, h, [x] + tail))
    return out


def writes(r, f):
    return [Write(f, e, g, ps) for e, g, ps in single_writes(r, f)]


def texts(r, f):
    """everything written to a file while it is open, in the cases in which no write failed"""
    sw = single_writes(r, f)
    evs_ = []
    for e, g, ps in sw:
        if e not in evs_:
            evs_.append(e)
    for e in evs_:
        if tuple(e.loops) != tuple(f.e.loops):
            raise Undecided('a file written in a loop')
    acc = [(f.e.g, [], None)]
    for e in sorted(evs_, key=lambda e: e.i):
        nxt = []
        for g, ps, last in acc:
            hit = FALSE
            for e2, h, q in sw:
                if e2 is e:
                    x = B.AND(g, h)
                    hit = B.OR(hit, h)
                    if sat(x):
                        nxt.append((B.AND(x, B.NOT(raised(e))), ps + q, e))
            x = B.AND(g, B.NOT(hit))
            if sat(x):
                nxt.append((x, ps, last))
        acc = [x for x in nxt if sat(x[0])]
        if len(acc) > 1000:
            raise Undecided('cases of what is written')
    return [Write(f, e, g, ps, g) for g, ps, e in acc if e is not None]


def setup_run(ctx):
    return ctx.run(ctx.method(GATE, 'setup'), opaque=[])


def option_value(ctx, chk, s, field_name, opt, default, where, what):
    """a field of the broker interface holds the option given at setup, or the default"""
    me, options = s.sym[s.func.params[0]], s.sym[s.func.params[1]]
    v = field(s, s.st.heap, me, field_name)
    hk = atom('haskey', options, const(opt))
    g = s.st.pc
    chk.value(v, B.AND(g, hk), mk('item', options, const(opt)), 'option %s' % opt, where, 'the %s is not the option %s' % (what, opt))
    if default is not None:
        chk.value(v, B.AND(g, B.NOT(hk)), const(default), 'default %s' % opt, where, 'the default of the %s' % what)


def dir_field(ctx, chk, r, parts, opt, where):
    """a directory given by the parts is the one of the option"""
    me = r.sym[r.func.params[0]]
    if len(parts) == 1 and isinstance(parts[0], T) and parts[0].op == 'attr' and parts[0].args[0] is me:
        option_value(ctx, chk, setup_run(ctx), parts[0].args[1], opt, None, where, 'directory of the files')
    elif len(parts) == 1 and isinstance(parts[0], T) and parts[0].op == 'item' and parts[0].args[1] is const(opt):
        pass
    else:
        chk.undecided('directory', where, 'directory %s' % [x if isinstance(x, str) else show(x) for x in parts])


def named_or_sent(chk, r, prefix, ids, w):
    """the files of a message: by name, or by the id they carry"""
    fs = named(r, prefix)
    if fs:
        return fs
    out = []
    for f in opens(r):
        try:
            ws = texts(r, f)
        except Undecided:
            continue
        if any(i in core_subterms(x.term) for x in ws for i in ids) and not any(e.fn == 'json.dump' for e in f.ops()):
            out.append(f)
    for f in out:
        names = [file_name(t)[0] for t in terms(f.path)]
        chk.check(False, 'file', f.e.where(), 'the line goes to %s' % names, unknown=any('?' in n for n in names))
    if not out:
        raise Undecided('no file %s is written' % prefix)
    return []


def of_today(ctx, chk, r, t, where):
    """the date in a file name is the current one"""
    me = r.sym[r.func.params[0]]
    for p in parts_of(t):
        if isinstance(p, T) and p.op == 'app' and p.args[0] == 'strftime':
            td = today(p)
            if td is True:
                continue
            x = deep(p.args[1])
            if x.op == 'attr' and x.args[0] is me:
                T_, same = day_of(r)
                if T_ == x.args[1]:
                    continue
                s = setup_run(ctx)
                once = [e for e in evs(s, 'set', x.args[1]) if e.recv is s.sym[s.func.params[0]]]
                chk.check(False, 'of today', where, 'the file is that of the day remembered as %s, which need not be the current one: %s' % (x.args[1], show(t)), unknown=not once or any(e.recv is me for e in evs(r, 'set', x.args[1])))
            else:
                chk.check(False, 'of today', where, 'the file is not that of the current day: %s' % show(t), unknown=td is None)


def file_rule(ctx, chk, r, f, name, opt='order_dir'):
    for g, t in under(f.path, f.e.g):
        n, d = file_name(t)
        chk.check(n == name, 'file', f.e.where(), 'the file is %s, required %s' % (n, name), unknown='?' in n)
        of_today(ctx, chk, r, t, f.e.where())
        dir_field(ctx, chk, r, d, opt, f.e.where())


def headers(chk, ws, cols, what):
    """split the writes into lines of data; lines that are headers are checked"""
    out = []
    for w in ws:
        for i, (c, full) in enumerate(w.lines):
            if all(len(x) == 1 and isinstance(x[0], str) for x in c):
                txt = [x[0] for x in c]
                chk.check(txt == cols, 'header of %s' % what, w.where(), 'the header is %s' % ','.join(txt))
                chk.check(full, 'header line of %s' % what, w.where(), 'the header is not a line of its own')
            else:
                out.append((w, c, full))
    return out


ORDER_HEADER = 'updTime,custBatchNo,acctType,acct,symbol,tradeSide,targetQty,algoId,priceType,ticks,highLimitPrice,lowLimitPrice'.split(',')


def gate_run(ctx, name, **decl):
    return ctx.run(ctx.method(GATE, name), **decl)


def opt_of(r, name, me):
    """(has, value) of an option of the broker interface, whatever field holds the options"""
    out = []
    seen = set()
    for e in r.events:
        for v in B.support(e.g):
            a = B.atom_of[v]
            for t in core_subterms(a):
                if t.op == 'item' and t.args[1] is const(name) and t not in seen:
                    seen.add(t)
                    out.append((atom('haskey', t.args[0], const(name)), t))
    return out


def one_line(chk, r, data, ws, what, w, pre):
    """exactly one line is written before a normal return"""
    done = B.any(x.done for x, c, full in data)
    chk.implies(B.AND(r.st.pc, pre), done, 'written', w, '%s returns without writing the line' % what)
    fl = []
    for x, c, full in data:
        if x.f not in fl:
            fl.append(x.f)
    for i, a in enumerate(fl):
        for b in fl[i + 1:]:
            d = B.AND(B.any(x.g for x, c, f in data if x.f is a), B.any(x.g for x, c, f in data if x.f is b))
            chk.check(not sat(d), 'one line of %s' % what, b.e.where(), 'more than one line is written', unknown=guard_unknown(d))
    for a in fl:
        odd = B.any(raised(x) for x in a.ops())
        for L in a.e.loops:
            d = B.all([L.end_pc, B.NOT(odd), B.any(x.done for x, c, f in data if x.f is a)])
            chk.check(not sat(d), 'one line of %s' % what, a.e.where(), 'the line is written again after it was written', unknown=guard_unknown(d))
    for x, c, full in data:
        chk.check(full, 'line end of %s' % what, x.where(), 'the line has no line end: %s' % show(x.term), unknown=odd_text(x.term))
    for x in ws:
        n = [1 for (y, c, full) in data if y is x]
        chk.check(len(n) <= 1, 'one line of %s' % what, x.where(), '%d lines are written' % len(n))


def odd_text(t):
    """a text of which a part was not interpreted"""
    return has_unknown(t) or any(isinstance(p, T) and p.op in ('app', 'slice', 'mu', 'muout', 'res', 'plus', 'fmt') and not (p.op == 'app' and p.args[0] in ('strftime', 'abs', 'replace')) for p in parts_of(t))


def alters(t):
    """functions that do not keep the text of a value"""
    if t.op != 'app':
        return False
    n = t.args[0].split('.')[-1]
    if n == 'round':
        return len(t.args) < 3 or is_const(t.args[2]) and isinstance(cval(t.args[2]), int) and cval(t.args[2]) < 6
    if n == 'fmt':
        return str(cval(t.args[2]) if isinstance(t.args[2], T) else t.args[2]).strip() not in ('', 's', 'd', 'r')
    return n in ('upper', 'lower', 'lstrip', 'rstrip', 'zfill', 'replace', 'title', 'capitalize', 'floor', 'ceil', 'trunc', 'hex', 'repr') or n == 'int' and t.args[1].op != 'app'


@prop('A13')
def a13(ctx, chk):
    r = gate_run(ctx, 'order', sys_order='Order')
    me, so = r.sym[r.func.params[0]], r.sym[r.func.params[1]]
    w = r.func.qual
    F = lambda n, o=so: [t for t in terms(field(r, {}, o, n))]
    code, amount, oid, action, side, style = [F(n)[0] for n in ('code', 'amount', 'order_id', 'action', 'side', 'style')]
    A, S = ctx.cls('OrderAction'), ctx.cls('OrderSide')
    isopen, isclose = eq(action, enum(A, 'open')), eq(action, enum(A, 'close'))
    market, limit = isinst(style, ctx.cls('MarketOrderStyle')), isinst(style, ctx.cls('LimitOrderStyle'))
    prices = set(F('price')) | set(F('price', style))
    chk.rule('file', 'orders go to the order file of the day in the directory of the files')
    fs = named_or_sent(chk, r, 'algoOrder_', [oid], w)
    if not fs:
        return
    ws = []
    for f in fs:
        file_rule(ctx, chk, r, f, 'algoOrder_<%Y%m%d>.csv')
        ws += texts(r, f)
    chk.rule('line', 'an order is one line with the columns of the order file')
    data = headers(chk, ws, ORDER_HEADER, 'order file')
    one_line(chk, r, data, ws, 'the order', w, TRUE)
    s = setup_run(ctx)
    for x, c, full in data:
        g, wh = x.g, x.where()
        if len(c) != 12:
            chk.check(False, 'columns', wh, 'the line has %d columns: %s' % (len(c), ','.join(map(col_text, c))), unknown=odd_text(x.term))
            continue
        one_ = lambda i: c[i][0] if len(c[i]) == 1 else (const(col_text(c[i])) if all(isinstance(y, str) for y in c[i]) else None)
        cv = [one_(i) for i in range(12)]

        def col(i, good, what, unknown=None):
            t = cv[i]
            ok = t is not None and good(t)
            u = unknown if unknown is not None else t is None or isinstance(t, T) and (has_unknown(t) or t.op in ('res', 'mu', 'app') and not alters(t))
            chk.check(ok, 'column %s' % ORDER_HEADER[i], wh, 'column %s is %s, required %s (when %s)' % (ORDER_HEADER[i], col_text(c[i]), what, brief(g, 1, 150)), unknown=u)
            return ok
        t0 = cv[0]
        col(0, lambda t: isinstance(t, T) and t.op == 'app' and t.args[0] == 'strftime' and t.args[2] is const('%H%M%S.%f'), 'the time HHMMSS.ffffff',
            unknown=not (isinstance(t0, T) and t0.op == 'app' and t0.args[0] == 'strftime' and is_const(t0.args[2])))
        col(1, lambda t: t is oid, 'the id of the order')
        for i, o, dflt in ((2, 'counter_type', 'UM0'), (7, 'algo_type', 'DMA')):
            t = cv[i]
            if isinstance(t, T) and t.op == 'attr' and t.args[0] is me:
                option_value(ctx, chk, s, t.args[1], o, dflt, wh, 'column %s' % ORDER_HEADER[i])
            else:
                col(i, lambda t: isinstance(t, T) and t.op == 'item' and t.args[1] is const(o), 'the option %s' % o)
        col(3, lambda t: isinstance(t, T) and t.op == 'item' and t.args[1] is const('account_no'), 'the account number')
        k = market_code(cv[4], code)
        if k is None:
            col(4, lambda t: False, 'the code with SZ for XSHE and SH for XSHG', unknown=cv[4] is not code)
        else:
            chk.check(k[0] in (('XSHE', 'SZ'), ('XSHG', 'SH')), 'column symbol', wh, 'a code %s becomes %s' % k[0])
            chk.implies(g, core.endswith(code, const(k[1])), 'column symbol', wh, 'the replacement of %s is used for other codes' % k[1])
        for v, no in (('1', isclose), ('2', isopen)):
            if cv[5] is not None and (cv[5] == v or isinstance(cv[5], T) and is_const(cv[5]) and str(cval(cv[5])) == v):
                chk.check(not sat(B.AND(g, no)), 'column tradeSide', wh, 'trade side %s for a %s order' % (v, 'close' if v == '1' else 'open'))
                break
        else:
            col(5, lambda t: False, '1 for open and 2 for close', unknown=not isinstance(cv[5], str))
        t = cv[6]
        if t is amount:
            chk.check(not sat(B.AND(g, lt(amount, const(0)))), 'column targetQty', wh, 'a negative amount is written')
        elif isinstance(t, T) and core.add(t, amount) == const(0):
            chk.check(not sat(B.AND(g, lt(const(0), amount))), 'column targetQty', wh, 'a negative amount is written')
        else:
            col(6, lambda t: isinstance(t, T) and t.op == 'app' and t.args[0] == 'abs' and t.args[1] is amount, 'the absolute amount')
        txt = [y if isinstance(y, str) else str(cval(y)) if isinstance(y, T) and is_const(y) else None for y in cv]
        if txt[8] in ('P6', 'P7'):
            chk.check(not sat(B.AND(g, limit)), 'column priceType', wh, 'a limit order has the price type %s' % txt[8])
            chk.check(not sat(B.AND(g, isclose if txt[8] == 'P6' else isopen)), 'column priceType', wh, 'a %s order has the price type %s' % ('close' if txt[8] == 'P6' else 'open', txt[8]))
            for i in (9, 10, 11):
                col(i, lambda t: txt[i] == '0', '0 for a market order')
        elif txt[8] == 'AT':
            chk.check(not sat(B.AND(g, market)), 'column priceType', wh, 'a market order has the price type AT')
            col(9, lambda t: txt[9] == '0', '0')
            for i in (10, 11):
                col(i, lambda t: t in prices, 'the limit price')
        else:
            col(8, lambda t: False, 'P6, P7 or AT', unknown=txt[8] is None)
    chk.rule('rejected', 'orders that the account cannot take are rejected before anything is written or recorded')
    wg = B.any(x.g for x, c, full in data)
    acc = opt_of(r, 'account_no', me)
    typ = opt_of(r, 'account_type', me)
    acct_ok = B.any(B.AND(h, truthy(t)) for h, t in acc) if acc else None
    conds = [('side', eq(side, enum(S, 'long')), 'a short order'),
             ('code', B.any(core.endswith(code, const(x)) for x in ('XSHE', 'XSHG')), 'an order of another market')]
    if acct_ok is not None:
        conds.append(('account number', acct_ok, 'an order without account number'))
    else:
        chk.bad('account number', w, 'the account number is not checked')
    if typ:
        conds.append(('account type', B.any(B.OR(B.NOT(h), eqc(t, const('STOCK'))) for h, t in typ), 'an order of another account type'))
    else:
        chk.bad('account type', w, 'the account type is not checked')
    for n, c, text in conds:
        soft(chk, wg, c, code_odd(code), n, w, '%s is written' % text)
    put = [e for e in evs(r, 'setitem') if any(t is oid or t is core.cat([oid]) for t in terms(e.args[0]))]
    for e in put:
        for x in fs:
            pass
        soft(chk, e.g, B.any(B.AND(x.g, B.NOT(raised(x.e))) for x, c, full in data), code_odd(code), 'recorded', e.where(), 'an order is recorded that was not written')
    valid = B.all([c for n, c, text in conds])
    if typ:
        valid = B.AND(valid, B.any(B.OR(B.NOT(h), eqc(t, const('STOCK'))) for h, t in typ))
    rejected = B.all([r.exc_st.pc, valid, B.NOT(any_raise(r)), B.NOT(loop_escapes(r)), B.OR(market, limit), B.OR(isopen, isclose)])
    soft(chk, rejected, FALSE, code_odd(code), 'accepted', w, 'a valid order is rejected')


def market_code(t, code):
    """((market, suffix), required ending) of a converted code"""
    if not isinstance(t, T):
        return None
    if t.op == 'app' and t.args[0] == 'replace' and t.args[1] is code and len(t.args) >= 4 and is_const(t.args[2]) and is_const(t.args[3]):
        a, b = cval(t.args[2]), cval(t.args[3])
        if isinstance(a, str) and isinstance(b, str):
            if a.startswith('.') and b.startswith('.'):
                return (a[1:], b[1:]), a
            return (a, b), a
    ps = parts_of(t)
    if len(ps) == 2 and isinstance(ps[0], T) and ps[0].op == 'slice' and ps[0].args[0] is code and isinstance(ps[1], str):
        lo, hi, st = [cval(x) if isinstance(x, T) and is_const(x) else x for x in ps[0].args[1:4]]
        if lo in (None, 0) and st in (None, 1) and hi in (-4, -5):
            b = ps[1].lstrip('.') if hi == -5 else ps[1]
            if (hi == -5) == ps[1].startswith('.'):
                return ({'SZ': 'XSHE', 'SH': 'XSHG'}.get(b, '?'), b), {'SZ': 'XSHE', 'SH': 'XSHG'}.get(b, '?')
    return None


CANCEL_HEADER = ['updTime', 'custBatchNo']


@prop('A14')
def a14(ctx, chk):
    r = gate_run(ctx, 'cancel_order')
    oid = r.sym[r.func.params[1]]
    w = r.func.qual
    chk.rule('file', 'cancels go to the cancel file of the day in the directory of the files')
    fs = named_or_sent(chk, r, 'algoOrderStop_', [oid], w)
    if not fs:
        return
    chk.rule('file', 'cancels go to the cancel file of the day in the directory of the files')
    ws = []
    for f in fs:
        file_rule(ctx, chk, r, f, 'algoOrderStop_<%Y%m%d>.csv')
        ws += texts(r, f)
    chk.rule('line', 'a cancel is one line: the time and the id of the order')
    data = headers(chk, ws, CANCEL_HEADER, 'cancel file')
    one_line(chk, r, data, ws, 'the cancel', w, TRUE)
    for x, c, full in data:
        if len(c) != 2:
            chk.check(False, 'columns', x.where(), 'the line has %d columns' % len(c), unknown=odd_text(x.term))
            continue
        t = c[0][0] if len(c[0]) == 1 else None
        isf = isinstance(t, T) and t.op == 'app' and t.args[0] == 'strftime' and is_const(t.args[2])
        chk.check(isf and cval(t.args[2]) == '%H%M%S.%f', 'column updTime', x.where(), 'the time is %s' % col_text(c[0]), unknown=not isf)
        chk.check(len(c[1]) == 1 and c[1][0] is oid, 'column custBatchNo', x.where(), 'the id is %s' % col_text(c[1]), unknown=any(isinstance(y, T) and has_unknown(y) for y in c[1]))
    chk.rule('accepted', 'every cancel is written')
    chk.check(not sat(B.all([r.exc_st.pc, B.NOT(any_raise(r)), B.NOT(loop_escapes(r))])), 'accepted', w, 'a cancel is rejected: %s' % brief(r.exc_st.pc))


LOCKS = ('portalocker.lock', 'fcntl.flock', 'fcntl.lockf', 'portalocker.portalocker.lock')
UNLOCKS = ('portalocker.unlock', 'portalocker.portalocker.unlock')
BUSY = ('AlreadyLocked', 'LockException', 'BaseLockException', 'Exception', 'BaseException')


@prop('A15')
def a15(ctx, chk):
    for name, header, decl in (('order', ORDER_HEADER, {'sys_order': 'Order'}), ('cancel_order', CANCEL_HEADER, {})):
        r = gate_run(ctx, name, **decl)
        fs = named(r, 'algoOrder')
        if not fs:
            raise Undecided('no file is written by %s' % name)
        for f in fs:
            locked(ctx, chk, r, f, name, header)


def after(es, i):
    return [e for e in es if e.i > i]


def locked(ctx, chk, r, f, name, header):
    wh = f.e.where()
    for g, m in f.modes:
        if m is None:
            chk.undecided('mode', wh, 'mode of the file')
            continue
        chk.rule('append', 'lines are only ever appended')
        chk.check('w' not in m and 'x' not in m, 'append %s' % name, wh, 'the file is opened with mode %s: what other processes wrote is lost' % m, unknown='x' in m)
        if 'w' not in m and 'a' not in m:
            chk.undecided('append %s' % name, wh, 'mode %s' % m)
    for e in f.ops('.truncate'):
        chk.bad('append %s' % name, e.where(), 'the file is truncated')
    ws = writes(r, f)
    chk.rule('locked', 'every line is written while the file is locked for this process alone')
    locks = f.ops(*LOCKS)
    if not locks:
        other = [e for e in r.events if e.kind in ('call', 'enter') and isinstance(e.fn, str) and 'lock' in e.fn.lower() and 'unlock' not in e.fn.lower()]
        for x in ws:
            chk.check(False, 'locked %s' % name, x.where(), 'a line is written without a lock', unknown=bool(other))
        return
    for l in locks:
        fl = l.args[1] if len(l.args) > 1 else None
        for g, t in under(fl, l.g) if fl is not None else []:
            s = show(t)
            chk.check('LOCK_EX' in s, 'exclusive %s' % name, l.where(), 'the lock is %s' % s, unknown='LOCK' not in s)
    unl = f.ops(*UNLOCKS)
    flush = f.ops('.flush')
    wes = {}
    for x in ws:
        wes.setdefault(x.e.i, []).append(x)
    for i, xs in wes.items():
        e = xs[0].e
        lk = [l for l in locks if l.i < i]
        chk.implies(e.g, B.any(ok_guard(l) for l in lk), 'locked %s' % name, e.where(), 'a line is written without holding the lock')
        for u in unl:
            if any(l.i < u.i < i for l in lk):
                chk.check(not sat(B.AND(u.g, e.g)), 'locked %s' % name, e.where(), 'the lock is released before a line is written')
        for u in after(unl, i):
            got = B.any(x.g for x in flush + f.ops('.close') if i < x.i < u.i)
            odd = B.any(raised(x) for x in f.ops(*FILE_OPS) if i < x.i < u.i)
            d = B.all([u.g, ok_guard(e), B.NOT(got), B.NOT(odd)])
            chk.check(not sat(d), 'flushed %s' % name, u.where(), 'the lock is released before the line is in the file (it is still in the buffer of this process); case: %s' % brief(d, 1, 150))
    chk.rule('released', 'the lock is given back on every way out')
    ent = f.ops('enter')
    end = B.OR(r.st.pc, r.exc_st.pc)
    for l in locks:
        if any(x.i < l.i for x in ent):
            chk.ok('released %s' % name, l.where())
            continue
        rel = B.any(x.g for x in after(unl + f.ops('.close'), l.i))
        d = last_iteration(B.all([ok_guard(l), end, B.NOT(rel)]))
        chk.check(not sat(d), 'released %s' % name, l.where(), 'the lock is kept')
    chk.rule('header', 'the header is written exactly when the file is empty, as found while it is locked')
    sizes = {}
    for e in f.ops('.tell'):
        sk = [s for s in f.ops('.seek') if s.i < e.i]
        sizes[e.res] = (e, 'tell', sk)
    for e in r.events:
        if e.kind == 'call' and isinstance(e.fn, str) and e.fn in ('os.path.getsize', 'os.stat', 'os.fstat', 'os.path.exists', 'os.path.isfile') and isinstance(e.res, T):
            sizes[e.res] = (e, 'size', [])
    empties = FALSE
    known = False
    for t, (e, k, sk) in sizes.items():
        for v in set().union(*[B.support(x.g) for x in ws]) if ws else ():
            a = B.atom_of[v]
            if t not in core_subterms(a):
                continue
            if k == 'tell':
                known = True
                lk = [l for l in locks if l.i < e.i]
                chk.check(bool(lk), 'tested under the lock %s' % name, e.where(), 'whether the file is empty is tested before the file is locked: two processes can both write the header, or none')
                es = [s for s in sk if any(l.i < s.i for l in lk) and len(s.args) > 1 and show(s.args[1].ls[0][1]) in ('os.SEEK_END', '2', 'io.SEEK_END')]
                if lk:
                    chk.check(bool(es) and implies(e.g, B.any(s.g for s in es)), 'position under the lock %s' % name, e.where(),
                              'the position is not moved to the end after the file is locked: it is the end at the time the file was opened')
                empties = B.OR(empties, eq(t, const(0)))
            elif k == 'size' and e.fn in ('os.path.exists', 'os.path.isfile'):
                chk.check(False, 'tested under the lock %s' % name, e.where(), 'the header depends on the existence of the file')
            else:
                lk = [l for l in locks if l.i < e.i]
                chk.check(bool(lk), 'tested under the lock %s' % name, e.where(), 'whether the file is empty is tested before the file is locked')
                chk.undecided('header %s' % name, e.where(), 'size of the file')
                return
    hw, dw = FALSE, FALSE
    tx = texts(r, f)
    for x in tx:
        kinds = []
        for c, full in x.lines:
            kinds.append('h' if all(len(y) == 1 and isinstance(y[0], str) for y in c) else 'd')
        if 'h' in kinds:
            hw = B.OR(hw, x.g)
            chk.check(kinds.index('h') == 0, 'header first %s' % name, x.where(), 'the header follows a line')
        if 'd' in kinds:
            dw = B.OR(dw, x.g)
    if hw == FALSE:
        chk.bad('header %s' % name, wh, 'no header is written')
    elif not known:
        chk.check(False, 'header %s' % name, wh, 'the header does not depend on whether the file is empty', unknown=guard_unknown(hw))
    else:
        chk.implies(hw, empties, 'header only into an empty file %s' % name, wh, 'a header is written into a file that is not empty')
        chk.implies(B.AND(dw, empties), hw, 'header into an empty file %s' % name, wh, 'a line is written into an empty file without header')
    chk.rule('waiting', 'a file that is locked by another process is tried again, for the configured time at most')
    s = setup_run(ctx)
    for l in locks:
        if not l.loops:
            fl = show(l.args[1].ls[0][1]) if len(l.args) > 1 else ''
            chk.check('LOCK_NB' not in fl, 'waiting %s' % name, l.where(), 'a locked file is tried once only', unknown=not swallowed(r, l) == FALSE)
            continue
        L = l.loops[-1]
        waiting(ctx, chk, r, s, f, l, L, name)


def exc_atoms(g, ev):
    """exception terms of an event that a guard talks about"""
    out = set()
    for v in B.support(g):
        for t in core_subterms(B.atom_of[v]):
            if t.op == 'exc' and exc_of(ev, t):
                out.add(t)
    return out


def waiting(ctx, chk, r, s, f, l, L, name):
    wh = l.where()
    me = r.sym[r.func.params[0]]
    odd = B.any(raised(x) for x in f.ops() if x.fn not in LOCKS)
    again = B.AND(L.end_pc, B.NOT(odd))
    chk.check(sat(B.AND(again, raised(l))), 'tried again %s' % name, wh, 'a file that is locked by another process is not tried again')
    lims = []
    for n, opt, default in (('limit', 'wait_lock_time_out', 5), ('pause', 'wait_lock_internal', 0.05)):
        me2, options = s.sym[s.func.params[0]], s.sym[s.func.params[1]]
        fs_ = []
        for t in subs_of(r, L):
            if t.op == 'attr' and t.args[0] is me:
                v = field(s, s.st.heap, me2, t.args[1])
                if any(x.op == 'item' and x.args[1] is const(opt) for x in terms(v)):
                    fs_.append(t)
            elif t.op == 'item' and t.args[1] is const(opt):
                fs_.append(t)
        lims.append(fs_)
        for t in fs_:
            if t.op == 'attr':
                option_value(ctx, chk, s, t.args[1], opt, default, wh, 'lock wait setting')
    clock = [e for e in evs(r, 'call') if e.fn in ('time.time', 'time.monotonic', 'time.perf_counter', 'datetime.datetime.now')]
    ins = [e for e in clock if L in e.loops]
    outs = [e for e in clock if L not in e.loops and e.i < l.i]
    tmo = [e for e in raises_of(r, 'TimeOut') if L in e.loops]
    best = None
    lts = [B.atom_of[v] for v in B.support(again) if B.atom_of[v].op in ('lt', 'eqn')]
    for T0 in lims[0]:
        for a in ins:
            for b in outs:
                d = core.add(core.add(a.res, core.scale(b.res, -1)), core.scale(T0, -1))
                x = lt(d, const(0))
                if implies(again, x) and any(implies(e.g, B.NOT(x)) for e in tmo):
                    best = x
    if best is not None:
        chk.ok('bounded %s' % name, wh)
        for e in tmo:
            chk.implies(e.g, B.NOT(best), 'not before the limit %s' % name, e.where(), 'the wait is given up before the limit')
    elif not lts and not any(B.atom_of[v].op in ('truthy', 'eqc', 'mu') for v in B.support(again)):
        chk.bad('bounded %s' % name, wh, 'a file that stays locked is tried again without end')
    elif ins and outs and lts and not guard_unknown(again) and all(plain_wait(t, ins + outs, me) for t in lts):
        chk.bad('bounded %s' % name, wh, 'the wait is not bounded by wait_lock_time_out: it goes on when %s' % brief(again, 1, 250))
    else:
        chk.undecided('bounded %s' % name, wh, 'form of the limit: %s' % brief(again, 1, 250))
    sl = [e for e in evs(r, 'call', 'time.sleep') if L in e.loops]
    chk.implies(again, gor(sl), 'pause %s' % name, wh, 'a locked file is tried again without a pause')
    for e in sl:
        for g, t in under(e.args[0], e.g):
            chk.check(t in lims[1], 'pause %s' % name, e.where(), 'the pause is %s' % show(t), unknown=has_unknown(t))
    # a busy file never raises anything but the time out
    g = r.exc_st.pc
    busy = raised(l)
    for v in set().union(B.support(g), *[B.support(e.g) for e in r.events]):
        a = B.atom_of[v]
        if a.op == 'isinst' and a.args[0].op == 'exc' and exc_of(l, a.args[0]):
            x = B.mk(v, FALSE, TRUE)
            busy = B.AND(busy, x if str(a.args[1]).split('.')[-1] in BUSY else B.NOT(x))
    out = B.any([e.g for e in tmo] + [raised(e) for e in r.events if e.raises is not None and e is not l])
    d = last_iteration(B.all([g, l.g, busy, B.NOT(out)]))
    chk.check(not sat(d), 'busy %s' % name, wh, 'a file locked by another process raises an error instead of being tried again; case: %s' % brief(d, 1, 150))


def plain_wait(t, clock, me):
    """a comparison of clock values and settings of the broker interface"""
    return all(s.op in ('lin', 'const') or any(s is e.res for e in clock) or s.op == 'attr' and s.args[0] is me or s is me
               for s in core_subterms(t) if s is not t)


def subs_of(r, L):
    out = set()
    for e in r.events:
        if L in e.loops:
            for a in e.args:
                for t in (terms(a) if isinstance(a, V) else []):
                    core.subterms(t, out)
            for v in B.support(e.g):
                core.subterms(B.atom_of[v], out)
    return out


# ---------------------------------------------------------------- reading the files of the broker
def assume_v(v, pairs):
    if isinstance(v, V):
        out = []
        for g, t in v.ls:
            for x, val in pairs:
                g = B.assume(g, x, val)
            if g != FALSE:
                out.append((g, t))
        return V(out)
    return v


def after_setup(ctx, name, args=(), keep=()):
    """a method of the broker interface, run in what setup leaves behind outside the object (methods wrapped at setup, ...); the object itself is arbitrary.
    Retrying is configured as documented (no on_exception)"""
    s = setup_run(ctx)
    me = s.sym[s.func.params[0]]
    pairs = []
    vs = set()
    for v in s.st.heap.values():
        if isinstance(v, V):
            for g, t in v.ls:
                vs |= B.support(g)
    for x in vs:
        a = B.atom_of[x]
        if a.op == 'haskey' and a.args[1] is const('on_exception'):
            pairs.append((x, False))
    h = {}
    for k, v in s.st.heap.items():
        if k[0] is me and k[1] not in keep:
            continue
        v = assume_v(v, pairs)
        if isinstance(v, V):
            v = V([(B.restrict(g, s.st.pc), t) for g, t in v.ls if sat(B.AND(g, s.st.pc))])
        h[k] = v
    f = ctx.method(GATE, name)
    r = ctx.call(s, mk('bm', f, me), list(args), heap=h)
    r.sym = {f.params[0]: me}
    r.func = f
    r.setup = s
    return r


def csv_reads(r, prefix):
    """[(event, loop over its rows or None)] of a broker file"""
    out = []
    for e in evs(r, 'call'):
        if e.fn == 'pandas.read_csv' and e.args and any(file_name(t)[0].startswith(prefix) for t in terms(e.args[0])):
            out.append(e)
    return out


def row_loops(r, reads):
    """loops over the rows of what was read: L -> term of the row"""
    out = {}
    for e in r.events:
        for L in e.loops:
            if L.kind == 'for' and isinstance(L.raw, T) and L not in out:
                x = L.raw
                if x.op == 'app' and x.args[0] == 'itertuples' and any(x.args[1] is q.res for q in reads):
                    out[L] = mk('elem', L.key, L.occ)
    return out


def plain_num(r, t):
    """number without float(...) around a column"""
    m = {}
    for s in core_subterms(t):
        if s.op == 'app' and s.args[0] in ('float', 'builtins.float', 'numpy.float64') and len(s.args) == 2:
            m[s] = s.args[1]
    return r.interp.subst_t(t, m, {}) if m else t


def num_value(chk, r, v, g, want, digits, inst, where, what):
    for h, t in under(v, g):
        x, n = t, None
        while x.op == 'app' and x.args[0] in ('round', 'builtins.round') and len(x.args) in (2, 3):
            n = cval(x.args[2]) if len(x.args) == 3 and is_const(x.args[2]) else 0
            x = x.args[1]
        y = plain_num(r, x)
        same = y is want or implies(h, eq(y, want))
        chk.check(same, inst, where, '%s is %s, required %s' % (what, show(t), show(want)), unknown=has_unknown(t))
        if same and digits is not None:
            chk.check(n == digits, inst, where, '%s is rounded to %s decimals, required %d' % (what, n, digits), unknown=n is None and x is not t)


def isna_atoms(gs, x):
    """atoms that say that a value is missing"""
    out = []
    for g in gs:
        for v in B.support(g):
            a = B.atom_of[v]
            if a.op == 'truthy' and a.args[0].op == 'app' and a.args[0].args[0] in ('pandas.isna', 'pandas.isnull', 'math.isnan', 'numpy.isnan') and a.args[0].args[1] is x:
                out.append(B.mk(v, FALSE, TRUE))
            elif a.op == 'isnone' and a.args[0] is x:
                out.append(B.mk(v, FALSE, TRUE))
    return list(dict.fromkeys(out))


def decoded(chk, r, v, g, sym, where):
    """the code of a position: market SZ -> XSHE, SH -> XSHG"""
    for h, t in under(v, g):
        ok = None
        for b in (sym, core.cat([sym])):
            if t.op == 'app' and t.args[0] == 'replace' and t.args[1] is b and len(t.args) >= 4 and is_const(t.args[2]) and is_const(t.args[3]):
                x, y = cval(t.args[2]).lstrip('.'), cval(t.args[3]).lstrip('.')
                chk.check((x, y) in (('SZ', 'XSHE'), ('SH', 'XSHG')), 'code', where, 'the market %s becomes %s' % (x, y))
                ok = x
            ps = parts_of(t)
            if len(ps) == 2 and isinstance(ps[0], T) and ps[0].op == 'slice' and ps[0].args[0] is b and isinstance(ps[1], str):
                lo, hi, st = [cval(x) if isinstance(x, T) and is_const(x) else x for x in ps[0].args[1:4]]
                if lo in (None, 0) and st in (None, 1) and (hi, ps[1][:1] == '.') in ((-2, False), (-3, True)):
                    ok = {'XSHE': 'SZ', 'XSHG': 'SH'}.get(ps[1].lstrip('.'))
                    chk.check(ok is not None, 'code', where, 'the market becomes %s' % ps[1])
                    ok = ok or '?'
        if ok is None:
            chk.check(False, 'code', where, 'the code is %s' % show(t), unknown=t is not sym and t is not core.cat([sym]))
            continue
        e = B.OR(core.endswith(sym, const(ok)), core.endswith(core.cat([sym]), const(ok)))
        chk.implies(h, e, 'code', where, 'the replacement of %s is used for other codes' % ok)


def last_row_missing(r, e, g):
    """atoms of g: the last row of what e read has no values; [(guard, exact)]"""
    out = []
    for v in B.support(g):
        a = B.atom_of[v]
        if a.op != 'truthy' or e.res not in core_subterms(a):
            continue
        x = a.args[0]
        s = show(x)
        if 'isna' not in s and 'isnull' not in s:
            continue
        alls = x.op == 'app' and x.args[0] == 'all'
        y = x.args[1] if x.op == 'app' and len(x.args) > 1 else None
        z = y.args[1] if isinstance(y, T) and y.op == 'app' and y.args[0] in ('isna', 'isnull', 'pandas.isna', 'pandas.isnull') and len(y.args) == 2 else None
        last = None
        if isinstance(z, T) and z.op == 'item' and z.args[0].op in ('attr', 'app') and e.res in core_subterms(z.args[0]):
            k = z.args[1]
            last = k is const(-1) and 'iloc' in show(z.args[0]) or isinstance(k, T) and core.add(k, const(1)) is mk('app', 'len', e.res)
            if not last and not (isinstance(k, T) and is_const(k)):
                last = None
        out.append((B.mk(v, FALSE, TRUE), (alls and last) if last is not None else None, x))
    return out


def complete(ctx, chk, r, e, g, where, what):
    """rows are used only when the file was complete"""
    ats = last_row_missing(r, e, g)
    for c, exact, t in ats:
        if implies(g, c):
            chk.check(exact is True, 'complete %s' % what, where, 'a file is taken as complete when %s' % show(t), unknown=exact is None)
            return
    if ats:
        chk.check(False, 'complete %s' % what, where, 'the rows are used although the file is not complete: %s' % brief(g, 1, 200), unknown=guard_unknown(g))
        return
    odd = [B.atom_of[v] for v in B.support(g) if e.res in core_subterms(B.atom_of[v]) and B.atom_of[v].op not in ('raises', 'more', 'abrupt')]
    odd = [a for a in odd if not (a.op == 'truthy' and a.args[0] is e.res) and not (a.op in ('eqn', 'lt') and 'len(' in show(a)) and not any(s.op == 'elem' for s in core_subterms(a))]
    chk.check(False, 'complete %s' % what, where, 'the rows are used whether or not the file is complete', unknown=bool(odd))


def read_rule(ctx, chk, r, e, name, what):
    for g, t in under(e.args[0], e.g):
        n, d = file_name(t)
        chk.check(n == name, 'file %s' % what, e.where(), 'the file is %s, required %s' % (n, name), unknown='?' in n)
        of_today(ctx, chk, r, t, e.where())
        dir_field(ctx, chk, r, d, 'order_dir', e.where())
    enc = (e.kw or {}).get('encoding')
    if enc is None:
        chk.bad('encoding %s' % what, e.where(), 'the file is not read with the configured encoding')
    else:
        me = r.sym[r.func.params[0]]
        for g, t in under(enc, e.g):
            if t.op == 'attr' and t.args[0] is me:
                option_value(ctx, chk, setup_run(ctx), t.args[1], 'file_encoding', None, e.where(), 'encoding')
            elif not (t.op == 'item' and t.args[1] is const('file_encoding')):
                chk.check(False, 'encoding %s' % what, e.where(), 'the encoding is %s' % show(t), unknown=has_unknown(t) or t.op not in ('const', 'attr'))
    dt = (e.kw or {}).get('dtype')
    conv = (e.kw or {}).get('converters')
    good = bad = False
    if dt is not None:
        for g, t in under(dt, e.g):
            if t.op == 'ext' and t.args[0].endswith('str'):
                good = True
            elif r.interp.is_map(t):
                es = dict_entries(r, r.st.heap, t, e.g)
                ks = {k: x for o in es or [] for k in terms(o[1]) for x in terms(o[2])}
                x = ks.get(const('acct'))
                if es is not None and x is None:
                    bad = True
                elif x is not None:
                    good = show(x).endswith('str') or x is const('str') or x is const('object')
                    bad = not good
    elif conv is None:
        bad = True
    chk.check(good, 'account column %s' % what, e.where(), 'the account column is not read as text: account numbers with leading zeros are never found', unknown=not bad)


def account_match(r, me, row, g, text=False):
    """the term under which a row belongs to the account: eq guards of the account number against the row"""
    out = []
    for v in B.support(g):
        a = B.atom_of[v]
        for t in core_subterms(a):
            if t.op == 'item' and t.args[1] is const('account_no'):
                for x in (core.cat([t]),) if text else (t, core.cat([t])):
                    c = eq(x, mk('attr', row, 'acct', 0))
                    if B.support(c) <= B.support(g) and c not in out:
                        out.append(c)
    return out


@prop('A16')
def a16(ctx, chk):
    r = after_setup(ctx, 'sync_balance')
    me = r.sym[r.func.params[0]]
    w = r.func.qual
    assets, poss = csv_reads(r, 'assetInfo_'), csv_reads(r, 'positionInfo_')
    every = [e for e in evs(r, 'call') if e.fn == 'pandas.read_csv']
    chk.rule('file', 'cash comes from the asset file, positions from the position file of the day, read with the configured encoding')
    if every and not (assets and poss) and not any('?' in file_name(t)[0] for e in every for t in (terms(e.args[0]) if e.args else [mk('x')])):
        chk.bad('files read', w, 'the files read are %s' % sorted({file_name(t)[0] for e in every for t in terms(e.args[0])}))
        return
    if len(assets) != 1 or len(poss) != 1:
        raise Undecided('%d reads of the asset file, %d of the position file' % (len(assets), len(poss)))
    read_rule(ctx, chk, r, assets[0], 'assetInfo_<%Y%m%d>.csv', 'asset')
    read_rule(ctx, chk, r, poss[0], 'positionInfo_<%Y%m%d>.csv', 'position')
    rows = row_loops(r, assets)
    prow = row_loops(r, poss)
    if len(rows) != 1 or len(prow) != 1:
        raise Undecided('the rows are not visited one by one')
    (La, ra), (Lp, rp) = list(rows.items()) + list(prow.items())
    chk.rule('complete', 'a file that is still being written (last row not empty) is not used')
    complete(ctx, chk, r, assets[0], La.pc, w, 'asset')
    complete(ctx, chk, r, poss[0], Lp.pc, w, 'position')
    ret = [t for g, t in under(r.value, r.st.pc)]
    if len(ret) != 1 or not r.interp.is_map(ret[0]):
        raise Undecided('form of what is returned')
    es = dict_entries(r, r.st.heap, ret[0], r.st.pc)
    if es is None:
        raise Undecided('form of what is returned')
    col = lambda row, n: mk('attr', row, n, 0)
    # ---- cash
    chk.rule('cash', 'cash is what the row of the account without exchange says')
    cash = [o for o in es if const('cash') in terms(o[1])]
    allg = [e.g for e in r.events]
    if not cash:
        chk.bad('cash', w, 'no cash is reported')
    for g, k, v, L, og in cash:
        if L is not La:
            raise Undecided('where the cash is taken from')
        pre = B.AND(La.pc, g)
        acct = account_match(r, me, ra, g)
        na = isna_atoms([g], col(ra, 'exchange'))
        if acct and len(na) == 1:
            soft(chk, g, B.all([B.any(acct), na[0]]), lambda a: False, 'row of the account', w, 'cash is taken from another row')
            esc = B.any(x for e in r.events if La in e.loops for x in [raised(e)])
            soft(chk, B.all([La.pc, B.any(acct), na[0], B.NOT(esc), B.NOT(r.exc_st.pc)]), g, lambda a: a.op in ('abrupt', 'more', 'raises'), 'row of the account', w, 'the row of the account is passed over')
        else:
            chk.check(False, 'row of the account', w, 'cash is taken from the rows with %s' % brief(g, 1, 250), unknown=guard_unknown(g) or not (acct or na) and len(B.support(g)) > 1)
        for h, t in under(v, g):
            ce = dict_entries(r, r.st.heap, t, B.AND(La.pc, h)) if r.interp.is_map(t) else None
            if ce is None:
                raise Undecided('form of the cash')
            got = {}
            for q in ce:
                for kk in terms(q[1]):
                    got[cval(kk) if is_const(kk) else None] = q[2]
            for names, want, what in ((('total_asset', 'total_assert'), col(ra, 'totalAsset'), 'total asset'), (('available_cash',), col(ra, 'enabledBalance'), 'available cash'),
                                      (('locked_cash',), core.add(col(ra, 'currentBalance'), core.scale(col(ra, 'enabledBalance'), -1)), 'locked cash')):
                n = [x for x in names if x in got]
                if not n:
                    chk.check(False, what, w, '%s is not reported' % what, unknown=None in got)
                    continue
                num_value(chk, r, got[n[0]], h, want, 4, what, w, what)
    # ---- positions
    chk.rule('positions', 'the positions are exactly the rows of the account with a quantity')
    pl = [o for o in es if const('positions') in terms(o[1])]
    if not pl:
        chk.bad('positions', w, 'no positions are reported')
    for g, k, v, L, og in pl:
        chk.implies(r.st.pc, B.AND(g, og), 'positions reported', w, 'no positions are reported in some case')
        for h, t in under(v, B.AND(r.st.pc, g)):
            if L is not None or not r.interp.is_seq(t):
                raise Undecided('form of the positions')
            sg = r.interp.segs(t, _mkst(r.st.heap, h))
            if len(sg) != 1 or sg[0][0] != 'each' or sg[0][2] is not Lp or len(sg[0][3]) != 1 or sg[0][3][0][0] != 'e':
                raise Undecided('form of the positions: %s' % [s[0] for s in sg])
            _, pg, item = sg[0][3][0][:3]
            acct = account_match(r, me, rp, B.OR(pg, Lp.end_pc))
            qty = mk('app', 'int', col(rp, 'currentQty'))
            na = isna_atoms(allg + [pg, Lp.end_pc], col(rp, 'symbol'))
            zero = eq(qty, const(0))
            z = zero if B.support(zero) <= B.support(pg) | B.support(Lp.end_pc) else None
            if not acct:
                chk.check(False, 'rows of the account', w, 'positions of other accounts are taken: %s' % brief(pg, 1, 250), unknown=guard_unknown(pg))
            else:
                soft(chk, pg, B.any(acct), lambda a: False, 'rows of the account', w, 'positions of other accounts are taken')
                chk.check(bool(account_match(r, me, rp, B.OR(pg, Lp.end_pc), True)), 'account as text', w, 'the account column, which is text, is compared with the configured account number as it is: a number is never found')
            if z is None:
                qs = [B.atom_of[x] for x in B.support(pg) if 'currentQty' in show(B.atom_of[x])]
                chk.check(False, 'empty positions', w, 'positions without quantity are taken' if not qs else 'positions are taken when %s' % brief(pg, 1, 300),
                          unknown=any(not (a.op in ('lt', 'eqn') and qty in core_subterms(a)) for a in qs))
            else:
                soft(chk, pg, B.NOT(zero), lambda a: False, 'empty positions', w, 'positions without quantity are taken')
            oddr = B.any(raised(e) for e in r.events if Lp in e.loops)
            skip = B.all([Lp.end_pc, B.NOT(pg), B.NOT(oddr)])
            why = B.OR(B.NOT(B.any(acct)) if acct else FALSE, zero)
            for x in na:
                why = B.OR(why, x)
            soft(chk, skip, why, lambda a: False, 'all positions', w, 'a position of the account is left out')
            brk = [B.mk(x, FALSE, TRUE) for x in B.support(r.st.pc) | B.support(h) if B.atom_of[x].op == 'abrupt' and B.atom_of[x].args[0] == Lp.id and B.atom_of[x].args[1] != 'exc']
            for b in brk:
                fact = core.FACTS.get(B.nodes[b][0])
                if fact is not None:
                    soft(chk, fact, B.any(na), lambda a: a.op == 'raises', 'all positions', w, 'the rows after a row of the account are not read')
            for it in terms(item):
                pe = dict_entries(r, r.st.heap, it, B.AND(Lp.pc, pg)) if r.interp.is_map(it) else None
                if pe is None:
                    raise Undecided('form of a position')
                got = {}
                for q in pe:
                    for kk in terms(q[1]):
                        got[cval(kk) if is_const(kk) else None] = q[2]
                G = B.AND(Lp.pc, pg)
                for n, c, dg in (('amount', 'currentQty', None), ('available_amount', 'enabledQty', None), ('avg_cost', 'costPrice', 3), ('last_price', 'lastPrice', 3), ('position_value', 'mktValue', 4)):
                    if n not in got:
                        chk.check(False, n, w, '%s is not reported' % n, unknown=None in got)
                        continue
                    want = col(rp, c) if dg else mk('app', 'int', col(rp, c))
                    num_value(chk, r, got[n], G, want, dg, n, w, n)
                if 'code' not in got:
                    chk.check(False, 'code', w, 'the code is not reported', unknown=None in got)
                else:
                    decoded(chk, r, got['code'], G, col(rp, 'symbol'), w)
                if 'side' in got:
                    S = ctx.cls('OrderSide')
                    for hh, t2 in under(got['side'], G):
                        chk.check(t2 is enum(S, 'long') or t2 is const('long'), 'side', w, 'the side is %s' % show(t2), unknown=has_unknown(t2))
    # ---- retry
    chk.rule('tried again', 'a file that cannot be read or is not complete is read again, as often as configured')
    for e, what in ((assets[0], 'asset'), (poss[0], 'position')):
        retried(ctx, chk, r, e, what, w)


def retried(ctx, chk, r, e, what, w):
    L = e.loops[-1] if e.loops else None
    if L is None:
        chk.check(False, 'retry %s' % what, e.where(), 'a failing read is not tried again', unknown=False)
        return
    again = L.end_pc
    chk.check(sat(B.AND(again, raised(e))), 'retry %s' % what, e.where(), 'a failing read is not tried again')
    ats = last_row_missing(r, e, again)
    chk.check(any(sat(B.all([again, ok_guard(e), B.NOT(c)])) for c, x, t in ats) if ats else False, 'retry incomplete %s' % what, e.where(), 'an incomplete file is not read again',
              unknown=not ats and guard_unknown(again))
    sl = [x for x in evs(r, 'call', 'time.sleep') if L in x.loops]
    chk.implies(again, gor(sl), 'pause %s' % what, e.where(), 'a file is read again without a pause')


@prop('A17')
def a17(ctx, chk):
    r = after_setup(ctx, 'sync_balance')
    me, opts = r.sym[r.func.params[0]], r.setup.sym[r.setup.func.params[1]]
    reads = [(e, 'asset') for e in csv_reads(r, 'assetInfo_')] + [(e, 'position') for e in csv_reads(r, 'positionInfo_')]
    if len(reads) != 2:
        raise Undecided('%d reads of balance files' % len(reads))
    kw = mk('item', opts, const('sync_retry_kwargs'))
    has = atom('haskey', opts, const('sync_retry_kwargs'))

    def setting(n, dflt):
        h = atom('haskey', kw, const(n))
        return [(B.AND(has, h), mk('item', kw, const(n))), (B.NOT(has), const(dflt))]
    for e, what in reads:
        w = e.where()
        L = e.loops[-1] if e.loops else None
        chk.rule('tried again', 'a failing or incomplete read is tried again after the configured pause')
        if L is None:
            chk.bad('retry %s' % what, w, 'a failing read is not tried again')
            continue
        if L.kind != 'while':
            chk.undecided('retry %s' % what, w, 'form of the loop')
            continue
        again = L.end_pc
        chk.check(sat(B.AND(again, raised(e))), 'retry %s' % what, w, 'a failing read is not tried again')
        ats = last_row_missing(r, e, again)
        ok = ok_guard(e)
        if ats:
            chk.check(any(sat(B.all([again, ok, B.NOT(c)])) for c, x, t in ats), 'incomplete %s' % what, w, 'an incomplete file is not read again')
            good = B.any(c for c, x, t in ats)
            oddr = B.any(raised(x) for x in r.events if L in x.loops and x is not e)
            d = B.all([again, ok, good, B.NOT(oddr)])
            chk.check(not sat(d), 'once %s' % what, w, 'a file that was read completely is read again', unknown=guard_unknown(d))
        # every exception of the read is handled alike
        exa = [x for x in B.support(again) if B.atom_of[x].op == 'isinst' and exc_of(e, B.atom_of[x].args[0])]
        gen = B.AND(raised(e), B.all(B.NOT(B.mk(x, FALSE, TRUE)) for x in exa))
        chk.check(sat(B.AND(again, gen)), 'any error %s' % what, w, 'only some errors of a read are tried again: %s' % ', '.join(str(B.atom_of[x].args[1]) for x in exa))
        sl = [x for x in evs(r, 'call', 'time.sleep') if L in x.loops]
        chk.implies(again, gor(sl), 'pause %s' % what, w, 'a file is read again without a pause')
        for x in sl:
            for g, t in setting('attempt_internal', 0.15):
                chk.value(x.args[0], B.AND(x.g, g), t, 'pause %s' % what, x.where(), 'the pause')
        chk.rule('bounded', 'a read is tried again as often as configured, then its last error is raised')
        cnt = None
        for k, (init, nxt, mu) in L.mod.items():
            if isinstance(init, V) and isinstance(nxt, V) and isinstance(mu, T):
                st_ = {t for g, t in under(nxt, again)}
                if st_ == {core.add(mu, const(1))}:
                    cnt = (init, mu)
        gv = set().union(*[B.support(x) for x in [again] + [e2.g for e2 in r.events if L in e2.loops]])
        lts = [B.atom_of[x] for x in gv if B.atom_of[x].op in ('lt', 'eqn')]
        if cnt is None or len(cnt[0].ls) != 1 or not core.is_numc(cnt[0].ls[0][1]):
            has_mu = [m for k, (i, n, m) in L.mod.items() if isinstance(m, T) and any(m in core_subterms(a) for a in lts)]
            chk.check(False, 'attempts %s' % what, w, 'nothing bounds the number of attempts', unknown=bool(has_mu) or guard_unknown(again))
            continue
        first, mu = cval(cnt[0].ls[0][1]), cnt[1]
        esc = [x for x in evs(r, 'raise') if L in x.loops and x.extra != 'implicit']
        for g, m in setting('max_attempts', 3):
            more = lt(core.add(mu, const(first), -1), m)
            if not B.support(more) <= gv:           # the same for whole numbers
                m2 = B.NOT(lt(m, core.add(mu, const(1 - first))))
                more = m2 if B.support(m2) <= gv else more
            chk.implies(B.AND(again, g), more, 'attempts %s' % what, w, 'a read is tried again more often than configured')
            d = B.all([L.end_pc, g]) == FALSE
            chk.check(not d, 'attempts %s' % what, w, 'a failing read is never tried again')
            left = B.all([g, more, gen, B.NOT(again), B.NOT(B.any(raised(x) for x in r.events if L in x.loops and x is not e)), L.pc, e.g])
            chk.check(not sat(left), 'all attempts %s' % what, w, 'a read is given up before the configured number of attempts; case: %s' % brief(left, 1, 200), unknown=guard_unknown(left))
        d = last_iteration(B.all([r.st.pc, L.pc, e.g, B.NOT(ok)]))
        chk.check(not sat(d), 'error %s' % what, w, 'work goes on although the read failed; case: %s' % brief(d, 1, 200))
        for x in evs(r, 'raise'):
            if x.extra == 'implicit' and x.fn == 'AttributeError' and x.i > e.i:
                d = B.all([last_iteration(x.g), B.NOT(ok), e.g])
                chk.check(not sat(d), 'error %s' % what, x.where(), 'the error of the read is lost, work goes on with None; case: %s' % brief(d, 1, 200))
        # what is raised in the end is the error of the read
        hs = [x for x in evs(r, 'handler') if L in x.loops and x.i > e.i]
        if hs:
            caught = {t for x in hs for a in x.args for t in terms(a)}
            for x in esc:
                if x.i > hs[0].i:
                    for t in terms(x.args[0]):
                        chk.check(t in caught, 'error %s' % what, x.where(), 'another error than that of the read is raised: %s' % show(t), unknown=has_unknown(t))


# ---------------------------------------------------------------- A18, A19 the files the broker writes
UPDATE_COLS = 'updTime orderDate orderTime acctType acct symbol tradeSide status orderQty orderPrice orderType filledQty avgPrice filledAmt cancelQty orderNo corrId custBatchNo text cliOrderId'.split()
RESULT_COLS = 'updTime resultType custBatchNo status errorCode errorMsg'.split()
STATUS = {'0': 'open', '1': 'filling', '2': 'filled', '3': 'partly_canceled', '4': 'canceled', '5': 'rejected', '7': 'new', '8': 'canceling'}
PEEL = ('strip', 'rstrip', 'lstrip', 'decode', 'str', 'bytes.decode', 'removesuffix')


class Incoming(object):
    """a file of the broker that is read line by line"""
    def __init__(self, r, f):
        self.r, self.f, self.e = r, f, f.e
        self.reads = [e for e in f.ops() if e.fn in ('.readline', 'builtins.next')]
        self.lines, self.L, self.got, self.read = set(), None, None, None
        for e in self.reads:
            if e.loops and e.loops[-1].kind == 'while':
                self.lines.add(e.res)
                self.L, self.got, self.read = e.loops[-1], ok_guard(e), e
        for e in r.events:
            for L in e.loops:
                if L.kind == 'for' and isinstance(L.raw, T) and (L.raw is f.res or L.raw.op == 'app' and L.raw.args[0] in ('iter', 'builtins.iter') and L.raw.args[1] is f.res):
                    self.lines.add(mk('elem', L.key, L.occ))
                    self.L, self.got = L, B.AND(L.pc, L.more)
        if self.L is None or len(self.lines) != 1 or len(self.reads) > 1:
            raise Undecided('the lines of %s are not read one by one' % self.e.where())
        self.line = next(iter(self.lines))
        self.evs = [e for e in r.events if self.L in e.loops]
        sup = set()
        for e in self.evs:
            sup |= B.support(e.g)
        self.sup = sup | B.support(self.L.end_pc)
        for v, fact in core.FACTS.items():
            a = B.atom_of[v]
            if a.op == 'abrupt' and a.args[0] == self.L.id:
                self.sup |= B.support(fact)

    def text(self, t):
        """is the term the text of the line (without surrounding blanks)?"""
        while t.op == 'app' and t.args[0] in PEEL or t.op == 'cat' and len(t.args[0]) == 1:
            t = t.args[1] if t.op == 'app' else t.args[0][0]
        return t is self.line

    def col(self, t):
        """(column, stripped, maxsplit) of a term, None when it is not a column"""
        if t.op == 'cat' and len(t.args[0]) == 1:
            t = t.args[0][0]
        stripped = False
        while t.op == 'app' and t.args[0] in ('strip', 'str'):
            stripped |= t.args[0] == 'strip' and len(t.args) == 2
            t = t.args[1]
        if t.op != 'item' or not is_const(t.args[1]):
            return None
        s = t.args[0]
        if s.op != 'app' or s.args[0] != 'split' or len(s.args) < 3 or s.args[2] is not const(',') or not self.text(s.args[1]):
            return None
        n = None
        if len(s.args) > 3:
            x = s.args[3]
            x = x.args[1] if x.op == 'kw' else x
            n = cval(x) if is_const(x) else '?'
        return int(cval(t.args[1])), stripped, n

    def cols_of(self, t):
        return {c[0] for c in (self.col(x) for x in core_subterms(t)) if c}

    def complete(self):
        """guard: the line read ends with a line end; None when it is not tested"""
        out = FALSE
        for v in self.sup:
            a = B.atom_of[v]
            if a.op in ('ends', 'endswith') and a.args[0] is self.line and nl(a.args[1]):
                out = B.OR(out, B.mk(v, FALSE, TRUE))
            elif a.op in ('substr', 'haskey') and self.line in a.args and any(nl(x) for x in a.args):
                out = B.OR(out, B.mk(v, FALSE, TRUE))
            elif a.op in ('eqc', 'eq') and any(isinstance(x, T) and x.op == 'slice' and x.args[0] is self.line for x in a.args) and any(nl(x) for x in a.args):
                out = B.OR(out, B.mk(v, FALSE, TRUE))
        return out if out != FALSE else None

    def line_atom(self, v):
        """atoms about the line as a whole or its first column (empty lines, headers, number of columns)"""
        a = B.atom_of[v]
        if a.op in ('raises', 'more', 'abrupt', 'isinst'):
            return False
        ts = core_subterms(a)
        if self.line not in ts:
            return False
        c = set()
        for t in ts:
            x = self.col(t)
            if x:
                c.add(x[0])
        return not (c - {0})


def nl(x):
    return x in ('\n', b'\n') or isinstance(x, T) and is_const(x) and cval(x) in ('\n', b'\n', '\r\n', b'\r\n')


def incoming(ctx, r, prefix):
    fs = named(r, prefix)
    if len(fs) != 1:
        raise Undecided('%d places that open %s' % (len(fs), prefix))
    return Incoming(r, fs[0])


def orders_field(ctx):
    """the field with the orders of the day"""
    if not hasattr(ctx, '_gorders'):
        r = gate_run(ctx, 'order', sys_order='Order')
        me, so = r.sym[r.func.params[0]], r.sym[r.func.params[1]]
        oid = terms(field(r, {}, so, 'order_id'))[0]
        fs = {ver_deep(e.recv).args[1] for e in evs(r, 'setitem') if e.args and any(t is oid or t is core.cat([oid]) for t in terms(e.args[0]))
              and ver_deep(e.recv).op == 'attr' and ver_deep(e.recv).args[0] is me}
        fs |= {e.fn for e in evs(r, 'set') if e.recv is me and any(r.interp.is_map(t) and any(o[0] == 'set' and any(k is oid for k in terms(o[2])) for o in r.interp.ops(t, _mkst(r.st.heap, e.g)))
                                                                     for t in terms(e.args[0]))}
        ctx._gorders = next(iter(fs)) if len(fs) == 1 else None
    if ctx._gorders is None:
        raise Undecided('field of the orders of the day')
    return ctx._gorders


def ver_deep(t):
    return deep(t)


class Records(object):
    """changes of the recorded orders while a file is read"""
    def __init__(self, ctx, r, inc):
        me = r.sym[r.func.params[0]]
        self.r, self.inc = r, inc
        self.orders = mk('attr', me, orders_field(ctx), 0)
        loops = {l.id: l for e in r.events for l in e.loops}
        self.sub = {}
        self.memo = {}
        for i in loops:
            self.sub[mk('loopdict', self.orders, i)] = self.orders
        self.changes = []       # (event, guard, key term, {field: V} , kind)
        group = {}
        for e in inc.evs:
            if e.recv is None or e.kind not in ('setitem', 'update', 'delitem', 'clear'):
                continue
            c = self.N(e.recv)
            if c is self.orders:
                if e.kind != 'setitem':
                    self.changes.append((e, e.g, None, None, e.kind))
                    continue
                for g, k in under(e.args[0], e.g):
                    for h, v in under(e.args[1], g):
                        if r.interp.is_map(v):
                            base, fl = self.fields(v, e.heap, h)
                            self.changes.append((e, h, k, fl, ('new', base)))
                        elif self.N(v) is mk('item', self.orders, k):
                            continue
                        else:
                            self.changes.append((e, h, k, None, 'form'))
            elif c.op == 'item' and c.args[0] is self.orders:
                if e.kind == 'setitem':
                    for g, n in under(e.args[0], e.g):
                        if is_const(n):
                            self.changes.append((e, g, c.args[1], {cval(n): [(g, e.args[1])]}, 'in place'))
                        else:
                            self.changes.append((e, g, c.args[1], None, 'form'))
                elif e.kind == 'update':
                    fl = {}
                    ok = not (e.args and len(e.args) > 1)
                    for k, v in (e.kw or {}).items():
                        fl[k] = [(e.g, v)]
                    for a in e.args[:1]:
                        for g, t in under(a, e.g):
                            if r.interp.is_map(t):
                                b, f2 = self.fields(t, e.heap, g)
                                if f2 is None or b:
                                    ok = False
                                for k, v in (f2 or {}).items():
                                    fl.setdefault(k, []).extend(v)
                            else:
                                ok = False
                    self.changes.append((e, e.g, c.args[1], fl if ok else None, 'in place' if ok else 'form'))
                else:
                    self.changes.append((e, e.g, c.args[1], None, e.kind))

    def N(self, t):
        return deep(self.r.interp.subst_t(t, self.sub, self.memo)) if isinstance(t, T) else t

    def NG(self, g):
        return self.r.interp.subst_g(g, self.sub, self.memo)

    def fields(self, t, heap, g):
        """(bases, {field: [(guard, V)]}) of a mapping"""
        base, fl = [], {}
        for o in self.r.interp.ops(t, _mkst(heap, g)):
            if o[0] == 'set':
                for h, k in under(o[2], B.AND(g, o[1])):
                    if not is_const(k):
                        return base, None
                    fl.setdefault(cval(k), []).append((h, o[3]))
            elif o[0] == 'upd':
                for x in (terms(o[2]) if isinstance(o[2], V) else [o[2]]):
                    b = unwrap(self.N(x))[0]
                    if self.r.interp.is_map(x):
                        b2, f2 = self.fields(x, heap, g)
                        if f2 is None:
                            return base, None
                        base += b2
                        for k, v in f2.items():
                            fl.setdefault(k, []).extend((B.AND(g, B.AND(o[1], h)), y) for h, y in v)
                    else:
                        base.append(b)
            elif o[0] == 'mu' and base:
                continue        # what earlier lines changed in place
            else:
                return base, None
        return base, fl


def text_col(inc, t, i, n=None):
    """True: the text of column i without blanks; False: something else; None: unknown"""
    c = inc.col(t)
    if c is None:
        if has_unknown(t) or t.op in ('slice', 'res', 'mu', 'elem') or t.op == 'app' and not alters(t) and inc.line in core_subterms(t):
            return None
        if t.op == 'item' and inc.line in core_subterms(t):
            return None
        return False
    if c[2] == '?' or c[0] < 0:
        return None
    return c[0] == i and c[1] and (c[2] is None and n is None or c[2] == n or c[2] is not None and n is None and c[2] > i)


def num_col(inc, t, i, digits, kind):
    x, d = t, None
    while x.op == 'app' and x.args[0] in ('round', 'builtins.round') and len(x.args) in (2, 3):
        d = cval(x.args[2]) if len(x.args) == 3 and is_const(x.args[2]) else 0
        x = x.args[1]
    f = []
    while x.op == 'app' and x.args[0] in ('int', 'float', 'builtins.int', 'builtins.float') and len(x.args) == 2:
        f.append(x.args[0].split('.')[-1])
        x = x.args[1]
    c = inc.col(x)
    if c is None:
        return None if has_unknown(t) or inc.line in core_subterms(t) and x.op not in ('lin',) and not is_const(x) else False
    if c[0] < 0 or c[2] == '?':
        return None
    if kind == 'int':
        return c[0] == i and bool(f) and f[0] == 'int' and d in (None,)
    return c[0] == i and f == ['float'] and d == digits


def update_spec(ctx, inc):
    i = UPDATE_COLS.index

    def when(t):
        if t.op == 'app' and t.args[0] in ('strftime', 'isoformat', 'str'):
            s = t.args[1]
            f = cval(t.args[2]) if len(t.args) > 2 and is_const(t.args[2]) else None
            if t.args[0] == 'strftime' and f not in ('%Y-%m-%d %H:%M:%S.%f', '%Y-%m-%d %H:%M:%S', '%F %T', '%Y-%m-%d %X'):
                return False if f else None
            if t.args[0] != 'strftime':
                return None
            if s.op == 'app' and s.args[0] == 'datetime.datetime.strptime':
                a, fmt = s.args[1], s.args[2]
                if not is_const(fmt):
                    return None
                ps = a.args[0] if a.op == 'cat' else (a,)
                txt = ''.join('%Y%m%d' if inc.col(p) and inc.col(p)[0] == i('orderDate') else '%H%M%S' if inc.col(p) and inc.col(p)[0] == i('orderTime') else
                              cval(p) if is_const(p) and isinstance(cval(p), str) else '?' for p in ps)
                if '?' in txt:
                    return False if all(inc.col(p) or is_const(p) for p in ps) else None
                return cval(fmt) == txt and '%Y%m%d' in txt and '%H%M%S' in txt
            return None
        c = inc.col(t)
        return False if c else None
    return {
        'entrust_time': (when, 'the date and time of the columns orderDate and orderTime'),
        'confirm_id': (lambda t: text_col(inc, t, i('orderNo')), 'column orderNo'),
        'filled_amount': (lambda t: num_col(inc, t, i('filledQty'), None, 'int'), 'column filledQty as a whole number'),
        'deal_balance': (lambda t: num_col(inc, t, i('filledAmt'), 4, 'float'), 'column filledAmt rounded to 4 decimals'),
        'canceled_amount': (lambda t: num_col(inc, t, i('cancelQty'), None, 'int'), 'column cancelQty as a whole number'),
        'avg_cost': (lambda t: num_col(inc, t, i('avgPrice'), 3, 'float'), 'column avgPrice rounded to 3 decimals'),
        'err_msg': (lambda t: text_col(inc, t, i('text')), 'column text'),
    }


def key_rule(chk, inc, rec, k, i, w, what):
    ok = text_col(inc, rec.N(k), i)
    chk.check(ok is True, 'order of %s' % what, w, 'the order changed is %s, required the one of column %d' % (show(k), i), unknown=ok is None)
    return ok


def known_guard(rec, gs, key):
    """atoms that say that the order of the line is known"""
    out = FALSE
    for v in set().union(*[B.support(g) for g in gs]):
        a = B.atom_of[v]
        if a.op == 'haskey' and rec.N(a.args[0]) is rec.orders and rec.N(a.args[1]) is key:
            out = B.OR(out, B.mk(v, FALSE, TRUE))
    return out


def changed_fields(changes):
    """{field: [(guard, V, event)]} of all changes together"""
    out = {}
    for e, g, k, fl, kind in changes:
        for n, vs in (fl or {}).items():
            for h, v in vs:
                out.setdefault(n, []).append((B.AND(g, h), v, e))
    return out


def col_eq(inc, gs, i, text):
    """guard: column i has the text"""
    out = FALSE
    for v in set().union(*[B.support(g) for g in gs] or [set()]):
        a = B.atom_of[v]
        if a.op == 'eqc' and isinstance(a.args[0], T) and text_col(inc, a.args[0], i) is True and (a.args[1] is const(text) or a.args[1] == text):
            out = B.OR(out, B.mk(v, FALSE, TRUE))
    return out


def col_any(inc, gs, i):
    """the terms of column i that are compared"""
    return {a.args[0] for v in set().union(*[B.support(g) for g in gs] or [set()]) for a in [B.atom_of[v]] if a.op == 'eqc' and isinstance(a.args[0], T) and text_col(inc, a.args[0], i) is True}


def loop_raises(inc):
    """guard: something in the iteration raises (reads included)"""
    out = FALSE
    for v in inc.sup:
        if B.atom_of[v].op == 'raises':
            out = B.OR(out, B.mk(v, FALSE, TRUE))
    return out


@prop('A18')
def a18_update(ctx, chk):
    r = after_setup(ctx, 'sync_orders')
    inc = incoming(ctx, r, 'orderUpdate_')
    rec = Records(ctx, r, inc)
    w = r.func.qual
    chk.rule('update', 'a complete line of the update file sets the state of the order it names')
    if not rec.changes:
        if used_otherwise(r, rec, inc):
            raise Undecided('how an update changes the orders')
        chk.bad('taken over', w, 'no line of the update file changes an order')
        return
    if any(c[4] in ('form', 'delitem', 'clear') for c in rec.changes):
        for c in rec.changes:
            if c[4] in ('delitem', 'clear'):
                chk.bad('kept', c[0].where(), 'an update removes recorded orders')
            elif c[4] == 'form':
                chk.undecided('update', c[0].where(), 'form of the change')
        return
    spec = update_spec(ctx, inc)
    keys = set()
    for e, g, k, fl, kind in rec.changes:
        key_rule(chk, inc, rec, k, UPDATE_COLS.index('custBatchNo'), e.where(), 'an update')
        keys.add(rec.N(k))
        if fl is None:
            raise Undecided('fields of the update')
        if kind[0] == 'new':
            want = mk('item', rec.orders, rec.N(k))
            if not any(b is want for b in kind[1]):
                chk.check(False, 'other fields', e.where(), 'the order loses what the line does not say', unknown=bool(kind[1]))
    if len(keys) != 1:
        raise Undecided('%d ways to name the order' % len(keys))
    key = next(iter(keys))
    fs = changed_fields(rec.changes)
    G = B.any(c[1] for c in rec.changes)
    last = max(c[0].i for c in rec.changes)
    for n, (good, text) in spec.items():
        vs = fs.get(n)
        if not vs:
            chk.bad(n, w, '%s of an order is not taken over' % n)
            continue
        for h, v, e in vs:
            for a, t in under(v, h):
                ok = good(rec.N(t))
                chk.check(ok is True, n, e.where(), '%s is %s, required %s' % (n, show(t), text), unknown=ok is None)
    every(chk, rec, inc, fs, list(spec) + ['status'], 'update', w)
    gs = [e.g for e in inc.evs] + [g for vs in fs.values() for h, v, e in vs for g in [h] + [a for a, t in v.ls]]
    cs = col_any(inc, gs, UPDATE_COLS.index('status'))
    stat = fs.get('status')
    if not stat:
        chk.bad('status', w, 'the status of an order is not taken over')
    elif not cs:
        for h, v, e in stat:
            for a, t in under(v, h):
                c = inc.col(t)
                chk.check(False, 'status', e.where(), 'the status is %s' % show(t), unknown=c is None)
    else:
        S = ctx.cls('OrderStatus')
        anyc = FALSE
        for code, name in STATUS.items():
            ec = B.any(eqc(t, const(code)) for t in cs)
            anyc = B.OR(anyc, ec)
            for h, v, e in stat:
                for a, t in under(v, B.AND(h, ec)):
                    val = enum(S, name)
                    ok = is_const(t) and t is const(name) or t is val
                    if t is val and saved_as_is(ctx, r):
                        chk.bad('status %s' % code, e.where(), 'status %s is kept as %s: the orders, saved as JSON, can no longer be saved' % (code, show(t)))
                        continue
                    chk.check(ok, 'status %s' % code, e.where(), 'status %s becomes %s, required %s' % (code, show(t), name), unknown=has_unknown(t))
        for h, v, e in stat:
            soft(chk, h, anyc, lambda a: False, 'unknown status', e.where(), 'an unknown status is taken over')
        chk.rule('every update', 'every complete line that names a known order and can be decoded is applied')
        kn = known_guard(rec, gs, key)
        comp = inc.complete()
        comp = TRUE if comp is None else comp
        plain = plain_line(inc, gs, UPDATE_COLS)
        pre = B.all([inc.got, comp, kn, anyc, B.NOT(loop_raises(inc)), own_day(ctx, r, rec), plain])
        if kn == FALSE:
            chk.undecided('applied', w, 'test for known orders')
        else:
            soft(chk, B.AND(inc.L.pc, pre), G, fixed_odd(inc, plain, comp), 'applied', w, 'an update of a known order is passed over')
        chk.rule('known only', 'lines of other orders change nothing')
        if kn != FALSE:
            for e, g, k, fl, kind in rec.changes:
                soft(chk, g, kn, lambda a: False, 'known only', e.where(), 'a line of an unknown order is recorded')
    chk.rule('all or nothing', 'a line that cannot be decoded changes nothing of the order')
    first = min([c[0].i for c in rec.changes if c[4] == 'in place'] or [last])
    g1 = B.any(c[1] for c in rec.changes if c[0].i == first)
    for e in inc.evs:
        if first < e.i < last and (e.kind == 'conv' or e.kind == 'raise' or e.fn == 'datetime.datetime.strptime'):
            d = B.AND(e.g, g1)
            chk.check(not sat(d), 'all or nothing', e.where(), 'a field is decoded after another one was already changed: when it cannot be decoded half of the update stays')
    chk.ok('all or nothing', w)


def odd_line(inc, a):
    """atoms about the form of the line as a whole"""
    if a.op in ('raises', 'abrupt', 'more'):
        return a.op == 'more'
    ts = core_subterms(a)
    if inc.line not in ts:
        return False
    return not ({c[0] for c in (inc.col(t) for t in ts) if c} - {0})


def plain_line(inc, gs, cols):
    """guard: the line is not empty, not the header and has all columns"""
    out, n = TRUE, len(cols)
    for v in set().union(*[B.support(g) for g in gs] or [set()]):
        a = B.atom_of[v]
        x = a.args[0] if a.args and isinstance(a.args[0], T) else None
        if x is None or a.op in ('raises', 'more', 'abrupt', 'isinst'):
            continue
        yes, no = B.mk(v, FALSE, TRUE), B.mk(v, TRUE, FALSE)
        c = inc.col(x)
        y = a.args[1] if len(a.args) > 1 else None
        y = cval(y) if isinstance(y, T) and is_const(y) else y
        if isinstance(y, bytes):
            y = y.decode('ascii', 'replace')
        if a.op in ('truthy', 'nonempty') and (inc.text(x) or x is inc.line):
            out = B.AND(out, yes)
        elif a.op in ('starts', 'startswith', 'eqc', 'substr') and isinstance(y, str) and (inc.text(x) or c is not None and c[0] == 0):
            if y.startswith(cols[0]) and ','.join(cols).startswith(y) or y == '':
                out = B.AND(out, no)
        elif a.op in ('lt', 'eqn', 'eqc', 'eq') and any(t.op == 'len' or t.op == 'app' and t.args[0] in ('len', 'builtins.len') for t in core_subterms(a)):
            ls = [t for t in core_subterms(a) if (t.op == 'len' or t.op == 'app' and t.args[0] in ('len', 'builtins.len'))]
            s = ls[0].args[-1]
            if len(ls) == 1 and isinstance(s, T) and s.op == 'app' and s.args[0] == 'split' and inc.text(s.args[1]):
                g = inc.r.interp.subst_g(yes, {ls[0]: const(n)}, {})
                if g == TRUE:
                    out = B.AND(out, yes)
                elif g == FALSE:
                    out = B.AND(out, no)
    return out


def fixed_odd(inc, *gs):
    """odd atoms for soft: those about the form of the line, except the ones the guards settle"""
    fixed = {B.atom_of[v] for g in gs for v in B.support(g)}
    return lambda a: a not in fixed and odd_line(inc, a)


def used_otherwise(r, rec, inc):
    """does something else that could change an order get a part of the line?"""
    for e in inc.evs:
        if str(e.fn).startswith('log.'):
            continue
        if e.kind in ('setitem', 'update', 'append', 'set'):
            if e.recv is not None and (r.interp.is_map(e.recv) or r.interp.is_seq(e.recv)):
                continue
        elif e.kind not in ('callback', 'opaque'):
            continue
        if any(inc.line in core_subterms(t) for a in e.args if isinstance(a, V) for t in terms(a)):
            return True
    return False


def own_day(ctx, r, rec):
    """guard: the remembered orders are those of today (no new day)"""
    me = r.sym[r.func.params[0]]
    g = TRUE
    for e in evs(r, 'set', rec.orders.args[1]):
        if e.recv is me and not e.loops:
            g = B.AND(g, B.NOT(e.g))
    return g


def every(chk, rec, inc, fs, names, what, w):
    """fields change together"""
    tot = {n: B.any(h for h, v, e in fs.get(n, [])) for n in names}
    G = B.any(tot.values())
    esc = B.any(B.mk(v, FALSE, TRUE) for v in inc.sup if B.atom_of[v].op == 'raises')
    for n in names:
        if n in fs:
            d = B.all([G, B.NOT(tot[n]), B.NOT(esc), inc.L.end_pc])
            chk.check(not sat(d), '%s always' % n, w, '%s is not taken over with some %ss; case: %s' % (n, what, brief(d, 1, 200)), unknown=guard_unknown(d))


@prop('A18')
def a18_result(ctx, chk):
    r = after_setup(ctx, 'sync_orders')
    inc = incoming(ctx, r, 'execResult_')
    rec = Records(ctx, r, inc)
    w = r.func.qual
    i = RESULT_COLS.index
    chk.rule('rejection', 'an order that the broker program rejects is rejected with the reason; rejected cancels change nothing')
    ch = rec.changes
    if not ch:
        if used_otherwise(r, rec, inc):
            raise Undecided('how a result changes the orders')
        chk.bad('taken over', w, 'no line of the result file changes an order')
        return
    if any(c[4] in ('delitem', 'clear') for c in ch):
        chk.bad('kept', w, 'a result removes recorded orders')
        return
    if any(c[4] == 'form' or c[3] is None for c in ch):
        raise Undecided('form of the change')
    keys = set()
    for e, g, k, fl, kind in ch:
        key_rule(chk, inc, rec, k, i('custBatchNo'), e.where(), 'a result')
        keys.add(rec.N(k))
        if kind[0] == 'new' and not any(b is mk('item', rec.orders, rec.N(k)) for b in kind[1]):
            chk.check(False, 'other fields', e.where(), 'the order loses what the line does not say', unknown=bool(kind[1]))
    if len(keys) != 1:
        raise Undecided('%d ways to name the order' % len(keys))
    key = next(iter(keys))
    fs = changed_fields(ch)
    S = ctx.cls('OrderStatus')
    for n in ('status', 'err_msg'):
        if n not in fs:
            chk.bad(n, w, '%s of a rejected order is not taken over' % n)
    for h, v, e in fs.get('status', []):
        for a, t in under(v, h):
            if t is enum(S, 'rejected') and saved_as_is(ctx, r):
                chk.bad('status', e.where(), 'the status is kept as %s: the orders, saved as JSON, can no longer be saved' % show(t))
                continue
            chk.check(t is const('rejected') or t is enum(S, 'rejected'), 'status', e.where(), 'a rejected order becomes %s' % show(t), unknown=has_unknown(t))
    for h, v, e in fs.get('err_msg', []):
        for a, t in under(v, h):
            c = inc.col(rec.N(t))
            if c and c[0] == i('errorMsg') and c[2] is None:
                chk.bad('err_msg', e.where(), 'a reason with a comma is cut off')
                continue
            ok = text_col(inc, rec.N(t), i('errorMsg'), i('errorMsg'))
            chk.check(ok is True, 'err_msg', e.where(), 'the reason is %s, required column errorMsg with all its commas' % show(t), unknown=ok is None)
    for n in set(fs) - {'status', 'err_msg'}:
        chk.bad('other fields', fs[n][0][2].where(), 'a rejection changes %s' % n)
    every(chk, rec, inc, fs, ['status', 'err_msg'], 'rejection', w)
    gs = [e.g for e in inc.evs]
    order, rej = col_eq(inc, gs, i('resultType'), '1'), col_eq(inc, gs, i('status'), '1')
    kn = known_guard(rec, gs, key)
    comp = inc.complete()
    comp = TRUE if comp is None else comp
    plain = B.AND(comp, plain_line(inc, gs, RESULT_COLS))
    odd = fixed_odd(inc, plain)
    G = B.any(c[1] for c in ch)
    if sat(B.AND(G, B.NOT(rej))) or rej == FALSE:
        st_ = col_any(inc, gs, i('status'))
        chk.check(rej != FALSE and implies(G, rej), 'rejected only', ch[0][0].where(), 'an order is taken as rejected although the result says otherwise: %s' % brief(G, 1, 300),
                  unknown=False if rej != FALSE else bool({c for v in B.support(G) for c in inc.cols_of(B.atom_of[v])} & {i('status')}) and not st_)
    else:
        chk.ok('rejected only', w)
    if order == FALSE:
        ty = any(i('resultType') in inc.cols_of(B.atom_of[v]) for v in B.support(G))
        col = col_any(inc, [G], i('resultType'))
        tys = [B.atom_of[v] for v in B.support(G) if i('resultType') in inc.cols_of(B.atom_of[v])]
        if ty and len(col) == 1 and all(a.op == 'eqc' and a.args[0] in col for a in tys):
            c = next(iter(col))
            none = B.all([B.NOT(eqc(c, const('1')))] + [B.NOT(eqc(c, a.args[1])) for a in tys])
            ty = not sat(B.AND(G, eqc(c, const('2')))) and not sat(B.AND(G, none))
        chk.check(False, 'orders only', ch[0][0].where(), 'the result of a cancel is taken as that of the order', unknown=ty)
    else:
        soft(chk, B.AND(G, plain), order, odd, 'orders only', ch[0][0].where(), 'the result of a cancel is taken as that of the order')
    rec_ = mk('item', rec.orders, key)
    have = [B.mk(v, FALSE, TRUE) for v in inc.sup if B.atom_of[v].op in ('truthy', 'nonempty') and isinstance(B.atom_of[v].args[0], T) and rec.N(B.atom_of[v].args[0]) is rec_]
    if kn != FALSE and order != FALSE and rej != FALSE:
        pre = B.all([inc.L.pc, inc.got, plain, kn, order, rej, B.NOT(loop_raises(inc)), own_day(ctx, r, rec)] + have)
        soft(chk, pre, G, odd, 'every rejection', w, 'the rejection of a known order is passed over')
        for e, g, k, fl, kind in ch:
            soft(chk, g, kn, lambda a: False, 'known only', e.where(), 'a result of an unknown order is recorded')


@prop('A18')
def a18_returned(ctx, chk):
    r = after_setup(ctx, 'sync_orders')
    me = r.sym[r.func.params[0]]
    w = r.func.qual
    orders = mk('attr', me, orders_field(ctx), 0)
    chk.rule('returned', 'an order sync returns every order of the day')
    for g, t in under(r.value, r.st.pc):
        c, ws = unwrap(deep(t))
        if c is orders and any(n == 'values' for n, _ in ws):
            chk.ok('returned', w)
            continue
        if t is NONE or is_const(t):
            chk.bad('returned', w, 'an order sync returns %s' % show(t))
            continue
        if not r.interp.is_seq(t):
            chk.undecided('returned', w, 'form of what is returned: %s' % show(t))
            continue
        for s in r.interp.segs(t, _mkst(r.st.heap, g)):
            if s[0] == 'each':
                L = s[2]
                c, ws = unwrap(deep(L.raw)) if L.raw is not None else (None, [])
                if c is orders and L.key is not orders:
                    continue    # orders changed in the loop over the lines; they are among the orders of the day
                if c is orders or c is not None and r.interp.is_map(c):
                    soft(chk, B.AND(g, B.AND(L.pc, L.more)), B.any(B.AND(s[1], x[1]) for x in s[3] if x[0] == 'e') if s[3] else FALSE, lambda a: False, 'every order', w,
                         'some orders are not returned')
                    whole_(chk, L.raw, w)
                else:
                    chk.check(False, 'returned', w, 'what is returned comes from %s' % show(L.raw), unknown=c is None or has_unknown(c))
            elif s[0] == 'base':
                c, ws = unwrap(deep(s[2]))
                chk.check(c is orders, 'returned', w, 'what is returned is %s' % show(s[2]), unknown=True)
            else:
                chk.undecided('returned', w, 'form of what is returned: %s' % s[0])


def whole_(chk, raw, w):
    t = deep(raw)
    if t.op == 'slice' or t.op == 'app' and t.args[0] in ('slice', 'itertools.islice'):
        chk.bad('every order', w, 'only a part of the orders is returned: %s' % show(raw))


# ---------------------------------------------------------------- A19 reading on
def offset_of(chk, r, inc, what):
    """field that remembers how far the file was read"""
    me = r.sym[r.func.params[0]]
    seeks = [e for e in r.events if e.fn == '.seek' and e.recv is inc.f.res]
    w = inc.e.where()
    if not seeks:
        other = [e for e in r.events if e.i < inc.read.i and e.recv is inc.f.res and e.fn in ('.read', '.readlines', '.readline') and e not in inc.reads] if inc.read else []
        chk.check(False, 'read on', w, 'every sync reads the %s file from its beginning' % what, unknown=bool(other))
        return None
    if len(seeks) != 1 or seeks[0].loops:
        chk.undecided('read on', w, 'more than one seek')
        return None
    e = seeks[0]
    if inc.read is not None and e.i > inc.read.i:
        chk.undecided('read on', w, 'seek after reading')
        return None
    wh = e.args[1] if len(e.args) > 1 else (e.kw or {}).get('whence')
    for g, t in under(wh, e.g) if wh is not None else []:
        chk.check(t is const(0) or t.op == 'ext' and t.args[0] in ('os.SEEK_SET', 'io.SEEK_SET'), 'read on', e.where(), 'the position is not counted from the beginning of the file', unknown=not is_const(t) and t.op != 'ext')
    fields = set()
    new = own_reset(r, me)
    for g, t in under(e.args[0], e.g):
        t = deep(t)
        if t.op == 'attr' and t.args[0] is me:
            fields.add(t.args[1])
        elif t is const(0):
            soft(chk, g, new, lambda a: False, 'read on', e.where(), 'the %s file is read from its beginning again on the same day' % what)
        else:
            chk.check(False, 'read on', e.where(), 'the %s file is read from position %s' % (what, show(t)), unknown=has_unknown(t) or t.op in ('mu', 'muout', 'res', 'item') or not mentions_attr(t, me))
            return None
    if len(fields) != 1:
        chk.check(False, 'read on', e.where(), 'the %s file is read from its beginning every time' % what, unknown=bool(fields))
        return None
    F = next(iter(fields))
    d = B.AND(inc.L.pc, B.NOT(ok_guard(e)))
    odd = [v for v in B.support(d) if any(x is mk('attr', me, F, 0) for x in core_subterms(B.atom_of[v]))]
    if sat(d):
        chk.check(False, 'read on always', e.where(), 'the %s file is not read on from the remembered position' % what, unknown=bool(odd))
    else:
        chk.ok('read on always', e.where())
    return F


def mentions_attr(t, me):
    return any(x.op == 'attr' and x.args[0] is me for x in core_subterms(t))


def own_reset(r, me):
    """guard: the day has changed (the remembered positions are set to 0 outside the loops)"""
    return B.any(e.g for e in evs(r, 'set') if e.recv is me and not e.loops and all(t is const(0) for t in terms(e.args[0])) and e.args[0].ls)


def eof(gs):
    """guard: no exception is an EOFError (readline does not raise it), all are Exceptions"""
    out = TRUE
    for v in set().union(*[B.support(g) for g in gs] or [set()]):
        a = B.atom_of[v]
        if a.op == 'isinst':
            n = str(show(a.args[1]) if isinstance(a.args[1], T) else a.args[1]).strip("'").split('.')[-1]
            if n == 'EOFError':
                out = B.AND(out, B.mk(v, TRUE, FALSE))
            elif n == 'Exception' and (a.args[0].op == 'exc' or 'Error' in show(a.args[0])):
                out = B.AND(out, B.mk(v, FALSE, TRUE))
    return out


def io_raises(inc):
    """guard: reading the file itself fails"""
    out = FALSE
    for e in inc.evs:
        if e.recv is inc.f.res and e.fn in ('.readline', '.tell', '.seek', '.read') and e.raises is not None:
            out = B.OR(out, B.AND(e.g, e.raises))
    return out


def left(inc, kinds):
    return B.any(f for k, f in exits(inc.L, kinds))


def decode_rule(ctx, chk, r, inc, what):
    """lines are decoded in the configured encoding"""
    me = r.sym[r.func.params[0]]
    w = inc.e.where()
    modes = [m for g, m in inc.f.modes]
    if any(m is None or not isinstance(m, str) for m in modes):
        chk.undecided('mode %s' % what, w, 'mode of the file')
        return
    ts = set()
    for e in inc.evs:
        for t in [t for a in e.args if isinstance(a, V) for t in terms(a)] + [x for v in B.support(e.g) for x in core_subterms(B.atom_of[v])]:
            for x in core_subterms(t):
                if x.op == 'app' and x.args[0] in ('decode', 'str', 'bytes.decode') and len(x.args) > 1 and x.args[1] is inc.line and (x.args[0] != 'str' or len(x.args) > 2):
                    ts.add(x)
    if all('b' in m for m in modes):
        for x in sorted(ts, key=lambda x: x.id):
            kw = {a.args[0]: a.args[1] for a in x.args[2:] if isinstance(a, T) and a.op == 'kw'}
            pos = [a for a in x.args[2:] if not (isinstance(a, T) and a.op == 'kw')]
            enc = pos[0] if pos else kw.get('encoding')
            err = pos[1] if len(pos) > 1 else kw.get('errors')
            if err is not None and err is not const('strict'):
                chk.check(False, 'errors %s' % what, w, 'text of the %s file that cannot be decoded is changed' % what, unknown=not is_const(err))
            if enc is None:
                chk.bad('encoding %s' % what, w, 'the %s file is not read in the configured encoding' % what)
                continue
            enc = deep(enc)
            if enc.op == 'attr' and enc.args[0] is me:
                option_value(ctx, chk, setup_run(ctx), enc.args[1], 'file_encoding', None, w, 'encoding')
            elif enc.op == 'item' and enc.args[1] is const('file_encoding'):
                pass
            else:
                chk.check(False, 'encoding %s' % what, w, 'the encoding is %s' % show(enc), unknown=not is_const(enc))
        if not ts:
            chk.undecided('encoding %s' % what, w, 'how lines become text')
    else:
        err = (inc.e.kw or {}).get('errors')
        chk.check(False, 'mode %s' % what, w, 'the %s file is decoded before its last line is known to be complete: a file that ends within a character cannot be read' % what,
                  unknown=err is not None)


@prop('A19')
def a19(ctx, chk):
    r = after_setup(ctx, 'sync_orders')
    me = r.sym[r.func.params[0]]
    w = r.func.qual
    used = {}
    names = [file_name(t)[0] for f in opens(r) if not any(e.fn == 'json.dump' for e in f.ops()) and not any('w' in str(m) for g, m in f.modes) for t in terms(f.path)]
    for prefix, what in (('execResult_', 'result'), ('orderUpdate_', 'update')):
        if not named(r, prefix) and not any('?' in n for n in names if '.json' not in n):
            chk.bad('file', w, 'the %s file %s<date>.csv is not read' % (what, prefix))
            continue
        inc = incoming(ctx, r, prefix)
        rec = Records(ctx, r, inc)
        L = inc.L
        gs = [e.g for e in inc.evs] + [L.end_pc] + [f for k, f in exits(L, ('brk', 'ret', 'exc'))]
        ne = eof(gs)
        chk.rule('file', 'the %s file of the day is read, in the configured encoding' % what)
        file_rule(ctx, chk, r, inc.f, prefix + '<%Y%m%d>.csv')
        decode_rule(ctx, chk, r, inc, what)
        chk.rule('read on', 'a sync reads on where the sync before stopped')
        F = offset_of(chk, r, inc, what)
        if F is None:
            continue
        chk.check(F not in used, 'own position', inc.e.where(), 'the %s and the %s file share one position' % (what, used.get(F)))
        used[F] = what
        sets = [e for e in evs(r, 'set', F) if e.recv is me]
        new = own_reset(r, me)
        for e in sets:
            if L in e.loops:
                continue
            for g, t in under(e.args[0], e.g):
                if t is const(0):
                    continue
                unk = t.op in ('mu', 'muout', 'lin') or has_unknown(t)
                chk.check(False, 'position', e.where(), 'the position of the %s file becomes %s' % (what, show(t)), unknown=unk)
        chk.rule('position', 'the position moves past complete lines that were dealt with, and only past those')
        comp = inc.complete()
        mine = [e for e in sets if L in e.loops]
        if comp is None:
            tail = any(inc.line in core_subterms(B.atom_of[v]) and B.atom_of[v].op not in ('truthy', 'starts', 'raises', 'eqc', 'haskey', 'lt', 'isinst') for v in inc.sup)
            chk.check(False, 'complete lines', inc.e.where(), 'a line of the %s file that is still being written is taken' % what, unknown=tail)
            continue
        for e in mine:
            for g, t in under(e.args[0], e.g):
                t = deep(t)
                if t.op == 'res' and t.args[1] == '.tell':
                    te = [x for x in inc.evs if x.res is t]
                    chk.check(bool(te) and te[0].recv is inc.f.res and L in te[0].loops and te[0].i > inc.read.i if inc.read is not None else bool(te), 'position after the line', e.where(),
                              'the position of the %s file is taken elsewhere' % what, unknown=not te)
                elif t.op == 'lin':
                    c0, ks = as_lin(t)
                    ln = [k for k in ks if k.op in ('len', 'app') and inc.line in core_subterms(k)]
                    raw = [k for k in ln if k.args[-1] is inc.line and ks[k] == 1]
                    rest = [k for k in ks if k not in ln]
                    ok = c0 == 0 and len(raw) == 1 == len(ln) and len(rest) == 1 and ks[rest[0]] == 1 and rest[0].op in ('mu', 'attr')
                    chk.check(ok, 'position after the line', e.where(), 'the position of the %s file becomes %s' % (what, show(t)), unknown=ok or not ln or c0 == 0 and bool(raw))
                elif t is mk('attr', me, F, 0) or t.op == 'mu':
                    pass
                else:
                    chk.check(False, 'position after the line', e.where(), 'the position of the %s file becomes %s' % (what, show(t)), unknown=has_unknown(t) or not is_const(t))
            soft(chk, B.all([e.g, ne, inc.got]), comp, lambda a: False, 'complete lines', e.where(), 'the position moves past a line of the %s file that is still being written' % what)
        for e, g, k, fl, kind in rec.changes:
            soft(chk, B.AND(g, ne), comp, lambda a: False, 'complete lines', e.where(), 'a line of the %s file that is still being written is taken' % what)
        S = B.any(e.g for e in mine)
        C = B.any(c[1] for c in rec.changes)
        io = io_raises(inc)
        soft(chk, B.all([C, ne, B.NOT(io), L.end_pc]), S, lambda a: False, 'moved on', w, 'a line of the %s file that was applied is read again by the next sync' % what)
        some = [v for v in set().union(*[B.support(g) for g in gs]) if B.atom_of[v].op in ('truthy', 'nonempty') and B.atom_of[v].args[0] is inc.line]
        plain = B.all([inc.got, comp, ne, B.NOT(io)] + [B.mk(v, FALSE, TRUE) for v in some])
        chk.rule('to the end', 'all complete lines are read')
        soft(chk, B.AND(plain, left(inc, ('brk', 'ret'))), FALSE, lambda a: False, 'to the end', w, 'reading the %s file ends at a complete line' % what)
        chk.rule('malformed lines', 'a line that cannot be parsed is passed over with ignore_error_line (the default), otherwise the sync fails and the line stays unread')
        E = FALSE
        for e in inc.evs:
            if e.kind == 'raise' or e.kind == 'conv' or e.fn in ('.decode', 'datetime.datetime.strptime') or e.kind == 'call' and e.fn == 'decode':
                E = B.OR(E, e.g if e.kind == 'raise' else B.AND(e.g, raised(e)))
        X = left(inc, ('exc',))
        ig = ignore_guard(ctx, chk, r, inc, gs, w)
        if ig is None:
            continue
        if E == FALSE:
            chk.undecided('malformed', w, 'nothing can be malformed')
            continue
        soft(chk, B.all([plain, E, ig]), L.end_pc, lambda a: False, 'passed over', w, 'one malformed line of the %s file stops the sync although malformed lines are to be ignored' % what)
        if mine:
            soft(chk, B.all([plain, E, ig, L.end_pc]), S, lambda a: False, 'passed over for good', w, 'a malformed line of the %s file is read again by every sync' % what)
        soft(chk, B.all([plain, E, B.NOT(ig)]), X, lambda a: False, 'reported', w, 'a malformed line of the %s file is passed over although errors are not to be ignored' % what)
        short = short_line(inc, gs)
        if short != FALSE:
            head = [B.mk(v, TRUE, FALSE) for v in set().union(*[B.support(g) for g in gs]) if B.atom_of[v].op == 'starts' and inc.line in core_subterms(B.atom_of[v])]
            head += [B.mk(v, FALSE, TRUE) for v in set().union(*[B.support(g) for g in gs]) if B.atom_of[v].op in ('truthy', 'nonempty') and inc.line in core_subterms(B.atom_of[v])]
            soft(chk, B.all([plain, short, B.NOT(ig)] + head), B.OR(X, B.OR(E, io)), lambda a: False, 'reported', w,
                 'a line of the %s file with too few columns is passed over although errors are not to be ignored' % what)
        for e in mine:
            soft(chk, B.all([e.g, ne, B.NOT(io), X]), FALSE, lambda a: False, 'stays unread', e.where(), 'the position moves past a line of the %s file with which the sync fails' % what)
    others(ctx, chk, r, set(used))


def short_line(inc, gs):
    """guard: the line is tested to have too few columns"""
    out = FALSE
    for v in set().union(*[B.support(g) for g in gs]):
        a = B.atom_of[v]
        if a.op in ('lt', 'eqn') and isinstance(a.args[0], T) and a.args[0].op in ('len', 'app') and any(isinstance(t, T) and t.op == 'app' and t.args[0] == 'split' for t in a.args[0].args) \
                and inc.line in core_subterms(a):
            out = B.OR(out, B.mk(v, FALSE, TRUE) if a.op == 'lt' else B.mk(v, TRUE, FALSE))
    return out


def ignore_guard(ctx, chk, r, inc, gs, w):
    """guard: malformed lines are to be ignored"""
    me = r.sym[r.func.params[0]]
    for v in set().union(*[B.support(g) for g in gs]):
        a = B.atom_of[v]
        if a.op in ('truthy', 'isnone', 'eqc') and isinstance(a.args[0], T):
            t = deep(a.args[0])
            if t.op == 'attr' and t.args[0] is me:
                s = setup_run(ctx)
                val = field(s, s.st.heap, s.sym[s.func.params[0]], t.args[1])
                opt = mk('item', s.sym[s.func.params[1]], const('ignore_error_line'))
                if any(x is opt for x in terms(val)):
                    option_value(ctx, chk, s, t.args[1], 'ignore_error_line', True, w, 'handling of malformed lines')
                    return truthy(a.args[0])
            elif t.op == 'item' and t.args[1] is const('ignore_error_line'):
                return B.OR(B.NOT(atom('haskey', t.args[0], t.args[1])), truthy(a.args[0]))
    chk.check(False, 'option', w, 'the option ignore_error_line decides nothing', unknown=has_unknown(B.any(gs)) if False else False)
    return None


def others(ctx, chk, r, fields):
    """the positions are changed by nothing else"""
    chk.rule('nothing else', 'only reading, the start and a new day change the positions')
    c = ctx.cls(GATE)
    for name, f in c.methods.items():
        if name in ('__init__', r.func.name):
            continue
        if not any(isinstance(x, ast.Attribute) and x.attr in fields and isinstance(x.ctx, ast.Store) for x in ast.walk(f.node)):
            continue
        chk.ok('nothing else', f.qual)


# ---------------------------------------------------------------- A20, A21 what is kept
def today(t):
    """True: the current date; False: another one; None: unknown"""
    t = deep(t)
    while t.op == 'app' and t.args[0] in ('date', 'str', 'isoformat', 'strftime') and len(t.args) > 1:
        t = t.args[1]
    if t.op == 'app' and str(t.args[0]).endswith('.fromtimestamp'):
        return True if any(x.op == 'res' and x.args[1] == 'time.time' for x in core_subterms(t)) else None
    if t.op == 'res' and str(t.args[1]).split('.')[-1] in ('now', 'today', 'utcnow'):
        return True if not str(t.args[1]).endswith('utcnow') else False
    if t.op == 'app' and str(t.args[0]).split('.')[-1] in ('now', 'today'):
        return True
    if t.op == 'lin':
        return False if any(today(k) for k in as_lin(t)[1]) else None
    return None


def whole_day(y):
    """a value that tells days apart"""
    y = deep(y)
    if y.op == 'res':
        return str(y.args[1]).endswith('date.today')
    if y.op != 'app':
        return False
    if y.args[0] == 'date' or str(y.args[0]).endswith('date.today'):
        return True
    if y.args[0] == 'strftime':
        f = str(cval(y.args[2]))
        return '%Y' in f and ('%m' in f and '%d' in f or '%j' in f) and not any(x in f for x in ('%H', '%M', '%S', '%f', '%T', '%X', '%c'))
    return y.args[0] in ('str', 'isoformat') and whole_day(y.args[1])


def day_of(r):
    """(field, guard) of the test that today is the day of the remembered orders"""
    me = r.sym[r.func.params[0]]
    out = {}
    gs = [e.g for e in r.events] + [r.st.pc]
    for v in set().union(*[B.support(g) for g in gs]):
        a = B.atom_of[v]
        if a.op == 'eqn' and a.args[1] == 0 and a.args[0].op == 'lin':
            c0, ks = as_lin(a.args[0])
            at = [k for k in ks if k.op == 'attr' and k.args[0] is me]
            td = [k for k in ks if k not in at and today(k)]
            if c0 == 0 and len(ks) == 2 and len(at) == 1 and len(td) == 1 and ks[at[0]] + ks[td[0]] == 0 and whole_day(td[0]):
                out[v] = at[0].args[1]
        elif a.op in ('eq', 'eqc') and isinstance(a.args[1], T):
            for x, y in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
                x = deep(x)
                if isinstance(x, T) and x.op == 'attr' and x.args[0] is me and isinstance(y, T) and today(y) and whole_day(y):
                    out[v] = x.args[1]
    if len(set(out.values())) != 1:
        return None, None
    return next(iter(out.values())), B.any(B.mk(v, FALSE, TRUE) for v in out)


def empty_map(r, t, heap, g):
    return r.interp.is_map(t) and not r.interp.ops(t, _mkst(heap, g))


def data_path(ctx, chk, r, t, where, g, inst='data file'):
    """a path is <runtime_dir>/data/<task>_<YYYYMMDD>.json"""
    me = r.sym[r.func.params[0]]
    t = deep(t)
    if t.op == 'attr' and t.args[0] is me:
        s = setup_run(ctx)
        v = field(s, s.st.heap, s.sym[s.func.params[0]], t.args[1])
        for h, x in under(v, s.st.pc):
            if x is t or x.op == 'attr' and x.args[1] == t.args[1]:
                chk.bad(inst, where, 'setup does not set the path of the data file')
            else:
                data_path(ctx, chk, s, x, s.func.qual, h, inst)
        return
    name, dirs = file_name(t)
    ps = parts_of(t)
    task = any(isinstance(p, T) and mentions_task(p) for p in ps)
    nm = name.endswith('.json') and '<%Y%m%d>' in name and task
    unk = any(isinstance(p, T) and p.op not in ('attr', 'item', 'app') for p in ps)
    chk.check(nm, inst, where, 'the data file is %s, required <task>_<YYYYMMDD>.json' % show(t), unknown=unk)
    for p in ps:
        if isinstance(p, T) and p.op == 'app' and p.args[0] == 'strftime':
            td = today(p)
            if td is not True:
                x = deep(p.args[1])
                T_, same = day_of(r)
                if not (x.op == 'attr' and T_ == x.args[1]):
                    chk.check(False, inst, where, 'the data file is not that of the current day: %s' % show(t), unknown=td is None)
    ds = [p for p in dirs if p != '/']
    if len(ds) == 1 and isinstance(ds[0], T) and ds[0].op == 'attr' and ds[0].args[0] is me:
        s = setup_run(ctx)
        v = field(s, s.st.heap, s.sym[s.func.params[0]], ds[0].args[1])
        for h, x in under(v, s.st.pc):
            runtime(ctx, chk, s, [p for p in parts_of(x) if p != '/'], where, inst)
    else:
        runtime(ctx, chk, r, ds, where, inst)


def mentions_task(p):
    return any(x.op == 'attr' and x.args[1] in ('_task_name', 'task_name') for x in core_subterms(p))


def runtime(ctx, chk, r, ds, where, inst):
    ok = len(ds) == 2 and isinstance(ds[0], T) and isinstance(ds[1], str) and ds[1].strip('/') == 'data'
    ok = ok and (ds[0].op == 'item' and ds[0].args[1] is const('runtime_dir') or ds[0].op == 'attr' and ds[0].args[1] == 'RUNTIME_DIR')
    chk.check(ok, inst, where, 'the data file is in %s, required <runtime_dir>/data' % [x if isinstance(x, str) else show(x) for x in ds], unknown=any(isinstance(x, T) and x.op not in ('item', 'attr') for x in ds))


MOVES = ('shutil.move', 'os.replace', 'os.rename', '.replace', '.rename')


class Save(object):
    def __init__(self, e, content, f, how):
        self.e, self.content, self.f, self.how = e, content, f, how


def saves(r):
    """places that write JSON to a file"""
    out = []
    for f in opens(r):
        for e in r.events:
            if e.fn == 'json.dump' and len(e.args) > 1 and any(t is f.res for t in terms(e.args[1])):
                out.append(Save(e, e.args[0], f, 'dump'))
            elif e.fn == '.write' and e.recv is f.res and e.args:
                for t in terms(e.args[0]):
                    if t.op == 'app' and t.args[0] == 'json.dumps':
                        out.append(Save(e, one(t.args[1]), f, 'dumps'))
                    elif t.op == 'res' and t.args[1] == 'json.dumps':
                        for d in r.events:
                            if d.res is t:
                                out.append(Save(e, d.args[0], f, 'dumps'))
    return out


def is_orders(r, ctx, t, e):
    """True when a value is all orders of the day"""
    me = r.sym[r.func.params[0]]
    O = orders_field(ctx)
    c, ws = unwrap(deep(t))
    if c is mk('attr', me, O, 0):
        return True if all(w[0] in ('dict', 'copy') for w in ws) else None
    for s in evs(r, 'set', O):
        if s.recv is me and any(x is t for x in terms(s.args[0])):
            return True
    if r.interp.is_map(t):
        os_ = r.interp.ops(t, _mkst(r.st.heap, e.g))
        if len(os_) == 1 and os_[0][0] == 'upd':
            xs = terms(os_[0][2]) if isinstance(os_[0][2], V) else [os_[0][2]]
            return all(is_orders(r, ctx, x, e) for x in xs)
        O_ = mk('attr', me, O, 0)
        if any(o[0] == 'each' for o in os_) and all(o[0] in ('each', 'set') for o in os_):
            res = True
            for o in os_:
                if o[0] == 'set':
                    continue
                L = o[2]
                c, ws = unwrap(deep(L.raw)) if L.raw is not None else (None, [])
                if c is not O_:
                    return None
                if L.key is not O_:
                    continue
                kept = B.any(B.AND(o[1], x[1]) for x in o[3] if x[0] == 'set')
                d = B.AND(B.all([e.g, L.pc, L.more]), B.NOT(kept))
                if sat(d):
                    return False if not guard_unknown(d) else None
                for x in o[3]:
                    ks = terms(x[2]) if isinstance(x[2], V) else [x[2]]
                    vs = terms(x[3]) if isinstance(x[3], V) else [x[3]]
                    if not all(any(y.op == 'attr' for y in core_subterms(v)) for v in vs) or any(v.op in ('cat', 'lin') for v in vs) or len(ks) != 1:
                        res = None
            return res
        return None if os_ else False
    return None if has_unknown(t) or t.op in ('res', 'app', 'mu') else False


def saved_as_is(ctx, r):
    """True when the orders of the day are written as JSON without a conversion"""
    if ctx.prog and any(C is not None and any(getattr(b, 'id', None) == 'str' or getattr(b, 'attr', None) in ('StrEnum', 'IntEnum') for b in C.node.bases) for C in [ctx.cls('OrderStatus')]):
        return False
    ss = [s for s in saves(r) if not any(k in (s.e.kw or {}) for k in ('default', 'cls', '**'))]
    me, O = r.sym[r.func.params[0]], orders_field(ctx)
    plain = {mk('attr', me, O, 0)} | {t for e in evs(r, 'set', O) if e.recv is me for t in terms(e.args[0])}
    return bool(ss) and all(s.how == 'dump' and all(deep(t) in plain for t in terms(s.content)) for s in ss)


def save_rule(ctx, chk, r, what):
    """the guard under which all orders were saved, and the last event of it; checks how they are saved"""
    ss = saves(r)
    w = r.func.qual
    if not ss:
        odd = any(e.kind == 'call' and str(e.fn).split('.')[0] in ('pickle', 'shelve', 'sqlite3', 'tempfile', 'json') or str(e.fn) in ('os.write', '.write_text', '.write_bytes') for e in r.events)
        chk.check(False, 'saved', w, 'the orders are not saved by %s' % what, unknown=odd)
        return None, None
    moves = [e for e in r.events if e.fn in MOVES and e.kind == 'call']
    G, last = FALSE, None
    for s in ss:
        e = s.e
        if any('a' in str(m) or 'r' in str(m) for g, m in s.f.modes):
            chk.check(False, 'whole file', s.f.e.where(), 'the data file is not written anew: mode %s' % [m for g, m in s.f.modes], unknown=False)
        for g, t in under(s.content, e.g):
            ok = is_orders(r, ctx, t, e)
            chk.check(ok is True, 'all orders', e.where(), 'what is saved is %s, required all orders of the day' % show(t), unknown=ok is None)
        mine = []
        for m in moves:
            src = m.args[0] if m.fn not in ('.replace', '.rename') else one(m.recv)
            if any(x is y for x in terms(src) for y in terms(s.f.path)):
                mine.append(m)
        if not mine:
            paths = terms(s.f.path)
            tmp = all('.json' in file_name(t)[0] and not file_name(t)[0].endswith('.json') or t.op == 'cat' for t in paths)
            chk.check(False, 'replaced at once', e.where(), 'the data file is written in place: a crash while it is written loses the orders', unknown=tmp or bool(moves))
            continue
        for m in mine:
            dst = m.args[1] if m.fn not in ('.replace', '.rename') else m.args[0]
            src = m.args[0] if m.fn not in ('.replace', '.rename') else one(m.recv)
            for g, t in under(dst, m.g):
                data_path(ctx, chk, r, t, m.where(), g)
                for h, x in under(src, g):
                    chk.check(x is not t, 'replaced at once', m.where(), 'the data file itself is written', unknown=False)
                    ps, pd = parts_of(deep(x)), parts_of(deep(t))
                    near = len(ps) > 0 and (ps[:len(pd)] == pd and not any(isinstance(p, str) and '/' in p for p in ps[len(pd):]) or file_name(deep(x))[1] == file_name(deep(t))[1])
                    chk.check(near, 'replaced at once', m.where(), 'the new data file is not prepared beside the old one: %s' % show(x), unknown=True)
                    for h2, y in under(s.f.path, h):
                        chk.check(y is x, 'replaced at once', m.where(), 'what becomes the data file is not the file just written', unknown=has_unknown(y))
            done = B.any(x.g for x in r.events if x.kind == 'exit' and x.recv is s.f.res and x.i < m.i)
            done = B.OR(done, B.any(ok_guard(x) for x in r.events if x.fn == '.close' and x.recv is s.f.res and x.i < m.i))
            done = B.OR(done, B.any(ok_guard(x) for x in r.events if x.fn in ('os.fsync', '.flush') and x.i < m.i and x.i > e.i and (x.recv is s.f.res or x.fn == 'os.fsync')))
            soft(chk, m.g, done, lambda a: False, 'complete before', m.where(), 'the file becomes the data file before everything is written')
            soft(chk, m.g, ok_guard(e), lambda a: False, 'complete before', m.where(), 'a file that was not written completely becomes the data file')
            if tuple(m.loops) != tuple(e.loops):
                chk.undecided('complete before', m.where(), 'saving in a loop')
            G = B.OR(G, ok_guard(m))
            last = e.i if last is None else max(last, e.i)
    for f in opens(r):
        for g, t in under(f.path, f.e.g):
            n = file_name(t)[0]
            if deep(t).op == 'attr' and any('w' in str(m) or 'a' in str(m) or '+' in str(m) or 'x' in str(m) for h, m in f.modes) and any(x is t for m in moves for x in (terms(m.args[1]) if len(m.args) > 1 else [])):
                chk.bad('replaced at once', f.e.where(), 'the data file itself is opened for writing')
    return G, last


@prop('A20')
def a20_order(ctx, chk):
    chk.rule('order saved', 'when order returns the order is in the data file')
    r = gate_run(ctx, 'order', sys_order='Order')
    me, so = r.sym[r.func.params[0]], r.sym[r.func.params[1]]
    w = r.func.qual
    G, last = save_rule(ctx, chk, r, 'order')
    if G is None:
        return
    soft(chk, r.st.pc, G, lambda a: False, 'saved', w, 'order returns although the orders are not saved')
    oid = terms(field(r, {}, so, 'order_id'))[0]
    O = mk('attr', me, orders_field(ctx), 0)
    mine = lambda e: deep(e.recv) is O or any(x is e.recv for s in evs(r, 'set', orders_field(ctx)) if s.recv is me for x in terms(s.args[0]))
    same_id = lambda v: any(x is oid or x is core.cat([oid]) for x in (terms(v) if isinstance(v, V) else [v]))
    recs = [e for e in evs(r, 'setitem') if same_id(e.args[0]) and mine(e)]
    recs += [e for e in evs(r, 'update') if mine(e) and any(o[0] == 'set' and same_id(o[2]) for a in e.args for t in terms(a) if r.interp.is_map(t) for o in r.interp.ops(t, _mkst(e.heap, e.g)))]
    soft(chk, r.st.pc, B.any(e.g for e in recs), lambda a: False, 'recorded', w, 'order returns although the order is not recorded')
    for e in recs:
        if last is not None and e.i > last:
            chk.bad('recorded first', e.where(), 'the orders are saved before the new order is among them')
    chk.ok('recorded first', w)


@prop('A20')
def a20_sync(ctx, chk):
    chk.rule('sync saved', 'when sync_orders returns everything it took over is in the data file')
    r = after_setup(ctx, 'sync_orders')
    w = r.func.qual
    G, last = save_rule(ctx, chk, r, 'sync_orders')
    if G is None:
        return
    d = B.AND(r.st.pc, B.NOT(G))
    carried = [v for v in B.support(d) if any(x.op in ('mu', 'muout', 'loopdict') for x in core_subterms(B.atom_of[v]))]
    if sat(d):
        soft(chk, r.st.pc, G, lambda a: any(x.op in ('mu', 'muout', 'loopdict') for x in core_subterms(a)), 'saved', w, 'sync_orders returns although the orders are not saved')
    else:
        chk.ok('saved', w)
    for prefix in ('execResult_', 'orderUpdate_'):
        inc = incoming(ctx, r, prefix)
        for e, g, k, fl, kind in Records(ctx, r, inc).changes:
            chk.check(e.i < last, 'saved last', e.where(), 'an order changes after the orders were saved')


@prop('A20')
def a20_load(ctx, chk):
    chk.rule('load', 'setup takes over all orders of the data file of the day; without a readable file it goes on')
    s = setup_run(ctx)
    me = s.sym[s.func.params[0]]
    O = orders_field(ctx)
    w = s.func.qual
    loads = [e for e in s.events if e.fn in ('json.load', 'json.loads')]
    if not loads:
        odd = any(str(e.fn).split('.')[0] in ('pickle', 'shelve', 'sqlite3') for e in s.events) or any(e.kind == 'opaque' for e in s.events)
        chk.check(False, 'loaded', w, 'setup does not load the orders of the day', unknown=odd)
        return
    if len(loads) != 1:
        raise Undecided('%d places that load JSON' % len(loads))
    e = loads[0]
    fs = [f for f in opens(s) if any(f.res in core_subterms(t) for a in e.args for t in terms(a)) or any(x.recv is f.res and x.fn == '.read' and any(x.res in core_subterms(t) for a in e.args for t in terms(a)) for x in s.events)]
    if len(fs) != 1:
        raise Undecided('which file is loaded')
    f = fs[0]
    for g, t in under(f.path, f.e.g):
        data_path(ctx, chk, s, t, f.e.where(), g, 'data file')
    v = field(s, s.st.heap, me, O)
    bad_io = [x for x in s.events if x.raises is not None and (x is e or x is f.e or x.recv is f.res)]
    io = B.any(B.AND(x.g, x.raises) for x in bad_io)
    exist = [x for x in s.events if x.fn in ('os.path.exists', 'os.path.isfile') and x.i < e.i and any(y is z for y in terms(x.args[0]) for z in terms(f.path))]
    have = B.all([truthy(x.res) for x in exist])
    allr = any_raise(s)
    ok = B.all([s.st.pc, B.NOT(io), have])
    got = FALSE
    for g, t in under(v, ok):
        c, ws = unwrap(t)
        if c is e.res and all(x[0] in ('dict', 'copy') for x in ws):
            got = B.OR(got, g)
        elif s.interp.is_map(t):
            os_ = s.interp.ops(t, _mkst(s.st.heap, g))
            if any(o[0] == 'upd' and any(unwrap(x)[0] is e.res for x in (terms(o[2]) if isinstance(o[2], V) else [o[2]])) for o in os_):
                got = B.OR(got, g)
            elif os_:
                chk.undecided('loaded', w, 'form of what is loaded')
                got = B.OR(got, g)
    d = B.AND(ok, B.NOT(got))
    for x in evs(s, 'setitem'):
        if deep(x.recv) is mk('attr', me, O, 0) or any(x.recv is t for y in evs(s, 'set', O) for t in terms(y.args[0])):
            Ls = [L for L in x.loops if L.raw is not None and unwrap(deep(L.raw))[0] is e.res]
            if len(Ls) != 1 or len(x.loops) != 1:
                continue
            L = Ls[0]
            other_ = B.any(B.AND(y.g, y.raises) for y in s.events if y.raises is not None and L in y.loops)
            soft(chk, B.all([L.pc, L.more, B.NOT(other_)]), x.g, lambda a: a.op in ('isinst', 'isnone', 'truthy'), 'all loaded', x.where(), 'some orders of the data file are not taken over')
    upd = [x for x in s.events if x.kind == 'update' and deep(x.recv) is mk('attr', me, O, 0) and any(unwrap(t)[0] is e.res for a in x.args for t in terms(a))]
    some = [truthy(e.res)]
    for v_ in set().union(*[B.support(x) for x in [ok, got] + [x.g for x in upd]]):
        a_ = B.atom_of[v_]
        if a_.op == 'lt' and a_.args[0] is mk('app', 'len', e.res) and a_.args[1] == 1:
            some.append(B.mk(v_, TRUE, FALSE))
    ok = B.all([ok] + some)
    soft(chk, ok, B.OR(got, B.any(x.g for x in upd)), lambda a: a.op in ('more', 'abrupt', 'isinst', 'isnone') and e.res in core_subterms(a), 'loaded', w, 'the orders of the data file are not taken over')
    ne = eof([s.exc_st.pc] + [x.g for x in s.events])
    X = B.all([s.exc_st.pc, ne, io])
    other = B.any(B.AND(x.g, x.raises) for x in s.events if x.raises is not None and x not in bad_io)
    exp = B.any(x.g for x in evs(s, 'raise') if x.i < f.e.i)
    soft(chk, B.AND(X, B.NOT(B.OR(other, exp))), FALSE, lambda a: False, 'goes on', w, 'setup fails when the data file cannot be read')
    for x in evs(s, 'set', O):
        if x.recv is me and x.i > e.i and not any(unwrap(t)[0] is e.res for t in terms(x.args[0])) and sat(B.AND(x.g, ok)):
            chk.check(False, 'kept', x.where(), 'the orders just loaded are replaced by %s' % show(terms(x.args[0])[0]), unknown=not all(is_const(t) or s.interp.is_map(t) for t in terms(x.args[0])))


@prop('A21')
def a21(ctx, chk):
    O = orders_field(ctx)
    rs = after_setup(ctx, 'sync_orders')
    Fs, seeks = [], []
    for prefix in ('execResult_', 'orderUpdate_'):
        inc = incoming(ctx, rs, prefix)
        for e in rs.events:
            if e.fn == '.seek' and e.recv is inc.f.res and not e.loops:
                Fs += [x.args[1] for t in terms(e.args[0]) for x in [deep(t)] if x.op == 'attr' and x.args[0] is rs.sym[rs.func.params[0]]]
                seeks.append((prefix, e))
    Fs = sorted(set(Fs))
    for name in ('order', 'sync_orders'):
        r = rs if name == 'sync_orders' else gate_run(ctx, 'order', sys_order='Order')
        me = r.sym[r.func.params[0]]
        w = r.func.qual
        chk.rule('new day in %s' % name, 'on another day %s first forgets the orders and positions of the day before' % name)
        T_, same = day_of(r)
        zero = [e for e in evs(r, 'set', O) if e.recv is me and not e.loops]
        if T_ is None:
            dates = any(x.op == 'attr' and x.args[0] is me and any(today(y) is not None for y in core_subterms(a) if isinstance(y, T)) for e in zero for v in B.support(e.g) for a in [B.atom_of[v]] for x in core_subterms(a))
            part = [a for e in zero for v in B.support(e.g) for a in [B.atom_of[v]] if any(x.op == 'attr' and x.args[1] in ('day', 'weekday', 'month') or x.op == 'app' and x.args[0] in ('weekday', 'isoweekday') for x in core_subterms(a))]
            free = [e for e in zero if sat(e.g) and not any(today(x) is not None for v in B.support(e.g) for x in core_subterms(B.atom_of[v])) and not guard_unknown(e.g)]
            if free:
                chk.bad('day', free[0].where(), 'the orders of the day are lost whether it is a new day or not')
                continue
            chk.check(False, 'day', w, '%s does not notice a new day: the orders of the day before stay' % name, unknown=bool(zero) and not part)
            continue
        if name == 'sync_orders':
            for prefix, e in seeks:
                for g, t in under(e.args[0], B.AND(e.g, B.NOT(same))):
                    t = deep(t)
                    mine = t.op == 'attr' and t.args[0] is me
                    chk.check(t is const(0) or is_const(t) and not mine, 'read anew', e.where(), 'on a new day the %s file is read from the position of the day before' % prefix, unknown=not mine)
        first = [e for e in r.events if e.fn in ('builtins.open', 'io.open') or e.kind == 'setitem' and deep(e.recv) is mk('attr', me, O, 0)]
        first = min([e.i for e in first] or [10 ** 9])
        s = setup_run(ctx)
        v = field(s, s.st.heap, s.sym[s.func.params[0]], T_)
        for g, t in under(v, s.st.pc):
            chk.check(today(t) is True, 'day of setup', s.func.qual, 'setup does not remember the day of the orders it loads: %s' % show(t), unknown=has_unknown(t))
        fields = [(O, 'orders')] + [(F, 'positions') for F in Fs]
        move = [e for e in r.events if e.fn in MOVES and e.kind == 'call']
        D = {deep(t).args[1] for m in move for t in (terms(m.args[1]) if len(m.args) > 1 else []) if deep(t).op == 'attr' and deep(t).args[0] is me}
        D |= {deep(t).args[1] for e in evs(r, 'set') if e.recv is me and not e.loops for t in [mk('attr', me, e.fn, 0)] if any('.json' in str(file_name(x)[0]) for x in terms(e.args[0]))}
        fields += [(x, 'data file') for x in D]
        fields.append((T_, 'day'))
        go = B.any(e.g for e in r.events if e.i >= first and (e.fn in ('builtins.open', 'io.open') or e.kind == 'setitem' and deep(e.recv) is mk('attr', me, O, 0)))
        for F, what in fields:
            es = [e for e in evs(r, 'set', F) if e.recv is me and not e.loops]
            early = [e for e in es if e.i < first]
            clears = [e for e in r.events if F == O and e.kind == 'clear' and deep(e.recv) is mk('attr', me, O, 0) and e.i < first]
            soft(chk, B.AND(go, B.NOT(same)), B.any(e.g for e in early + clears), lambda a: False, '%s reset' % F, w, 'the %s of the day before stay on a new day (%s)' % (what, F))
            for e in es + clears:
                odd = [v for v in B.support(e.g) if has_unknown(B.atom_of[v])]
                soft(chk, e.g, B.NOT(same), lambda a: False, '%s kept' % F, e.where(), 'the %s of the day are lost although the day is the same' % what)
            for e in es:
                for g, t in under(e.args[0], B.AND(e.g, B.NOT(same))):
                    if what == 'orders':
                        ok = empty_map(r, t, e.heap, e.g)
                        chk.check(ok, 'empty', e.where(), 'the orders become %s on a new day' % show(t), unknown=not is_const(t) and not r.interp.is_map(t))
                    elif what == 'positions':
                        chk.check(t is const(0), 'beginning', e.where(), 'the position becomes %s on a new day' % show(t), unknown=has_unknown(t))
                    elif what == 'day':
                        chk.check(today(t) is True, 'day', e.where(), 'the day becomes %s' % show(t), unknown=today(t) is None and not is_const(t))
                    else:
                        data_path(ctx, chk, r, t, e.where(), g)


# ---------------------------------------------------------------- A22 the record of an order
LOSSLESS = ('%Y', '%m', '%d', '%H', '%M', '%S', '%f')


def lossless(f):
    return all(x in f for x in LOSSLESS) and re.fullmatch(r'(%[YmdHMSf]|[^%])*', f) is not None


def format_of(t):
    """format of a time written as text"""
    if t.op == 'app' and t.args[0] == 'strftime' and is_const(t.args[2]):
        return cval(t.args[2])
    if t.op == 'app' and t.args[0] == 'isoformat' and len(t.args) == 4 and all(is_const(x) for x in t.args[2:]):
        end = {'microseconds': '.%f', 'seconds': ''}.get(cval(t.args[3]))
        return None if end is None else '%Y-%m-%d' + str(cval(t.args[2])) + '%H:%M:%S' + end
    return None


def same_time(t):
    """a date and time written as text and read again is the same when both formats agree and nothing is left out"""
    t = deep(t)
    if t.op == 'app' and str(t.args[0]).endswith('strptime') and len(t.args) == 3:
        x = t.args[1]
        f = format_of(x)
        if f is not None and is_const(t.args[2]):
            return (x.args[1], f == cval(t.args[2]) and lossless(f))
    if t.op == 'app' and str(t.args[0]).endswith('fromisoformat') and t.args[1].op == 'app' and t.args[1].args[0] == 'isoformat':
        return (t.args[1].args[1], len(t.args[1].args) == 2)
    return None


def text_facts(gs):
    """what is known about times written as text: (guard)"""
    out = TRUE
    for v in set().union(*[B.support(g) for g in gs]):
        a = B.atom_of[v]
        if a.op == 'truthy' and isinstance(a.args[0], T) and a.args[0].op == 'app' and a.args[0].args[0] in ('strftime', 'isoformat'):
            out = B.AND(out, B.mk(v, FALSE, TRUE))
        elif a.op == 'lt' and isinstance(a.args[0], T) and a.args[0].op == 'app' and a.args[0].args[0] == 'find' and len(a.args[0].args) == 3 and format_of(a.args[0].args[1]) is not None and is_const(a.args[0].args[2]):
            there = cval(a.args[0].args[2]) in re.sub('%.', '', format_of(a.args[0].args[1]))
            if a.args[1] in (0, -1) if there else True:
                out = B.AND(out, B.mk(v, FALSE, TRUE) if not there and a.args[1] >= 0 else B.mk(v, TRUE, FALSE))
        elif a.op == 'substr' and is_const(a.args[0]) and isinstance(a.args[1], T) and format_of(a.args[1]) is not None:
            lit = re.sub('%.', '', format_of(a.args[1]))
            out = B.AND(out, B.mk(v, FALSE, TRUE) if cval(a.args[0]) in lit else B.mk(v, TRUE, FALSE))
        elif a.op == 'haskey' and isinstance(a.args[1], T) and is_const(a.args[1]) and format_of(a.args[0]) is not None:
            out = B.AND(out, B.mk(v, FALSE, TRUE) if cval(a.args[1]) in re.sub('%.', '', format_of(a.args[0])) else B.mk(v, TRUE, FALSE))
        elif a.op == 'isinst' and isinstance(a.args[0], T) and a.args[0].op == 'app' and a.args[0].args[0] in ('strftime', 'isoformat'):
            out = B.AND(out, B.mk(v, FALSE, TRUE) if a.args[1] == 'str' else B.mk(v, TRUE, FALSE))
    return out


def plain(t, given):
    """True when a value can be written as JSON, False when not, None when unknown"""
    t = deep(t)
    if is_const(t):
        return isinstance(cval(t), (str, int, float, bool, type(None)))
    if t is NONE:
        return True
    if t.op in ('cat', 'lin') or t.op == 'app' and t.args[0] in ('strftime', 'isoformat', 'str', 'float', 'int', 'round'):
        return True
    if t.op in ('enum', 'obj', 'cls', 'new'):
        return False
    for n, v in given.items():
        if v is t:
            return n not in ('action', 'status', 'side', 'style', 'create_time', 'entrust_time')
    return None


@prop('A22')
def a22(ctx, chk):
    C = ctx.cls('Order')
    init, w = ctx.method(C, '__init__'), 'Order.json'
    enums = {'action': ctx.cls('OrderAction'), 'status': ctx.cls('OrderStatus'), 'side': ctx.cls('OrderSide')}
    names = ['code', 'price', 'amount', 'action', 'order_id', 'status', 'style', 'create_time', 'entrust_time', 'side'] + [n for n, _ in ORDER_DEF]
    cases = []
    for n in ('action', 'status', 'side'):
        for m in members(enums[n]):
            v = {'action': 'open', 'status': 'new', 'side': 'long'}
            v[n] = m
            cases.append((v, 'LimitOrderStyle', True))
    for st in ('LimitOrderStyle', 'MarketOrderStyle'):
        for a in members(enums['action']):
            for s in members(enums['side']):
                cases.append(({'action': a, 'status': 'new', 'side': s}, st, False))
    for v, st, entrusted in cases:
        what = '%s %s %s %s' % (v['status'], v['action'], v['side'], st)
        chk.rule(what, 'the record of an order can be written as JSON and gives the same order')
        given = {n: ctx.sym(n) for n in names}
        for n, c in enums.items():
            given[n] = enum(c, v[n])
        given['style'] = ctx.sym('style', ctx.cls(st))
        if not entrusted:
            given['entrust_time'] = NONE
        r = ctx.run(init, args={p: given[p] for p in init.params if p in given}, kw={n: one(given[n]) for n in names if n not in init.params})
        o = r.sym[init.params[0]]
        pre = B.all([r.st.pc, isinst(given['style'], ctx.cls(st))] + [B.AND(truthy(given[n]), isinst(given[n], 'datetime.datetime')) for n in ('create_time', 'entrust_time') if given[n] is not NONE])
        j = ctx.call(r, mk('bm', ctx.method(C, 'json'), o), [], heap=r.st.heap)
        soft(chk, pre, j.st.pc, lambda a: False, 'record', w, 'an order has no record')
        for g, t in under(j.value, B.AND(pre, j.st.pc)):
            if not j.interp.is_map(t):
                chk.check(False, 'record', w, 'the record is %s' % show(t), unknown=has_unknown(t))
                continue
            rec, ok = {}, True
            for x in j.interp.ops(t, j.st):
                if x[0] != 'set' or any(not is_const(k) for k in terms(x[2])) or not implies(g, x[1]):
                    ok = False
                    break
                rec[cval(terms(x[2])[0])] = x[3]
            if not ok:
                chk.undecided('record', w, 'form of the record')
                continue
            for n, val in rec.items():
                for h, y in under(val, g):
                    p = plain(y, given)
                    chk.check(p is True, 'JSON %s' % n, w, 'the %s in the record is %s, which cannot be written as JSON' % (n, show(y)), unknown=p is None)
            l = ctx.call(j, mk('bm', ctx.method(C, 'load'), mk('cls', C)), [], kw=rec, heap=j.st.heap)
            vals = {}
            for h, ord_ in under(l.value, B.AND(g, l.st.pc)):
                for n in names:
                    vals.setdefault(n, []).append((h, field(l, l.st.heap, ord_, n)))
            gs = [g, l.st.pc, l.exc_st.pc] + [h for vs in vals.values() for _, V_ in vs for h, _ in V_.ls]
            facts = text_facts(gs)
            G = B.AND(g, facts)
            soft(chk, B.AND(G, l.exc_st.pc), B.any(B.AND(e.g, e.raises) for e in l.events if e.raises is not None and str(e.fn).endswith(('strptime', 'fromisoformat'))), lambda a: False, 'load', 'Order.load', 'the record of an order cannot be loaded')
            for n in names:
                for h, V_ in vals.get(n, []):
                    for k, y in under(V_, B.AND(h, facts)):
                        want = given[n]
                        if n in ('create_time', 'entrust_time') and want is not NONE:
                            z = same_time(y)
                            if z is None:
                                z = (y, y is want)
                            chk.check(z == (want, True), 'same %s' % n, w, 'the %s of the order loaded is %s' % (n, show(y)), unknown=z[0] is not want and has_unknown(y))
                        elif n == 'style':
                            sc = C_of(l, y)
                            chk.check(sc is not None and sc is ctx.cls(st), 'same style', w, 'the style of the order loaded is %s' % show(y), unknown=sc is None and not is_const(y))
                            if sc is ctx.cls(st) and st == 'LimitOrderStyle':
                                for q, pr in under(field(l, l.st.heap, y, 'price'), k):
                                    chk.check(pr is given['price'], 'limit price', w, 'the limit price of the order loaded is %s, required its price' % show(pr), unknown=has_unknown(pr))
                        else:
                            chk.check(y is want or implies(k, eq(y, want)), 'same %s' % n, w, 'the %s of the order loaded is %s, required %s' % (n, show(y), show(want)), unknown=has_unknown(y))
            if not vals:
                chk.undecided('load', 'Order.load', 'no order')


def C_of(r, t):
    """class of an object made in a run"""
    return next((a for a in t.args if isinstance(a, model.Class)), None) if t.op == 'obj' else None
