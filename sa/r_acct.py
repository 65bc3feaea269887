"""Rules of the account part: user API, account object, broker files."""
import os
from .r_sched import *
from .r_sched import _mkst
from .r_sched2 import deep, exits, no_break, unwrap, base, suffix_of, user_views
from . import core
from .core import endswith, eq, eqc, isinst, truthy, lt, atom

CHECKS = {}


def prop(pid):
    def deco(f):
        CHECKS.setdefault(pid, []).append(f)
        return f
    return deco


# ---------------------------------------------------------------- helpers
def any_raise(r, skip=()):
    """guard: something outside the analysed code raises"""
    out = [e.raises for e in r.events if e.raises is not None and e not in skip]
    no = set().union(*[B.support(e.raises) for e in skip if e.raises is not None]) if skip else set()
    vs = set().union(B.support(r.st.pc), B.support(r.exc_st.pc), *[B.support(e.g) for e in r.events])
    return B.any(out + [B.mk(v, FALSE, TRUE) for v in vs if v not in no and B.atom_of[v].op == 'raises'])


DEBUG = bool(os.environ.get('SA_BRIEF'))


def soft(chk, g, h, odd, inst, where, detail):
    """obligation g => h; outcomes of atoms the rule does not know (odd) may make it undecided, not violated"""
    if implies(g, h):
        chk.ok(inst, where)
        return True
    d = last_iteration(B.AND(g, B.NOT(h)))
    d = B.AND(d, core.theory(B.support(d)))
    if d == FALSE or not sat(d):
        chk.ok(inst, where)
        return True
    unk = [v for v in B.support(d) if has_unknown(B.atom_of[v]) or odd(B.atom_of[v])]
    sure = B.NOT(B.exists(B.NOT(d), unk)) if unk else d
    msg = '%s; failing case: %s' % (detail, brief(d, 1))
    if DEBUG and unk:
        msg += ' ODD: ' + ', '.join(show(B.atom_of[v]) for v in unk)
    if sat(sure):
        chk.bad(inst, where, msg)
    else:
        chk.undecided(inst, where, msg)
    return False


def exc_named(r, e, name):
    """raise events of a repo exception class (or an external one)"""
    for t in terms(e.args[0]) if e.args else []:
        if t.op == 'obj' and isinstance(t.args[1], Class):
            if any(c.name == name for c in t.args[1].mro()):
                return True
    return False


def raises_of(r, name):
    return [e for e in evs(r, 'raise') if exc_named(r, e, name)]


def gate_field(ctx):
    q = ctx.run(ctx.method('Context', 'trade_gate'))
    for g, t in q.value.ls:
        if t.op == 'attr' and sat(B.AND(g, q.st.pc)):
            return t.args[1]
    raise Undecided('field of the trade gate')


def gate_calls(ctx, r, name):
    f = gate_field(ctx)
    C = ctx.cls('Context')
    return [e for e in evs(r, 'call', '.' + name) if e.recv is not None and deep(e.recv).op == 'attr' and deep(e.recv).args[1] == f and typed(r, deep(e.recv).args[0], C)]


def acct_of(ctx, r):
    """the account object of the context"""
    q = ctx.run(ctx.method('Context', 'account'))
    for g, t in q.value.ls:
        if t.op == 'attr' and sat(B.AND(g, q.st.pc)):
            return mk('attr', mk('single', ctx.cls('Context')), t.args[1], *t.args[2:])
    raise Undecided('field of the account')


def fields_of(ctx, cls_, names):
    """private field behind each public property, or Undecided"""
    out = {}
    for n in names:
        q = ctx.run(ctx.method(cls_, n))
        ls = [t for g, t in q.value.ls if sat(B.AND(g, q.st.pc))]
        if len(ls) != 1 or ls[0].op != 'attr':
            raise Undecided('property %s.%s' % (cls_, n))
        out[n] = ls[0].args[1]
    return out


def calls_self(e, f):
    return e.kind == 'invoke' and e.fn == f.qual


def strpred(name, t):
    return atom('strpred', name, t)


def code_ok(code):
    pre = mk('slice', code, None, -5, None)
    return B.AND(B.OR(endswith(code, const('.XSHE')), endswith(code, const('.XSHG'))), strpred('isdigit', pre))


def code_odd(code):
    """atoms about the code other than suffix tests and character tests"""
    def odd(a):
        if code not in subterms(a):
            return False
        if a.op in ('ends', 'truthy', 'isnone', 'starts', 'strpred', 'isinst') and isinstance(a.args[-1] if a.op == 'strpred' else a.args[0], T):
            x = a.args[-1] if a.op == 'strpred' else a.args[0]
            while x.op == 'slice':
                x = x.args[0]
            return x is not code
        if a.op in ('eqn', 'eqc', 'lt', 'haskey', 'raises'):
            return not all(u.op in ('sym', 'app', 'lin', 'const', 'eqn', 'eqc', 'lt', 'attr', 'item', 'single', 'key', 'cat', 'haskey') and (u.op != 'app' or u.args[0] == 'len') for u in subterms(a))
        return True
    return odd


def members(c):
    return [nm for nm, _ in c.members]


# ---------------------------------------------------------------- A01
def order_run(ctx):
    r = ctx.run(ctx.func('account.api', 'order'))
    ps = r.func.params
    if len(ps) < 4:
        raise Undecided('parameters of order')
    return r, [r.sym[p] for p in ps[:4]]


def order_valid(ctx, code, amount, style, side, strict):
    S = ctx.cls('OrderSide')
    M, Lm = ctx.cls('MarketOrderStyle'), ctx.cls('LimitOrderStyle')
    ok = B.all([code_ok(code), isinst(amount, 'int'), B.NOT(eq(amount, const(0)))])
    known = B.any(eqc(side, const(n)) for n in members(S))
    inst = B.OR(isinst(style, M), isinst(style, Lm))
    if strict:
        return B.all([ok, B.OR(B.AND(isinst(side, 'str'), known) if False else known, core.isnone(side)), B.OR(inst, core.isnone(style))])
    return B.all([ok, B.any([known, B.NOT(truthy(side)), isinst(side, S)]), B.OR(inst, B.NOT(truthy(style)))])


@prop('A01')
def a01_order(ctx, chk):
    r, (code, amount, style, side) = order_run(ctx)
    chk.rule('order', 'an order reaches the broker only with a valid code, a non-zero int amount, a valid style and side; a valid one is never rejected')
    sent = gate_calls(ctx, r, 'order')
    if not sent:
        raise Undecided('no order reaches the trade gate')
    ok = order_valid(ctx, code, amount, style, side, False)
    strict = order_valid(ctx, code, amount, style, side, True)
    odd = code_odd(code)
    acc = acct_of(ctx, r)
    rec = [e for e in evs(r, 'setitem') if e.recv is not None and deep(e.recv) in (deep(single(field(r, {}, acc, 'orders'))),)]
    for e in sent + rec:
        w = 'sent' if e in sent else 'recorded'
        soft(chk, e.g, code_ok(code), odd, 'code of an order that is %s' % w, e.where(), 'an order with an invalid code is %s' % w)
        soft(chk, e.g, B.AND(isinst(amount, 'int'), B.NOT(eq(amount, const(0)))), odd, 'amount of an order that is %s' % w, e.where(), 'an order with an invalid amount is %s' % w)
        soft(chk, e.g, ok, odd, 'order that is %s' % w, e.where(), 'an invalid order is %s' % w)
    bad = raises_of(r, 'InvalidParam')
    soft(chk, r.st.pc, ok, odd, 'return', r.func.qual, 'order() returns normally for an invalid order')
    ar = B.any([any_raise(r, sent), gor(raises_of(r, 'InvalidCall')), gor(e for e in evs(r, 'raise') if e.fn == 'StopIteration')])
    ends = B.OR(r.st.pc, r.exc_st.pc if r.exc_st is not None else FALSE)     # a loop ends when its condition is false
    soft(chk, B.all([ends, B.NOT(ok), B.NOT(ar)]), gor(bad), odd, 'InvalidParam', r.func.qual, 'an invalid order is not rejected with InvalidParam')
    soft(chk, strict, B.NOT(gor(bad)), odd, 'valid orders', r.func.qual, 'a valid order is rejected')
    soft(chk, B.all([ends, strict, B.NOT(ar)]), gor(sent), odd, 'valid orders', r.func.qual, 'a valid order is not sent')


@prop('A01')
def a01_query(ctx, chk):
    r = ctx.run(ctx.func('account.api', 'get_orders'))
    order_id, code, status = (r.sym[p] for p in r.func.params[:3])
    S = ctx.cls('OrderStatus')
    chk.rule('query', 'get_orders rejects invalid codes and statuses with InvalidParam and accepts every valid one')
    bad = raises_of(r, 'InvalidParam')
    known = B.any(eqc(status, const(n)) for n in members(S))
    cok, sok = B.OR(code_ok(code), B.NOT(truthy(code))), B.any([known, B.NOT(truthy(status)), isinst(status, S)])
    odd = code_odd(code)
    ar = B.OR(any_raise(r), gor(raises_of(r, 'InvalidCall')))
    soft(chk, r.st.pc, B.AND(cok, sok), odd, 'return', r.func.qual, 'get_orders answers an invalid query')
    soft(chk, B.AND(B.NOT(B.AND(cok, sok)), B.NOT(ar)), gor(bad), odd, 'InvalidParam', r.func.qual, 'an invalid query is not rejected with InvalidParam')
    soft(chk, B.AND(B.OR(code_ok(code), core.isnone(code)), B.any([known, core.isnone(status), isinst(status, S)])), B.NOT(gor(bad)), odd, 'valid queries', r.func.qual, 'a valid query is rejected')


# ---------------------------------------------------------------- A02
def side_is(v, S, n, g=TRUE):
    return B.any(B.AND(B.AND(h, g), eq(t, mk('enum', S, n)) if t.op != 'enum' else (TRUE if t is enum(S, n) else FALSE)) for h, t in v.ls)


def enum(c, n):
    return mk('enum', c, n)


def once(chk, es, inst, detail):
    """no two of these events on one path, none in a loop"""
    ok = True
    for i, a in enumerate(es):
        for l in a.loops:
            # a loop that is always left after the event runs it once
            again = B.AND(B.AND(a.g, l.end_pc if hasattr(l, 'end_pc') else a.g), TRUE)
            if sat(again):
                ok = False
                chk.check(False, inst, a.where(), '%s (in a loop)' % detail, unknown=l.kind == 'for' and l.raw is None)
        for b in es[i + 1:]:
            if sat(B.AND(a.g, b.g)):
                ok = False
                chk.bad(inst, b.where(), detail)
    if ok:
        chk.ok(inst, es[0].where() if es else '')


@prop('A02')
def a02_fields(ctx, chk):
    r, (code, amount, style, side) = order_run(ctx)
    S, A = ctx.cls('OrderSide'), ctx.cls('OrderAction')
    acc = acct_of(ctx, r)
    sent = gate_calls(ctx, r, 'order')
    if not sent:
        raise Undecided('no order reaches the trade gate')
    chk.rule('fields', 'the order handed to the broker is the one that was asked for')
    neg = lt(amount, const(0))
    for e in sent:
        w = e.where()
        for g, o in under(e.args[0], e.g) if e.args else []:
            if not typed(r, o, ctx.cls('Order')):
                chk.undecided('order object', w, show(o))
                continue
            F = lambda n: field(r, e.heap, o, n)
            chk.value(F('code'), g, code, 'code', w, 'the code')
            chk.value(F('amount'), B.AND(g, neg), mk('lin', *_neg(amount)), 'amount of a sell', w, 'the amount of a close order')
            chk.value(F('amount'), B.AND(g, B.NOT(neg)), amount, 'amount of a buy', w, 'the amount of an open order')
            chk.value(F('action'), B.AND(g, neg), enum(A, 'close'), 'negative amount closes', w, 'the action for a negative amount')
            chk.value(F('action'), B.AND(g, B.NOT(neg)), enum(A, 'open'), 'positive amount opens', w, 'the action for a positive amount')
            chk.value(F('side'), B.AND(g, B.NOT(truthy(side))), enum(S, 'long'), 'default side', w, 'the side without a given one')
            for n in members(S):
                chk.value(F('side'), B.AND(g, eqc(side, const(n))), enum(S, n), 'side %s' % n, w, 'the side for side=%r' % n)
            chk.value(F('style'), B.AND(g, truthy(style)), style, 'style', w, 'the style')
            for h, t in under(F('style'), B.AND(g, B.NOT(truthy(style)))):
                chk.check(typed(r, t, ctx.cls('MarketOrderStyle')), 'default style', w, 'without a style the order is %s' % show(t), unknown=has_unknown(t))
                chk.value(F('price'), h, terms(field(r, e.heap, t, 'price')), 'price of a market order', w, 'the price')
            pr = field(r, e.heap, style, 'price')
            chk.value(F('price'), B.AND(g, truthy(style)), terms(pr), 'price', w, 'the price')
            chk.value(F('status'), g, enum(ctx.cls('OrderStatus'), 'new'), 'status', w, 'the status of a new order')
    chk.rule('once', 'an order is submitted exactly once')
    once(chk, sent, 'one submission', 'an order may be submitted more than once')


def _neg(t):
    x = core.scale(t, -1)
    return x.args


@prop('A02')
def a02_id(ctx, chk):
    r, (code, amount, style, side) = order_run(ctx)
    acc = acct_of(ctx, r)
    sent = gate_calls(ctx, r, 'order')
    if not sent:
        raise Undecided('no order reaches the trade gate')
    chk.rule('id', 'order() returns the id of the order that was submitted and recorded, None when the broker interface failed')
    orders = deep(single(field(r, {}, acc, 'orders')))
    put = [e for e in evs(r, 'setitem') if e.recv is not None and deep(e.recv) is orders]
    state = any(in_orders(r, acc, e.heap, B.AND(e.g, g), o, field(r, e.heap, o, 'order_id')) != FALSE for e in sent for g, o in e.args[0].ls if typed(r, o, ctx.cls('Order')))
    if not put and not state and writes_to(r, orders):
        raise Undecided('form of the order record')
    for x in evs(r, ('delitem', 'clear')):
        if x.recv is not None and deep(x.recv) is orders:
            chk.bad('stays recorded', x.where(), 'an order is removed from the account')
    for e in sent:
        w = e.where()
        okg = B.AND(ok_guard(e), r.st.pc)
        for g, o in under(e.args[0], e.g):
            if not typed(r, o, ctx.cls('Order')):
                continue
            oid = field(r, e.heap, o, 'order_id')
            for h, t in under(oid, g):
                for t1 in core.MUOUT.get(t, (t,)):
                    chk.check(core.is_str(t) or core.is_str(t1), 'text id', w, 'the id is %s, not a text' % show(t1), unknown=has_unknown(t1) or t1.op not in ('res', 'app', 'lin', 'const', 'and'))
                chk.value(r.value, B.AND(h, okg), t, 'returned id', w, 'the value order() returns for a submitted order')
            now = in_orders(r, acc, e.heap, g, o, oid)
            rec = B.any(B.all([p.g, a, b, eq(k, t)]) for p in put for a, k in p.args[0].ls for b, x in p.args[1].ls if x is o for _, t in oid.ls)
            chk.implies(B.AND(g, okg), B.OR(now, rec), 'recorded', w, 'a submitted order may be missing in the account')
            rec = B.any(B.all([p.g, a, b, eq(k, t)]) for p in put if p.i < e.i for a, k in p.args[0].ls for b, x in p.args[1].ls if x is o for _, t in oid.ls)
            chk.implies(g, B.OR(now, rec), 'recorded before it is sent', w, 'an order is handed to the broker before the account knows it')
        chk.implies(B.AND(e.g, raised(e)), r.st.pc, 'failure is contained', w, 'an exception of the broker interface reaches the strategy')
        chk.value(r.value, B.all([e.g, raised(e), r.st.pc]), NONE, 'None on failure', w, 'the value order() returns when the submission failed')
    for p in put:
        for a, k in under(p.args[0], p.g):
            for b, x in under(p.args[1], a):
                ok = B.any(B.AND(h, eq(k, t)) for h, t in field(r, p.heap, x, 'order_id').ls) if typed(r, x, ctx.cls('Order')) else FALSE
                chk.implies(b, ok, 'keyed by id', p.where(), 'an order is recorded under another key than its id')


def in_orders(r, acc, heap, g, o, oid):
    """guard: the orders of the account hold the order under its id"""
    out = FALSE
    try:
        for h, d in under(field(r, heap, acc, 'orders'), g):
            for x in r.interp.ops(d, _mkst(heap, h)):
                if x[0] == 'set':
                    out = B.OR(out, B.any(B.all([h, x[1], a, b, eq(k, t)]) for a, k in x[2].ls for b, v in x[3].ls if v is o for _, t in oid.ls))
    except (AttributeError, TypeError, KeyError):
        pass
    return out


def writes_to(r, d):
    return [e for e in r.events if e.kind in ('setitem', 'delitem', 'clear', 'update', 'setattr', 'set', 'call') and any(isinstance(x, T) and deep(x) is d for x in [e.recv] + [t for a in e.args if isinstance(a, V) for _, t in a.ls])]


WIDE = ('hex', 'int', 'bytes', 'urn')


def wide_random(t):
    """an id made of a whole random uuid: a repetition is out of the question"""
    subs = list(core.subterms(t))
    if any(s.op == 'app' and s.args[0] in ('mod', 'bitand', 'and', 'rshift', 'floordiv', 'hash') or s.op in ('slice', 'item', 'lin') for s in subs):
        return False
    return any(s.op == 'res' and s.args[1] in ('uuid.uuid4', 'secrets.token_hex') for s in subs)


@prop('A23')
def a23(ctx, chk):
    r, _ = order_run(ctx)
    acc = acct_of(ctx, r)
    chk.rule('unused id', 'the id under which a new order is recorded is not the id of any order the account knows')
    orders = deep(single(field(r, {}, acc, 'orders')))
    conts = {orders} | {t for e in evs(r, 'set') if e.fn == field_of(orders) and e.recv is acc for _, t in e.args[0].ls}
    put = [e for e in evs(r, 'setitem') if e.recv is not None and (deep(e.recv) in conts or e.recv in conts)]
    news = [(p, a, k) for p in put for a, k in under(p.args[0], p.g)]
    for e in gate_calls(ctx, r, 'order'):
        for g, d in under(field(r, e.heap, acc, 'orders'), e.g):
            for x in r.interp.ops(d, _mkst(e.heap, g)):
                if x[0] == 'set':
                    news += [(e, B.all([g, x[1], a]), k) for a, k in x[2].ls if sat(B.all([g, x[1], a])) and not any(k is k2 for _, _, k2 in news)]
    if not news:
        raise Undecided('form of the order record')
    for p, a, k in news:
        if True:
            if wide_random(k):
                chk.ok('unused', p.where())
                continue
            g = B.AND(a, B.NOT(B.any(B.AND(q.g, eq(k, k2)) for q in put if q.i < p.i and q is not p for _, k2 in q.args[0].ls)))
            have = [B.mk(v, FALSE, TRUE) for v in prior(r, orders, k, p)] or [atom('haskey', orders, k)]
            form = deep_forms(k)
            chk.check(not sat(B.AND(g, B.all(have))) if have else False, 'unused', p.where(),
                      'the order is recorded under %s, which may be the id of an order the account already has: that order is lost' % show(k), unknown=not form)
    chk.rule('others kept', 'placing an order changes no other entry of the orders')
    for x in evs(r, ('delitem', 'clear', 'update')):
        if x.recv is not None and deep(x.recv) is orders:
            chk.check(False, 'kept', x.where(), 'other orders of the account are removed or replaced', unknown=x.kind == 'update')
    for e in evs(r, 'set'):
        if e.fn == field_of(orders) and e.recv is acc:
            for g, d in under(e.args[0], e.g):
                if deep(d) is orders:
                    continue
                st = _mkst(e.heap, e.g)
                try:
                    os = r.interp.ops(d, st) if d.op == 'obj' else None
                except Exception:
                    os = None
                keep = unk = os is None
                for o in os or ():
                    if o[0] == 'upd' and deep(o[2]) is orders:
                        keep = keep or implies(g, o[1])
                    elif o[0] == 'each' and deep(o[2].raw) is orders or o[0] == 'each' and mentions(o[2].raw, orders):
                        for x in o[3]:
                            if x[0] == 'set':
                                if implies(B.all([g, o[2].pc, o[2].more]), x[1]) and o[2].filt == TRUE:
                                    keep = True
                            else:
                                unk = True
                    elif o[0] != 'set':
                        unk = True
                chk.check(keep, 'kept', e.where(), 'other orders of the account are dropped', unknown=unk)


def field_of(t):
    while isinstance(t, T) and t.op == 'ver':
        t = t.args[0]
    return t.args[1] if isinstance(t, T) and t.op == 'attr' else None


def prior(r, orders, k, p):
    """the atoms that say whether the id is among the orders when it is recorded"""
    return {v for v in B.support(p.g) if B.atom_of[v].op == 'haskey' and deep(B.atom_of[v].args[0]) is orders and B.atom_of[v].args[1] is k}


def deep_forms(k):
    """is the term of the id fully interpreted?"""
    return all(s.op in ('res', 'app', 'lin', 'const', 'muout', 'mu', 'cat', 'fmt', 'cell', 'attr', 'sym', 'and', 'single', 'obj', 'frame', 'ext', 'slice') for s in core.subterms(k))


# ---------------------------------------------------------------- A03 cancelling
def cancel_rules(chk, ctx, r, oid, acc, gpre, what):
    orders = deep(single(field(r, {}, acc, 'orders')))
    sent = gate_calls(ctx, r, 'cancel_order')
    if not sent:
        raise Undecided('no cancellation reaches the trade gate')
    key = core.cat([oid])
    known = B.any(B.mk(v, FALSE, TRUE) for v in set().union(*[B.support(e.g) for e in r.events]) if B.atom_of[v].op == 'haskey'
                  and deep(B.atom_of[v].args[0]) is orders and B.atom_of[v].args[1] in (key,))
    if known == FALSE:
        if any(mentions(B.atom_of[v], orders) and not (B.atom_of[v].op == 'haskey' and B.atom_of[v].args[1] is oid) for e in sent for v in B.support(e.g)):
            raise Undecided('form of the test for known orders')
        known = atom('haskey', orders, key)
    for e in sent:
        w = e.where()
        chk.implies(e.g, known, 'only own orders', w, 'an unknown order id is forwarded to the broker')
        for g, t in under(e.args[0], e.g):
            chk.check(t is key, 'that order', w, 'the broker is asked to cancel %s' % show(t), unknown=has_unknown(t) and t is not oid)
        chk.check(not sat(B.all([e.g, raised(e), B.NOT(swallowed(r, e))])), 'failure is contained', w, 'an exception of the broker interface reaches the strategy')
    ar = B.OR(any_raise(r, sent), gor(raises_of(r, 'InvalidCall')))
    chk.implies(B.all([gpre, known, B.NOT(ar), B.NOT(loop_escapes(r))]), gor(sent), what, sent[0].where(), 'the cancellation of a known order is not forwarded')
    for i, a in enumerate(sent):
        for b in sent[i + 1:]:
            chk.check(not sat(B.AND(a.g, b.g)), 'once', b.where(), 'a cancellation is forwarded twice')
    return sent


@prop('A03')
def a03_one(ctx, chk):
    r = ctx.run(ctx.func('account.api', 'cancel_order'))
    oid = r.sym[r.func.params[0]]
    chk.rule('cancel', 'cancel_order forwards the id of a known order to the broker, once, and no other id')
    sent = cancel_rules(chk, ctx, r, oid, acct_of(ctx, r), TRUE, 'known orders')
    for e in sent:
        chk.check(not e.loops, 'once', e.where(), 'a cancellation may be forwarded several times', unknown=True)


@prop('A03')
def a03_batch(ctx, chk):
    r = ctx.run(ctx.func('account.api', 'batch_cancel_orders'))
    ids = r.sym[r.func.params[0]]
    chk.rule('batch', 'batch_cancel_orders cancels each of the orders; a failing one does not keep the others from being cancelled')
    sent = gate_calls(ctx, r, 'cancel_order')
    if not sent:
        raise Undecided('no cancellation reaches the trade gate')
    Ls = innermost(sent)
    M = Ls[0]
    g = source_loop(chk, r, Ls[0], ids, 'order ids', sent[0].where())
    while M.src is not None:
        M = M.src
    cancel_rules(chk, ctx, r, mk('elem', M.key, M.occ), acct_of(ctx, r), g, 'every known order')


def innermost(es):
    """the loop of these events"""
    Ls = list({e.loops[-1].id: e.loops[-1] for e in es if e.loops}.values())
    if len(Ls) != 1:
        raise Undecided('loop of the batch')
    return Ls


def source_loop(chk, r, L, c0, what, where):
    """the loop goes through all elements of c0, possibly by way of local lists; returns the guard of a pass"""
    g = TRUE
    while True:
        g = B.all([g, L.pc, L.more])
        if L.kind != 'for':
            raise Undecided('loop of the %s' % what)
        no_break(chk, L, what, where)
        whole(chk, r, L.raw, what, where)
        if L.src is None:
            break
        L = L.src
    c, w = unwrap(L.raw)
    while c.op == 'slice':
        c, w = unwrap(c.args[0])
    if c is not c0:
        raise Undecided('loop over %s' % show(L.raw))
    return g


# ---------------------------------------------------------------- A04 batches of orders
@prop('A04')
def a04(ctx, chk):
    o = ctx.func('account.api', 'order')
    r = ctx.run(ctx.func('account.api', 'batch_submit_orders'), opaque=[o])
    orders = r.sym[r.func.params[0]]
    chk.rule('batch', 'every order of the batch is submitted with its own fields; the result has one entry per order, in order: its id, or None')
    sub = [e for e in evs(r, 'opaque', o.qual)]
    if not sub:
        raise Undecided('orders are not submitted through order()')
    Ls = {l.id: l for e in sub for l in e.loops}.values()
    if len(Ls) != 1:
        raise Undecided('loop of the batch')
    L, = Ls
    w = sub[0].where()
    c, ws = unwrap(L.raw)
    if c is not orders or L.kind != 'for':
        raise Undecided('loop over %s' % show(L.raw))
    whole(chk, r, L.raw, 'orders', w)
    no_break(chk, L, 'orders', w)
    chk.check(not [n for n, _ in ws if n in ('sorted', 'reversed', 'set', 'frozenset')], 'order of the batch', w, 'the orders are submitted in the order %s' % show(L.raw))
    el = mk('elem', L.key, L.occ)
    has = lambda k: atom('haskey', el, const(k))
    it = lambda k: mk('item', el, const(k))
    ps = o.params
    for e in sub:
        for k, n in enumerate(ps[:4]):
            v = e.arg(k, n)
            nm = ('code', 'amount', 'style', 'side')[k]
            if v is None:
                chk.implies(e.g, B.NOT(has(nm)), nm, e.where(), 'the %s of an order of the batch is not passed on' % nm)
                continue
            d = FALSE
            unk = False
            for g, t in under(v, B.AND(e.g, has(nm))):
                if t is not it(nm):
                    d = B.OR(d, B.AND(g, B.NOT(eq(t, it(nm)))))
                    unk = unk or has_unknown(t)
            d = B.AND(d, truthy(it(nm)))
            chk.check(not sat(d), nm, e.where(), 'the %s of an order of the batch is passed as %s' % (nm, [show(t) for _, t in v.ls]), unknown=unk)
            for g, t in under(v, B.AND(e.g, B.NOT(has(nm)))):
                if k >= 2:
                    dflt = o.defaults.get(n) if hasattr(o, 'defaults') and isinstance(o.defaults, dict) else None
                    chk.check(t is NONE or is_const(t) and (not cval(t) or (nm == 'side' and cval(t) == 'long')), 'no %s' % nm, e.where(), 'an order without %s is submitted with %s' % (nm, show(t)), unknown=not is_const(t))
        sw = swallowed(r, e)
        chk.implies(B.AND(e.g, raised(e)), sw, 'isolation', e.where(), 'a failing order of a batch keeps the others from being submitted')
    both = B.AND(has('code'), has('amount'))
    ar = any_raise(r, sub)
    good = B.all([both, truthy(it('code')), truthy(it('amount')), B.NOT(core.isnone(it('code'))), B.NOT(core.isnone(it('amount')))])
    chk.implies(B.all([L.pc, L.more, good, B.NOT(ar)]), gor(sub), 'every order', w, 'an order of the batch is not submitted')
    for e in evs(r, 'raise'):
        if e.loops and e.extra != 'implicit':
            chk.check(not sat(B.AND(e.g, B.NOT(_caught(r, e)))), 'isolation', e.where(), 'an incomplete order of a batch keeps the others from being submitted')
    chk.rule('result', 'one entry per order of the batch')
    for g, t in r.value.ls:
        if not sat(B.AND(g, r.st.pc)):
            continue
        segs = r.interp.segs(t, _mkst(r.st.heap, B.AND(g, r.st.pc)))
        segs = [x for x in segs if sat(B.AND(x[1], r.st.pc))]
        if len(segs) != 1 or segs[0][0] != 'each' or segs[0][2].id != L.id and not same_source(segs[0][2], L) or any(x[0] != 'e' for x in segs[0][3]):
            chk.undecided('entries', w, 'form of the result %s' % show(t))
            continue
        ents = segs[0][3]
        it_g = B.AND(L.pc, L.more)
        tot = B.any(x[1] for x in ents)
        chk.implies(B.all([it_g, B.NOT(loop_escapes(r))]), B.OR(tot, any_raise(r, sub)), 'an entry for every order', w, 'an order of the batch has no entry in the result')
        for i, x in enumerate(ents):
            for y in ents[i + 1:]:
                chk.check(not sat(B.AND(B.AND(x[1], y[1]), it_g)), 'one entry', w, 'an order of the batch has two entries in the result')
            for e in sub:
                res = e.res
                okg = B.AND(ok_guard(e), B.AND(it_g, x[1]))
                chk.value(x[2], okg, res, 'id of the order', w, 'the entry of a submitted order')
                chk.value(x[2], B.all([e.g, raised(e), it_g, x[1]]), NONE, 'None for a failed order', w, 'the entry of a failed order')
            chk.value(x[2], B.AND(B.AND(it_g, x[1]), B.NOT(gor(sub))), NONE, 'None for an invalid order', w, 'the entry of an order that was not submitted')


def _caught(r, e):
    """guard: the explicitly raised exception is caught inside the loop"""
    g = FALSE
    for h in evs(r, 'handler'):
        if h.i > e.i and h.args:
            for a, t in h.args[0].ls:
                if any(t is x for x in terms(e.args[0])):
                    g = B.OR(g, B.all([h.g, a]))
    return B.OR(g, B.NOT(e.g))


def same_source(a, b):
    return a.key is b.key


# ---------------------------------------------------------------- A05 queries
def dict_entries(r, heap, t, pc):
    """[(guard, key V, value V, loop or None, outer guard)] written to a dict, oldest first; None when the form is unknown"""
    out = []
    for o in r.interp.ops(t, _mkst(heap, pc)):
        if o[0] == 'set':
            out.append((o[1], o[2], o[3], None, TRUE))
        elif o[0] == 'each':
            if not o[3]:
                return None
            for s in o[3]:
                if s[0] != 'set':
                    return None
                out.append((s[1], s[2], s[3], o[2], o[1]))
        else:
            return None
    return out


@prop('A05')
def a05(ctx, chk):
    r = ctx.run(ctx.func('account.api', 'get_orders'))
    oid, code, status = (r.sym[p] for p in r.func.params[:3])
    acc = acct_of(ctx, r)
    orders = deep(single(field(r, {}, acc, 'orders')))
    OS = ctx.cls('OrderStatus')
    U, O = ctx.cls('UserOrder'), ctx.cls('Order')
    chk.rule('filter', 'get_orders returns exactly the orders that meet all given conditions, by order id')
    w = r.func.qual
    src = {}
    for e in evs(r, 'new'):
        if e.res is not None and isinstance(e.res, T) and typed(r, e.res, U):
            a = e.args[0] if e.args else next(iter(e.kw.values()), None)
            if isinstance(a, V):
                src[e.res] = (e, a)
    kid = core.cat([oid])
    f = fields_of(ctx, 'Order', ('code', 'status', 'order_id'))
    covered = FALSE
    for e in evs(r, 'raise'):
        if e.fn in ('KeyError', 'IndexError', 'AttributeError') and e.extra == 'implicit':
            hk = [v_ for v_ in B.support(e.g) if B.atom_of[v_].op == 'haskey' and deep(B.atom_of[v_].args[0]) is orders]
            left = B.AND(e.g, r.exc_st.pc)
            if hk and sat(left):
                chk.check(not sat(B.AND(left, B.all([B.NOT(B.mk(v_, FALSE, TRUE)) for v_ in hk]))), 'unknown id', e.where(), 'a query for an order the account does not have raises %s' % e.fn)
    for g, t in r.value.ls:
        rg = B.AND(g, r.st.pc)
        if not sat(rg):
            continue
        if not r.interp.is_map(t):
            chk.undecided('result', w, 'form of the result %s' % show(t))
            return
        ents = dict_entries(r, r.st.heap, t, rg)
        if ents is None:
            chk.undecided('result', w, 'form of the result')
            return
        for x, k, v, L, og in ents:
            eg = B.all([rg, x, og])
            for h, u in v.ls:
                h = B.AND(h, eg)
                if not sat(h):
                    continue
                if u not in src:
                    chk.check(False, 'views', w, 'the result holds %s' % show(u), unknown=has_unknown(u) or not typed(r, u, O))
                    continue
                for h2, o in under(src[u][1], h):
                    d = deep(o)
                    if d.op != 'item' or d.args[0] is not orders:
                        chk.undecided('orders of the account', w, show(o))
                        continue
                    ck = d.args[1]
                    F = lambda n: field(r, r.st.heap, o, n)
                    idv = [eq(ck, kid), B.any(B.AND(a, eq(b, kid)) for a, b in F('order_id').ls)]
                    ids = idv[0]
                    want = B.OR(B.NOT(truthy(oid)), ids)
                    ss, sa_ = status_eq(r, OS, F('status'), status)
                    h2 = B.all([h2, sa_, agree(idv)])
                    chk.implies(h2, want, 'order_id', w, 'the result holds an order with another id')
                    cs = B.any(B.AND(a, eq(b, code)) for a, b in F('code').ls)
                    chk.implies(h2, B.OR(B.NOT(truthy(code)), cs), 'code', w, 'the result holds an order of another code')
                    chk.implies(h2, B.OR(B.NOT(truthy(status)), ss), 'status', w, 'the result holds an order with another status')
                    for a, b in under(k, h2):
                        oks = [z for _, z in F('order_id').ls] + [ck]
                        chk.check(b in oks, 'by order id', w, 'an order is listed under %s' % show(b), unknown=has_unknown(b))
                    full = B.all([want, B.OR(B.NOT(truthy(code)), cs), B.OR(B.NOT(truthy(status)), ss)])
                    # completeness of this entry
                    pre = B.all([rg, og])
                    if L is not None:
                        M = L
                        while getattr(M, 'src', None) is not None:
                            M = M.src
                        c, ws = unwrap(deep(M.raw)) if M.raw is not None else (None, [])
                        if c is not None and c is not orders:
                            chk.undecided('all orders', w, 'iterates %s' % show(M.raw))
                            continue
                        whole(chk, r, M.raw, 'orders', w)
                        no_break(chk, M, 'orders', w)
                        no_break(chk, L, 'orders', w)
                        covered = B.OR(covered, B.AND(og, g))
                        chk.implies(B.all([pre, L.more, full, sa_, agree(idv)]), h2, 'every order', w, 'an order that meets the conditions is missing')
                    else:
                        hk = B.any(B.mk(v_, FALSE, TRUE) for v_ in B.support(B.OR(h2, r.st.pc)) if B.atom_of[v_].op == 'haskey' and deep(B.atom_of[v_].args[0]) is orders)
                        covered = B.OR(covered, B.AND(truthy(oid), B.any([h2, B.NOT(hk), B.NOT(full), B.NOT(B.AND(sa_, agree(idv)))])))
    chk.implies(r.st.pc, covered, 'every query', w, 'orders that meet the conditions are missing')


def agree(alts):
    """guard: these conditions, which mean the same, agree"""
    return B.OR(B.all(alts), B.all([B.NOT(x) for x in alts]))


def status_eq(r, OS, sv, status):
    """(guard: the order status (V) is the asked one, given as text or as status; guard: the ways to ask agree)"""
    st = isinst(status, OS)
    val = lambda t: field(r, {}, t, 'value')
    va = [B.any(B.AND(a, B.any(B.all([x, z, eq(y, u)]) for x, y in val(b).ls for z, u in val(status).ls)) for a, b in sv.ls),
          B.any(B.AND(a, eq(b, status)) for a, b in sv.ls)]
    vb = [B.any(B.AND(a, B.any(B.AND(x, eq(y, status)) for x, y in val(b).ls)) for a, b in sv.ls),
          B.any(B.AND(a, eq(b, mk('enumby', OS, status))) for a, b in sv.ls),
          B.any(B.all([a, eqc(status, const(n)), eqc(b, enum(OS, n))]) for a, b in sv.ls for n in members(OS))]
    # the values of the statuses are non-empty text, so a status is never an absent filter by its value
    full = B.all([truthy(z) for _, z in val(status).ls]) if all(isinstance(x, ast.Constant) and x.value for _, x in OS.members) else TRUE
    return B.OR(B.AND(st, va[0]), B.AND(B.NOT(st), vb[0])), B.OR(B.all([st, agree(va), full]), B.AND(B.NOT(st), agree(vb)))


# ---------------------------------------------------------------- A06 what the strategy sees
ORDER_VIEW = (('code', 'code', None), ('status', 'status', 'value'), ('side', 'side', 'value'), ('style', 'style', None), ('order_price', 'price', None),
              ('amount', 'amount', None), ('filled_amount', 'filled_amount', None), ('avg_price', 'avg_cost', None), ('action', 'action', 'value'),
              ('order_id', 'order_id', None), ('commission', 'commission', None), ('err_msg', 'err_msg', None), ('canceled_amount', 'canceled_amount', None),
              ('create_time', 'create_time', None), ('entrust_time', 'entrust_time', None), ('deal_balance', 'deal_balance', None))
POS_VIEW = (('security', 'code', None), ('code', 'code', None), ('total_amount', 'amount', None), ('locked_amount', 'locked_amount', None),
            ('closeable_amount', 'available_amount', None), ('avg_cost', 'avg_cost', None), ('acc_avg_cost', 'avg_cost', None), ('side', 'side', 'value'),
            ('last_price', 'last_price', None), ('price', 'last_price', None), ('position_value', 'position_value', None), ('value', 'position_value', None))


def view_of(ctx, cls_, sys_cls):
    """a run of the constructor of a view on a symbolic system object: (run, view term, system object)"""
    C = ctx.cls(cls_)
    init = ctx.method(C, '__init__')
    r = ctx.run(init, **{init.params[1]: sys_cls})
    return r, r.sym[init.params[0]], r.sym[init.params[1]]


def view_rules(ctx, chk, cls_, sys_cls, table):
    r, u, s = view_of(ctx, cls_, sys_cls)
    for name, sysn, sub in table:
        w = '%s.%s' % (cls_, name)
        v = field(r, r.st.heap, u, name)
        want = field(r, r.st.heap, s, sysn)
        if sub:
            ws = set()
            for _, t in want.ls:
                ws |= {x for _, x in field(r, r.st.heap, t, sub).ls}
            ws |= {NONE}
        else:
            ws = {t for _, t in want.ls}
        for g, t in v.ls:
            if not sat(g):
                continue
            if t is NONE and NONE not in {x for _, x in want.ls} and sub:
                # nothing to show only when the object has none
                h = B.any(B.AND(a, core.isnone(x)) for a, x in want.ls)
                tr = B.any(B.AND(a, B.NOT(truthy(x))) for a, x in want.ls)
                chk.implies(g, B.OR(h, tr), name, w, 'None is shown for an existing %s' % sysn)
                continue
            chk.check(t in ws, name, w, '%s shows %s instead of the %s' % (w, show(t), sysn), unknown=has_unknown(t))


@prop('A06')
def a06_user(ctx, chk):
    user_views(ctx, chk, ('portfolio',))


@prop('A06')
def a06_orders(ctx, chk):
    chk.rule('order', 'the attributes of a listed order are those of the order')
    view_rules(ctx, chk, 'UserOrder', 'Order', ORDER_VIEW)


@prop('A06')
def a06_positions(ctx, chk):
    chk.rule('position', 'the attributes of a listed position are those of the position')
    view_rules(ctx, chk, 'UserPosition', 'Position', POS_VIEW)


@prop('A06')
def a06_portfolio(ctx, chk):
    P = ctx.cls('Portfolio')
    init = ctx.method(P, '__init__')
    chk.rule('cash', 'the portfolio shows the cash of the account')
    r = ctx.run(init, **{init.params[1]: 'Account'})
    p, acc = r.sym[init.params[0]], r.sym[init.params[1]]
    for n, an in (('total_value', 'total_assert'), ('available_cash', 'available_cash'), ('locked_cash', 'locked_cash')):
        v = field(r, r.st.heap, p, n)
        ws = {t for _, t in field(r, r.st.heap, acc, an).ls}
        for g, t in v.ls:
            chk.check(t in ws, n, 'Portfolio.%s' % n, 'Portfolio.%s is %s' % (n, show(t)), unknown=has_unknown(t))
    chk.rule('positions', 'the portfolio lists every position of the account under its code, long and short apart; a missing one reads as empty')
    for n, an, sd in (('long_positions', 'long_positions', 'long'), ('positions', 'long_positions', 'long'), ('short_positions', 'short_positions', 'short')):
        m = ctx.method(P, n)
        q = ctx.run(m, args={m.params[0]: p}, st=_mkst(r.st.heap))
        w = 'Portfolio.%s' % n
        src = {}
        for e in evs(q, 'new'):
            if isinstance(e.res, T) and typed(q, e.res, ctx.cls('UserPosition')):
                a = e.args[0] if e.args else next(iter(e.kw.values()), None)
                src[e.res] = a
        base_ = deep(single(field(q, r.st.heap, acc, an)))
        for g, t in q.value.ls:
            rg = B.AND(g, q.st.pc)
            if not sat(rg):
                continue
            ents = dict_entries(q, q.st.heap, t, rg)
            if not ents:
                ents = [(B.AND(e.g, TRUE), e.args[0], e.args[1], e.loops[-1] if e.loops else None, TRUE) for e in evs(q, 'setitem') if e.recv is t]
            if not ents:
                chk.undecided('contents', w, 'form of the mapping %s' % show(t))
                continue
            done = FALSE
            for x, k, v, L, og in ents:
                if L is None:
                    chk.undecided('contents', w, 'entries written one by one')
                    continue
                c, ws = unwrap(deep(L.raw)) if L.raw is not None else (None, [])
                if c is not base_:
                    chk.check(False, 'account positions', w, '%s lists the positions of %s' % (w, show(L.raw)), unknown=c is None or c.op != 'attr')
                    continue
                whole(chk, q, L.raw, 'positions', w)
                no_break(chk, L, 'positions', w)
                chk.implies(B.all([rg, og, L.pc, L.more]), B.OR(x, any_raise(q)), 'every position', w, 'some positions are not listed')
                done = B.OR(done, og)
                for h, u in under(v, B.all([rg, x])):
                    if u not in src:
                        chk.undecided('views', w, show(u))
                        continue
                    for h2, o in under(src[u], h):
                        d = deep(o)
                        ok = d.op == 'item' and d.args[0] is base_
                        chk.check(ok, 'that position', w, 'the view shows %s' % show(o), unknown=has_unknown(o) or d.op not in ('item', 'attr'))
                        for h3, kk in under(k, h2):
                            chk.check(ok and (deep(kk) is d.args[1] or kk in terms(field(q, q.st.heap, o, 'code'))), 'under its code', w, 'a position is listed under %s' % show(kk), unknown=has_unknown(kk) or not ok)
            chk.implies(rg, done, 'every position', w, 'the positions are not listed')
            if t.op == 'obj' and isinstance(t.args[1], Class):
                gi = t.args[1].find('__getitem__')
                if isinstance(gi, Func):
                    empty_rules(ctx, chk, q, t, gi, sd, w)
            else:
                chk.bad('missing positions', w, 'a code without position is not shown as an empty position')


@prop('A06')
def a06_value(ctx, chk):
    P = ctx.cls('Portfolio')
    init = ctx.method(P, '__init__')
    chk.rule('value', 'the position value of the portfolio adds up the values of its long positions')
    r = ctx.run(init, **{init.params[1]: 'Account'})
    p, acc = r.sym[init.params[0]], r.sym[init.params[1]]
    m = ctx.method(P, 'position_value')
    q = ctx.run(m, args={m.params[0]: p}, st=_mkst(r.st.heap))
    w = 'Portfolio.position_value'
    d = deep(single(field(q, r.st.heap, acc, 'long_positions')))
    for g, t in q.value.ls:
        rg = B.AND(g, q.st.pc)
        if not sat(rg):
            continue
        if t.op != 'app' or t.args[0] not in ('sum', 'math.fsum') or not isinstance(t.args[1], T):
            if is_const(t) or mentions(t, p) and not has_unknown(t) and not core.as_lin(t)[0]:
                chk.bad('sum', w, 'the position value is %s' % show(t))
            else:
                chk.undecided('sum', w, 'form of the value %s' % show(t))
            continue
        segs = [x for x in q.interp.segs(t.args[1], _mkst(q.st.heap, rg)) if sat(B.AND(x[1], rg))]
        if len(segs) != 1 or segs[0][0] != 'each' or any(x[0] != 'e' for x in segs[0][3]):
            chk.undecided('sum', w, 'form of the sum %s' % show(t))
            continue
        L = M = segs[0][2]
        while getattr(M, 'src', None) is not None:
            M = M.src
        c, ws = unwrap(deep(M.raw)) if M.raw is not None else (None, [])
        view = None
        if c is not None and c.op == 'obj':
            srcs = {l.id: unwrap(deep(l.raw))[0] for e in evs(q, 'setitem') if e.recv is c for l in e.loops[-1:] if l.raw is not None}
            if len(srcs) == 1:
                view, c = c, next(iter(srcs.values()))
        if c is not d:
            chk.check(False, 'sum', w, 'the position value adds up over %s' % show(M.raw), unknown=c is None or c.op != 'attr')
            continue
        whole(chk, q, M.raw, 'positions', w)
        chk.implies(B.AND(rg, B.AND(L.pc, L.more)), B.OR(gor_(x[1] for x in segs[0][3]), any_raise(q)), 'every position', w, 'some positions are not added up')
        for x in segs[0][3]:
            for h, u in under(x[2], B.AND(rg, x[1])):
                b = u
                ok = False
                if u.op == 'attr' and deep(u.args[0]).op == 'item' and deep(u.args[0]).args[0] is d:
                    ok = u in terms(field(q, q.st.heap, u.args[0], 'position_value'))
                elif view is not None and u.op == 'attr':
                    ok = deep(u.args[0]).op == 'item' and deep(u.args[0]).args[0] is view and u.args[1] in ('position_value', 'value')
                chk.check(ok, 'value', w, 'the position value adds up %s' % show(u), unknown=has_unknown(u) or u.op not in ('attr', 'lin', 'const', 'app'))


def gor_(gs):
    return B.any(list(gs))


def empty_rules(ctx, chk, q, t, gi, sd, w):
    code = ctx.sym('code')
    z = ctx.run(gi, args={gi.params[0]: t, gi.params[1]: code}, st=_mkst(q.st.heap))
    U = ctx.cls('UserPosition')
    shown = 0
    for g, u in z.value.ls:
        h = B.AND(g, z.st.pc)
        if not sat(h) or not (u.op == 'obj' and typed(z, u, U)):
            continue
        shown += 1
        for n in ('total_amount', 'closeable_amount', 'avg_cost', 'position_value', 'last_price'):
            chk.value(field(z, z.st.heap, u, n), h, const(0), 'empty %s' % n, w, 'the %s of a missing position' % n)
        chk.value(field(z, z.st.heap, u, 'code'), h, code, 'empty code', w, 'the code of a missing position')
        chk.value(field(z, z.st.heap, u, 'side'), h, const(sd), 'empty side', w, 'the side of a missing position')
    for e in evs(z, ('setitem', 'delitem', 'clear', 'update')):
        if e.recv is not None and (e.recv is t or deep(e.recv) is t):
            chk.bad('missing positions', e.where(), 'reading a code without position changes the mapping')
    if not shown:
        chk.undecided('missing positions', w, 'no empty position is built')


ORDER_DEF = (('confirm_id', None), ('filled_amount', 0), ('canceled_amount', 0), ('deal_balance', 0), ('avg_cost', None), ('commission', 0), ('err_msg', ''))


def made(ctx, cls_, names, opt, types):
    """a run of the constructor with every field given by keyword (fields in opt through **kwargs)"""
    C = ctx.cls(cls_)
    init = ctx.method(C, '__init__')
    given = {n: ctx.sym(n, types.get(n)) for n in list(names) + list(opt)}
    r = ctx.run(init, args={p: given[p] for p in init.params if p in given}, kw={n: one(given[n]) for n in given if n not in init.params})
    return r, r.sym[init.params[0]], given


@prop('A06')
def a06_records(ctx, chk):
    chk.rule('record', 'an order and a position show the values they were created with')
    ty = {'action': ctx.cls('OrderAction'), 'status': ctx.cls('OrderStatus'), 'side': ctx.cls('OrderSide'), 'style': ctx.cls('OrderStyle')}
    names = ('code', 'price', 'amount', 'action', 'order_id', 'status', 'style', 'create_time', 'entrust_time', 'side')
    r, o, given = made(ctx, 'Order', names, [n for n, _ in ORDER_DEF], ty)
    w = 'Order'
    for n in names + tuple(n for n, _ in ORDER_DEF):
        pre = B.AND(r.st.pc, B.all([isinst(given[m], c) for m, c in ty.items()]))
        x = given[n]
        if n in ty:
            pre = B.AND(pre, truthy(x))
        if n in ('create_time', 'entrust_time'):
            pre = B.all([pre, truthy(x), isinst(x, 'datetime.datetime')])
        chk.value(field(r, r.st.heap, o, n), pre, x, n, w, 'the %s of an order' % n)
    few = [n for n in names if n not in ('style', 'create_time', 'entrust_time')]
    r, o, given = made(ctx, 'Order', few, [], ty)
    for n in few:
        chk.value(field(r, r.st.heap, o, n), B.AND(r.st.pc, B.all([B.AND(isinst(given[m], c), truthy(given[m])) for m, c in ty.items() if m in given])), given[n], '%s without style' % n, w, 'the %s of an order without style' % n)
    r, o, given = made(ctx, 'Order', names, [], ty)
    for n, d in ORDER_DEF:
        chk.value(field(r, r.st.heap, o, n), r.st.pc, const(d), '%s by default' % n, w, 'the %s of an order without one' % n)
    for n, c in ty.items():
        if n == 'style':
            continue
        r, o, given = made(ctx, 'Order', names, [], dict(ty, **{n: 'str'}))
        for m in members(c):
            val = next(v.value for k, v in c.members if k == m)
            chk.value(field(r, r.st.heap, o, n), B.AND(r.st.pc, eqc(given[n], const(val))), enum(c, m), '%s %s' % (n, m), w, 'the %s of an order created with %r' % (n, val))
    r, o, given = made(ctx, 'Order', names, [], dict(ty, style='str'))
    for val, c in (('market', 'MarketOrderStyle'), ('limit', 'LimitOrderStyle')):
        for g, t in under(field(r, r.st.heap, o, 'style'), B.AND(r.st.pc, eqc(given['style'], const(val)))):
            chk.check(typed(r, t, ctx.cls(c)), 'style %s' % val, w, 'the style of an order created with %r is %s' % (val, show(t)), unknown=has_unknown(t))
    w = 'Position'
    names = ('code', 'amount', 'available_amount', 'avg_cost', 'side')
    opt = ('last_price', 'position_value')
    r, o, given = made(ctx, 'Position', names, opt, {'side': ctx.cls('OrderSide')})
    for n in names + opt:
        chk.value(field(r, r.st.heap, o, n), r.st.pc, given[n], n, w, 'the %s of a position' % n)
    chk.value(field(r, r.st.heap, o, 'locked_amount'), r.st.pc, core.add(given['amount'], core.scale(given['available_amount'], -1)), 'locked_amount', w, 'the locked amount of a position')


# ---------------------------------------------------------------- A07 closeable amount
@prop('A07')
def a07(ctx, chk):
    r, (code, amount, style, side) = order_run(ctx)
    S = ctx.cls('OrderSide')
    acc = acct_of(ctx, r)
    sent = gate_calls(ctx, r, 'order')
    if not sent:
        raise Undecided('no order reaches the trade gate')
    chk.rule('closeable', 'an accepted close order lowers the closeable amount of its position by its amount, not below 0; nothing else changes positions')
    w = sent[0].where()
    okg = B.AND(B.any(ok_guard(e) for e in sent), r.st.pc)
    okg = B.AND(okg, B.NOT(any_raise(r)))
    neg = lt(amount, const(0))
    for n in members(S):
        d = single(field(r, {}, acc, '%s_positions' % n))
        pos = mk('item', d, code)
        has = atom('haskey', d, code)
        old = single(field(r, {}, pos, 'available_amount'))
        if old is None:
            raise Undecided('closeable amount of a position')
        new = field(r, r.st.heap, pos, 'available_amount')
        me = B.OR(eqc(side, const(n)), B.NOT(truthy(side))) if n == 'long' else B.AND(eqc(side, const(n)), truthy(side))
        txt = isinst(side, 'str') if False else B.OR(B.NOT(truthy(side)), B.any(eqc(side, const(x)) for x in members(S)))
        hit = B.all([okg, neg, me, has, B.NOT(core.isnone(pos))])
        left = core.add(old, amount)
        under0 = lt(left, const(0))
        chk.value(new, B.AND(hit, B.NOT(under0)), left, 'close order, %s' % n, w, 'the closeable amount after a close order')
        chk.value(new, B.AND(hit, under0), const(0), 'not below 0, %s' % n, w, 'the closeable amount after a close order of more than is closeable')
        chk.value(new, B.AND(okg, B.NOT(neg)), old, 'open order, %s' % n, w, 'the closeable amount after an open order')
        chk.value(new, B.all([okg, B.NOT(me), txt]), old, 'other side, %s' % n, w, 'the closeable amount of the %s position after an order of the other side' % n)
        chk.value(new, B.AND(r.st.pc, B.any(B.AND(e.g, raised(e)) for e in sent)), old, 'failed order, %s' % n, w, 'the closeable amount after a failed submission')
        for f in ('amount', 'avg_cost', 'side', 'code', 'position_value'):
            o = single(field(r, {}, pos, f))
            chk.value(field(r, r.st.heap, pos, f), r.st.pc, o, 'only the closeable amount, %s' % n, w, 'the %s of a position after an order' % f)
        for e in evs(r, ('setitem', 'delitem', 'clear')):
            if e.recv is not None and deep(e.recv) is deep(d):
                chk.bad('positions', e.where(), 'an order changes the set of positions')
    for e in evs(r, 'set'):
        if e.recv is not None and e.recv.op == 'item' and typed(r, e.recv, ctx.cls('Position')):
            chk.check(e.recv.args[1] is code, 'its own position', e.where(), 'an order changes the position %s' % show(e.recv), unknown=True)


# ---------------------------------------------------------------- A08 account component switched off
@prop('A08')
def a08(ctx, chk):
    C = ctx.cls('Context')
    chk.rule('context', 'without account component context.account, trade_gate and portfolio raise InvalidCall')
    for n in ('account', 'trade_gate', 'portfolio'):
        r = ctx.run(ctx.method(C, n))
        s = r.sym[r.func.params[0]]
        ua = field(r, {}, s, 'use_account')
        on = truthv(r, ua)
        chk.implies(B.NOT(on), gor(raises_of(r, 'InvalidCall')), n, r.func.qual, 'context.%s is available without account component' % n)
        chk.implies(on, r.st.pc, '%s available' % n, r.func.qual, 'context.%s is not available with account component' % n)
        for g, t in r.value.ls:
            if sat(B.AND(g, r.st.pc)):
                chk.check(t.op == 'attr' and t.args[0] is s, '%s object' % n, r.func.qual, 'context.%s is %s' % (n, show(t)), unknown=has_unknown(t))
    chk.rule('api', 'without account component the trading API raises InvalidCall and does nothing')
    on = None
    for n in ('order', 'cancel_order', 'get_orders', 'sync_balance', 'sync_orders'):
        r = ctx.run(ctx.func('account.api', n))
        ctxt = mk('single', C)
        on = truthv(r, field(r, {}, ctxt, 'use_account'))
        chk.implies(r.st.pc, on, n, r.func.qual, '%s() returns normally without account component' % n)
        for g in ('order', 'cancel_order', 'sync_balance', 'sync_orders'):
            for e in gate_calls(ctx, r, g):
                chk.implies(e.g, on, n, e.where(), 'the broker is contacted without account component')


# ---------------------------------------------------------------- A09 / A10 balance
def heap_with(r, o):
    """the latest heap that holds (most of) the fields of an object"""
    best, n = r.st.heap, sum(1 for k in r.st.heap if k[0] is o)
    seen = set()
    for e in reversed(r.events):
        if e.heap is not None and id(e.heap) not in seen:
            seen.add(id(e.heap))
            m = sum(1 for k in e.heap if k[0] is o)
            if m > n:
                best, n = e.heap, m
    return best


CASH = (('total_assert', ('total_asset', 'total_assert')), ('available_cash', ('available_cash',)), ('locked_cash', ('locked_cash',)))


def sync_run(ctx):
    A = ctx.cls('Account')
    r = ctx.run(ctx.method(A, 'sync_balance'))
    acc = r.sym[r.func.params[0]]
    sent = gate_calls(ctx, r, 'sync_balance')
    if not sent:
        raise Undecided('the trade gate is not asked')
    return r, acc, sent


def is_old(t, acc):
    """the value a field of the account had before"""
    t = deep(t)
    return t.op == 'attr' and t.args[0] is acc


def new_guard(r, acc, name):
    v = field(r, r.st.heap, acc, name)
    return B.any(B.AND(g, r.st.pc) for g, t in v.ls if not is_old(t, acc))


def in_place(r, acc, names, olds):
    """events that change the positions held by the account in place"""
    return [e for e in evs(r, ('setitem', 'delitem', 'clear', 'update')) if e.recv is not None and deep(e.recv) in olds]


@prop('A09')
def a09(ctx, chk):
    r, acc, sent = sync_run(ctx)
    w = r.func.qual
    chk.rule('refresh', 'a balance sync takes over what the broker reports whenever it could be read')
    S = ctx.cls('OrderSide')
    for e in sent:
        R = e.res
        cash, pos = mk('item', R, const('cash')), mk('item', R, const('positions'))
        hk = lambda d, k: atom('haskey', d, const(k))
        both = B.AND(hk(R, 'cash'), hk(R, 'positions'))
        okg = B.all([ok_guard(e), both, B.NOT(any_raise(r)), B.NOT(loop_escapes(r))])
        olds = [deep(single(field(r, {}, acc, n))) for n in ('long_positions', 'short_positions')]
        inpl = in_place(r, acc, (), olds)
        if not inpl:
            for n in ('long_positions', 'short_positions'):
                chk.implies(okg, new_guard(r, acc, n), 'taken over, %s' % n, w, 'the %s stay as they were although the broker reported' % n.replace('_', ' '))
        done = new_guard(r, acc, 'long_positions') if not inpl else okg
        chk.rule('cash', 'every reported cash figure is taken over, 0 included; one that is not reported keeps its value')
        for n, keys in CASH:
            v = field(r, r.st.heap, acc, n)
            pre = done
            for k in keys:
                chk.value(v, B.AND(pre, hk(cash, k)), mk('item', cash, const(k)), n, w, 'the %s after a sync that reports %s' % (n, k))
                pre = B.AND(pre, B.NOT(hk(cash, k)))
            chk.value(v, pre, single(field(r, {}, acc, n)), '%s not reported' % n, w, 'the %s after a sync that does not report it' % n)
        chk.rule('positions', 'the positions are exactly the reported ones, each on its side, under its code, with its values')
        if inpl:
            chk.undecided('positions', w, 'positions are changed in place')
            continue
        for n in members(S):
            v = field(r, r.st.heap, acc, '%s_positions' % n)
            for g, t in v.ls:
                rg = B.AND(g, r.st.pc)
                if is_old(t, acc) or not sat(rg):
                    continue
                positions_rule(ctx, chk, r, rg, t, pos, n, w)


def optional(chk, r, el, names, what):
    """fields that a report may leave out: reading them does not fail"""
    for k in names:
        no = B.NOT(atom('haskey', el, const(k)))
        for e in evs(r, 'raise'):
            if e.extra == 'implicit' and B.support(no) <= B.support(e.g) and implies(e.g, no):
                d = B.AND(e.g, B.NOT(swallowed(r, e)))
                d = B.restrict(d, no) if sat(B.AND(d, no)) else FALSE
                if sat(d):
                    chk.bad('optional %s' % k, e.where(), '%s without %s makes the sync fail' % (what, k))
                    break
        else:
            chk.ok('optional %s' % k, r.func.qual)


def positions_rule(ctx, chk, r, rg, t, pos, n, w):
    S, P = ctx.cls('OrderSide'), ctx.cls('Position')
    what = '%s positions' % n
    if not r.interp.is_map(t):
        chk.undecided(what, w, 'form of the positions %s' % show(t))
        return
    for o in r.interp.ops(t, _mkst(r.st.heap, rg)):
        if o[0] == 'upd' and sat(B.AND(rg, o[1])) and isinstance(o[2], T) and is_old(unwrap(o[2])[0], r.sym[r.func.params[0]]):
            chk.bad(what, w, 'the %s of the previous sync are kept' % what)
            return
    ents = dict_entries(r, r.st.heap, t, rg)
    if ents is None:
        chk.undecided(what, w, 'form of the positions %s' % show(t))
        return
    if not ents:
        chk.bad(what, w, 'no %s are stored' % what)
        return
    hk = lambda d, k: atom('haskey', d, const(k))
    tot, its = {}, {}
    for x, k, v, L, og in ents:
        if L is None:
            chk.undecided(what, w, 'positions stored one by one')
            continue
        root = L
        while getattr(root, 'src', None) is not None:
            root = root.src
        c, ws = unwrap(deep(root.raw)) if root.raw is not None else (None, [])
        if c is not pos:
            if any(y in (pos,) for y in core_subterms(root.raw)):
                chk.undecided(what, w, 'loop over %s' % show(root.raw))
            else:
                chk.bad(what, w, 'the %s come from %s' % (what, show(root.raw)))
            continue
        it = source_loop(chk, r, L, pos, what, w)
        el = mk('elem', root.key, root.occ)
        itm = lambda f: mk('item', el, const(f))
        sd = itm('side')
        me = B.any([eqc(sd, const(n)), eq(sd, enum(S, n))])
        me = B.OR(B.AND(hk(el, 'side'), me), B.NOT(hk(el, 'side'))) if n == 'long' else B.AND(hk(el, 'side'), me)
        eg = B.all([rg, og, it, x])
        odd = B.any([])
        other = B.any(B.OR(eqc(sd, const(m)), eq(sd, enum(S, m))) for m in members(S) if m != n)
        chk.check(not sat(B.all([eg, B.NOT(me), B.OR(other, B.NOT(hk(el, 'side')))])), 'side of %s' % what, w, 'a position of another side is stored in the %s' % what)
        key = root.id
        tot[key] = B.OR(tot.get(key, FALSE), B.AND(og, x))
        its[key] = (it, me, el)
        optional(chk, r, el, ('side', 'last_price', 'position_value'), 'a position')
        for h, o in under(v, eg):
            if not typed(r, o, P):
                chk.undecided(what, w, show(o))
                continue
            hp = heap_with(r, o)
            for f in ('code', 'amount', 'available_amount', 'avg_cost'):
                chk.value(field(r, hp, o, f), h, itm(f), '%s of %s' % (f, what), w, 'the %s of a stored position' % f)
            for f in ('last_price', 'position_value'):
                chk.value(field(r, hp, o, f), B.AND(h, hk(el, f)), itm(f), '%s of %s' % (f, what), w, 'the %s of a stored position' % f)
            sv = field(r, hp, o, 'side')
            h2 = B.AND(h, B.any([B.NOT(hk(el, 'side')), B.AND(isinst(sd, S), eq(sd, enum(S, n))), B.AND(B.NOT(isinst(sd, S)), eqc(sd, const(n)))]))
            for a, z in under(sv, h2):
                ok = z is enum(S, n) or z is sd and not sat(B.all([a, isinst(sd, S), B.NOT(eq(sd, enum(S, n)))])) and not sat(B.AND(a, B.NOT(isinst(sd, S)))) \
                    or z is mk('enumby', S, sd)
                chk.check(ok, 'side of a position', w, 'the side of a stored position is %s' % show(z), unknown=has_unknown(z))
            for a, z in under(k, h):
                chk.check(z is itm('code') or z in terms(field(r, hp, o, 'code')), 'under its code, %s' % what, w, 'a position is stored under %s' % show(z), unknown=has_unknown(z))
    for key, (it, me, el) in its.items():
        sd = mk('item', el, const('side'))
        full = B.all([hk(el, f) for f in ('code', 'amount', 'available_amount', 'avg_cost')])
        kind = B.OR(B.NOT(hk(el, 'side')), B.OR(B.AND(isinst(sd, S), eq(sd, enum(S, n))), B.AND(B.NOT(isinst(sd, S)), eqc(sd, const(n)))))
        chk.implies(B.all([rg, it, me, kind, full, B.NOT(any_raise(r))]), tot[key], 'every one of the %s' % what, w, 'a reported position is not stored')


def core_subterms(t):
    from .core import subterms
    return subterms(t)


@prop('A10')
def a10_balance(ctx, chk):
    r, acc, sent = sync_run(ctx)
    w = r.func.qual
    names = ('total_assert', 'available_cash', 'locked_cash', 'long_positions', 'short_positions')
    chk.rule('all or nothing', 'a balance sync that fails at any point leaves cash and positions as they were')
    olds = {n: deep(single(field(r, {}, acc, n))) for n in names}
    both = None
    for n in names[3:]:
        g = new_guard(r, acc, n)
        both = g if both is None else both
        chk.check(not sat(B.AND(g, B.NOT(both))) and not sat(B.AND(both, B.NOT(g))), 'both sides', w, 'only one side of the positions is replaced')
    new = B.any(new_guard(r, acc, n) for n in names)
    fail = B.any([B.AND(e.g, raised(e)) for e in r.events if e.raises is not None] + [e.g for e in evs(r, 'raise') if not inner(r, e)])
    fail = B.OR(fail, loop_escapes(r))
    for n in names:
        g = new_guard(r, acc, n)
        chk.check(not sat(B.AND(g, fail)), n, w, 'the %s changes in a sync that fails; failing case: %s' % (n.replace('_', ' '), brief(B.AND(g, fail))))
        # the exceptional exit as well
        if sat(r.exc_st.pc):
            v = field(r, r.exc_st.heap, acc, n)
            gx = B.any(B.AND(h, r.exc_st.pc) for h, t in v.ls if not is_old(t, acc))
            chk.check(not sat(gx), n, w, 'the %s changes in a sync that fails' % n.replace('_', ' '))
    for e in in_place(r, acc, (), [olds[n] for n in names[3:]]):
        later = [x for x in r.events if (x.raises is not None or x.kind == 'raise') and
                 (x.i > e.i and sat(B.AND(x.g, e.g)) or x.i < e.i and any(l in x.loops for l in e.loops) and sat(x.g))]
        chk.check(not later, 'in place', e.where(), 'positions are changed before the sync is known to succeed', unknown=False)
        if not later:
            chk.undecided('in place', e.where(), 'positions are changed in place')
    chk.rule('contained', 'no failure of a balance sync reaches the event loop')
    contained(chk, r, sent)


def inner(r, e):
    """a raised exception that may stay inside (an implicit exception that is turned into another one or handled on the spot)"""
    return e.extra == 'implicit'


def contained(chk, r, sent):
    w = r.func.qual
    for e in sent:
        chk.implies(B.AND(e.g, raised(e)), r.st.pc, 'broker failure', e.where(), 'a failure of the broker interface is not contained')
    chk.check(not sat(r.exc_st.pc), 'any failure', w, 'an exception can leave %s; case: %s' % (r.func.name, brief(r.exc_st.pc)), unknown=guard_unknown(r.exc_st.pc))


@prop('A10')
def a10_orders(ctx, chk):
    r = ctx.run(ctx.method('Account', 'sync_orders'))
    sent = gate_calls(ctx, r, 'sync_orders')
    if not sent:
        raise Undecided('the trade gate is not asked')
    chk.rule('contained orders', 'no failure of an order sync reaches the event loop')
    contained(chk, r, sent)


# ---------------------------------------------------------------- A11 order sync
BROKER_FIELDS = ('status', 'confirm_id', 'filled_amount', 'canceled_amount', 'deal_balance', 'avg_cost', 'commission', 'entrust_time', 'err_msg')


@prop('A11')
def a11(ctx, chk):
    r = ctx.run(ctx.method('Account', 'sync_orders'))
    acc = r.sym[r.func.params[0]]
    sent = gate_calls(ctx, r, 'sync_orders')
    if not sent:
        raise Undecided('the trade gate is not asked')
    O = ctx.cls('Order')
    w = r.func.qual
    orders = deep(single(field(r, {}, acc, 'orders')))
    chk.rule('orders', 'every reported order is in the account under its id with the reported state; no order is dropped')
    for e in evs(r, ('delitem', 'clear')):
        if e.recv is not None and deep(e.recv) is orders:
            chk.bad('no order is dropped', e.where(), 'an order sync removes orders')
    for g, t in field(r, r.st.heap, acc, 'orders').ls:
        if deep(t) is orders or not sat(B.AND(g, r.st.pc)):
            continue
        ops = r.interp.ops(t, _mkst(r.st.heap, B.AND(g, r.st.pc))) if r.interp.is_map(t) else None
        if ops is not None and not any(o[0] == 'upd' and deep(unwrap(o[2])[0]) is orders for o in ops) and not any(unwrap(deep(o[2].raw))[0] is orders for o in ops if o[0] == 'each' and o[2].raw is not None):
            chk.bad('no order is dropped', w, 'the orders of the account are replaced by %s' % show(t))
        else:
            chk.undecided('no order is dropped', w, 'the mapping of the orders is replaced')
    put = [e for e in evs(r, 'setitem') if e.recv is not None and deep(e.recv) is orders]
    if not put:
        if writes_to(r, orders):
            raise Undecided('form of the order record')
        chk.bad('taken over', w, 'reported orders are not taken over')
        return
    R = [e.res for e in sent]
    L = innermost(put)[0]
    root = L
    while root.src is not None:
        root = root.src
    c, ws = unwrap(deep(root.raw)) if root.raw is not None else (None, [])
    if c not in R:
        raise Undecided('loop over %s' % show(root.raw))
    it = source_loop(chk, r, L, c, 'reported orders', w)
    el = mk('elem', root.key, root.occ)
    rid = mk('item', el, const('order_id'))
    key = core.cat([rid])
    optional(chk, r, el, ('entrust_time', 'side', 'confirm_id', 'filled_amount', 'canceled_amount', 'deal_balance', 'avg_cost', 'commission', 'err_msg'), 'an order')
    sub = {mk('loopdict', orders, l.id): orders for l in {x.id: x for e in r.events for x in e.loops}.values()}
    memo = {}
    N = lambda g: r.interp.subst_g(g, sub, memo)
    tot = FALSE
    hk = lambda k: atom('haskey', el, const(k))
    for e in put:
        tot = B.OR(tot, N(e.g))
        for a, k in under(e.args[0], e.g):
            k2 = r.interp.subst_t(k, sub, memo)
            idv = [deep(z) for z in ()]
            chk.check(k2 is key, 'under its id', e.where(), 'a reported order is recorded under %s' % show(k), unknown=has_unknown(k))
        for a, o in under(e.args[1], e.g):
            if not typed(r, o, O):
                chk.undecided('reported state', e.where(), show(o))
                continue
            if o.op != 'obj':
                known_old = deep(r.interp.subst_t(o, sub, memo)) is mk('item', orders, key)
                chk.check(False, 'reported state', e.where(), 'the recorded order is %s' % show(o), unknown=not known_old)
                continue
            for f in ('code', 'price', 'amount', 'order_id') + BROKER_FIELDS:
                v = field(r, e.heap, o, f)
                pre = B.AND(a, hk(f))
                x = mk('item', el, const(f))
                if f == 'status':
                    S = ctx.cls('OrderStatus')
                    for z, t in under(v, B.all([pre, truthy(x)])):
                        ok = t is x and not sat(B.AND(z, B.NOT(isinst(x, S)))) or t is mk('enumby', S, x)
                        chk.check(ok, 'reported %s' % f, e.where(), 'the status of the recorded order is %s' % show(t), unknown=has_unknown(t))
                elif f == 'entrust_time':
                    for z, t in under(v, B.all([pre, truthy(x)])):
                        ok = t is x or x in core_subterms(t)
                        chk.check(ok, 'reported %s' % f, e.where(), 'the %s of the recorded order is %s' % (f, show(t)), unknown=has_unknown(t))
                else:
                    chk.value(v, pre, x, 'reported %s' % f, e.where(), 'the %s of the recorded order' % f)
    for e in evs(r, 'raise'):
        if e.extra == 'implicit' and e.fn == 'AttributeError' and L in e.loops and any(sat(B.AND(e.g, f)) for k, f in exits(L, ('exc', 'excs', 'brk', 'ret'))):
            chk.bad('the sync goes on', e.where(), 'the sync ends here: None has no such attribute, the orders after this one are not taken over')
    # a reported order is left alone only when nothing changed
    ar = B.OR(any_raise(r), FALSE)
    skip = B.all([N(B.AND(it, B.NOT(ar))), N(L.end_pc), B.NOT(tot)])
    skip = B.AND(skip, B.restrict(TRUE, TRUE))
    known = atom('haskey', orders, key)
    chk.implies(skip, known, 'new orders', w, 'an order that only the broker knows is not taken over')
    loc = mk('item', orders, key)
    rem = {e.args[1].ls[0][1] for e in put if len(e.args[1].ls) == 1}
    rem = [o for o in rem if o.op == 'obj' and typed(r, o, O)]
    if len(rem) != 1:
        chk.undecided('changed orders', w, 'form of the reported order')
        return
    hp = heap_with(r, rem[0])
    chk.rule('changes', 'a known order is replaced whenever any state the broker reports differs')
    for f in BROKER_FIELDS:
        rv = field(r, hp, rem[0], f)
        lv = field(r, {}, loc, f)
        same = B.any(B.all([a, b, eq(x, y)]) for a, x in rv.ls for b, y in lv.ls)
        same = N(same)
        # a reported value of None against None etc. is decided by the comparison itself
        d = B.all([skip, known, B.NOT(same)])
        d = B.AND(d, core.theory(B.support(d)))
        chk.check(not sat(d), 'change of %s' % f, w, 'a change of the %s of an order is not taken over; case: %s' % (f, brief(d)), unknown=guard_unknown(d))


# ---------------------------------------------------------------- A12 sync timer
def tod(t):
    """time of day of a moment: ('c', seconds), ('t', time term) or ('x', why) if it is another one; None if unknown"""
    if t.op == 'lin':
        c, d = core.as_lin(t)
        dates = [x for x in d if tod(x) is not None]
        if len(dates) != 1 or d[dates[0]] != 1:
            return None
        x = tod(dates[0])
        rest = [y for y in d if y is not dates[0]]
        if rest:
            return ('x', show(t)) if not any(has_unknown(y) or 'mu' in {z.op for z in core_subterms(y)} for y in rest) else None
        return (x[0], x[1] + c) if x[0] == 'c' else ('x', show(t)) if c else x
    if t.op == 'app' and t.args[0] == 'replace':
        kw = {a.args[0]: a.args[1] for a in t.args[2:] if isinstance(a, T) and a.op == 'kw'}
        if len(kw) != len(t.args) - 2 or not all(is_const(x) for x in kw.values()):
            return None
        if {'hour', 'minute', 'second'} <= set(kw):
            return ('c', 3600 * cval(kw['hour']) + 60 * cval(kw['minute']) + cval(kw['second']))
        x = tod(t.args[1])
        return ('x', show(t)) if x else None
    if t.op == 'app' and t.args[0] == 'datetime.datetime.combine':
        x = t.args[2]
        if x.op == 'app' and x.args[0] == 'datetime.time' and all(isinstance(a, T) and is_const(a) for a in x.args[1:]):
            v = [cval(a) for a in x.args[1:4]] + [0, 0, 0]
            return ('c', 3600 * v[0] + 60 * v[1] + v[2])
        if x.op in ('item', 'sym', 'attr', 'elem'):
            return ('t', x)
        return None
    if t.op in ('app', 'res') and any(isinstance(a, str) and a in ('datetime.datetime.now', 'datetime.datetime.today') for a in t.args):
        return ('x', show(t))
    if t.op == 'cat':
        ps = [tod(x) for x in t.args if isinstance(x, T)]
        if len([x for x in ps if x is not None]) == 1 and not any(has_unknown(x) for x in t.args if isinstance(x, T)):
            return ('x', show(t))
    return None


def bounds(es, mu, inits):
    """how the events of one loop depend on its variable: (bound, offset or None, {case: guard}) with the guards of the events in the cases
    '<', '=', '>' of the variable against the bound (each for the first pass and for later ones); None if unknown"""
    found = []
    for v in {v for e in es for v in B.support(e.g)}:
        a = B.atom_of[v]
        if a.op == 'abrupt' or mu not in core_subterms(a):
            continue
        if a.op == 'lt':
            c, d = core.as_lin(a.args[0])
            k = a.args[1]
            rest = {x: y for x, y in d.items() if x is not mu}
            if len(rest) != 1 or d.get(mu) not in (1, -1) or list(rest.values())[0] != -d[mu]:
                return None
            # up: mu < X + o; down: mu > X + o
            found.append((v, 'up' if d[mu] == 1 else 'down', next(iter(rest)), k - c if d[mu] == 1 else c - k))
        elif a.op == 'eq':
            x, y = a.args[:2]
            if mu not in (x, y):
                return None
            found.append((v, 'eq', y if x is mu else x, 0))
        elif a.op == 'eqn':
            c, d = core.as_lin(a.args[0])
            rest = {x: y for x, y in d.items() if x is not mu}
            if len(rest) != 1 or d.get(mu) not in (1, -1) or list(rest.values())[0] != -d[mu]:
                return None
            found.append((v, 'eq', next(iter(rest)), (a.args[1] - c) * d[mu]))
        else:
            return None
    ends = {(X, o) for v, k, X, o in found if X not in inits}
    if len(ends) != 1:
        return None
    end, off = next(iter(ends))
    out = {}
    for c in '<=>':
        for first in (True, False):
            h = TRUE
            for v, k, X, o in found:
                if X is end:
                    val = {'up': c == '<', 'down': c == '>', 'eq': c == '='}[k]
                elif o:
                    return None
                else:
                    val = {'up': False, 'down': not first, 'eq': first}[k]
                p = B.mk(v, FALSE, TRUE)
                h = B.AND(h, p if val else B.NOT(p))
            out[c, first] = h
    return end, off, out


@prop('A12')
def a12(ctx, chk):
    M = lambda c, n: ctx.method(c, n)
    op = [M('EventSource', 'daily'), M('Account', 'sync_balance'), M('Account', 'sync_orders'), M('EventBus', 'register'), M('EventSourceScheduler', 'schedule')]
    r = ctx.run(M('Account', 'setup'), opaque=op)
    acc, opt = r.sym[r.func.params[0]], r.sym[r.func.params[1]]
    w = r.func.qual
    cfg = mk('single', ctx.cls('AccountConfig'))
    K = lambda n: single(field(r, {}, cfg, n))
    hk = lambda n: atom('haskey', opt, const(n))
    it = lambda n: mk('item', opt, const(n))
    want = {}
    for n, c in (('balance', 'SYNC_BALANCE'), ('order', 'SYNC_ORDER')):
        k = 'sync_' + n
        want[n] = B.OR(B.AND(hk(k), truthy(it(k))), B.AND(B.NOT(hk(k)), truthy(K(c))))
    gate = [e for e in gate_calls(ctx, r, 'setup')]
    by = lambda f: evs(r, 'opaque', f.qual)
    daily, sb, so, reg, sch = [by(f) for f in op]
    ar = any_raise(r)
    esc = B.OR(ar, loop_escapes(r))
    chk.rule('gate', 'the broker interface is set up with the options before anything is synced')
    if not gate:
        chk.bad('set up', w, 'the broker interface is not set up')
    for e in gate:
        for g, t in under(e.args[0], e.g) if e.args else []:
            chk.check(t is opt, 'options', e.where(), 'the broker interface is set up with %s' % show(t), unknown=has_unknown(t))
        for x in sb + so:
            chk.check(x.i > e.i, 'order', x.where(), 'synced before the broker interface is set up')
    chk.implies(B.AND(B.NOT(ar), r.st.pc), gor(gate), 'set up', w, 'the broker interface is not set up')
    chk.rule('initial', 'what is enabled is synced once at setup, what is not enabled is not')
    for n, es in (('balance', sb), ('order', so)):
        chk.implies(B.all([want[n], r.st.pc, B.NOT(esc)]), gor(es), 'initial sync of %s' % n, w, 'no initial sync of %s although it is enabled' % n)
        for e in es:
            chk.implies(e.g, want[n], 'no sync of %s' % n, e.where(), '%s is synced although it is not enabled' % n)
        if es:
            once(chk, es, 'one initial sync of %s' % n, '%s is synced twice at setup' % n)
    for a in sb:
        for b in so:
            chk.check(a.i < b.i or not sat(B.AND(a.g, b.g)), 'positions before orders', b.where(), 'orders are synced before the positions')
    chk.rule('events', 'every sync event syncs exactly what is enabled')
    C = ctx.cls('Account')
    kinds = {'balance': 'sync_balance', 'order': 'sync_orders'}
    seen = {n: FALSE for n in kinds}
    classes = set()
    for e in reg:
        c = e.args[1]
        cb = e.args[2] if len(e.args) > 2 else e.kw.get('callback')
        if cb is None:
            raise Undecided('registered callback')
        for g, t in under(cb, e.g):
            hit = [n for n, m in kinds.items() if is_method_of(t, acc, m)]
            if not hit:
                chk.undecided('callback', e.where(), show(t))
                continue
            n = hit[0]
            seen[n] = B.OR(seen[n], g)
            chk.implies(g, want[n], 'events sync %s' % n, e.where(), '%s is synced by the timer although it is not enabled' % n)
        classes |= set(terms(c))
    for n in kinds:
        chk.implies(B.all([want[n], r.st.pc, B.NOT(esc)]), seen[n], 'events sync %s' % n, w, 'the timer does not sync the %s although it is enabled' % n)
    if not daily or not sch:
        chk.bad('timer', w, 'no sync timer is set up')
        return
    src = {t for e in daily for t in terms(e.args[0])}
    for e in sch:
        for g, t in under(e.args[1], e.g):
            chk.check(t in src, 'that timer', e.where(), 'another event source is scheduled: %s' % show(t), unknown=True)
    chk.implies(B.all([B.OR(want['balance'], want['order']), r.st.pc, B.NOT(esc)]), gor(sch), 'timer', w, 'the sync timer is not scheduled')
    for e in daily:
        for g, t in under(e.args[1], e.g):
            chk.check(t in classes, 'event class', e.where(), 'another event than the one that is registered', unknown=has_unknown(t))
    chk.rule('times', 'sync events come in steps of sync_internal over the whole day or over every sync period')
    per = [(B.AND(hk('sync_period'), TRUE), it('sync_period')), (B.NOT(hk('sync_period')), K('SYNC_PERIOD'))]
    step = [(hk('sync_internal'), it('sync_internal')), (B.NOT(hk('sync_internal')), K('SYNC_INTERNAL'))]
    on = B.any(B.AND(a, truthy(t)) for a, t in per)
    day = FALSE
    cover = {}
    for e in daily:
        times = e.args[2] if len(e.args) > 2 else None
        if times is None or not e.loops:
            chk.undecided('times', e.where(), 'form of the times')
            continue
        L = e.loops[-1]
        for g, t in under(times, e.g):
            fmt = cval(t.args[2]) if t.op == 'app' and t.args[0] == 'strftime' and is_const(t.args[2]) else None
            if fmt not in ('%H:%M:%S', '%X', '%T'):
                chk.check(False, 'times', e.where(), 'a sync event at %s' % show(t), unknown=fmt is None)
                continue
            nu = t.args[1]
            sub = core_subterms(nu)
            ent = [v for k, v in L.mod.items() if isinstance(v[0], V) and v[2] in sub]
            if L.kind != 'while' or len(ent) != 1:
                chk.undecided('times', e.where(), 'form of the loop')
                continue
            init, nxt, mu = ent[0]
            shift = core.add(nu, core.scale(mu, -1))
            if mu in core_subterms(shift):
                chk.undecided('times', e.where(), 'time %s' % show(nu))
                continue
            inits = terms(init)
            group = [x for x in daily if x.loops and x.loops[-1] is L]
            b = bounds(group, mu, inits)
            if b is None:
                chk.undecided('end', e.where(), 'form of the end of the loop: %s' % [show(B.atom_of[v]) for v in B.support(e.g) if mu in core_subterms(B.atom_of[v])])
                continue
            X, off, cases = b
            X = core.add(X, shift)
            end = tod(X)
            gs = B.any(x.g for x in group)
            for c in '<=>':
                for first in (True, False):
                    n = {'<': 'before the end', '=': 'at the end', '>': 'after the end'}[c]
                    if c == '<':
                        chk.implies(B.all([L.pc, cases[c, first], B.NOT(ar)]), gs, 'every step', e.where(), 'a time %s is left out%s' % (n, ' (the first one)' if first else ''))
                    elif c == '>':
                        chk.check(not sat(B.AND(gs, cases[c, first])), 'nothing after the end', e.where(), 'a sync event %s' % n)
            incl = B.any(cases['=', f] for f in (True, False))
            at_end = not sat(B.all([L.pc, incl, B.NOT(ar), B.NOT(gs)]))
            strict = not sat(B.AND(gs, incl))
            no_break(chk, L, 'steps', e.where(), unless=FALSE)
            for a, x in under(nxt, L.end_pc):
                d = core.add(x, core.scale(mu, -1))
                ok = B.any(B.AND(h, TRUE if d is y or d.op == 'app' and d.args[0] == 'float' and d.args[1] is y else FALSE) for h, y in step)
                odd = not (d.op in ('app', 'item', 'attr', 'const', 'lin')) or has_unknown(d)
                chk.check(not sat(B.all([a, L.end_pc, B.NOT(ok)])), 'step', e.where(), 'the step is %s' % show(d), unknown=odd)
            for a, x in under(init, B.AND(L.pc, gs)):
                x = core.add(x, shift)
                s0 = tod(x)
                if s0 is None or end is None:
                    chk.undecided('start and end', e.where(), 'from %s to %s' % (show(x), show(X)))
                    continue
                P = e.loops[-2] if len(e.loops) > 1 else None
                if P is None:
                    day = B.OR(day, L.pc)
                    chk.implies(B.AND(a, e.g), B.NOT(on), 'whole day', e.where(), 'the whole day is used although there are sync periods')
                    chk.check(s0 == ('c', 0), 'start of the day', e.where(), 'the events start at %s' % show(x))
                    last = end[1] + off if end[0] == 'c' else None
                    chk.check(last == 86399 and at_end or last == 86400 and strict, 'end of the day', e.where(), 'the events end %s %s' % ('at' if at_end else 'before', show(X)))
                else:
                    base = unwrap(P.raw)[0]
                    cut = base.op == 'slice' or base.op == 'app' and base.args[0] in ('slice', 'itertools.islice')
                    base = next(z for z in base.args if isinstance(z, T)) if cut else base
                    p = next((y for h, y in per if base is y), None)
                    if p is None:
                        chk.undecided('periods', e.where(), 'loop over %s' % show(P.raw))
                        continue
                    whole(chk, r, P.raw, 'periods', e.where())
                    no_break(chk, P, 'periods', e.where())
                    hp = B.any(h for h, y in per if y is p)
                    chk.implies(e.g, B.AND(hp, truthy(p)), 'that period', e.where(), 'another setting of the sync periods is used')
                    cover[p] = B.OR(cover.get(p, FALSE), P.pc)
                    el = mk('elem', P.key, P.occ)
                    chk.check(s0 == ('t', mk('item', el, const(0))), 'start of a period', e.where(), 'a period starts at %s' % show(x))
                    chk.check(end == ('t', mk('item', el, const(1))) and off == 0, 'end of a period', e.where(), 'a period ends at %s' % show(X))
                    chk.check(at_end, 'end included', e.where(), 'the end of a period is left out')
    pre = B.all([B.OR(want['balance'], want['order']), r.st.pc, B.NOT(esc)])
    if day != FALSE and cover:
        chk.implies(B.AND(pre, B.NOT(on)), day, 'whole day', w, 'no events without sync periods')
        for h, p in per:
            chk.implies(B.all([pre, h, truthy(p)]), cover.get(p, FALSE), 'periods', w, 'the sync periods are not used')


def is_method_of(t, obj, name):
    return t.op == 'bm' and any(a is obj for a in t.args) and any(getattr(a, 'name', None) == name for a in t.args)
