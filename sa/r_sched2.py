"""Rules of the scheduler part: event bus, clock of the strategy, queue locking, configuration."""
from .r_sched import *
from .r_sched import _mkst
from . import core
from .rules import raised as raised_

CHECKS = {}
CLOCKS = set(NOWS) | {'time.time'}


def prop(pid):
    def deco(f):
        CHECKS.setdefault(pid, []).append(f)
        return f
    return deco


def deep(t):
    """the term without the version marks of containers that callbacks may have changed"""
    if not isinstance(t, T):
        return t
    if t.op == 'ver':
        return deep(t.args[0])
    if not any(isinstance(a, T) for a in t.args):
        return t
    return mk(t.op, *[deep(a) for a in t.args])


def exits(L, kinds=('brk', 'ret')):
    """[(kind, guard)] ways a loop is left in the middle"""
    out = []
    for v, fact in list(core.FACTS.items()):
        a = B.atom_of[v]
        if a.op == 'abrupt' and a.args[0] == L.id and str(a.args[1]).startswith(tuple(kinds)) and sat(fact):
            out.append((str(a.args[1]), fact))
    return out


def no_break(chk, L, what, where, unless=FALSE):
    """the loop is not left before its container is used up (exceptions apart)"""
    for k, fact in exits(L):
        chk.implies(fact, unless, 'whole loop: %s' % what, where, 'the loop over %s is left early' % what)
    chk.ok('whole loop: %s' % what, where)


def unwrap(t):
    """(container, list of wrappers) of a loop's iterable"""
    w = []
    while True:
        if t.op == 'app' and isinstance(t.args[0], str) and t.args[0].split('.')[-1] in ('list', 'tuple', 'sorted', 'reversed', 'iter', 'copy', 'set', 'frozenset', 'dict', 'enumerate'):
            kw = {}
            for a in t.args[1:]:
                if isinstance(a, T) and a.op == 'kw':
                    kw[a.args[0]] = a.args[1]
            w.append((t.args[0].split('.')[-1], kw))
            t = t.args[1]
        elif t.op in ('keys', 'items', 'values'):
            w.append((t.op, {}))
            t = t.args[0]
        elif t.op == 'slice' and all(x is None or isinstance(x, T) and is_const(x) and cval(x) is None for x in t.args[1:]):
            w.append(('copy', {}))
            t = t.args[0]
        elif t.op == 'slice' and [x for x in t.args[1:3] if x is not None] == [] and t.args[3] == -1:
            w.append(('reversed', {}))
            t = t.args[0]
        elif t.op == 'ver':
            t = t.args[0]
        else:
            return t, w


# ---------------------------------------------------------------- S11
@prop('S11')
def s11_register(ctx, chk):
    r = ctx.run(ctx.method('EventBus', 'register'))
    ps = r.func.params
    cls_, cb, pr = (r.sym[p] for p in ps[1:4])
    chk.rule('register', 'a registration adds the callback, behind the earlier ones, under its event class and priority')
    app = [e for e in evs(r, 'append') if any(t is cb for a in e.args for _, t in a.ls)]
    if not app:
        if evs(r, ('setitem', 'append', 'call')) and any(cb in subterms(t) for e in r.events if e.kind in ('append', 'setitem', 'call') and not str(e.fn).startswith('log.')
                                                         for a in e.args for _, t in a.ls):
            raise Undecided('form of a registration')
        chk.bad('recorded', r.func.qual, 'the callback is not recorded')
        return
    chk.implies(r.st.pc, gor(app), 'recorded', r.func.qual, 'a callback may be registered without being recorded')
    for e in app:
        chk.check(e.fn in ('append',), 'behind the earlier ones', e.where(), 'the callback is inserted with %s' % e.fn, unknown=e.fn not in ('insert', 'appendleft'))
        ok_ = placed(r, e.recv, cls_, pr, e.g)
        chk.check(ok_ is True, 'under its class and priority', e.where(), 'the callback is recorded at %s' % show(e.recv), unknown=ok_ is None)


def placed(r, t, cls_, pr, g):
    """is the container the one of (class, priority)?"""
    t = deep(t)
    if t.op == 'item':
        k, c = t.args[1], t.args[0]
        if k is not pr:
            return False if k is cls_ or is_const(k) else None
        if c.op == 'item':
            return True if c.args[1] is cls_ else None
        return in_class(r, c, cls_)
    if t.op == 'obj':
        for e in evs(r, 'setitem'):
            if any(deep(x) is t for _, x in under(e.args[1], e.g)):
                ks = [x for _, x in under(e.args[0], e.g)]
                if ks != [pr]:
                    return False if ks == [cls_] or all(is_const(k) for k in ks) else None
                c = deep(e.recv)
                if c.op == 'item' and c.args[1] is cls_:
                    continue
                if not in_class(r, c, cls_):
                    return None
        return True
    return None


def in_class(r, c, cls_):
    for e in evs(r, 'setitem'):
        if any(deep(x) is c for _, x in under(e.args[1], e.g)) and all(x is cls_ for _, x in under(e.args[0], e.g)):
            return True
    return None


@prop('S11')
def s11_emit(ctx, chk):
    r = ctx.run(ctx.method('EventBus', 'emit'))
    ev = r.sym[r.func.params[1]]
    chk.rule('emit', 'emit calls every callback of every registered class the event is an instance of, once, with the event')
    cbs = evs(r, 'callback')
    if not cbs:
        raise Undecided('emit calls no callback')
    for i, a in enumerate(cbs):
        for b in cbs[i + 1:]:
            if sat(B.AND(a.g, b.g)) and a.recv is b.recv:
                chk.bad('called once', b.where(), 'a callback is called twice for one event')
    for e in cbs:
        for g, t in under(e.args[0], e.g) if e.args else []:
            chk.check(t is ev, 'gets the event', e.where(), 'a callback gets %s' % show(t), unknown=has_unknown(t))
        sw = swallowed(r, e)
        chk.check(not sat(sw), 'exception of a callback', e.where(), 'the exception of a callback is swallowed')
        Ls = [l for l in e.loops if l.raw is not None]
        if len(Ls) != 3 or any(l.kind == 'while' for l in e.loops):
            chk.undecided('loops', e.where(), 'not the form class / priority / callback: %s' % [show(l.raw)[:80] for l in Ls])
            continue
        C, Q, K = Ls
        kc = mk('key', deep(C.key), C.occ) if isinstance(C.key, T) else None
        # classes
        c0, w = unwrap(C.raw)
        chk.check(bool([x for x in w if x[0] not in ('keys', 'items', 'values', 'reversed', 'iter', 'enumerate')]), 'copy of the classes', e.where(),
                  'the registered classes are iterated without a copy: a callback that registers a new class breaks the delivery')
        whole(chk, r, C.raw, 'registered classes', e.where())
        none = B.any(B.mk(v, TRUE, FALSE) for v in B.support(C.pc) if B.atom_of[v].op in ('truthy', 'nonempty', 'len') and deep(B.atom_of[v].args[0]) is deep(base(C.key)))
        rest = B.all([B.NOT(C.pc), B.NOT(none), B.NOT(loop_escapes(r)), B.NOT(B.any(B.AND(x.g, raised(x)) for x in r.events if x.i < e.i))])
        chk.check(not sat(rest), 'every event', e.where(), 'an event is not delivered when %s' % brief(rest, 1), unknown=guard_unknown(rest))
        inst = [v for v in set().union(*[B.support(x.g) for x in [e]]) if B.atom_of[v].op == 'isinst' and B.atom_of[v].args[0] is ev]
        gi = B.any(B.mk(v, FALSE, TRUE) for v in inst)
        gone = B.any(B.mk(v, TRUE, FALSE) for v in set().union(B.support(Q.pc), *[B.support(x.g) for x in r.events])
                     if B.atom_of[v].op in ('truthy', 'nonempty') and isinstance(B.atom_of[v].args[0], T) and deep(B.atom_of[v].args[0]) is mk('item', deep(base(C.key)), kc)
                     or B.atom_of[v].op == 'haskey' and deep(B.atom_of[v].args[0]) is deep(base(C.key)) and deep(B.atom_of[v].args[1]) is kc)
        if not inst:
            other = [B.atom_of[v] for v in B.support(e.g) if ev in subterms(B.atom_of[v])]
            exact = any(u.op == 'app' and u.args[0] in ('type', 'builtins.type') or u.op == 'attr' and u.args[1] == '__class__' for a in other for u in subterms(a))
            chk.check(False, 'instances of the class', e.where(), 'callbacks are chosen by %s, not by isinstance: those of base classes are not called' % ', '.join(map(show, other)),
                      unknown=not exact)
            continue
        chk.implies(B.AND(B.AND(C.pc, C.more), gi), B.any([Q.pc, gone] + [x.g for x in evs(r, 'raise')] + [loop_escapes(r)]), 'every matching class', e.where(), 'callbacks of a matching class are skipped')
        chk.implies(e.g, gi, 'only matching classes', e.where(), 'callbacks of another class are called')
        chk.implies(B.AND(B.AND(Q.pc, Q.more), B.NOT(loop_escapes(r))), B.any([K.pc] + [x.g for x in evs(r, 'raise')]), 'every priority', e.where(), 'some priorities are skipped')
        chk.implies(B.AND(B.AND(K.pc, K.more), B.NOT(loop_escapes(r))), e.g, 'every callback', e.where(), 'some callbacks are skipped')
        for L, n in ((C, 'classes'), (Q, 'priorities'), (K, 'callbacks')):
            no_break(chk, L, n, e.where())
        whole(chk, r, Q.raw, 'priorities', e.where())
        whole(chk, r, K.raw, 'callbacks', e.where())
        chk.rule('order', 'within a class the higher priority comes first, within a priority the earlier registration')
        q0, w = unwrap(Q.raw)
        s_ = [kw for n, kw in w if n == 'sorted']
        rev = [n for n, kw in w if n == 'reversed']
        if not s_:
            chk.check(False, 'priorities', e.where(), 'the priorities are used in the order %s' % show(Q.raw), unknown=deep(q0).op not in ('item', 'app') or any(n == 'set' for n, _ in w))
        else:
            desc = 'reverse' in s_[0] and is_const(s_[0]['reverse']) and bool(cval(s_[0]['reverse']))
            if 'reverse' in s_[0] and not is_const(s_[0]['reverse']) or 'key' in s_[0]:
                chk.undecided('priorities', e.where(), show(Q.raw))
            else:
                chk.check(desc != bool(len(rev) % 2), 'priorities', e.where(), 'lower priorities are called first')
        k0, w = unwrap(K.raw)
        ns = [n for n, _ in w]
        chk.check(ns.count('reversed') % 2 == 0 and 'sorted' not in ns and 'set' not in ns and 'frozenset' not in ns, 'callbacks', e.where(),
                  'callbacks of one priority are called in the order %s' % show(K.raw))
        chk.rule('stable', 'callbacks that (un)register callbacks do not disturb the delivery that is under way')
        chk.check(bool([n for n in ns if n in ('list', 'tuple', 'copy', 'sorted')]), 'copy of the callbacks', e.where(),
                  'the callbacks are iterated without a copy: one that unregisters itself makes its successor miss the event')
        chk.rule('emit', 'emit calls every callback of every registered class the event is an instance of, once, with the event')


@prop('S11')
def s11_unregister(ctx, chk):
    r = ctx.run(ctx.method('EventBus', 'unregister'))
    s, cls_, cb = (r.sym[p] for p in r.func.params[:3])
    chk.rule('unregister', 'unregistering removes that callback of that class, and nothing else')
    rem = [e for e in evs(r, 'remove')]
    if not rem:
        raise Undecided('form of the removal')
    for e in rem:
        for g, t in under(e.args[0], e.g):
            chk.check(t is cb, 'that callback', e.where(), '%s is removed' % show(t), unknown=has_unknown(t))
        c = deep(e.recv)
        cc = c.args[0] if c.op == 'item' else c
        chk.check(cc.op == 'item' and cc.args[1] is cls_, 'of that class', e.where(), 'the callback is removed from %s' % show(c), unknown=c.op != 'item' or cls_ in subterms(c))
        Ls = [l for l in e.loops if l.raw is not None]
        if Ls:
            L = Ls[-1]
            whole(chk, r, L.raw, 'priorities', e.where())
            for k, fact in exits(L, ('brk', 'ret')):
                chk.implies(fact, gor(x for x in rem), 'every priority is searched', e.where(), 'the search ends before the callback is found')
            for k, fact in exits(L, ('exc',)):
                vs = [v for v in B.support(fact) if B.atom_of[v].op == 'haskey' and cb in subterms(B.atom_of[v])]
                miss = B.any(B.mk(v, TRUE, FALSE) for v in vs)
                chk.check(not sat(B.AND(fact, miss)), 'every priority is searched', e.where(), 'the search ends at the first priority without the callback')
            absent = B.any(B.mk(v, TRUE, FALSE) for v in B.support(e.g) if B.atom_of[v].op == 'haskey' and B.atom_of[v].args[1] is cb)
            chk.implies(B.AND(B.AND(L.pc, L.more), B.NOT(loop_escapes(r))), B.any([e.g, absent] + [x.g for x in evs(r, 'raise')]), 'every priority', e.where(), 'some priorities are not searched')
    for e in evs(r, ('clear', 'delitem', 'listpop')):
        if e.recv is not None and mk('attr', s, fieldname(base(e.recv)) or '', 0) is not None and s in subterms(e.recv):
            if e.kind == 'clear':
                chk.bad('nothing else', e.where(), 'all registrations are dropped')
            else:
                empt = any(B.atom_of[v].op in ('nonempty', 'truthy', 'len') for v in B.support(e.g))
                chk.check(empt, 'nothing else', e.where(), 'other registrations are dropped as well', unknown=True)


def base(t):
    t = deep(t)
    while t.op == 'item':
        t = t.args[0]
    return t


# ---------------------------------------------------------------- S12
@prop('S12')
def s12(ctx, chk):
    R = roles(ctx)
    r, s = R.run, R.selft
    q = ctx.run(ctx.method('Context', 'strategy_dt'))
    fld = set()
    loopf = set()
    chk.rule('read', 'context.strategy_dt is the due time of the event being handled, context.current_dt the current time')
    for g, t in q.value.ls:
        if not sat(B.AND(g, q.st.pc)) or t is NONE or is_const(t):
            continue
        x = from_ms(t)
        fd = [u for u in subterms(t) if u.op == 'app' and u.args[0] in ('floordiv', 'int', 'round', 'builtins.round', 'math.floor') and len(u.args) > 1
              and any(w.op == 'attr' and typed(q, w.args[0], R.L) for w in subterms(u))]
        if fd:
            chk.bad('strategy_dt', q.func.qual, 'strategy_dt is rounded: %s' % show(t))
            continue
        if x is None:
            chk.check(False, 'strategy_dt', q.func.qual, 'strategy_dt is %s' % show(t), unknown=has_unknown(t) or not [u for u in subterms(t) if u.op == 'res' and u.args[1] in CLOCKS])
            continue
        c, d = as_lin(x)
        if len(d) == 1 and list(d)[0].op == 'attr' and typed(q, list(d)[0].args[0], R.L):
            k = list(d)[0]
            chk.check(c == 0 and d[k] == 1, 'strategy_dt', q.func.qual, 'strategy_dt is %s' % show(t))
            fld.add(k.args[1])
        else:
            chk.check(False, 'strategy_dt', q.func.qual, 'strategy_dt is %s' % show(t), unknown=not any(u.op == 'res' and u.args[1] == 'time.time' for u in subterms(t)))
    for f in sorted(fld):
        v = B.any(B.AND(g, B.NOT(truthy(mk('attr', x, f, 0)))) for g, t in q.value.ls if t is NONE or is_const(t) for x in [find_loop(q, R, f)] if x is not None)
        chk.implies(B.AND(q.st.pc, B.any(g for g, t in q.value.ls if t is NONE or is_const(t))), v, 'None only before the first event', q.func.qual, 'strategy_dt is None while events are handled')
    c = ctx.run(ctx.method('Context', 'current_dt'))
    for g, t in c.value.ls:
        x = from_ms(t)
        now = [u for u in subterms(t) if u.op == 'res' and u.args[1] in CLOCKS]
        chk.check(bool(now), 'current_dt', c.func.qual, 'current_dt is %s' % show(t), unknown=has_unknown(t) and not any(u.op == 'attr' and u.args[1] in fld for u in subterms(t)))
    vals = [t for g, t in q.value.ls if sat(B.AND(g, q.st.pc))]
    if not fld and vals and all(t is NONE or is_const(t) for t in vals):
        chk.bad('strategy_dt', q.func.qual, 'strategy_dt is always %s' % ', '.join(map(show, vals)))
    user_views(ctx, chk, ('strategy_dt', 'current_dt'), fld)
    if not fld:
        raise Undecided('field behind strategy_dt not found')
    chk.rule('write', 'before the callback of a message runs, the time of the strategy is set to the due time of this message')
    n = 0
    for p in R.pops():
        for m in R.msg(p):
            for e in evs(r, 'callback'):
                if not (e.recv is not None and e.recv.op == 'attr' and e.recv.args[0] is m and e.recv.args[1] == 'callback'):
                    continue
                n += 1
                for f in sorted(fld):
                    for g, t in under(field(r, e.heap, s, f), e.g):
                        chk.check(t is mk('attr', m, 'time', 0) or t.op == 'attr' and t.args[:2] == (m, 'time'), 'set before the callback', e.where(),
                                  'the callback runs with strategy_dt from %s' % show(t), unknown=has_unknown(t) and t.op != 'attr')
    if not n:
        raise Undecided('callback of a message not found')
    chk.rule('owner', 'nothing else changes the time of the strategy')
    own = {e.node for e in evs(r, 'set') if e.fn in fld} if hasattr(r.events[0], 'node') else None
    good = {e.where() for e in evs(r, 'set') if e.fn in fld and e.recv is s and any(m in subterms(t) for p in R.pops() for m in R.msg(p) for _, t in e.args[0].ls)}
    for f_, n_, w in attr_stores(ctx, fld, R.L):
        if f_ in ctx.ty.ctors:
            continue
        chk.check(w in good, 'store in %s' % f_.qual.split('.')[-1], w, 'the time of the strategy is set to something else than the due time of a message')


def user_views(ctx, chk, names, mine=()):
    """the context of the strategy shows what the context of the task shows"""
    chk.rule('user', 'the context given to the strategy shows the same as the context of the task')
    U, C = ctx.cls('UserContext'), ctx.cls('Context')
    new = ctx.run(U.find('__init__'))
    me, c = (new.sym[p] for p in new.func.params[:2])
    kept = {k[1] for k, v in new.st.heap.items() if k[0] is me and isinstance(v, V) and any(t is c for g, t in v.ls)}
    for n in names:
        f = U.find(n)
        if f is None:
            chk.bad(n, U.name, 'the context of the strategy has no %s' % n)
            continue
        r = ctx.run(f, opaque=[C.find(n)])
        es = [e for e in r.events if e.kind == 'opaque' and e.recv is not None or e.kind == 'opaque']
        src = {e.res: e for e in es}
        me2 = r.sym[f.params[0]]
        for g, t in r.value.ls:
            if not sat(B.AND(g, r.st.pc)):
                continue
            if t in src:
                o = src[t].recv
                chk.check(o is None or o.op == 'attr' and o.args[0] is me2 and o.args[1] in kept, n, f.qual, '%s is that of %s' % (n, show(o) if o is not None else '?'), unknown=True)
            elif t.op == 'attr' and t.args[1] == n and t.args[0].op == 'attr' and t.args[0].args[0] is me2:
                chk.ok(n, f.qual)
            else:
                clock = any(u.op == 'res' and u.args[1] in CLOCKS for u in subterms(t))
                cut = any(u.op in ('app', 'res') and any(x in ('.replace', 'replace', '.date', 'date', 'time', '.time') for x in u.args if isinstance(x, str)) for u in subterms(t)) and any(x in subterms(t) for x in src)
                other = cut or t is NONE or is_const(t) or any(u.op == 'sym' and u is c for u in subterms(t))
                chk.check(False, n, f.qual, '%s is %s' % (n, show(t)), unknown=not other and (n != 'strategy_dt' or not clock)
                          and (n != 'current_dt' or clock or not any(u.op == 'attr' and u.args[1] in mine for u in subterms(t))))


def find_loop(q, R, f):
    for g, t in q.value.ls:
        for u in subterms(t):
            if u.op == 'attr' and u.args[1] == f:
                return u.args[0]
    return None


def from_ms(t):
    """x if t is datetime.fromtimestamp(x / 1000)"""
    if t.op == 'app' and t.args[0] == 'datetime.datetime.fromtimestamp' and len(t.args) == 2:
        c, d = as_lin(t.args[1])
        return core.mklin(c * 1000, {k: v * 1000 for k, v in d.items()})
    return None


# ---------------------------------------------------------------- S13
MUT = ('heapq.heappush', 'heapq.heappop', 'heapq.heapreplace', 'heapq.heappushpop', 'heapq.heapify')


@prop('S13')
def s13(ctx, chk):
    R = roles(ctx)
    chk.rule('locked', 'every operation that changes the queue of the loop runs while the lock of the queue is held')
    used, qs = set(), set()
    for r in (R.run, ctx.run(ctx.method(R.L, 'push_message'))):
        for e in evs(r, 'call', MUT):
            for a in e.args[:1]:
                for g, t in under(a, e.g):
                    lock_rule(ctx, chk, r, e, t)
                    used.add(t)
                    if t.op == 'attr':
                        qs |= set(r.interp.classes_of(t.args[0]) or ())
    qs = sorted(qs, key=lambda c: c.qual)
    if not used:
        raise Undecided('operations on the queue of the loop not found')
    for q in qs:
        for n, f in sorted(all_methods(q).items()):
            if n.startswith('_'):
                continue
            r = ctx.run(f, cls=q)
            for e in evs(r, 'call', MUT) + evs(r, ('append', 'listpop', 'sort', 'setitem', 'delitem', 'remove', 'clear')):
                t = e.args[0].ls[0][1] if e.kind == 'call' and e.args else e.recv
                if t is None or not any(u is r.sym.get('self') for u in subterms(t)):
                    continue
                lock_rule(ctx, chk, r, e, t)
    chk.rule('woken after', 'the loop is woken only once the message is in the queue')
    pm = ctx.run(ctx.method(R.L, 'push_message'))
    for w in evs(pm, 'call', '.send'):
        for e in evs(pm, 'call', ('heapq.heappush',)):
            if e.i > w.i:
                chk.check(not sat(B.AND(w.g, e.g)) or any(x.i > e.i and implies(B.AND(e.g, w.g), x.g) for x in evs(pm, 'call', '.send')), 'woken after', e.where(), 'the loop is woken before the message is in the queue: the wake-up may be over when the message arrives')
    chk.ok('woken after', pm.func.qual)
    chk.rule('no-deadlock', 'the lock is not taken again while it is held')
    for q in qs:
        kinds = lock_kinds(ctx, q)
        for n, f in sorted(all_methods(q).items()):
            if n.startswith('_'):
                continue
            r = ctx.run(f, cls=q)
            ent = evs(r, 'enter')
            for i, a in enumerate(ent):
                for b in ent[i + 1:]:
                    if a.recv is b.recv and sat(B.AND(a.g, b.g)):
                        rel = gor(x for x in evs(r, 'exit') if x.recv is a.recv and a.i < x.i < b.i)
                        if kinds.get(fieldname(a.recv)) == 'threading.Lock':
                            chk.check(not sat(B.AND(B.AND(a.g, b.g), B.NOT(rel))), '%s' % n, b.where(), 'the lock is taken twice: the call never returns')
            chk.ok(n, f.qual)


def all_methods(c):
    out = {}
    for k in reversed(c.mro()):
        for n, f in k.methods.items():
            out[n] = f
    return out


def lock_kinds(ctx, q):
    r = ctx.run(ctx.method(q, '__init__'), cls=q)
    out = {}
    for e in evs(r, 'set'):
        for g, t in under(e.args[0], e.g):
            if t.op == 'res' and str(t.args[1]).startswith('threading.') or t.op == 'obj' and str(t.args[1]).startswith('x:threading'):
                out[e.fn] = str(t.args[1]).replace('x:', '')
    return out


def lock_rule(ctx, chk, r, e, t):
    ent = [x for x in evs(r, 'enter') if x.i < e.i and x.recv is not None]
    held = FALSE
    for x in ent:
        if x.recv.op != 'attr':
            continue
        rel = gor(y for y in evs(r, 'exit') if y.recv is x.recv and x.i < y.i < e.i and y.site == x.site)
        held = B.OR(held, B.AND(x.g, B.NOT(rel)))
    fresh = [x for x in ent if x.recv.op != 'attr']
    acq = [x for x in evs(r, 'call') if str(x.fn).endswith('acquire')]
    if acq:
        a = gor(x for x in acq if x.i < e.i)
        rel = gor(x for x in evs(r, 'call') if str(x.fn).endswith('release') and x.i < e.i)
        held = B.OR(held, B.AND(a, B.NOT(rel)))
    if implies(e.g, held):
        chk.ok('%s in %s' % (e.fn, r.func.qual.split('.')[-1]), e.where())
        return
    chk.check(False, '%s in %s' % (e.fn, r.func.qual.split('.')[-1]), e.where(), 'the queue is changed without its lock', unknown=False)


# ---------------------------------------------------------------- S14
@prop('S14')
def s14(ctx, chk):
    for mod, fn, cname, pre in (('scheduler.config', 'setup_scheduler_config', 'SchedulerConfig', 'SCHEDULER_'),
                                ('account.config', 'setup_account_config', 'AccountConfig', 'ACCOUNT_')):
        f = ctx.func(mod, fn)
        r = ctx.run(f)
        path = r.sym[f.params[0]]
        chk.rule('file', 'the given custom configuration file is executed')
        op = evs(r, 'call', ('builtins.open', 'io.open', 'codecs.open'))
        ex = evs(r, 'call', 'builtins.exec')
        if not ex:
            seen = [e for e in r.events if e.kind in ('call', 'opaque', 'callback') and not str(e.fn).startswith(('builtins.open', 'os.path.', '.read', 'vars.', 'io.', 'log.'))]
            chk.check(False, '%s: file' % cname, f.qual, 'the configuration file is not executed', unknown=bool(seen))
            continue
        for e in ex:
            for g, t in under(e.args[0], e.g) if e.args else []:
                chk.check(t is not path and not any(t is o.res for o in op) and t.op != 'obj', '%s: text of the file' % cname, e.where(), 'executes %s, not the text of the file' % show(t), unknown=False)
        for e in op:
            for g, t in under(e.args[0], e.g):
                chk.check(path in subterms(t), '%s: given path' % cname, e.where(), 'opens %s' % show(t), unknown=has_unknown(t))
        chk.implies(r.st.pc, gor(ex), '%s: executed' % cname, f.qual, 'the configuration file may be ignored')
        for e in ex:
            if len(e.args) > 2:
                a, b = terms(e.args[1]), terms(e.args[2])
                chk.check(a == b and len(a) == 1, '%s: one namespace' % cname, e.where(), 'a function in the configuration file does not see the names of the file', unknown=any(t.op not in ('obj', 'const') for t in a + b))
        chk.rule('names', 'a name with the prefix of the module sets exactly the option behind the prefix to exactly its value; other names have no effect')
        C = mk('single', ctx.cls(cname))
        ups = [e for e in evs(r, 'call', 'vars.update')]
        sets = []      # (event, guard, key term, value term)
        for e in ups:
            chk.check(e.recv is C, '%s: target' % cname, e.where(), 'options are set on %s' % show(e.recv), unknown=e.recv.op != 'single')
            for g, d in under(e.args[0], e.g):
                sets += option_entries(chk, r, e, d, g, cname)
        direct = []
        for e in evs(r, 'setattr') + evs(r, 'setitem'):
            if e.kind == 'setitem' and e.recv.op != 'vars':
                continue
            t = e.recv.args[0] if e.kind == 'setitem' else e.recv
            chk.check(t is C, '%s: target' % cname, e.where(), 'options are set on %s' % show(e.recv), unknown=t.op != 'single')
            sets.append((e, e.loops))
            direct.append(e)
        chk.implies(r.st.pc, B.any([gor(ups)] + [x.loops[0].pc for x in direct if x.loops]), '%s: options applied' % cname, f.qual, 'the options of the file are not applied')
        if not sets:
            none = bool(ups) and not direct and all(is_const(t) or t.op == 'obj' and t.args[1] == 'dict' and not r.interp.ops(t, _mkst(e.heap, g)) for e in ups for g, t in under(e.args[0], e.g))
            chk.check(False, '%s: options' % cname, f.qual, 'no option of the file is applied', unknown=not none)
        for x, loops_ in sets:
            if isinstance(x, tuple):
                k, v, g, where = x[2], x[3], x[1], f.qual
            else:
                k, v, g, where = x.args[0], x.args[1], x.g, x.where()
            L = loops_[-1] if loops_ else None
            if L is None:
                chk.undecided('%s: options' % cname, where, 'no loop over the names')
                continue
            for h, kt in under(k, B.AND(L.more, g)):
                nm = [u for u in subterms(kt) if u.op in ('key', 'elem')] or [u for u in subterms(kt) if u.op == 'item']
                nm = nm[-1] if nm else None
                st_ = [B.atom_of[i] for i in B.support(g) if B.atom_of[i].op == 'starts']
                pres = {cval(a.args[1]) if isinstance(a.args[1], T) else a.args[1] for a in st_ if isinstance(a.args[1], str) or is_const(a.args[1])}
                chk.check(pres == {pre}, '%s: prefix' % cname, where, 'the prefix is %s' % (sorted(map(str, pres)) or 'not tested'), unknown=not st_ and not plain_loop(r, L, g, nm))
                if st_:
                    gs = B.any(B.mk(i, FALSE, TRUE) for i in B.support(g) if B.atom_of[i].op == 'starts')
                    chk.implies(g, gs, '%s: only with the prefix' % cname, where, 'names without the prefix are applied')
                    if isinstance(x, tuple):
                        chk.implies(B.AND(L.more, gs), g, '%s: every name with the prefix' % cname, where, 'some options are ignored')
                    else:
                        chk.implies(B.AND(B.AND(L.pc, L.more), gs), B.any([g, loop_escapes(r)] + [y.g for y in evs(r, 'raise')]), '%s: every name with the prefix' % cname, where, 'some options are ignored')
                no_break(chk, L, '%s names' % cname, where)
                cut = L.raw is not None and unwrap(L.raw)[0].op == 'slice'
                chk.check(not cut, '%s: all names' % cname, where, 'only some of the names are looked at: %s' % (show(L.raw) if L.raw is not None else ''))
                z = suffix_of(kt, nm, pre)
                chk.check(z is True, '%s: option name' % cname, where, 'the option of %s is %s, not the name without its prefix' % (show(nm) if nm is not None else '?', show(kt)), unknown=z is None)
                for h2, vt in under(v, h):
                    okv = vt.op == 'item' and 'exec' in show(vt) and (vt.args[1] is nm or vt.args[1] == const(1)) or vt.op == 'val'
                    chk.check(okv, '%s: option value' % cname, where, 'the option gets %s' % show(vt), unknown=has_unknown(vt) or 'exec' in show(vt))


def plain_loop(r, L, g, nm):
    """does the loop go over the names of the executed file with no condition but the truth of the name?"""
    if L is None or L.raw is None:
        return False
    src, w = unwrap(L.raw)
    if w and [n for n, kw in w if n not in ('list', 'tuple', 'iter', 'items', 'keys', 'sorted')] or src.op not in ('obj', 'items', 'keys'):
        return False
    extra = [B.atom_of[i] for i in B.support(g) - B.support(L.pc) - B.support(L.more)]
    return all(a.op == 'raises' or a.op == 'truthy' and a.args[0].op == 'key' or a.op == 'haskey' and a.args[1].op == 'key' and a.args[1].args[0] is a.args[0] for a in extra)


def option_entries(chk, r, e, d, g, cname, depth=0):
    """the (key, value) entries of a mapping or list of pairs, loops over other local mappings resolved"""
    if d.op == 'gen' or d.op != 'obj' or depth > 3:
        chk.undecided('%s: options' % cname, e.where(), show(d))
        return []
    out = []
    st = _mkst(e.heap, g)
    pairs = []                # (guard, key V, value V, loop or None)

    def put(sub, L):
        if sub[0] == 'set':
            pairs.append((sub[1], sub[2], sub[3], L))
        elif sub[0] == 'e':
            for h, t in sub[2].ls:
                kv = r.interp.known_elems(t, _mkst(e.heap, h))
                if kv is None or len(kv) != 2:
                    chk.undecided('%s: options' % cname, e.where(), show(t))
                else:
                    pairs.append((B.AND(sub[1], h), kv[0], kv[1], L))
        elif sub[0] == 'upd' and isinstance(sub[2], T) and sub[2].op == 'app' and sub[2].args[0] == 'exec':
            chk.bad('%s: only with the prefix' % cname, e.where(), 'every name of the file is applied')
        else:
            chk.undecided('%s: options' % cname, e.where(), str(sub)[:100])
    seq = r.interp.ops(d, st) if d.args[1] == 'dict' else r.interp.segs(d, st)
    for o in seq:
        if o[0] == 'each':
            for sub in o[3]:
                put(sub, o[2])
        else:
            put(o, None)
    direct = {x for x in evs(r, 'setitem') if x.recv is d}
    for x in direct:
        out.append((x, x.loops))
    for pg, k, v, L in pairs:
        src, _ = unwrap(L.raw) if L is not None and L.raw is not None else (None, None)
        if src is not None and src.op == 'obj' and src.args[1] in ('dict', 'list', 'set', 'tuple') and \
                not [o for o in r.interp.ops(src, st) if o[0] == 'upd']:
            inner = option_entries(chk, r, e, src, g, cname, depth + 1)
            filt = B.AND(L.more, B.NOT(pg))
            starts = any(B.atom_of[i].op == 'starts' for i in B.support(pg))
            if not starts:
                chk.check(not sat(filt), '%s: every option' % cname, e.where(), 'options are left out: only %s' % brief(pg), unknown=guard_unknown(pg))
                out += inner
                continue
        if L is not None and not direct:
            out.append((('set', pg, k, v), [L]))
    return out


def suffix_of(t, nm, pre):
    """is t the name without the prefix? True / False / None (unknown)"""
    if t.op == 'slice' and t.args[0].op in ('key', 'elem', 'item'):
        lo, hi, st = (list(t.args[1:]) + [None] * 3)[:3]
        val = [cval(x) if isinstance(x, T) and is_const(x) else x for x in (lo, hi, st)]
        if isinstance(val[0], T):
            return None
        return val[0] == len(pre) and val[1] is None and val[2] in (None, 1)
    if t.op == 'app':
        n = str(t.args[0]).lstrip('.')
        a = [cval(x) if isinstance(x, T) and is_const(x) else x for x in t.args[1:]]
        if n == 'removeprefix':
            return a[-1] == pre
        if n in ('lstrip', 'strip', 'replace', 'rstrip'):
            return False
    if t.op == 'replace':
        return len(t.args) > 3 and t.args[3] == 1 or None
    if t.op in ('strip', 'lstrip'):
        return False
    if t.op in ('key', 'elem'):
        return False
    return None


def is_cond(t):
    return t.op == 'app' and t.args[0] in ('os.path.exists', 'os.path.isfile', 'builtins.bool')


@prop('S14')
def s14_use(ctx, chk):
    chk.rule('applied', 'a run that is given a custom configuration applies it to both modules before anything reads the options')
    f = ctx.method('TaskRunner', 'run')
    op = [ctx.func('scheduler.config', 'setup_scheduler_config'), ctx.method('Strategy', '__init__'), ctx.method('Strategy', 'setup'), ctx.method('EventLoop', 'run')]
    r = ctx.run(f, opaque=op)
    s = r.sym['self']
    sc = [e for e in evs(r, 'opaque') if e.fn.endswith('setup_scheduler_config')]
    st = [e for e in evs(r, 'opaque') if e.fn.endswith('Strategy.setup') or e.fn.endswith('Strategy.__init__')]
    if not st:
        raise Undecided('start of the strategy not found')
    init = ctx.run(ctx.method('TaskRunner', '__init__'))
    cfgs = set()
    isy = init.sym.get('config')
    for e in evs(init, 'set'):
        if isy is not None and any(isy in subterms(t) and not is_cond(t) for g, t in under(e.args[0], e.g)):
            cfgs.add(e.fn)
    for c in sorted(cfgs):
        given = truthy(mk('attr', s, c, 0))
        for e in st:
            chk.implies(B.AND(e.g, given), gor(x for x in sc if x.i < e.i), 'scheduler options before %s' % e.fn.split('.')[-1], e.where(), 'the custom configuration is not applied to the scheduler')
        for x in sc:
            for g, t in under(x.args[0], x.g):
                chk.check(mk('attr', s, c, 0) in subterms(t), 'given file', x.where(), 'the configuration is read from %s' % show(t), unknown=has_unknown(t))
        cx = [e for e in evs(r, 'new') if e.res is not None and 'Context' in show(e.res)]
    chk.check(bool(cfgs), 'configuration kept', init.func.qual, 'the given configuration is dropped', unknown=isy is None)


# ---------------------------------------------------------------- S15: events due at the same time
def event_priorities(ctx, r, v, g):
    """[(guard, priority or None)] of an event class"""
    out = []
    for h, t in under(v, g):
        if t.op == 'item' or t.op in ('undef', 'missing'):
            continue                                # an existing class of that name: made by an earlier call of the same kind
        if t.op == 'cls' and hasattr(t.args[0], 'mro'):
            out.append((h, const_attr(r, t.args[0])))
            continue
        mk_ = [e for e in evs(r, 'call', 'builtins.type') if e.res is t and len(e.args) == 3]
        if not mk_:
            out.append((h, None))
            continue
        for k, d in under(mk_[0].args[2], h):
            last = None
            try:
                for o in r.interp.ops(d, _mkst(mk_[0].heap, k)):
                    if o[0] == 'set' and any(is_const(x) and cval(x) == 'priority' for x in terms(o[2])):
                        last = o[3]
                    elif o[0] != 'set':
                        raise Undecided('entries')
            except Undecided:
                out.append((k, None))
                continue
            if last is None:
                out.append((k, const_attr(r, ctx.cls('Event'))))
                continue
            for x, p in under(last, k):
                out.append((x, cval(p) if is_const(p) and isinstance(cval(p), (int, float)) else const_attr(r, ctx.cls('Event')) if p.op == 'attr' and p.args[1] == 'priority' else None))
    return out


def const_attr(r, cls):
    """the priority of the instances of a class of the package"""
    v = r.interp.class_attr(cls, 'priority', r.st)
    ts = terms(v) if v is not None else []
    if len(ts) == 1 and is_const(ts[0]) and isinstance(cval(ts[0]), (int, float)):
        return cval(ts[0])
    return None


@prop('S15')
def s15(ctx, chk):
    r = strat_sched(ctx)
    daily = [e for e in r.events if e.kind == 'opaque' and e.fn.endswith('EventSource.daily')]
    if not daily:
        raise Undecided('registrations of Strategy.schedule')
    me = r.sym[r.func.params[0]]
    kinds = {'every_minute': [], 'time of its own': [], 'account sync': []}
    for e in daily:
        if len(e.args) < 3:
            raise Undecided('arguments of daily')
        own = all(t.op == 'item' and is_const(t.args[1]) for h, t in under(e.args[2], e.g))
        kinds['time of its own' if own else 'every_minute'].append((r, e))
    ac = ctx.run(ctx.method('Account', 'setup'), opaque=others_of(ctx, ctx.cls('EventSource')) + others_of(ctx, ctx.cls('EventBus')) + others_of(ctx, ctx.cls('EventSourceScheduler')) +
                 [f for n, f in ctx.cls('Account').methods.items() if n.startswith('sync')])
    for e in ac.events:
        if e.kind == 'opaque' and e.fn.endswith('EventSource.daily') and len(e.args) > 2:
            kinds['account sync'].append((ac, e))
    chk.rule('rank', 'events of the account sync have a higher priority than those of every_minute, these a higher one than tasks with a time of their own')
    pr = {}
    for k, es in kinds.items():
        if not es:
            chk.undecided(k, r.func.qual, 'events of this kind not found')
        for q, e in es:
            for g, p in event_priorities(ctx, q, e.args[1], e.g):
                if p is None:
                    chk.undecided(k, e.where(), 'priority of the events')
                else:
                    pr.setdefault(k, []).append((p, e.where()))
    for hi, lo in (('account sync', 'every_minute'), ('every_minute', 'time of its own')):
        for a, w in pr.get(hi, []):
            for b, w2 in pr.get(lo, []):
                chk.check(a > b, '%s before %s' % (hi, lo), w, 'events of %s have priority %s, those of %s %s' % (hi, a, lo, b))
    chk.rule('recorded', 'run_daily adds the task behind those registered before')
    rd = ctx.run(ctx.method('Strategy', 'run_daily'))
    s = rd.sym[rd.func.params[0]]
    fs = set()
    sch = [e for e in r.events if e.kind == 'opaque' and e.fn.endswith('EventSourceScheduler.schedule')]
    for e in sch + daily:
        if not e.loops:
            continue
        L = e.loops[0]
        t, w = unwrap(L.raw) if L.raw is not None else (None, [])
        if t is not None and t.op == 'attr' and t.args[0] is me:
            fs.add(t.args[1])
    if len(fs) != 1:
        raise Undecided('where the tasks are kept')
    f = fs.pop()
    adds = [e for e in rd.events if e.kind in ('append', 'sort', 'extend', 'update', 'setitem', 'setslice', 'delitem', 'clear', 'set') and
            (e.fn == f and e.kind == 'set' or isinstance(e.recv, T) and mk('attr', s, f, 0) in subterms(e.recv))]
    calls = [e for e in rd.events if e.kind == 'call' and isinstance(e.recv, T) and mk('attr', s, f, 0) in subterms(e.recv)]
    ap = [e for e in adds if e.kind == 'append' and e.fn != 'insert' and 'left' not in str(e.fn)]
    odd = [e for e in adds if e not in ap]
    for e in odd:
        chk.check(False, 'at the end', e.where(), 'the tasks recorded before are changed: %s' % (e.fn or e.kind), unknown=e.kind not in ('append', 'sort'))
    chk.check(bool(ap) and not calls, 'at the end', rd.func.qual, 'a task is not added at the end', unknown=bool(calls) or bool(odd) or not ap)
    if ap:
        chk.implies(rd.st.pc, gor(ap), 'recorded', rd.func.qual, 'a task is not recorded')
    chk.rule('in order', 'the tasks are scheduled in the order of their registration')
    for e in sch:
        if not e.loops:
            chk.undecided('loop', e.where(), 'not in a loop over the tasks')
            continue
        for L in e.loops[:1]:
            t, w = unwrap(L.raw) if L.raw is not None else (None, [])
            bad = [n for n, kw in w if n in ('sorted', 'reversed', 'set', 'frozenset')]
            ok = t is mk('attr', me, f, 0) and not [n for n, kw in w if n not in ('list', 'tuple', 'iter', 'copy', 'enumerate')]
            chk.check(ok, 'order', e.where(), 'the tasks are scheduled in the order %s' % (show(L.raw) if L.raw is not None else '?'), unknown=not bad)
        chk.check(len(e.loops) == 1, 'once per task', e.where(), 'a source is scheduled more than once', unknown=False)
    if not sch:
        chk.undecided('loop', r.func.qual, 'sources are not scheduled here')
