"""Rules of the scheduler properties (S..)."""
import ast
from fractions import Fraction

from .rules import *
from .rules import _mkst
from . import core
from .core import NOWS

CHECKS = {}


def prop(pid):
    def deco(f):
        CHECKS.setdefault(pid, []).append(f)
        return f
    return deco


# ---------------------------------------------------------------- roles of the event loop
class LoopRoles(object):
    """the roles of EventLoop, found by data flow from its public methods"""
    def __init__(self, ctx):
        self.ctx = ctx
        L = ctx.cls('EventLoop')
        self.L, self.M = L, ctx.cls('Message')
        init = ctx.run(ctx.method(L, '__init__'))
        self.init = init
        self.cb = None
        for e in evs(init, 'call', ('pyuv.Async',)):
            for g, t in leavesof(init, e, 1, 'callback'):
                if t.op == 'bm' and t.args[0].cls is not None:
                    self.cb = t.args[0]
                    self.asyncres, self.async_loop = e.res, value_of(e.arg(0, 'loop'), e.g)
        if self.cb is None:
            raise Undecided('queue callback of the loop (pyuv.Async) not found')
        self.run = ctx.run(self.cb)
        self.selft = self.run.sym[self.cb.params[0]]
        # stop flag: the field that stop() sets to a true constant
        stop = ctx.run(ctx.method(L, 'stop'))
        self.stop = stop
        s = stop.sym['self']
        fl = {e.fn for e in evs(stop, 'set') if e.recv is s and any(is_const(t) and cval(t) is True for g, t in e.args[0].ls)}
        if not fl:
            # stop() sets none: the field that keeps the queue callback from taking a message
            s0 = init.sym[init.func.params[0]]
            for k, v in init.st.heap.items():
                if k[0] is s0 and isinstance(v, V) and all(is_const(t) and cval(t) is False for g, t in v.ls):
                    fv = truthv(self.run, field(self.run, {}, self.selft, k[1]), {})
                    if fv not in (TRUE, FALSE) and self.pops() and all(not sat(B.all([p.g, fv, truthv(self.run, field(self.run, p.heap, self.selft, k[1]), p.heap)])) for p in self.pops()):
                        fl.add(k[1])
        if len(fl) != 1:
            raise Undecided('stop flag of the loop not found: %s' % sorted(fl))
        self.flag = fl.pop()

    def pops(self, r=None):
        r = r or self.run
        return [e for e in evs(r, 'call', ('heapq.heappop', 'heapq.heappushpop', 'heapq.heapreplace'))]

    def pushes(self, r=None):
        r = r or self.run
        return [e for e in evs(r, 'call', ('heapq.heappush', 'heapq.heappushpop', 'heapq.heapreplace'))]

    def msg(self, p, r=None):
        """the message delivered by a pop"""
        r = r or self.run
        out = set()
        for e in r.events:
            vs = [v for v in list(e.args) + [x for x in e.kw.values() if isinstance(x, V)] if isinstance(v, V)]
            ts = [t for v in vs for _, t in v.ls] + ([e.recv] if e.recv is not None else [])
            for t in ts:
                for u in subterms(t):
                    if p.res in subterms(u) and typed(r, u, self.M) and u.op in ('item', 'res'):
                        out.add(u)
        return out

    def flagv(self, r, heap, selft):
        return truthv(r, field(r, heap, selft, self.flag), heap)

    def stopset(self, r, selft):
        return [e for e in evs(r, 'set', self.flag) if e.recv is selft and
                all(is_const(t) and cval(t) for g, t in under(e.args[0], e.g))]


def roles(ctx):
    if not hasattr(ctx, '_loop'):
        ctx._loop = LoopRoles(ctx)
    return ctx._loop


def mattr(m, name):
    return mk('attr', m, name, 0)


def keylist(r, e, m, pc):
    """the flattened sort key of a pushed item, up to the message itself"""
    out = []
    for g, t in under(e.args[1], e.g):
        fl = flat_leaf(r, e.heap, t, g)
        if fl is None:
            return None
        ks = []
        for x in fl:
            if x is m:
                break
            ks.append(x)
        else:
            return None
        out.append(ks)
    if len(set(map(tuple, out))) != 1:
        return None
    return out[0]


def seq_field(ctx, chk):
    """the creation-sequence field of Message: {field: description}"""
    M = ctx.cls('Message')
    r = ctx.run(ctx.method(M, '__init__'))
    s = r.sym['self']
    out = {}
    sets = evs(r, 'set')
    for e in sets:
        if e.recv is not s:
            continue
        for g, t in under(e.args[0], e.g):
            c, d = as_lin(t)
            ks = list(d.items())
            if len(ks) == 1 and ks[0][1] == 1:
                k = ks[0][0]
                base = k
                if c > 0 and base.op in ('cattr', 'glob', 'cell', 'attr') or c > 0 and base.op == 'mu':
                    # the same counter is written back with the value
                    for w in sets:
                        if w.recv is not s and w is not e:
                            for g2, t2 in under(w.args[0], w.g):
                                if t2 is t or (as_lin(t2)[1] == d and as_lin(t2)[0] >= c):
                                    if implies(e.g, w.g):
                                        out[e.fn] = 'counter %s' % show(base)
                if 'next' in show(t) and 'count' in show(t):
                    out[e.fn] = 'itertools.count'
    return out, r


@prop('S01')
def s01(ctx, chk):
    R = roles(ctx)
    M = R.M
    chk.rule('message-key', 'every message enters the heap under the key (time, -priority, creation sequence number)')
    seqs, ri = seq_field(ctx, chk)
    finals = ['time', 'priority'] + sorted(seqs)
    pm = ctx.run(ctx.method(R.L, 'push_message'), message=M)
    msgs = [(pm, t) for p, t in pm.sym.items() if p == 'message' or p == pm.func.params[1]][:1]
    sites = []
    for e in R.pushes(pm):
        sites.append((pm, e, msgs[0][1]))
    for p in R.pops():
        for m in R.msg(p):
            for e in R.pushes():
                if any(m in subterms(x) for g, t in under(e.args[1], e.g) for x in (flat_leaf(R.run, e.heap, t, g) or [t])):
                    sites.append((R.run, e, m))
    if not [s for s in sites if s[0] is pm]:
        chk.undecided('push', pm.func.qual, 'no heap insertion found behind push_message')
        return
    for r, e, m in sites:
        inst = 'insertion from %s' % r.func.name
        ks = keylist(r, e, m, e.g)
        if ks is None:
            if any(t is m for g, t in under(e.args[1], e.g)) and M.find('__lt__'):
                lt_rule(ctx, chk, M, seqs, inst, e)
                continue
            chk.undecided(inst, e.where(), 'sort key not a fixed sequence')
            continue
        want = [mattr(m, 'time'), scale(mattr(m, 'priority'), Fraction(-1))]
        for i, w in enumerate(want):
            nm = ('due time', 'negated priority')[i]
            if i >= len(ks):
                chk.bad('%s: key[%d]' % (inst, i), e.where(), 'sort key has no %s component' % nm)
                continue
            chk.check(ks[i] is w, '%s: key[%d] is the %s' % (inst, i, nm), e.where(),
                      'sort key component %d is %s, required %s (%s)' % (i, show(ks[i]), show(w), nm), unknown=has_unknown(ks[i]))
        if len(ks) < 3:
            chk.bad('%s: key[2]' % inst, e.where(), 'no creation-order component: messages of equal time and priority are not FIFO')
        else:
            k = ks[2]
            okk = any(k is mattr(m, f) for f in seqs)
            chk.check(okk, '%s: key[2] is the creation number' % inst, e.where(),
                      'third key component %s is not the increasing creation number of the message' % show(k),
                      unknown=has_unknown(k) or k.op not in ('attr', 'lin', 'const', 'app', 'res'))
    for f in seqs:
        chk.ok('Message.%s comes from %s' % (f, seqs[f]), ri.func.qual)
    chk.rule('message-init', 'time, priority and sequence number of a message are fixed at construction')
    s = ri.sym['self']
    for f, prm in (('time', 'time'), ('priority', 'priority')):
        v = field(ri, ri.st, s, f)
        p = ri.sym.get(prm)
        if p is None:
            chk.undecided('Message.%s' % f, ri.func.qual, 'constructor has no parameter %s' % prm)
            continue
        wants = [p, mk('app', 'int', p), mk('app', 'builtins.int', p)] if f == 'time' else [p]
        chk.value(v, ri.st.pc, wants, 'Message.%s is the constructor argument' % f, ri.func.qual, 'Message.%s' % f)
    for fn, node, where in attr_stores(ctx, finals, M):
        if fn in ctx.ty.ctors:
            continue
        chk.bad('no write to %s of a message after construction' % node.attr, where,
                '%s writes %s of a queued message' % (fn.qual, node.attr))
    chk.ok('fields %s written only by the constructor' % ', '.join(finals), ri.func.qual)
    chk.rule('same-heap', 'messages are taken from the container they are put into, by heap operations only')
    conts = set()
    for r, e, m in sites:
        c = value_of(e.args[0], e.g)
        conts.add((show(c).split('.', 1)[-1], r is pm))
    for p in R.pops():
        c = value_of(p.args[0], p.g)
        nm = show(c).split('.', 1)[-1]
        chk.check(any(nm == x for x, _ in conts), 'pop from %s' % nm, p.where(),
                  'messages are popped from %s but pushed to %s' % (nm, sorted(x for x, _ in conts)), unknown=has_unknown(c))
    # no other mutation of the heap list
    for q in queue_classes(ctx):
        for mname, f in q.methods.items():
            r = ctx.run(f)
            for e in r.events:
                if e.kind in ('append', 'listpop', 'sort', 'remove', 'extend', 'clear', 'setitem', 'delitem') and e.recv is not None \
                        and e.recv.op == 'attr' and any(typed(r, e.recv.args[0], c) for c in queue_classes(ctx)):
                    if e.kind == 'clear':
                        continue
                    cs = {value_of(x.args[0], x.g) for x in r.events if x.kind == 'call' and str(x.fn).startswith('heapq.')}
                    heapish = any(show(e.recv).split('.')[-1] == n.split('.')[-1] for n, _ in conts)
                    if heapish:
                        hf = [x for x in r.events if x.kind == 'call' and x.fn in ('heapq.heapify',) and x.i > e.i]
                        chk.check(bool(hf), '%s keeps the heap order' % f.qual, e.where(),
                                  'list operation %s on the heap container breaks the heap order' % e.kind)


def lt_rule(ctx, chk, M, seqs, inst, e):
    chk.undecided(inst, e.where(), 'order defined by Message.__lt__')


def queue_classes(ctx):
    out = []
    for c in ctx.prog.classes:
        for f in c.methods.values():
            r = ctx.run(f) if f.name in ('push', 'pop') else None
            if r is not None and any(str(e.fn).startswith('heapq.') for e in r.events if e.kind == 'call'):
                out.append(c)
                break
    return out


def attr_stores(ctx, names, cls):
    """[(Func, Attribute node, where)] stores to attributes of objects that may be instances of cls"""
    import ast as A
    out = []
    for f in ctx.prog.funcs:
        body = f.node.body if isinstance(f.node.body, list) else [f.node.body]
        todo = list(body)
        while todo:
            n = todo.pop()
            if isinstance(n, (A.FunctionDef, A.Lambda, A.ClassDef)):
                continue
            if isinstance(n, A.Attribute) and isinstance(n.ctx, (A.Store, A.Del)) and n.attr in names:
                ts = ctx.ty.ev(n.value, f.module, f)
                if any(v[0] == 'i' and (v[1] is cls or cls in v[1].mro() or v[1] in cls.mro()) for v in ts):
                    out.append((f, n, '%s:%s' % (f.module.path, n.lineno)))
            todo.extend(A.iter_child_nodes(n))
    return out


def clock_terms(g, D):
    """[(X, ok, text)] quantities compared with the due time D in the guard"""
    out = []
    for v in B.support(g):
        a = B.atom_of[v]
        if a.op not in ('lt', 'eqn'):
            continue
        c, d = as_lin(a.args[0])
        if D not in d:
            continue
        k = d.pop(D)
        if not d:
            continue
        X = core.mklin(-c / k + Fraction(a.args[1]) / k, {x: -w / k for x, w in d.items()})
        out.append((X, a))
    return out


def clock_quality(X):
    """('ok'|'bad'|'unknown', why): is X the current wall clock in ms, never ahead of it?"""
    c, d = as_lin(X)
    ts = list(d.items())
    nows = [s for s in subterms(X) if s.op == 'res' and s.args[1] in NOWS]
    if not nows:
        return 'unknown', 'not a clock'
    if any(s.args[1] == 'time.monotonic' for s in nows):
        return 'bad', 'the monotonic clock is not comparable with due times'
    if len(ts) != 1:
        return 'unknown', 'form'
    t, w = ts[0]
    if c > 0:
        return 'bad', 'the clock is advanced by %s ms' % c
    inner, iw = t, w
    while inner.op == 'app' and inner.args[0] in ('int', 'builtins.int', 'round', 'builtins.round', 'math.floor', 'float', 'builtins.float'):
        if iw != 1:
            # seconds truncated before scaling: never ahead of the clock
            if inner.args[0] in ('round', 'builtins.round'):
                return 'bad', 'the clock is rounded to whole seconds'
        inner = inner.args[1]
        ci, di = as_lin(inner)
        if len(di) != 1 or ci > 0:
            return ('bad', 'clock advanced') if ci > 0 else ('unknown', 'form')
        (inner, k), = di.items()
        iw = iw * k
    if inner.op == 'app' and inner.args[0] == 'math.ceil':
        return 'bad', 'the clock is rounded up'
    if inner.op == 'app' and inner.args[0] in ('timestamp',):
        inner = inner.args[1]
    if inner.op == 'res' and inner.args[1] in NOWS:
        return ('ok', '') if iw == 1000 else ('bad', 'the clock is scaled by %s, due times are in ms' % iw)
    return 'unknown', 'form %s' % show(inner)


@prop('S02')
def s02(ctx, chk):
    R = roles(ctx)
    r, s = R.run, R.selft
    pops = R.pops()
    if not pops:
        raise Undecided('no heap removal in %s' % R.cb.qual)
    S = B.OR(gor(R.stopset(r, s)), B.AND(r.st.pc, R.flagv(r, r.st.heap, s)))
    esc = FALSE
    for e in r.events:
        if e.kind in ('call', 'callback'):
            esc = B.OR(esc, B.AND(e.g, raised(e)))
    esc = B.OR(esc, loop_escapes(r))
    for p in pops:
        ms = R.msg(p)
        if len(ms) != 1:
            chk.rule('popped', 'a popped message is handled or kept')
            chk.undecided('message of the pop', p.where(), 'cannot identify the message: %s' % sorted(map(show, ms)))
            continue
        m = ms.pop()
        handled = [e for e in evs(r, 'callback') if e.recv is mattr(m, 'callback') or
                   (e.recv is not None and e.recv.op == 'attr' and e.recv.args[0] is m and e.recv.args[1] == 'callback')]
        H = gor(handled)
        chk.rule('no-loss', 'a message taken from the queue is handled, put back, or the loop has been asked to stop')
        rep = [e for e in R.pushes() if any(m in (flat_leaf(r, e.heap, t, g) or []) or t is m for g, t in under(e.args[1], e.g))]
        Q = gor(rep)
        chk.implies(ok_guard(p), B.any([H, Q, S, esc]), 'popped message', p.where(),
                    'a message popped here is neither handled nor put back')
        chk.rule('no-dup', 'a handled message is not put back')
        chk.check(not sat(B.AND(H, Q)), 'handled and put back', p.where(), 'a message may be both handled and put back')
        chk.rule('handled-once', 'a message is handled once per removal')
        for i, a in enumerate(handled):
            for b in handled[i + 1:]:
                chk.check(not sat(B.AND(B.AND(a.g, B.NOT(raised(a))), b.g)), 'callback called twice', b.where(),
                          'the callback of one message may be called twice')
        if not handled:
            chk.rule('handled', 'a due message is handled')
            chk.check(False, 'callback', p.where(), 'the callback of a popped message is never called')
            continue
        # all callback data are passed on
        for e in handled:
            chk.rule('data', 'the callback receives exactly the data of the message')
            kw = e.kw.get('**')
            okd = kw is not None and not e.args and len(e.kw) == 1
            if okd and isinstance(kw, V):
                okd = all(t is mattr(m, 'callback_data') or t.args[:1] == (mattr(m, 'callback_data'),) for g, t in under(kw, e.g))
            chk.check(bool(okd), 'callback arguments', e.where(), 'the callback is not called with the data of its message', unknown=not e.kw and not e.args)
        chk.rule('data', 'the callback receives exactly the data of the message')
        mi = ctx.run(ctx.method(R.M, '__init__'))
        for nm in ('callback', 'callback_data'):
            q = mi.sym.get(nm)
            if q is None:
                continue
            for g, t in field(mi, mi.st.heap, mi.sym[mi.func.params[0]], nm).ls:
                g = B.all([g, mi.st.pc, truthy(q), B.NOT(isnone(q))])
                if sat(g):
                    chk.check(t is q or t.op == 'app' and t.args[0] in ('dict', 'copy', 'copy.copy') and q in subterms(t), '%s kept' % nm, mi.func.qual, 'the %s given to a message becomes %s' % (nm, show(t)), unknown=q in subterms(t) or t.op == 'obj' and bool(mi.st.heap.get((t, '$d'))))
        chk.rule('not-early', 'a message is handled only when the wall clock has reached its due time')
        D = mattr(m, 'time')
        for e in handled:
            cand = clock_terms(e.g, D)
            good, bad, unk = [], [], []
            for X, a in cand:
                q, why = clock_quality(X)
                if q == 'ok' and implies(e.g, B.NOT(lt(X, D))):
                    good.append(X)
                elif q == 'bad':
                    bad.append((X, why))
                elif q == 'unknown':
                    unk.append((X, why))
            if good:
                chk.ok('callback guarded by clock >= due time', e.where())
            elif bad:
                chk.bad('callback guarded by clock >= due time', e.where(), 'due time compared with %s: %s' % (show(bad[0][0]), bad[0][1]))
            elif unk:
                chk.undecided('callback guarded by clock >= due time', e.where(), str([show(x) for x, _ in unk]))
            elif guard_unknown(e.g):
                chk.undecided('callback guarded by clock >= due time', e.where(), 'guard not interpretable')
            else:
                chk.bad('callback guarded by clock >= due time', e.where(),
                        'the callback may run before its due time; it is called when %s' % brief(e.g, 1))
        chk.rule('wakeup', 'when a message is put back the loop arms a timer for exactly its due time')
        tim = [e for e in evs(r, 'call', '.start') if any(isbm(t, R.cb) for v in list(e.args) for g, t in under(v, e.g))]
        chk.implies(B.AND(Q, B.NOT(esc)), gor(tim), 'timer armed', p.where(), 'a message is put back without a timer that wakes the loop')
        for e in tim:
            tv = e.arg(1, 'timeout')
            if tv is None:
                chk.undecided('timer delay', e.where(), 'no timeout argument')
                continue
            for g, t in under(tv, B.AND(e.g, Q)):
                c, d = as_lin(t)
                d = dict(d)
                kD = d.pop(D, None)
                good = False
                if kD is None:
                    cand = [X for X, a in clock_terms(g, D) if clock_quality(X)[0] == 'ok']
                    good = is_const(t) and is_numc(t) and any(implies(g, B.NOT(lt(scale(const(cval(t)), Fraction(1000)), add(D, X, -1)))) for X in cand)
                    chk.check(good, 'timer delay', e.where(), 'timer delay %s does not depend on the due time' % show(t), unknown=has_unknown(t) or not is_const(t))
                    continue
                X = core.mklin(Fraction(0), {k: -w / kD for k, w in d.items()})
                q, why = clock_quality(X)
                if kD != Fraction(1, 1000):
                    chk.bad('timer delay', e.where(), 'timer delay %s is not the remaining milliseconds / 1000' % show(t))
                elif q == 'unknown':
                    chk.undecided('timer delay', e.where(), show(t))
                elif q == 'bad' or not (0 <= c <= 1):
                    chk.bad('timer delay', e.where(), 'timer delay %s is not the remaining time to the due time (%s)' % (show(t), why))
                else:
                    chk.ok('timer delay', e.where())
        chk.rule('empty', 'an empty queue ends the loop')
        chk.implies(B.AND(p.g, raised(p)), S, 'empty queue', p.where(), 'the loop goes on (or fails) when the queue is empty')
    chk.rule('notice', 'a pushed message is noticed by a running loop: push_message wakes the loop by default')
    pm = ctx.run(ctx.method(R.L, 'push_message'), message=R.M)
    sends = evs(pm, 'call', '.send')
    nt = pm.sym.get('notify')
    base = pm.st.pc
    if nt is not None:
        base = B.AND(base, B.AND(truthy(nt), eq(nt, core.TRUE_T)))
    chk.implies(base, gor(sends), 'notification', pm.func.qual, 'push_message does not wake the loop')
    chk.implies(pm.st.pc, gor(R.pushes(pm)), 'insertion', pm.func.qual, 'push_message may return without queueing the message')


@prop('S03')
def s03(ctx, chk):
    R = roles(ctx)
    r, s = R.run, R.selft
    cbs = []
    for p in R.pops():
        for m in R.msg(p):
            cbs += [e for e in evs(r, 'callback') if e.recv is not None and e.recv.op == 'attr' and e.recv.args[0] is m]
    if not cbs:
        raise Undecided('message callback not found')
    chk.rule('contain', 'an exception of a task stops the loop')
    F = R.flagv(r, r.st.heap, s)
    exn = set()
    run = ctx.run(ctx.method(R.L, 'run'))
    rs = run.sym['self']
    for e in cbs:
        rg = B.AND(e.g, raised(e))
        chk.implies(rg, stop_or_set(R, r, s, rg), 'failing callback stops the loop', e.where(), 'the loop goes on after a task failed')
        chk.rule('every kind', 'an exception that is no Exception (SystemExit) ends the loop like any other: the loop library would only print it')
        hs = [x for x in evs(r, 'handler') if x.i > e.i and any(t.op == 'exc' and exc_of(e, t) for _, t in x.args[0].ls)]
        kinds = set()
        for x in hs:
            kinds |= handler_names(x.extra)
        if hs:
            fin = any(isinstance(n, ast.Try) and n.finalbody for x in hs + [e] if x.func is not None for n in ast.walk(x.func.node))
            chk.check(bool(kinds & {'*', 'BaseException'}), 'SystemExit', hs[0].where(), 'only %s is handled: a task that calls sys.exit leaves a process that does nothing any more' % ', '.join(sorted(kinds)), unknown=fin or bool(kinds - {'Exception'}))
        chk.rule('record', 'the exception of a failing task is kept')
        sets = {}
        for x in evs(r, 'set'):
            if x.recv is s:
                for g, t in under(x.args[0], B.AND(x.g, rg)):
                    if t.op == 'exc' and exc_of(e, t):
                        sets[x.fn] = B.OR(sets.get(x.fn, FALSE), g)
        best = [f for f, g in sets.items() if implies(rg, g)]
        # escaping exceptions are reported by the loop library instead
        if not best:
            chk.implies(rg, gor_g(sets.values()), 'exception recorded', e.where(), 'the exception of a failing task is lost')
        else:
            chk.ok('exception recorded in %s' % best, e.where())
            exn |= set(best)
        chk.rule('contain', 'an exception of a task stops the loop')
    chk.rule('no-more', 'after a stop request no further message is taken from the queue')
    for p in R.pops():
        chk.implies(p.g, B.NOT(R.flagv(r, p.heap, s)), 'pop', p.where(), 'a message may be taken although the loop was asked to stop')
    chk.rule('halt', 'once asked to stop, the queue callback stops the underlying loop')
    halts = evs(r, 'call', '.stop', pred=lambda e: e.recv is not None and show(e.recv) != '' and
                is_uvloop(R, e.recv))
    chk.implies(B.AND(r.st.pc, F), gor(halts), 'uv loop stopped', R.cb.qual, 'the underlying loop is not stopped after a stop request')
    chk.rule('reraise', 'run() raises the exception of the failed task after the loop has ended')
    uv = [e for e in evs(run, 'call', '.run')]
    if not uv:
        raise Undecided('no underlying loop run in EventLoop.run')
    okr = [f for f in exn]
    if exn:
        done = FALSE
        for f in sorted(exn):
            ra = [e for e in evs(run, 'raise') if e.i > uv[-1].i and any(t.op == 'attr' and t.args[0] is rs and t.args[1] == f
                                                                       for g, t in under(e.args[0], e.g))]
            v = field(run, run.st, rs, f)
            nn = B.any(B.AND(g, B.AND(B.NOT(isnone(t)), truthy(t))) for g, t in v.ls)
            if not sat(B.AND(run.st.pc, nn)):
                done = TRUE
                chk.check(bool(ra), 'run raises %s' % f, run.func.qual, 'run() ends with another exception than the one recorded in %s' % f)
                for e in ra:
                    bad = [t for g, t in under(e.args[0], e.g) if not (t.op == 'attr' and t.args[1] == f)]
                    chk.check(not bad, 'raised value', e.where(), 'run() raises %s instead of the recorded exception' % ', '.join(map(show, bad)))
        chk.check(done == TRUE, 'run returns normally only without failure', run.func.qual,
                  'run() may return normally although a task failed (recorded in %s)' % sorted(exn))
    chk.rule('propagate', 'nothing between a task and the loop swallows its exception')
    for name, rr in carriers(ctx):
        for e in evs(rr, 'callback') + evs(rr, 'call', ('.emit', 'emit')):
            sw = swallowed(rr, e)
            chk.check(not sat(sw), '%s: call of %s' % (name, show(e.recv) if e.recv is not None else e.fn), e.where(),
                      'an exception raised here is swallowed')


def handler_names(h):
    """names of the exceptions of an except clause ('*': all)"""
    if h.type is None:
        return {'*'}
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return {t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else '?' for t in ts}


def is_uvloop(R, t):
    """is t the loop object on which run() runs"""
    return t.op == 'attr' and R.init is not None and t.args[1] in uvfields(R)


def uvfields(R):
    if not hasattr(R, '_uvf'):
        s = R.init.sym['self']
        out = set()
        for e in evs(R.init, 'set'):
            if e.recv is s:
                for g, t in e.args[0].ls:
                    if t.op == 'res' and t.args[1] == 'pyuv.Loop' or t.op == 'app' and t.args[0] == 'pyuv.Loop':
                        out.add(e.fn)
        R._uvf = out
    return R._uvf


def gor_g(gs):
    return B.any(gs)


def stop_or_set(R, r, s, rg):
    """guard: the stop flag holds at the end of the failing path"""
    # either set on this path, or already set at that point
    g = gor(R.stopset(r, s))
    for e in r.events:
        if e.kind == 'handler' and sat(B.AND(e.g, rg)):
            g = B.OR(g, B.AND(e.g, R.flagv(r, e.heap, s)))
    return g


def carriers(ctx):
    out = []
    bus = ctx.cls('EventBus')
    out.append(('EventBus.emit', ctx.run(ctx.method(bus, 'emit'))))
    try:
        for nm, rr in source_callback(ctx):
            out.append((nm, rr))
    except Undecided:
        pass
    try:
        for nm, rr in user_callbacks(ctx):
            out.append((nm, rr))
    except Undecided:
        pass
    return out


def sched_run(ctx):
    """EventSourceScheduler.schedule with the event source and bus kept opaque"""
    ES, SC = ctx.cls('EventSource'), ctx.cls('EventSourceScheduler')
    op = [ctx.method(ES, m) for m in ('get_next_event', 'peek_next_event', 'register_event_changed') if ES.find(m)]
    op += [ctx.method('EventBus', 'emit'), ctx.method('EventLoop', 'push_message')]
    f = ctx.method(SC, 'schedule')
    return ctx.run(f, opaque=op, **{f.params[1]: ES})


def source_callback(ctx):
    if hasattr(ctx, '_srccb'):
        return ctx._srccb
    r = sched_run(ctx)
    out = []
    for e in opq(r, 'EventLoop.push_message'):
            for v in list(e.args):
                for g, t in under(v, e.g):
                    cbv = None
                    if typed(r, t, ctx.cls('Message')):
                        cbv = field(r, e.heap, t, 'callback')
                    if cbv is not None:
                        for g2, c in cbv.ls:
                            rr = ctx.call(r, c)
                            rr.cbterm = c
                            out.append(('callback of a scheduled event source', rr))
    if not out:
        raise Undecided('callback of the scheduled event source not found')
    ctx._srccb = out
    return out


def user_callbacks(ctx):
    """callbacks that Strategy.schedule registers with the event bus"""
    r = strat_sched(ctx)
    out = []
    for e in opq(r, 'EventBus.register'):
            for v in e.args:
                for g, t in under(v, e.g):
                    if t.op in ('clos', 'bm', 'partial', 'fn'):
                        rr = ctx.call(r, t, [ctx.sym('event')], heap=e.heap)
                        rr.reg = e
                        out.append(('callback registered for a task', rr))
    if not out:
        raise Undecided('callbacks registered by Strategy.schedule not found')
    return out


def others_of(ctx, cls, *names):
    """the methods of a class other than its constructor, the named ones and the helpers that only these call"""
    mine = ctx.ty.only_from(ctx.ty.ctors | {cls.find(n) for n in names if cls.find(n)})
    return [f for f in cls.methods.values() if f not in mine]


def strat_sched(ctx):
    ES, S = ctx.cls('EventSource'), ctx.cls('Strategy')
    op = others_of(ctx, ES) + others_of(ctx, ctx.cls('EventBus')) + others_of(ctx, ctx.cls('EventSourceScheduler'))
    return ctx.run(ctx.method(S, 'schedule'), opaque=op)


# ---------------------------------------------------------------- S04
def opq(r, name):
    return [e for e in r.events if e.kind == 'opaque' and (str(e.fn) == name or str(e.fn).endswith('.' + name))]


@prop('S04')
def s04(ctx, chk):
    R = roles(ctx)
    run = ctx.run(ctx.method(R.L, 'run'))
    rs = run.sym['self']
    uv = [e for e in evs(run, 'call', '.run') if e.recv is not None and is_uvloop(R, e.recv)]
    if not uv:
        raise Undecided('no underlying loop run in EventLoop.run')
    starts = []
    for e in evs(run, 'call', '.start'):
        sigs = [t for v in e.args for g, t in under(v, e.g) if t.op == 'ext' and t.args[0].startswith('signal.')]
        for s in sigs:
            starts.append((s.args[0], e))
    if not starts:
        other = [e for e in run.events if e.kind in ('opaque', 'callback', 'call') and e.i < uv[-1].i and not str(e.fn).startswith('log.')]
        if other:
            raise Undecided('no signal watcher found in EventLoop.run')
        chk.rule('register', 'SIGTERM and SIGINT are watched before the loop starts to run')
        for u in uv:
            chk.bad('signals watched', u.where(), 'the loop runs without watching any signal')
    for sig in ('signal.SIGTERM', 'signal.SIGINT'):
        chk.rule('register', 'SIGTERM and SIGINT are watched before the loop starts to run')
        es = [e for s, e in starts if s == sig]
        for u in uv:
            chk.implies(u.g, gor(ok_guard(e) and e for e in es if e.i < u.i and sat(ok_guard(e))), '%s watched' % sig, u.where(),
                        'the loop may run without a watcher for %s' % sig)
        chk.rule('handler', 'a signal only asks the loop to stop: the event being handled completes, nothing is raised')
        for e in es:
            hs = [(g, t) for v in e.args for g, t in under(v, e.g) if t.op in ('clos', 'bm', 'fn', 'partial')]
            if not hs:
                chk.undecided('%s handler' % sig, e.where(), 'handler not a known function')
            for g, t in hs:
                rr = ctx.call(run, t, [ctx.sym('handle'), ctx.sym('sig')])
                s = rs
                ss = R.stopset(rr, s)
                F = R.flagv(rr, rr.st.heap, s)
                full = B.OR(rr.st.pc, B.any(g2 for g2 in [rr.exc_st.pc]))
                chk.implies(rr.st.pc, B.OR(gor(ss), F), '%s handler requests a stop' % sig, e.where(), 'the handler does not ask the loop to stop')
                wk = gor(x for x in evs(rr, 'call', '.send') if x.recv is not None and x.recv.op == 'attr' and x.recv.args[1] in asyncfields(R))
                chk.implies(rr.st.pc, B.OR(wk, R.flagv(rr, {}, s)), '%s handler wakes the loop' % sig, e.where(), 'the handler does not wake the loop: it keeps waiting for the next due message')
                for x in evs(rr, 'raise'):
                    chk.bad('%s handler raises nothing' % sig, x.where(), 'the signal handler raises')
                for x in evs(rr, 'call', None):
                    if x.fn in ('os._exit', 'sys.exit', 'os.kill', 'os.abort', 'builtins.exit', 'exit', 'quit') or \
                            (x.fn == '.stop' and x.recv is not None and is_uvloop(R, x.recv)):
                        chk.bad('%s handler only requests the stop' % sig, x.where(), 'the signal handler calls %s' % x.fn)
                for x in evs(rr, 'set'):
                    if x.recv is s and x.fn != R.flag:
                        chk.undecided('%s handler effect' % sig, x.where(), 'handler also sets %s' % x.fn)
                chk.ok('%s handler has no other effect' % sig, e.where())
    chk.rule('unregister', 'no watcher is stopped between its start and the run of the loop')
    for s, e in starts:
        for x in evs(run, 'call', ('.stop', '.close')):
            if x.i > e.i and x.recv is e.recv and x.i < uv[-1].i:
                if sat(B.AND(x.g, e.g)) and not [y for s2, y in starts if y.i > x.i and y.recv is x.recv]:
                    chk.bad('%s watcher kept' % s, x.where(), 'the watcher of %s is stopped again' % s)
    chk.ok('watchers kept', run.func.qual)
    chk.rule('stop', 'stop() sets the stop flag, then wakes the loop through the queue callback')
    st, ss = R.stop, R.stop.sym['self']
    sets, sends = R.stopset(st, ss), evs(st, 'call', '.send')
    v0 = B.NOT(R.flagv(st, {}, ss))
    chk.implies(v0, gor(sets), 'flag set', st.func.qual, 'stop() does not set the stop flag')
    chk.implies(v0, gor(sends), 'loop woken', st.func.qual, 'stop() does not wake the loop: an idle loop keeps waiting for its timer')
    for e in sends:
        chk.implies(e.g, R.flagv(st, e.heap, ss), 'flag set before the wake-up', e.where(), 'the loop is woken before the stop flag is set')
        chk.check(e.recv is not None and e.recv.op == 'attr' and e.recv.args[1] in asyncfields(R), 'wake-up goes to the queue callback', e.where(),
                  'stop() wakes %s, which is not the queue callback' % show(e.recv), unknown=e.recv is None or e.recv.op != 'attr')
    chk.rule('halt', 'the woken queue callback takes no further message and stops the underlying loop')
    r, s = R.run, R.selft
    F0 = R.flagv(r, {}, s)
    halts = [e for e in evs(r, 'call', '.stop') if e.recv is not None and is_uvloop(R, e.recv)]
    chk.implies(B.AND(r.st.pc, R.flagv(r, r.st.heap, s)), gor(halts), 'uv loop stopped', R.cb.qual, 'the underlying loop goes on after a stop request')
    for p in R.pops():
        chk.implies(p.g, B.NOT(R.flagv(r, p.heap, s)), 'no message taken', p.where(), 'a message may be taken although the loop was asked to stop')
    chk.rule('monotone', 'a stop request is never withdrawn')
    for f, n, where in attr_stores(ctx, [R.flag], R.L):
        if f in ctx.ty.ctors:
            continue
        rr = ctx.run(f)
        for e in evs(rr, 'set', R.flag):
            for g, t in under(e.args[0], e.g):
                if typed(rr, e.recv, R.L):
                    chk.check(not (is_const(t) and not cval(t)), 'stop flag only set in %s' % f.qual, where, 'the stop flag is cleared again',)


def asyncfields(R):
    if not hasattr(R, '_af'):
        s = R.init.sym['self']
        R._af = {e.fn for e in evs(R.init, 'set') if e.recv is s and any(t is R.asyncres for g, t in e.args[0].ls)}
    return R._af


# ---------------------------------------------------------------- event sources
class SourceRoles(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.ES = ES = ctx.cls('EventSource')
        self.init = ctx.run(ctx.method(ES, '__init__'))
        s = self.init.sym['self']
        self.fields = {}
        for p in ('start', 'end'):
            q = self.init.sym.get(p)
            for e in evs(self.init, 'set'):
                if e.recv is s and q is not None and any(t is q for g, t in e.args[0].ls):
                    self.fields[p] = e.fn
        if set(self.fields) != {'start', 'end'}:
            raise Undecided('start/end fields of EventSource not found')
        # daily registrations
        self.daily = ctx.run(ctx.method(ES, 'daily'), opaque=[ctx.method(ES, 'on_events_changed')] if ES.find('on_events_changed') else [])
        ds = self.daily.sym['self']
        self.regs = [e for e in evs(self.daily, 'append') if e.recv.op == 'attr' and e.recv.args[0] is ds]
        self.dfield = self.regs[0].recv.args[1] if self.regs else None
        try:
            self.pt = ctx.func('common.utils', 'parse_time')
        except Missing:
            self.pt = None

    def add(self):
        f = self.ES.find('add_event')
        if f is None:
            raise Undecided('EventSource.add_event not found')
        return self.ctx.run(f, opaque=[self.pt])

    def appended(self, r):
        """[(event, guard, dt V, evt V)] (datetime, event) pairs put into the pending events"""
        s = r.sym['self']
        out = []
        for e in evs(r, 'append'):
            for g, t in under(e.args[-1], e.g):
                es = tup(r, e.heap, t, g)
                if es is not None and len(es) == 2:
                    out.append((e, g, es[0], es[1]))
        return out

    def dpos(self):
        """positions of (time expression, event class) in a registration"""
        s = self.daily.sym
        e = self.regs[0]
        for g, t in under(e.args[0], e.g):
            es = tup(self.daily, e.heap, t, g)
            if es is not None:
                ts = [single(v) for v in es]
                ps = self.daily.func.params
                return ts.index(s[ps[2]]) if s[ps[2]] in ts else None, ts.index(s[ps[1]]) if s[ps[1]] in ts else None
        return None, None


def src(ctx):
    if not hasattr(ctx, '_src'):
        ctx._src = SourceRoles(ctx)
    return ctx._src


@prop('S05')
def s05(ctx, chk):
    R = src(ctx)
    r = R.add()
    s = r.sym['self']
    app = R.appended(r)
    if not app:
        raise Undecided('no pending event is recorded by EventSource.add_event')
    start, end = mk('attr', s, R.fields['start'], 0), mk('attr', s, R.fields['end'], 0)
    has_end = B.AND(B.NOT(isnone(end)), truthy(end))
    allout = FALSE
    A = FALSE
    for e, g, dt, ev in app:
        A = B.OR(A, g)
        for h, d in under(dt, g):
            chk.rule('window', 'a pending event is never before the start or after the end of its source')
            chk.implies(h, B.NOT(lt(d, start)), 'not before start', e.where(), 'an event before the start time is generated')
            chk.implies(B.AND(h, has_end), B.NOT(lt(end, d)), 'not after end', e.where(), 'an event after the end time is generated')
            allout = B.OR(allout, B.OR(lt(d, start), B.AND(has_end, lt(end, d))))
    chk.rule('complete', 'an event inside the window (both bounds included) is never dropped')
    chk.implies(B.AND(r.st.pc, B.NOT(A)), allout, 'dropped only outside the window', r.func.qual, 'an event inside [start, end] is dropped')
    chk.rule('live-start', 'without history mode the source starts at the current time, whatever start was given')
    ES = R.ES
    hide = others_of(ctx, ES, 'setup')
    su = ctx.run(ctx.method(ES, 'setup'), opaque=hide)
    ss = su.sym['self']
    v = None
    for e in evs(su, 'set', R.fields['start']):
        pass
    stv = None
    first = opq_any(su)
    v = field(su, first.heap if first else su.st.heap, ss, R.fields['start'])
    st0 = mk('attr', ss, R.fields['start'], 0)
    hist = FALSE
    for t in ctxterms(su, 'ENABLE_HISTORY_START'):
        hist = B.OR(hist, truthy(t))
    pc = first.g if first else su.st.pc
    for g, t in under(v, pc):
        now = t.op == 'res' and t.args[1] in NOWS
        if now:
            chk.implies(g, B.OR(isnone(st0), B.NOT(hist)), 'given start kept in history mode', su.func.qual,
                        'the given start is replaced although history mode is on')
        elif t is st0:
            chk.implies(g, B.AND(hist, B.NOT(isnone(st0))), 'live mode starts now', su.func.qual,
                        'in live mode a source may start in the past')
        else:
            chk.undecided('start', su.func.qual, 'start is %s' % show(t))
    ci = ctx.run(ctx.method('Context', '__init__'))
    for nm in ('start', 'end'):
        q0 = ci.sym.get(nm)
        if q0 is None:
            continue
        for g, t in field(ci, ci.st.heap, ci.sym[ci.func.params[0]], nm).ls:
            g = B.AND(g, ci.st.pc)
            if not sat(g):
                continue
            if sat(B.AND(g, truthy(q0))) and t is not q0:
                chk.check(False, 'given %s of the run' % nm, ci.func.qual, 'the %s given to the run becomes %s' % (nm, show(t)), unknown=q0 in subterms(t))
            g = B.AND(g, isnone(q0))
            if sat(g) and t is not q0:
                now = t.op == 'res' and t.args[1] in NOWS
                chk.check(nm == 'start' and now, 'default %s of the run' % nm, ci.func.qual, 'without a given %s the %s of the run is %s' % (nm, nm, show(t)), unknown=has_unknown(t) or t.op == 'res')
            elif sat(g):
                chk.ok('default %s of the run' % nm, ci.func.qual)
    # a source is set up before it is scheduled
    chk.rule('setup', 'every source built for a task gets the start and end of the run and is set up before tasks are added')
    q = strat_sched(ctx)
    news = [e for e in evs(q, 'new') if getattr(e.res, 'op', None) == 'obj' and e.res.args[1] is ES or (e.recv is not None and e.recv.op == 'obj' and e.recv.args[1] is ES)]
    sched = opq(q, 'EventSourceScheduler.schedule')
    setups = opq(q, 'EventSource.setup')
    dailies = opq(q, 'EventSource.daily')
    cx = mk('single', ctx.cls('Context'))
    for e in sched:
        for g, t in under(e.args[1], e.g):
            chk.implies(g, gor(x for x in setups if x.i < e.i and any(u is t for _, u in under(x.args[0], x.g))),
                        'source set up before scheduling', e.where(), 'a source may be scheduled without setup')
            for p in ('start', 'end'):
                fv = field(q, e.heap, t, R.fields[p])
                for h, u in under(fv, g):
                    okk = u.op == 'attr' and 'Context' in show(u) and prop_is(ctx, p, u) or u.op == 'res' and u.args[1] in NOWS and p == 'start'
                    chk.check(okk, 'source %s' % p, e.where(), 'a source gets %s=%s instead of the %s of the run' % (p, show(u), p), unknown=has_unknown(u))
    if not sched:
        chk.undecided('scheduling', q.func.qual, 'no event source is scheduled')


def opq_any(r):
    for e in r.events:
        if e.kind == 'opaque':
            return e
    return None


def prop_is(ctx, name, t):
    """t is the Context field behind the property name"""
    C = ctx.cls('Context')
    f = C.find(name)
    if f is None:
        return False
    r = ctx.run(f)
    return any(u.op == 'attr' and u.args[1] == t.args[1] for u in terms(r.value))


def ctxterms(r, name):
    """attribute terms called name that occur in guards and values of a run"""
    out = set()
    gs = [r.st.pc] + [e.g for e in r.events]
    for g in gs:
        for v in B.support(g):
            for t in subterms(B.atom_of[v]):
                if t.op in ('attr', 'cattr', 'cell') and name in t.args:
                    out.add(t)
    return out


# ---------------------------------------------------------------- S06
def maybe(fn):
    try:
        return fn()
    except Missing:
        return None


def gen_run(ctx, name):
    """get_next_event / peek_next_event with the parsers kept opaque"""
    pt = maybe(lambda: ctx.func('common.utils', 'parse_time'))
    tp = maybe(lambda: ctx.method('TimeExprParser', 'parse'))
    return ctx.run(ctx.method('EventSource', name), opaque=[pt, tp])


def fieldname(t):
    """the field a container or value term stands for (attribute of self, its loop or callback version)"""
    while t.op in ('ver',) or t.op == 'app' and t.args[0] in ('sorted', 'reversed') or t.op == 'contents':
        t = t.args[0] if t.op != 'app' else t.args[1]
    if t.op == 'attr':
        return t.args[1]
    if t.op in ('mu', 'muout'):
        return t.args[1]
    return None


def field_conts(r, s, name):
    """terms that are at some point the value of field name of s"""
    out = {mk('attr', s, name, 0)}
    for e in evs(r, 'set', name):
        if e.recv is s:
            out |= {t for _, t in e.args[0].ls}
    return out


def havocked(r):
    st = r.st.fork()
    st.pc = TRUE
    r.interp.havoc(st)
    return st.heap


def base_term(t):
    while t.op in ('ver', 'contents') or t.op == 'app' and t.args[0] in ('sorted', 'reversed', 'list', 'set', 'builtins.list'):
        t = t.args[0] if t.op != 'app' else t.args[1]
    return t


def first_of(t, conts):
    """t is element 0 of one of the containers"""
    return t.op == 'item' and is_const(t.args[1]) and cval(t.args[1]) == 0 and \
        any(base_term(t.args[0]) is c for c in conts)


@prop('S06')
def s06_take(ctx, chk):
    R = src(ctx)
    r = gen_run(ctx, 'get_next_event')
    s = r.sym['self']
    app = R.appended(r)
    names = {fieldname(e.recv) for e, g, d, v in app} - {None}
    if len(names) != 1:
        raise Undecided('pending events of a source not found: %s' % sorted(names))
    P = names.pop()
    conts = field_conts(r, s, P) | {base_term(e.recv) for e, g, d, v in app}
    pops = [e for e in evs(r, ('listpop', 'delitem', 'remove', 'clear')) if e.recv is not None and base_term(e.recv) in conts and not anew(r, s, e)]
    chk.rule('take-first', 'taking an event removes exactly the first pending event and returns it')
    for g, t in r.value.ls:
        g = B.AND(g, r.st.pc)
        if not sat(g):
            continue
        if t is NONE or is_const(t) and cval(t) is None:
            chk.implies(g, B.NOT(gor(pops)), 'nothing removed when nothing is returned', r.func.qual, 'a pending event is removed but not returned')
            continue
        mine = [e for e in pops if e.kind == 'listpop' and sat(B.AND(e.g, g))]
        if first_of(t, conts):
            chk.implies(g, gor(e for e in mine if is_first(e, g)), 'the returned event is removed', r.func.qual,
                        'the returned event stays pending (it would be delivered again)')
            chk.ok('first pending event returned', r.func.qual)
        elif any(e.res is t for e in mine) or t.op == 'item' and any(base_term(t.args[0]) is c for c in conts):
            chk.bad('first pending event returned', r.func.qual, 'returns %s, not the first pending event' % show(t))
        else:
            chk.undecided('first pending event returned', r.func.qual, 'returns %s' % show(t))
        for i, a in enumerate(mine):
            if not is_first(a, g):
                chk.bad('removal at the front', a.where(), 'an event other than the first pending one is removed')
            for b in mine[i + 1:]:
                chk.check(not sat(B.any([B.AND(B.AND(a.g, b.g), g)])), 'one event removed', b.where(), 'more than one pending event is removed per call')
    q = gen_run(ctx, 'peek_next_event')
    qs = q.sym['self']
    qc = field_conts(q, qs, P) | {base_term(e.recv) for e, g, d, v in R.appended(q)}
    chk.rule('peek', 'looking at the next event returns the first pending event and removes nothing')
    for e in evs(q, ('listpop', 'delitem', 'remove', 'clear')):
        if e.recv is not None and base_term(e.recv) in qc and not anew(q, qs, e):
            chk.bad('nothing removed', e.where(), 'peek_next_event removes a pending event')
    for g, t in q.value.ls:
        if not sat(B.AND(g, q.st.pc)) or t is NONE or is_const(t):
            continue
        if first_of(t, qc):
            chk.ok('first pending event', q.func.qual)
        elif t.op == 'item' and base_term(t.args[0]) in qc:
            chk.bad('first pending event', q.func.qual, 'peek_next_event returns %s' % show(t))
        else:
            chk.undecided('first pending event', q.func.qual, show(t))
    chk.rule('sorted', 'pending events are ordered by their time before one is taken')
    for rr, cc in ((r, conts), (q, qc)):
        sorts = [e for e in evs(rr, 'sort') if base_term(e.recv) in cc]
        for e, g, d, v in R.appended(rr):
            after = [x for x in sorts if x.i > e.i and base_term(x.recv) is base_term(e.recv)]
            if not after:
                if any('sorted' in show(t) for _, t in rr.value.ls) or evs(rr, 'call', ('bisect.insort', 'heapq.heappush')):
                    chk.undecided('sorted after generation', e.where(), 'order of the pending events')
                else:
                    chk.bad('sorted after generation in %s' % rr.func.name, e.where(), 'generated events are not put into time order')
                continue
            chk.implies(B.AND(g, rr.st.pc), B.OR(gor(after), loop_escapes(rr)), 'sorted after generation in %s' % rr.func.name, e.where(),
                        'events may be used without being put into time order')
            for x in after:
                sort_key(ctx, chk, rr, x)
    # every registration, every day
    chk.rule('generate', 'for each day one event is generated per registration, from its own time and class')
    dpos = R.dpos()
    if R.dfield is None or None in dpos:
        chk.undecided('registrations', R.daily.func.qual, 'shape of a registration')
    else:
        ga = ctx.run(ctx.method('EventSource', 'get_next_event'), opaque=[ctx.method('EventSource', 'add_event')]) \
            if R.ES.find('add_event') else None
        calls = opq(ga, 'EventSource.add_event') if ga else []
        if not calls:
            chk.undecided('registrations', r.func.qual, 'no call of add_event')
        regs = mk('attr', ga.sym['self'], R.dfield, 0) if ga else None
        for e in calls:
            L = [l for l in e.loops if l.raw is not None and fieldname(base_term(l.raw)) == R.dfield] if e.loops else []
            if not L:
                chk.undecided('registrations', e.where(), 'event generation is not in a loop over the registrations')
                continue
            L = L[-1]
            chk.implies(B.AND(L.pc, L.more), B.OR(e.g, loop_escapes(ga)), 'every registration of the day', e.where(), 'some registrations are skipped')
            el = mk('elem', L.key, L.occ)
            af = R.ES.find('add_event')
            add = R.add()
            for i, nm in ((2, 'time expression'), (3, 'event class')):
                for g, t in under(e.args[i], e.g):
                    w = dpos[0] if i == 2 else dpos[1]
                    # position of the parameter: matched by its use in add_event
                    want = mk('item', el, const(w))
                    oth = mk('item', el, const(dpos[1] if i == 2 else dpos[0]))
                    chk.check(t is want or t is oth, '%s of the registration' % nm, e.where(),
                              'argument %d of add_event is %s' % (i, show(t)), unknown=has_unknown(t) or t.op != 'item')
    for e, g, d, v in app:
        el = None
        for l in e.loops:
            if l.raw is not None and fieldname(base_term(l.raw)) == R.dfield:
                el = mk('elem', l.key, l.occ)
        if el is None or None in dpos:
            chk.undecided('pending entry', e.where(), 'loop over the registrations not found')
            continue
        L = [l for l in e.loops if l.raw is not None and fieldname(base_term(l.raw)) == R.dfield][-1]
        whole(chk, r, L.raw, 'registrations', e.where())
        cls_ = mk('item', el, const(dpos[1]))
        for x in B.support(g) - B.support(L.pc) - B.support(L.more):
            a = B.atom_of[x]
            if a.op in ('raises', 'abrupt'):
                continue
            subs = subterms(a)
            if any(base_term(y) in conts for y in subs if y.op not in ('const',)) and a.op in ('nonempty', 'truthy', 'haskey', 'eq', 'lt0', 'le0', 'more', 'lt'):
                chk.bad('independent registrations', e.where(), 'whether a registration yields its event depends on the other pending events: %s' % gshow(B.mk(x, FALSE, TRUE))[:200])
            elif cls_ in subs and not any(y.op == 'res' for y in subs):
                chk.bad('independent registrations', e.where(), 'whether a registration yields its event depends on its class: %s' % gshow(B.mk(x, FALSE, TRUE))[:200])
        chk.ok('independent registrations', e.where())
        for h, t in under(v, g):
            srcs = [x for x in subterms(t) if x.op == 'item' and x.args[0] is el]
            want = mk('item', el, const(dpos[1]))
            if t.op == 'obj' or t.op == 'res' or srcs:
                ok_ = want in srcs or any(x.kind in ('new', 'callback') and x.res is t and x.recv is want for x in r.events)
                chk.check(ok_, 'event of the registered class', e.where(), 'the generated event is %s, not an instance of the registered class' % show(t),
                          unknown=not srcs)
            else:
                chk.undecided('event of the registered class', e.where(), show(t))
        for h, t in under(d, g):
            x = [y for y in subterms(t) if y.op == 'item' and y.args[0] is el]
            want = mk('item', el, const(dpos[0]))
            chk.check(want in subterms(t) or parsed_from(r, t, want), 'time of the registered expression', e.where(),
                      'the generated time %s does not come from the registered time' % show(t)[:200], unknown=not x)


def anew(r, s, e):
    """does the event empty a list only after a change of the registrations, when all is generated anew?"""
    return e.kind == 'clear' and any(x.recv is s and all(is_const(t) and cval(t) is False for g, t in under(x.args[0], x.g)) and
                                     implies(e.g, truthy(mk('attr', s, x.fn, 0))) and implies(e.g, x.g) for x in evs(r, 'set') if not x.loops)


def ver_base(t):
    while t.op in ('ver', 'contents'):
        t = t.args[0]
    return t


@prop('S06')
def s06_ends(ctx, chk):
    R = src(ctx)
    chk.rule('ends', 'a source without registrations yields no event, the search for one ends')
    for name in ('get_next_event', 'peek_next_event'):
        r = gen_run(ctx, name)
        s = r.sym['self']
        if R.dfield is None:
            raise Undecided('field of the registrations')
        regs = mk('attr', s, R.dfield, 0)
        seen = set()
        for e in evs(r, 'listpop'):
            for L in e.loops:
                if L.kind != 'while' or L.id in seen or not any(L in x.loops for x, g, d, v in R.appended(r)):
                    continue
                seen.add(L.id)
                g = L.end_pc
                hist = False
                for v in B.support(g):
                    a = B.atom_of[v]
                    if a.op in ('truthy', 'nonempty') and isinstance(a.args[0], T):
                        if ver_base(a.args[0]) is regs:
                            g = B.AND(g, B.mk(v, TRUE, FALSE))
                        elif a.args[0].op == 'attr' and a.args[0].args[1] == 'ENABLE_HISTORY_START':
                            g = B.AND(g, B.mk(v, TRUE, FALSE))
                            hist = True
                    elif a.op == 'isnone' and a.args[0].op == 'attr' and a.args[0].args[1] == '_end':
                        g = B.AND(g, B.mk(v, FALSE, TRUE))
                    elif a.op in ('eq', 'eqn', 'lt') and any(isinstance(x, T) and is_len(x) and ver_base(list(as_lin(x)[1])[0].args[-1]) is regs for x in a.args):
                        g = B.AND(g, B.mk(v, FALSE, TRUE)) if a.op != 'lt' else g
                    elif a.op in ('raises', 'abrupt'):
                        g = B.AND(g, B.mk(v, TRUE, FALSE))
                inside = [M for x, _, _, _ in R.appended(r) for M in x.loops if M.raw is not None and ver_base(base_term(M.raw)) is regs]
                for M in inside:
                    g = B.AND(g, B.NOT(M.more))
                chk.check(not sat(g), 'no registration', e.where(), 'without registrations and without an end of the run the search for the next event never ends', unknown=not hist)


def parsed_from(r, t, want):
    """the term depends on a parse of want (directly, through an opaque parser result or guard)"""
    for u in subterms(t):
        if u.op == 'res':
            for e in r.events:
                if e.res is u and any(want in subterms(x) for v in e.args if isinstance(v, V) for _, x in v.ls):
                    return True
    return False


def is_len(t):
    c, d = as_lin(t)
    return len(d) == 1 and (list(d)[0].op == 'len' or list(d)[0].op == 'app' and list(d)[0].args[0] == 'len')


def whole(chk, r, raw, what, where):
    """a loop iterates its container completely (not a part of it)"""
    t = raw
    while True:
        if t.op == 'app' and t.args[0] in ('list', 'tuple', 'set', 'sorted', 'reversed', 'iter', 'copy', 'copy.copy', 'enumerate') or t.op in ('list', 'tuple', 'sorted', 'reversed', 'ver'):
            t = next((x for x in t.args if isinstance(x, T)), None)
            if t is None:
                return
            continue
        break
    if t.op == 'slice' or t.op == 'app' and t.args[0] in ('slice', 'itertools.islice'):
        a = [cval(x) if isinstance(x, T) and is_const(x) else x for x in (t.args if t.op == 'slice' else t.args[1:])]
        lo, hi, st = (a[1:] + [None] * 3)[:3]
        if lo not in (None, 0) or hi is not None or st not in (None, 1, -1):
            chk.bad('all %s' % what, where, 'only a part is used: %s' % show(raw))
            return
    chk.ok('all %s' % what, where)


def is_first(e, g):
    return all(is_const(t) and cval(t) == 0 for h, t in under(e.args[0], B.AND(e.g, g))) if e.args else False


def sort_key(ctx, chk, rr, x):
    rev = x.kw.get('reverse')
    if rev is not None:
        for g, t in under(rev, x.g):
            if is_const(t):
                chk.check(not cval(t), 'ascending', x.where(), 'events are sorted in descending order')
            else:
                chk.undecided('ascending', x.where(), show(t))
    key = x.kw.get('key')
    if key is None:
        chk.undecided('sort key', x.where(), 'default order of (time, event)')
        return
    for g, t in under(key, x.g):
        if t.op in ('clos', 'fn', 'bm'):
            a = ctx.sym('entry')
            kr = ctx.call(rr, t, [a])
            for h, u in kr.value.ls:
                if u is mk('item', a, const(0)):
                    chk.ok('sort key is the time', x.where())
                    continue
                tt = tup(kr, kr.st.heap, u)
                f = single(tt[0]) if tt else None
                chk.check(f is mk('item', a, const(0)), 'sort key is the time', x.where(), 'events are ordered by %s' % show(u), unknown=has_unknown(u))
        elif 'itemgetter' in show(t) and '0' in show(t):
            chk.ok('sort key is the time', x.where())
        else:
            chk.undecided('sort key is the time', x.where(), show(t))


@prop('S06')
def s06_days(ctx, chk):
    """calendar days are generated in order, none twice"""
    R = src(ctx)
    r = gen_run(ctx, 'get_next_event')
    s = r.sym['self']
    app = R.appended(r)
    # the day of a generated event: the value taken from the container of days
    days = {}
    for e in evs(r, 'listpop'):
        if e.res is not None and any(e.res in subterms(t) for _, g, d, v in app for _, t in d.ls):
            days[e] = base_term(e.recv)
    if not days:
        raise Undecided('the day of a generated event is not taken from a list of days')
    chk.rule('day-order', 'the days of a source are used in order, each once')
    for e in days:
        chk.check(is_first(e, e.g), 'first day taken', e.where(), 'days are not taken in order')
    names = {fieldname(c) for c in days.values()} - {None}
    D = names.pop() if len(names) == 1 else None
    if D is None:
        raise Undecided('field of the remaining days not found')
    chk.rule('no-early-end', 'a source ends only when no day is left: days without an event inside the window are passed over')
    app_loops = {id(l) for e, g, d, v in app for l in e.loops if l.raw is not None and fieldname(base_term(l.raw)) == R.dfield}
    for e in days:
        Ls = [l for l in e.loops if id(l) not in app_loops]
        if not Ls:
            chk.bad('days are tried until an event is found', e.where(), 'only one day is looked at: after a day without an event the source ends')
            continue
        L = Ls[-1]
        if L.kind != 'while':
            chk.undecided('days are tried until an event is found', e.where(), 'bounded loop')
            continue
        popped = gor(x for x in days if x.loops and x.loops[-1] is e.loops[-1])
        exits = []
        for v, fact in core.FACTS.items():
            a = B.atom_of[v]
            if a.op == 'abrupt' and a.args[0] == L.id and str(a.args[1]) in ('brk', 'ret'):
                exits.append((a, fact))
        # some event is pending: the list, or an iteration of a loop that adds to it
        pend = FALSE
        lids = {l.id for a, _, _, _ in app for l in a.loops}
        pc_ = field_conts(r, s, fieldname(app[0][0].recv) or '') | {base_term(a.recv) for a, _, _, _ in app}
        for v in set().union(*[B.support(f) for _, f in exits] or [set()]):
            a = B.atom_of[v]
            if a.op in ('nonempty', 'truthy') and (a.args[0] in lids or isinstance(a.args[0], T) and base_term(a.args[0]) in pc_):
                pend = B.OR(pend, B.mk(v, FALSE, TRUE))
            elif a.op == 'eq' and any(isinstance(x, T) and is_len(x) and base_term(x.args[-1]) in pc_ for x in a.args):
                pend = B.OR(pend, B.mk(v, TRUE, FALSE))
        left = FALSE
        for v in B.support(gor(x for x in days)) | set().union(*[B.support(f) for _, f in exits] or [set()]):
            a = B.atom_of[v]
            if a.op in ('truthy', 'nonempty') and isinstance(a.args[0], T) and fieldname(a.args[0]) == D:
                left = B.OR(left, B.mk(v, FALSE, TRUE))
        for a, fact in exits:
            if not sat(fact):
                continue
            early = B.AND(B.AND(fact, B.NOT(popped)), left)
            if str(a.args[1]) == 'brk':
                early = B.OR(early, B.AND(fact, B.AND(popped, B.NOT(B.any([pend, loop_escapes(r)])))))
            chk.check(not sat(early), 'left without a day only when none is left', e.where(),
                      'the search ends although days are left: %s' % brief(early, 1, 200), unknown=len(days) > 3)
        chk.ok('days are tried until an event is found', e.where())
    # the mark of the next unused day
    marks, used = {}, set()
    for e in evs(r, 'set'):
        if e.recv is s and e.loops and e.fn != D:
            for g, t in under(e.args[0], e.g):
                c, d = as_lin(t)
                if len(d) == 1 and list(d.values())[0] == 1 and list(d)[0] in [x.res for x in days]:
                    marks.setdefault(e.fn, set()).add(c)
    chk.rule('day-list', 'a generated list of days is consecutive and starts at the start of the source, at today or after the last used day')
    n = 0
    for e in evs(r, 'set', D):
        if e.recv is not s:
            continue
        for g, t in under(e.args[0], e.g):
            if t.op != 'obj':
                continue
            for sg in r.interp.segs(t, _mkst(e.heap, g)):
                if sg[0] != 'each':
                    if sg[0] == 'e':
                        chk.undecided('day list', e.where(), 'single days')
                    elif sg[0] != 'e':
                        chk.undecided('day list', e.where(), sg[0])
                    continue
                L = sg[2]
                for sub in sg[3]:
                    if sub[0] != 'e':
                        chk.undecided('day list', e.where(), sub[0])
                        continue
                    gg = B.any([B.AND(B.AND(g, sg[1]), sub[1])])
                    for h, day in under(sub[2], gg):
                        n += 1
                        day_term(ctx, chk, R, r, s, e, L, h, day, bool(e.loops), marks, used)
    if not n:
        raise Undecided('no generated days found')
    chk.rule('next-day', 'in live mode a new list of days starts after the last used day')
    for f in sorted(used):
        chk.check(marks.get(f) == {86400}, 'mark %s is the day after the used one' % f, r.func.qual,
                  'the mark of used days is the day %s seconds after the used one' % sorted(map(str, marks.get(f, []))), unknown=f not in marks)
        for x in days:
            # the same iteration marks the day it takes
            same = [e for e in evs(r, 'set', f) if e.loops and any(x.res in subterms(t) for g, t in e.args[0].ls)]
            chk.implies(B.AND(x.g, B.NOT(loop_escapes(r))), gor(same), 'mark %s kept for every used day' % f, x.where(),
                        'a used day is not marked')


def day_term(ctx, chk, R, r, s, e, L, h, day, refill, marks, used):
    c, d = as_lin(day)
    idx = [k for k in d if k.op == 'idx']
    if len(idx) != 1 or d[idx[0]] != 86400:
        if len(idx) == 1 and not has_unknown(day):
            chk.bad('consecutive days', e.where(), 'generated day %s: the days are not consecutive' % show(day))
        else:
            chk.undecided('consecutive days', e.where(), show(day))
        return
    rng = idx[0].args[0]
    lo, hi, stp = (None, None, None)
    if rng.op == 'range' and len(rng.args) >= 3:
        lo, hi, stp = rng.args[:3]
    if lo is None:
        chk.undecided('consecutive days', e.where(), show(rng))
        return
    rest = {k: v for k, v in d.items() if k is not idx[0]}
    off = c + (cval(lo) * 86400 if is_const(lo) else 0)
    if not is_const(lo) or not is_const(stp) or cval(stp) != 1 or len(rest) != 1 or list(rest.values()) != [1]:
        chk.undecided('consecutive days', e.where(), show(day))
        return
    b = list(rest)[0]
    start, end = mk('attr', s, R.fields['start'], 0), mk('attr', s, R.fields['end'], 0)
    hist = FALSE
    for t in ctxterms(r, 'ENABLE_HISTORY_START'):
        hist = B.OR(hist, truthy(t))
    bounded = B.AND(B.NOT(isnone(end)), truthy(end))
    bs = show(b)
    first = 'refill' if refill else 'first list'
    if start in subterms(b):
        want = mk('app', 'date', start)
        chk.check(off == 0 and b is want, '%s: starts at the day of the start' % first, e.where(), 'the first day is %s' % show(day), unknown=b is not want)
        chk.implies(h, B.OR(hist, bounded), '%s: start day used in history or bounded mode' % first, e.where(), 'an unbounded live source starts in the past')
        if refill:
            gen_once(ctx, chk, r, s, e, h, first)
    elif b.op == 'res' and b.args[1] in ('datetime.date.today',) or b.op == 'app' and b.args[0] == 'date' and b.args[1].op == 'res' and b.args[1].args[1] in NOWS:
        chk.check(off == 0, '%s: starts today' % first, e.where(), 'the first day is %s' % show(day))
        if refill:
            for m in refill_marks(h, marks):
                if implies(h, B.any([B.NOT(truthy(m)), isnone(m), B.NOT(lt(b, m))])):
                    used.add(fieldname(m))
                    chk.ok('refill: today only when not used yet', e.where())
                    return
            chk.bad('refill: today only when not used yet', e.where(), 'a new list of days starts today although today may have been used; when %s' % brief(h, 1, 200))
            return
    elif fieldname(b):
        chk.check(refill or implies(h, B.NOT(truthy(b))), 'first list: not after a mark', e.where(),
                  'after a change of the registrations the days start after the last used one: what is left of it is lost', unknown=len(marks.get(fieldname(b), ())) != 1)
        chk.check(off == 0, '%s: starts at the mark %s' % (first, fieldname(b)), e.where(), 'the first day is %s' % show(day))
        used.add(fieldname(b))
    else:
        chk.undecided('%s: first day' % first, e.where(), show(day))
    # length
    other = [v for v in B.support(h) if B.atom_of[v].op == 'truthy' and B.atom_of[v].args[0].op == 'attr' and B.atom_of[v].args[0].args[0] is s and
             fieldname(B.atom_of[v].args[0]) not in set(R.fields.values()) | set(marks) | core_marks(r, s)]
    hb = B.AND(h, bounded)
    if sat(hb):
        c2, d2 = as_lin(hi)
        span = as_lin(add(mk('app', 'date', end), mk('app', 'date', start), -1))[1]
        txt = show(hi)
        ts = [k for k in d2]
        if len(ts) == 1 and ts[0].op == 'attr' and d2[ts[0]] == 1 and as_lin(ts[0].args[0])[1] == span:
            chk.check(c2 == 1 and ts[0].args[1] == 'days', 'bounded source: all days up to the end', e.where(), 'number of days is %s: the days between start and end (both included) are not covered' % txt,
                      unknown=ts[0].args[1] not in ('days', 'seconds', 'microseconds'))
        elif is_const(hi) or len(ts) == 1 and ts[0].op == 'attr' and ts[0].args[1] == 'EVENT_DAYS_COUNT':
            chk.check(False, 'bounded source: all days up to the end', e.where(), 'the number of days of a source with an end is %s' % txt, unknown=bool(other))
        elif not has_unknown(hi) and any(u.op == 'app' and u.args[0] in ('min', 'builtins.min') for u in subterms(hi)):
            chk.check(False, 'bounded source: all days up to the end', e.where(), 'number of days is %s: the days between start and end (both included) are not covered' % txt)
        else:
            chk.undecided('bounded source: all days up to the end', e.where(), txt)
    hh = B.all([h, B.NOT(bounded), hist]) if hist != FALSE else FALSE
    if hist == FALSE and not implies(h, bounded) and start not in subterms(b):
        chk.check(False, '%s: history' % first, e.where(), 'a source without end starts at %s also in history mode' % show(b), unknown=bool(other))
    elif sat(hh):
        chk.check(start in subterms(b), '%s: history' % first, e.where(), 'a history source starts at %s' % show(b), unknown=bool(other))
        c2, d2 = as_lin(hi)
        okd = c2 == 0 and len(d2) == 1 and list(d2)[0].op == 'attr' and list(d2)[0].args[1] == 'EVENT_DAYS_COUNT'
        chk.check(okd, 'history source: EVENT_DAYS_COUNT days', e.where(), 'a history source without end has %s days' % show(hi),
                  unknown=not is_const(hi) and (has_unknown(hi) or not any(u.op == 'attr' and u.args[1] == 'EVENT_DAYS_COUNT' for u in subterms(hi))))


def core_marks(r, s):
    """fields that a run sets to constants (marks of what was done)"""
    return {e.fn for e in evs(r, 'set') if e.recv is s and all(is_const(t) for g, t in e.args[0].ls)}


def bounded_here(h, bounded):
    return implies(h, bounded)


def refill_marks(h, marks):
    out = set()
    for v in B.support(h):
        for t in subterms(B.atom_of[v]):
            if t.op in ('mu', 'attr') and fieldname(t) in marks:
                out.add(t)
    return out


def gen_once(ctx, chk, r, s, e, h, first):
    """a bounded / history source generates its days only once"""
    for v in B.support(h):
        a = B.atom_of[v]
        if a.op == 'truthy' and a.args[0].op in ('mu', 'attr'):
            f = fieldname(a.args[0])
            if f and implies(h, B.NOT(B.mk(v, FALSE, TRUE))):
                sets = [x for x in evs(r, 'set', f) if x.recv is s and all(is_const(t) and cval(t) is True for g, t in under(x.args[0], x.g))]
                if implies(h, gor(sets)):
                    chk.ok('%s: days generated once' % first, e.where())
                    return
    if guard_unknown(h) and any(B.atom_of[v].op == 'truthy' and has_unknown(B.atom_of[v]) for v in B.support(h)):
        chk.undecided('%s: days generated once' % first, e.where(), 'guard')
        return
    chk.bad('%s: days generated once' % first, e.where(), 'the days of a history (or bounded) source may be generated again')


def is_ms_of(t, dt):
    """t is the datetime term dt in whole milliseconds since the epoch"""
    r = t
    rounded = False
    while r.op == 'app' and r.args[0] in ('int', 'round', 'builtins.int', 'builtins.round', 'math.floor'):
        rounded = rounded or r.args[0].endswith('round')
        r = r.args[1]
    c, d = as_lin(r)
    if c == 0 and len(d) == 1:
        (u, k), = d.items()
        if k == 1000 and u.op == 'app' and u.args[0] == 'timestamp' and u.args[1] is dt:
            return 'ok' if rounded else 'trunc'
        if k == 1 and u.op == 'res' and 'dt_to_milliseconds' in str(u.args[1]):
            return 'opaque'
    return None


@prop('S06')
def s06_arm(ctx, chk):
    R = src(ctx)
    q = sched_run(ctx)
    es = q.sym[q.func.params[1]]
    s = q.sym['self']
    sets = [e for e in evs(q, 'setitem') if any(t is es for g, t in under(e.args[1], e.g))]
    chk.rule('register', 'scheduling a source records it under a fresh schedule id')
    if not sets:
        raise Undecided('registration of a scheduled source not found')
    reg = sets[0]
    sid = value_of(reg.args[0], reg.g)
    tab = base_term(reg.recv)
    chk.implies(q.st.pc, gor(sets), 'registered', q.func.qual, 'a source may be scheduled without being registered')
    # fresh id: a counter that is stored back
    c, d = as_lin(sid) if sid is not None else (0, {})
    ok_ = False
    if len(d) == 1 and list(d.values())[0] == 1 and c > 0:
        k = list(d)[0]
        if k.op == 'cattr' or k.op == 'attr':
            ok_ = any(any(t is sid for g, t in under(e.args[0], e.g)) for e in evs(q, 'set') if e.fn in k.args)
    if ok_:
        chk.ok('fresh id', reg.where())
    elif sid is not None and is_len(sid) and any(base_term(y) is tab for y in subterms(sid)):
        chk.check(False, 'fresh id', reg.where(), 'the schedule id %s is given again after an unscheduling' % show(sid))
    elif sid is es or sid is not None and sid.op == 'app' and sid.args[0] in ('builtins.id', 'id', 'hash', 'builtins.hash') and sid.args[1] is es:
        chk.check(False, 'fresh id', reg.where(), 'the schedule id %s is the same after a rescheduling: old messages stay valid' % show(sid))
    elif sid is not None and (sid.op == 'res' or 'next' in show(sid) or sid.op == 'app' or sid.op == 'obj'):
        chk.undecided('fresh id', reg.where(), show(sid))
    else:
        chk.check(False, 'fresh id', reg.where(), 'the schedule id %s is not fresh' % (show(sid) if sid is not None else '?'),
                  unknown=sid is None or has_unknown(sid))
    arm_rule(ctx, chk, q, es, None, 'scheduling', q.st.pc)
    heap = havocked(q)
    for nm, r0 in source_callback(ctx):
        rr = ctx.call(q, r0.cbterm, heap=heap)
        chk.rule('stale', 'a message of a source that is not scheduled any more does nothing')
        gets = opq(rr, 'EventSource.get_next_event')
        emits = opq(rr, 'EventBus.emit')
        pushes = opq(rr, 'EventLoop.push_message')
        if not gets or not emits:
            raise Undecided('callback of a scheduled source: no get_next_event / emit')
        live = None
        for e in gets + emits:
            hk = [v for v in B.support(e.g) if B.atom_of[v].op == 'haskey' and base_term(B.atom_of[v].args[0]) is tab and B.atom_of[v].args[1] is sid]
            ok_ = any(implies(e.g, B.mk(v, FALSE, TRUE)) for v in hk)
            for v in hk:
                live = B.mk(v, FALSE, TRUE)
            nn = False
            if not ok_:
                # looked up by id instead: the value must be there
                for v in B.support(e.g):
                    a = B.atom_of[v]
                    if a.op in ('isnone', 'truthy') and any(x.op == 'item' and base_term(x.args[0]) is tab and x.args[1] is sid for x in subterms(a.args[0])):
                        nn = True
            if ok_:
                chk.ok('%s only while scheduled' % e.fn.split('.')[-1], e.where())
            elif nn or any(x.op in ('item',) and base_term(x.args[0]) is tab for v in e.args for _, t in v.ls for x in subterms(t)) or \
                    guard_mentions(e.g, tab) and not all(B.atom_of[v].op in ('truthy', 'nonempty', 'raises', 'isnone') and (B.atom_of[v].op == 'raises' or not any(x.op in ('item', 'haskey', 'any', 'all', 'exists') for x in subterms(B.atom_of[v]))) for v in B.support(e.g)):
                chk.undecided('%s only while scheduled' % e.fn.split('.')[-1], e.where(), brief(e.g, 1, 200))
            else:
                chk.bad('%s only while scheduled' % e.fn.split('.')[-1], e.where(), 'a message of an unscheduled source still takes or emits an event')
        chk.rule('emit-once', 'the due message emits exactly the event it took, once')
        for i, a in enumerate(gets):
            for b in gets[i + 1:]:
                chk.check(not sat(B.AND(a.g, b.g)), 'one event taken', b.where(), 'two events are taken by one message')
        for i, a in enumerate(emits):
            for b in emits[i + 1:]:
                chk.check(not sat(B.AND(a.g, b.g)), 'one event emitted', b.where(), 'two events are emitted by one message')
        for g0 in gets:
            chk.check(any(t is es or base_term(t) is es or (t.op == 'item' and base_term(t.args[0]) is tab) for g, t in under(g0.args[0], g0.g)), 'own source', g0.where(),
                      'the event is taken from another source')
            ok_g = B.AND(ok_guard(g0), B.AND(B.NOT(isnone(g0.res)), truthy(g0.res)))
            chk.implies(ok_g, gor(emits), 'taken event is emitted', g0.where(), 'an event is taken but never emitted')
            for e in emits:
                for g, t in under(e.args[-1], B.AND(e.g, g0.g)):
                    want = mk('item', g0.res, const(1))
                    chk.check(t is want, 'emitted event is the taken one', e.where(), 'emits %s' % show(t), unknown=has_unknown(t))
        if live is not None:
            chk.implies(B.AND(rr.st.pc, live), gor(gets), 'due message takes its event', rr.func.qual, 'the message of a live source takes no event')
        arm_rule(ctx, chk, rr, es, r0.cbterm, 'after an event', B.AND(rr.st.pc, gor(emits)), gets)
    chk.rule('reschedule', 'changing the registrations of a scheduled source voids the old message and schedules the source anew')
    regs = opq(q, 'EventSource.register_event_changed')
    again = False
    if not regs:
        chk.undecided('change callback', q.func.qual, 'register_event_changed not called')
    chk.implies(q.st.pc, gor(regs), 'change callback registered', q.func.qual, 'a change of the registrations is not noticed')
    for e in regs:
        for g, t in under(e.args[1], e.g):
            if t.op not in ('clos', 'bm', 'fn', 'partial'):
                chk.undecided('change callback', e.where(), show(t))
                continue
            rr = ctx.call(q, t, [es], heap=heap)
            again = again or bool(opq(rr, 'EventSource.register_event_changed'))
            hk = atom('haskey', tab_ver(rr, tab), sid)
            dels = [x for x in evs(rr, 'delitem') if base_term(x.recv) is tab and any(u is sid for _, u in under(x.args[0], x.g))]
            news = [x for x in evs(rr, 'setitem') if base_term(x.recv) is tab and any(u is es for _, u in under(x.args[1], x.g))]
            chk.implies(B.AND(rr.st.pc, gor(dels)), gor(news), 'scheduled anew', e.where(), 'the source is not scheduled again after a change')
            more = [x for x in evs(rr, 'opaque') if (x.fn or '').startswith('EventSource.') and x.fn.split('.')[1] not in ('register_event_changed', 'peek_next_event', 'get_next_event')]
            if opq(rr, 'EventSource.register_event_changed') and not more:
                gone = B.all(B.NOT(hh) for hh in haskeys(rr, tab, sid))
                d_ = B.AND(gor(news), gone)
                chk.check(not sat(d_), 'only the live schedule answers a change', e.where(), 'a schedule that was replaced already schedules the source once more: its events are armed twice',
                          unknown=guard_unknown(d_))
            chk.check(bool(dels), 'old schedule removed', e.where(), 'the old schedule of the source stays live after a change')
            if dels:
                chk.implies(B.AND(rr.st.pc, gor(news)), B.any([gor(dels)] + [B.NOT(hh) for hh in haskeys(rr, tab, sid)]), 'old schedule removed when live', e.where(),
                            'the old schedule of the source stays live after a change')
    chk.rule('unschedule', 'unscheduling removes the registration of exactly that id')
    u = ctx.run(ctx.method('EventSourceScheduler', 'unschedule'))
    uid = u.sym[u.func.params[1]]
    us = u.sym['self']
    dl = [x for x in evs(u, 'delitem') if x.recv.op == 'attr' and x.recv.args[1] == (tab.args[1] if tab.op == 'attr' else None)]
    hks = [B.mk(v, FALSE, TRUE) for x in dl for v in B.support(x.g) if B.atom_of[v].op == 'haskey' and B.atom_of[v].args[1] is uid]
    for x in dl:
        for g, t in under(x.args[0], x.g):
            chk.check(t is uid, 'key', x.where(), 'unschedule removes %s' % show(t), unknown=has_unknown(t))
    chk.implies(B.AND(u.st.pc, B.any(hks)) if hks else u.st.pc, gor(dl), 'removed', u.func.qual, 'the schedule id stays registered')
    # daily(): the registration is recorded, a regeneration is asked for, everybody is told
    chk.rule('daily', 'daily() records the registration and announces the change')
    d = ctx.run(ctx.method('EventSource', 'daily'))
    ds = d.sym['self']
    chk.implies(d.st.pc, gor(e for e in evs(d, 'append') if e.recv.op == 'attr' and e.recv.args[1] == R.dfield), 'registration recorded', d.func.qual, 'the registration is lost')
    flags = {e.fn for e in evs(d, 'set') if e.recv is ds and all(is_const(t) and cval(t) is True for g, t in under(e.args[0], e.g))}
    g6 = gen_run(ctx, 'get_next_event')
    gs = g6.sym['self']
    need = {e.fn for e in evs(g6, 'set') if e.recv is gs and not e.loops and all(is_const(t) and cval(t) is False for g, t in under(e.args[0], e.g)) and implies(e.g, truthy(mk('attr', gs, e.fn, 0)))
            and any(k[1] == e.fn and all(is_const(t) and cval(t) is True for _, t in v.ls) for k, v in R.init.st.heap.items() if isinstance(v, V))}
    tested = [f for f in flags if any(B.atom_of[v].op == 'truthy' and B.atom_of[v].args[0] is mk('attr', gs, f, 0) for v in B.support(g6.st.pc) | set().union(*[B.support(e.g) for e in g6.events] or [set()]))]
    chk.check(bool(tested), 'regeneration asked for', d.func.qual, 'pending events are not generated anew after a change', unknown=not flags and not need)
    for f in tested:
        chk.implies(d.st.pc, gor(evs(d, 'set', f)), 'regeneration always asked for', d.func.qual, 'pending events are not always generated anew after a change')
        # the reset clears the pending events and the history mark
        rg = B.AND(g6.st.pc, truthy(mk('attr', gs, f, 0)))
        rs = [e for e in evs(g6, 'set', f) if e.recv is gs and all(is_const(t) and not cval(t) for g, t in under(e.args[0], e.g))]
        chk.implies(rg, gor(rs), 'regenerated once', g6.func.qual, 'the pending events are generated anew on every access')
        regen(ctx, chk, R, g6, gs, rg)
    cbs = evs(d, 'callback')
    chk.check(bool(cbs), 'change announced', d.func.qual, 'registered change callbacks are not called')
    for e in cbs:
        Ls = [l for l in e.loops]
        if Ls:
            L = Ls[-1]
            chk.implies(B.AND(L.pc, L.more), e.g, 'every change callback', e.where(), 'some change callbacks are skipped')
            t = L.raw
            while t is not None and t.op == 'app' and t.args[0] in ('iter', 'reversed', 'enumerate', 'builtins.iter', 'builtins.reversed', 'builtins.enumerate'):
                t = t.args[1]
            if again and t is not None and L.kind == 'for':
                chk.check(ver_base(t) is not mk('attr', ds, ver_base(t).args[1] if ver_base(t).op == 'attr' else '', 0), 'announcing ends', e.where(),
                          'a change callback registers itself again in %s while it is iterated: announcing a change of a scheduled source never ends' % show(t))
        for g, t in under(e.args[0], e.g) if e.args else []:
            chk.check(t is ds, 'told about this source', e.where(), 'the callback gets %s' % show(t), unknown=has_unknown(t))


def regen(ctx, chk, R, r, s, rg):
    """after a change the pending events and the days are those of the new registrations"""
    app = R.appended(r)
    ps = {fieldname(base_term(a.recv)) for a, _, _, _ in app} | {fieldname(a.recv) for a, _, _, _ in app}
    ps |= {k[1] for k, v in r.st.heap.items() if k[0] is s and isinstance(v, V) and any(base_term(t) is base_term(a.recv) for g, t in v.ls for a, _, _, _ in app)}
    ps -= {None}
    first = min([e.i for e in evs(r, 'listpop')] + [a.i for a, _, _, _ in app] or [0])
    if len(ps) == 1:
        f = ps.pop()
        cl = [e for e in r.events if e.i < first and not e.loops and (e.kind == 'set' and e.recv is s and e.fn == f or e.kind in ('clear', 'delitem', 'delslice') and fieldname(e.recv) == f)]
        for e in cl:
            if e.kind == 'set':
                for g, t in under(e.args[0], B.AND(e.g, rg)):
                    sg = r.interp.segs(t, _mkst(e.heap, g)) if t.op == 'obj' else None
                    kept = any(fieldname(u) == f and u.args[0] is s for u in subterms(t) if u.op == 'attr') or bool(sg) and any(
                        isinstance(x, T) and any(fieldname(u) == f for u in subterms(x) if u.op == 'attr') for z in sg for x in [y for y in z if isinstance(y, T)] + [y.raw for y in z if hasattr(y, 'raw') and isinstance(y.raw, T)])
                    chk.check(not kept, 'old events dropped', e.where(), 'events of the former registrations stay pending after a change')
        chk.implies(rg, gor(cl), 'old events dropped', r.func.qual, 'events of the former registrations stay pending after a change')
    D = {fieldname(base_term(e.recv)) for e in evs(r, 'listpop') if e.res is not None and any(e.res in subterms(t) for _, g, d, v in app for _, t in d.ls)} - {None}
    if len(D) == 1:
        D = D.pop()
        for e in evs(r, 'set', D):
            if e.recv is s and not e.loops:
                for g, t in under(e.args[0], B.AND(e.g, rg)):
                    sg = r.interp.segs(t, _mkst(e.heap, g)) if t.op == 'obj' else None
                    later = [x for x in evs(r, 'set', D) if x.i > e.i and x.recv is s and not x.loops]
                    left = B.AND(g, B.NOT(gor(later)))
                    if sg is not None and not sg and sat(left):
                        at = [v for v in B.support(left) if B.atom_of[v].op == 'truthy' and fieldname(B.atom_of[v].args[0]) in core_marks(r, s)]
                        if at:
                            chk.bad('days of the new registrations', e.where(), 'after a change of the registrations there are no days left; when %s' % brief(left, 1, 200))


def guard_mentions(g, t):
    return any(t in subterms(B.atom_of[v]) for v in B.support(g))


def tab_ver(rr, tab):
    return tab


def haskeys(rr, tab, sid):
    out = []
    seen = set()
    gs = [rr.st.pc] + [e.g for e in rr.events]
    for g in gs:
        for v in B.support(g):
            a = B.atom_of[v]
            if a.op == 'haskey' and base_term(a.args[0]) is tab and a.args[1] is sid and v not in seen:
                seen.add(v)
                out.append(B.mk(v, FALSE, TRUE))
    return out


def arm_rule(ctx, chk, r, es, self_cb, what, pc, gets=()):
    """the next pending event of the source is armed exactly once"""
    chk.rule('arm', 'the next pending event is armed by exactly one message with its time, its priority and the callback of its source')
    peeks = opq(r, 'EventSource.peek_next_event')
    pushes = opq(r, 'EventLoop.push_message')
    if not peeks:
        chk.undecided('%s: next event' % what, r.func.qual, 'peek_next_event not used')
        return
    for i, a in enumerate(pushes):
        for b in pushes[i + 1:]:
            chk.check(not sat(B.AND(a.g, b.g)), '%s: one message' % what, b.where(), 'two messages are armed for one source')
    for p in peeks:
        for g0 in gets:
            if sat(B.AND(p.g, g0.g)) and p.i < g0.i and any(p.res in subterms(x) for m in pushes for x in pushed_terms(ctx, r, m)):
                chk.bad('%s: looks at the next event' % what, p.where(), 'the event that is about to be delivered is armed again')
    nxt = B.any(B.AND(B.AND(ok_guard(p), B.NOT(isnone(p.res))), truthy(p.res)) for p in peeks)
    chk.implies(pc, gor(peeks), '%s: next event looked up' % what, r.func.qual,
                'the next event of the source is never armed')
    chk.implies(B.AND(pc, nxt), gor(pushes), '%s: armed' % what, r.func.qual, 'the next event of the source is never armed')
    for e in pushes:
        for g, m in under(e.args[1], e.g):
            if not typed(r, m, ctx.cls('Message')):
                chk.undecided('%s: message' % what, e.where(), show(m))
                continue
            for p in peeks:
                if not sat(B.AND(p.g, g)):
                    continue
                dt, ev = mk('item', p.res, const(0)), mk('item', p.res, const(1))
                for h, t in under(field(r, e.heap, m, 'time'), B.AND(g, p.g)):
                    z = is_ms_of(t, dt)
                    if z == 'ok':
                        chk.ok('%s: due time' % what, e.where())
                    elif z == 'trunc':
                        chk.bad('%s: due time' % what, e.where(), 'the due time %s is truncated below the time of the event' % show(t))
                    else:
                        chk.check(False, '%s: due time' % what, e.where(), 'the message is due at %s, not at the time of its event' % show(t),
                                  unknown=z == 'opaque' or has_unknown(t) or dt not in subterms(t) and t.op == 'res')
                for h, t in under(field(r, e.heap, m, 'priority'), B.AND(g, p.g)):
                    chk.check(t is mk('attr', ev, 'priority', 0) or t.op in ('attr',) and t.args[:2] == (ev, 'priority'), '%s: priority' % what, e.where(),
                              'the message has priority %s, not that of its event' % show(t), unknown=has_unknown(t))
                for h, t in under(field(r, e.heap, m, 'callback'), B.AND(g, p.g)):
                    if self_cb is None or t is self_cb or same_callback(t, self_cb):
                        chk.ok('%s: callback' % what, e.where())
                    else:
                        chk.undecided('%s: callback' % what, e.where(), show(t))


def pushed_terms(ctx, r, e):
    out = []
    for g, m in under(e.args[1], e.g):
        if typed(r, m, ctx.cls('Message')):
            for f in ('time', 'priority'):
                out += [t for _, t in field(r, e.heap, m, f).ls]
    return out


def same_callback(a, b):
    return a.op == b.op and a.args[0] is b.args[0]


# ---------------------------------------------------------------- S07
def plain(t):
    """item k of a slice from the front is item k"""
    if t.op == 'item':
        b = plain(t.args[0])
        k = t.args[1]
        if b.op == 'slice' and len(b.args) >= 2 and (b.args[1] is None or b.args[1] is NONE or is_const(b.args[1]) and cval(b.args[1]) in (None, 0)) \
                and is_const(k) and isinstance(cval(k), (int, Fraction)) and cval(k) >= 0:
            b = b.args[0]
        return mk('item', b, k)
    return t


def split_item(t, expr):
    """k when t is int(expr.split(':')[k])"""
    if t.op == 'app' and t.args[0] in ('int', 'builtins.int') and len(t.args) == 2:
        u = plain(t.args[1])
        if u.op == 'item' and len(t.args[1].args) == 2 and is_const(u.args[1]) and u.args[0].op == 'app' and u.args[0].args[0] == 'split':
            a = u.args[0].args
            if a[1] is expr and len(a) >= 3 and is_const(a[2]) and cval(a[2]) == ':':
                return int(cval(u.args[1]))
    return None


UNIT = {'h': 3600, 'm': 60, 's': 1}


@prop('S07')
def s07_clock(ctx, chk):
    R = src(ctx)
    r = R.add()
    f = r.func
    app = R.appended(r)
    if not app:
        raise Undecided('no generated event')
    # parameters: the time expression is the string tested for ':', the day is the date combined
    expr = day = None
    for e, g, dt, ev in app:
        for h, d in under(dt, g):
            for u in subterms(d):
                if u.op == 'app' and u.args[0] == 'datetime.datetime.combine':
                    day = u.args[1]
    for e in r.events:
        for v in B.support(e.g):
            a = B.atom_of[v]
            if a.op in ('haskey', 'substr') and any(is_strc(x) and cval(x) == ':' for x in a.args):
                expr = [x for x in a.args if not is_const(x)][0]
    if expr is None or day is None:
        raise Undecided('shape of the time computation')
    chk.rule('clock-time', 'HH:MM[:SS] means that hour, minute and second of the day')
    chk.rule('offset', 'base[+-offset] is the market open or close of the day plus or minus hours*3600+minutes*60+seconds')
    nclock = nrel = 0
    pts = {e.res: e for e in opq(r, 'parse_time')}
    colon = FALSE
    for e in r.events:
        for v in B.support(e.g):
            a = B.atom_of[v]
            if a.op in ('haskey', 'substr') and expr in a.args and any(is_strc(x) and cval(x) == ':' for x in a.args):
                colon = B.mk(v, FALSE, TRUE)
    seen_sec = set()
    odd = lambda: any(o[2] == 'undecided' and o[1].startswith('clock time') for o in chk.obls)
    for e, g, dt, ev in app:
        for h, d in under(dt, g):
            if implies(h, colon):
                chk.rule('clock-time', chk.rule_text['clock-time'])
                nclock += 1
                if d.op == 'app' and d.args[0] == 'datetime.datetime.combine' and d.args[1] is day and d.args[2].op == 'app' and d.args[2].args[0] == 'datetime.time':
                    parts = d.args[2].args[1:]
                    bad = []
                    for i, nm in enumerate(('hour', 'minute', 'second')):
                        if i >= len(parts):
                            if i < 2:
                                bad.append('%s missing' % nm)
                            else:
                                seen_sec.add(0)
                            continue
                        p = parts[i]
                        k = split_item(p, expr)
                        if k == i:
                            if i == 2:
                                seen_sec.add(2)
                        elif i == 2 and is_const(p) and cval(p) == 0:
                            seen_sec.add(0)
                        elif k is not None or is_const(p) or expr not in subterms(p) and not has_unknown(p) and not any(x.op in ('mu', 'muout', 'elem', 'loopdict', 'param', 'glob', 'res') and not str(x.args[1]).startswith(('datetime.', 'time.')) for x in subterms(p)):
                            bad.append('%s is %s' % (nm, show(p)))
                        else:
                            chk.undecided('clock time %s' % nm, e.where(), show(p))
                    chk.check(not bad, 'hour, minute, second from the expression', e.where(), '; '.join(bad))
                elif d.op == 'app' and d.args[0] == 'datetime.datetime.combine' and d.args[2] in pts:
                    chk.undecided('clock time', e.where(), 'parsed by parse_time')
                else:
                    chk.undecided('clock time', e.where(), show(d))
            elif implies(h, B.NOT(colon)):
                nrel += 1
                chk.rule('offset', chk.rule_text['offset'])
                rel_leaf(ctx, chk, r, e, h, d, day, pts, expr)
            else:
                chk.undecided('time', e.where(), show(d))
    chk.rule('clock-time', chk.rule_text['clock-time'])
    if nclock:
        chk.check(2 in seen_sec, 'seconds used', f.qual, 'the seconds of a clock time are ignored', unknown=not seen_sec or odd())
        chk.check(0 in seen_sec, 'seconds optional', f.qual, 'a clock time without seconds is not accepted', unknown=not seen_sec or odd())
    else:
        chk.undecided('clock time', f.qual, 'no clock-time result')
    chk.rule('offset', chk.rule_text['offset'])
    if not nrel:
        chk.undecided('relative time', f.qual, 'no relative result')
    units = getattr(chk, '_units', set())
    if units and '?' not in units:
        for u in UNIT:
            chk.check(u in units, 'part %s used' % u, f.qual, 'the %s part of an offset is ignored' % u, unknown=any(o[2] == 'undecided' for o in chk.obls))
    chk.rule('reject', 'a malformed expression is rejected with an error')
    from .rx import compare, Unsupported
    for e in evs(r, 'call', ('re.match', 're.fullmatch', 're.search')):
        pat = value_of(e.args[0], e.g)
        if pat is None or not is_strc(pat):
            chk.undecided('offset grammar', e.where(), 'pattern')
            continue
        try:
            rel, w = compare(cval(pat), e.fn.split('.')[-1], '([0-9]{1,2}[hms]){1,3}', 'fullmatch')
        except (Unsupported, Exception) as x:
            chk.undecided('offset grammar', e.where(), str(x))
            continue
        if rel == '=':
            chk.ok('offset grammar', e.where())
        elif rel in ('<', '!'):
            chk.bad('offset grammar', e.where(), 'the valid offset %r is rejected' % w)
        else:
            try:
                full = compare(cval(pat), 'fullmatch', '([0-9]{1,2}[hms]){1,3}', 'fullmatch')[0]
            except Exception:
                full = '?'
            if full == '=':
                chk.bad('offset grammar', e.where(), 'offsets with trailing text such as %r are accepted' % w)
            else:
                chk.undecided('offset grammar', e.where(), 'accepts %r' % w)
        # a failed match never yields an event
        for x, g, dt, ev in app:
            bad = B.AND(B.AND(g, e.g), isnone(e.res))
            chk.check(not sat(bad), 'malformed offset yields no event', x.where(), 'an event is generated although the offset is malformed')
    for e in evs(r, 'call', ('re.findall', 're.finditer')):
        pat = value_of(e.args[0], e.g)
        if pat is None or not is_strc(pat):
            chk.undecided('offset tokens', e.where(), 'pattern')
            continue
        try:
            rel, w = compare(cval(pat), 'fullmatch', '[0-9]{1,2}[hms]', 'fullmatch')
        except (Unsupported, Exception) as x:
            chk.undecided('offset tokens', e.where(), str(x))
            continue
        if rel in ('<', '!'):
            chk.bad('offset tokens', e.where(), 'the offset part %r is not read completely' % w)
        elif rel == '=':
            chk.ok('offset tokens', e.where())
        else:
            chk.undecided('offset tokens', e.where(), 'accepts %r' % w)


def rel_leaf(ctx, chk, r, e, h, d, day, pts, expr):
    c, lin = as_lin(d)
    bases = [k for k in lin if k.op == 'app' and k.args[0] == 'datetime.datetime.combine']
    if len(bases) != 1 or lin[bases[0]] != 1 or bases[0].args[1] is not day:
        chk.undecided('relative time', e.where(), show(d)[:300])
        return
    b = bases[0].args[2]
    which = None
    # which base does the expression name here
    for v in B.support(h):
        a = B.atom_of[v]
        if a.op == 'eqc' and is_strc(a.args[1]) and cval(a.args[1]) in ('open', 'close') and implies(h, B.mk(v, FALSE, TRUE)):
            which = cval(a.args[1])
    if which is None:
        chk.undecided('base', e.where(), brief(h, 1, 200))
    elif b in pts:
        pe = pts[b]
        for g, t in under(pe.args[0], B.AND(pe.g, h)):
            i = 0 if which == 'open' else -1
            ok_ = t.op == 'item' and is_const(t.args[1]) and cval(t.args[1]) == i and t.args[0].op == 'item' and \
                is_const(t.args[0].args[1]) and cval(t.args[0].args[1]) == i
            mp = t.args[0].args[0] if t.op == 'item' and t.args[0].op == 'item' else None
            chk.check(ok_, '%s of the day' % which, e.where(), '"%s" is computed from %s of the market periods' % (which, show(t)),
                      unknown=t.op != 'item' or mp is None or has_unknown(t))
            if mp is None:
                continue
            opt = mp.op == 'item' and is_strc(mp.args[1]) and cval(mp.args[1]) == 'market_period'
            dft = mp.op == 'attr' and mp.args[1] == 'MARKET_PERIOD'
            chk.check(opt or dft, '%s uses the market periods' % which, e.where(), 'market periods are %s' % show(mp),
                      unknown=not (mp.op == 'item' and is_strc(mp.args[1]) and mp.args[0].op == 'attr' and 'option' in str(mp.args[0].args[1])))
            if dft:
                hk = [B.mk(v, FALSE, TRUE) for v in B.support(g) if B.atom_of[v].op == 'haskey' and any(is_strc(x) and cval(x) == 'market_period' for x in B.atom_of[v].args)]
                others = [v for v in B.support(g) if 'market_period' in show(B.atom_of[v])]
                chk.check(any(implies(g, B.NOT(x)) for x in hk) or bool(others), 'default only without option', e.where(),
                          'the configured market_period option is ignored')
    else:
        chk.undecided('base', e.where(), show(b))
    rest = {k: v for k, v in lin.items() if k is not bases[0]}
    chk.check(c == 0, 'offset constant', e.where(), 'the time is shifted by %s seconds' % c)
    plus = None
    for v in B.support(h):
        a = B.atom_of[v]
        if a.op == 'eqc' and is_strc(a.args[1]) and cval(a.args[1]) in ('+', '-'):
            if implies(h, B.mk(v, FALSE, TRUE)):
                plus = cval(a.args[1]) == '+'
            elif implies(h, B.mk(v, TRUE, FALSE)):
                plus = cval(a.args[1]) != '+'
    units = {}
    for k, w in rest.items():
        u = None
        if k.op == 'item' and is_strc(k.args[1]) and cval(k.args[1]) in UNIT:
            u = cval(k.args[1])
        if u is None:
            chk.undecided('offset part', e.where(), show(k))
            continue
        chk.check(abs(w) == UNIT[u], 'unit %s' % u, e.where(), 'one %s counts %s seconds' % (u, abs(w)))
        units[u] = w
        if plus is None:
            seen = any(is_strc(x) and cval(x) in ('+', '-') for v in B.support(h) for x in subterms(B.atom_of[v]))
            chk.check(False, 'sign', e.where(), 'the sign of the offset makes no difference: it is always %s' % ('added' if w > 0 else 'subtracted'), unknown=seen or guard_unknown(h))
        else:
            chk.check((w > 0) == plus, 'sign', e.where(), 'the offset after "%s" is %s' % ('+' if plus else '-', 'added' if w > 0 else 'subtracted'))
    for v in B.support(h):
        a = B.atom_of[v]
        if a.op == 'haskey' and is_strc(a.args[1]) and cval(a.args[1]) in UNIT and implies(h, B.mk(v, FALSE, TRUE)):
            u = cval(a.args[1])
            chk.check(u in units, 'part %s counted' % u, e.where(), 'the %s part of the offset is ignored' % u, unknown=len(units) < len(rest))
    chk._units = getattr(chk, '_units', set()) | set(units) | ({'?'} if len(units) < len(rest) else set())
    # the parts come from (number, unit) pairs of the expression
    for k in rest:
        if k.op == 'item' and k.args[0].op == 'loopdict':
            parts_ok(chk, r, e, k.args[0])


def parts_ok(chk, r, e, ld):
    for (o, f), log in list(r.st.heap.items()):
        if f == '$d' and o is ld.args[0]:
            for x in log:
                if x[0] == 'each':
                    for y in x[3]:
                        if y[0] != 'set':
                            continue
                        kt, vt = resolve(r, y[2]), resolve(r, y[3])
                        good = all(t.op == 'item' and is_const(t.args[1]) and cval(t.args[1]) == 1 and t.args[0].op == 'elem' for t in kt) and \
                            all(t.op == 'app' and t.args[0] in ('int', 'builtins.int') and t.args[1].op == 'item' and is_const(t.args[1].args[1]) and
                                cval(t.args[1].args[1]) == 0 for t in vt)
                        if good:
                            chk.ok('number and unit of a part', e.where())
                        else:
                            chk.undecided('number and unit of a part', e.where(), str([show(t) for t in kt + vt]))


def resolve(r, v):
    """terms of v with items of known tuples replaced by the element"""
    out = []
    for g, t in (v.ls if isinstance(v, V) else [(TRUE, v)]):
        if t.op == 'item' and is_const(t.args[1]):
            es = tup(r, r.st.heap, t.args[0])
            if es is not None and 0 <= int(cval(t.args[1])) < len(es):
                out += [u for _, u in es[int(cval(t.args[1]))].ls]
                continue
        out.append(t)
    return out


ALIAS = {'open': ('open', 0), 'close': ('close', 0), 'before_open': ('open', -1800), 'after_close': ('close', 1800)}


def expr_value(s):
    """reference reading of a relative time expression"""
    import re
    m = re.fullmatch('(open|close)(?:([+-])((?:[0-9]{1,2}[hms]){1,3}))?', s)
    if not m:
        return None
    n = sum(int(x) * UNIT[u] for x, u in re.findall('([0-9]+)([hms])', m.group(3) or ''))
    return m.group(1), -n if m.group(2) == '-' else n


def run_daily_run(ctx, tm=None):
    f = ctx.method('Strategy', 'run_daily')
    if tm is None:
        return ctx.run(f)
    return ctx.run(f, args={f.params[2]: const(tm)})


def stored_desc(ctx, r):
    """[(event, guard, {field: V})] task descriptions recorded by run_daily"""
    out = []
    s = r.sym['self']
    for e in evs(r, 'append'):
        if e.recv.op == 'attr' and e.recv.args[0] is s:
            for g, t in under(e.args[0], e.g):
                d = {}
                if t.op == 'obj' and t.args[1] == 'dict':
                    for o in e.heap.get((t, '$d'), ()) if not hasattr(e.heap, 'heap') else ():
                        if o[0] == 'set' and is_strc(o[2].ls[0][1] if isinstance(o[2], V) else o[2]):
                            k = o[2].ls[0][1] if isinstance(o[2], V) else o[2]
                            d[cval(k)] = o[3]
                    out.append((e, g, d))
                else:
                    es = tup(r, e.heap, t, g)
                    if es is not None:
                        out.append((e, g, dict(enumerate(es))))
                    else:
                        out.append((e, g, None))
    return out


@prop('S07')
def s07_alias(ctx, chk):
    chk.rule('alias', 'open, close, before_open and after_close mean market open, close, 30 minutes before open, 30 minutes after close')
    r0 = run_daily_run(ctx)
    tsym = r0.sym[r0.func.params[2]]
    ds = stored_desc(ctx, r0)
    if not ds or any(d is None for _, _, d in ds):
        raise Undecided('task description recorded by run_daily')
    keys = [k for k in ds[0][2] if any(tsym in subterms(t) for t in terms(ds[0][2][k]))]
    if len(keys) != 1:
        raise Undecided('time of a task description: %s' % keys)
    for a, want in ALIAS.items():
        r = run_daily_run(ctx, a)
        for e, g, d in stored_desc(ctx, r):
            for h, t in under(d[keys[0]], g):
                if is_strc(t):
                    chk.check(expr_value(cval(t)) == want, a, e.where(), '"%s" is taken as "%s"' % (a, cval(t)))
                else:
                    chk.undecided(a, e.where(), show(t))
    for a in ('every_minute', '09:31:05', 'open-1h', '14:59', 'close-3m'):
        r = run_daily_run(ctx, a)
        for e, g, d in stored_desc(ctx, r):
            for h, t in under(d[keys[0]], g):
                if is_strc(t):
                    chk.check(cval(t) == a, '%s kept' % a, e.where(), '"%s" is taken as "%s"' % (a, cval(t)))
                else:
                    chk.undecided('%s kept' % a, e.where(), show(t))


# ---------------------------------------------------------------- S08
def effects(r):
    """events that change state or call other components (logging, construction of exceptions and raising aside)"""
    out = []
    for e in r.events:
        if e.kind in ('set', 'setitem', 'append', 'extend', 'delitem', 'listpop', 'remove', 'clear', 'update', 'insert', 'opaque', 'callback'):
            if e.kind == 'set' and e.recv is not None and e.recv.op == 'obj':
                continue
            if e.kind in ('setitem', 'append', 'extend', 'update') and e.recv is not None and e.recv.op == 'obj':
                continue
            out.append(e)
        elif e.kind == 'call' and not is_pure_call(e):
            out.append(e)
    return out


PURE = ('os.path.', 'datetime.', 'builtins.', 'traceback.', 'time.', 're.', 'copy.', 'logging.', 'math.', 'json.dumps', 'json.loads', 'os.getpid', 'os.getppid')


def is_pure_call(e):
    n = str(e.fn)
    if n.startswith(PURE):
        return True
    if e.recv is not None and 'getChild' in show(e.recv) or e.recv is not None and 'getLogger' in show(e.recv):
        return True
    return n.startswith('.') and n[1:] in ('strftime', 'strptime', 'timestamp', 'date', 'time', 'format', 'today', 'debug', 'info', 'warn', 'warning', 'error', 'exception',
                                           'get', 'keys', 'values', 'items', 'split', 'strip', 'startswith', 'endswith', 'join', 'lower', 'upper')


def init_flag(ctx):
    """the field of Strategy that allows registrations, with the runs of the guarded functions"""
    S = ctx.cls('Strategy')
    rd = ctx.run(ctx.method(S, 'run_daily'))
    so = ctx.run(ctx.method(S, 'set_options'), opaque=[S.find('setup_account')])
    out = []
    for r in (rd, so):
        s = r.sym['self']
        fs = set()
        for v in set().union(B.support(r.st.pc), *[B.support(e.g) for e in r.events]):
            a = B.atom_of[v]
            if a.op in ('truthy', 'isnone') and a.args[0].op == 'attr' and a.args[0].args[0] is s:
                fs.add(a.args[0].args[1])
        out.append((r, fs))
    su = ctx.run(ctx.method(S, 'setup'), opaque=others_of(ctx, S, 'setup'))
    ss = su.sym['self']
    flags = {e.fn for e in evs(su, 'set') if e.recv is ss and any(is_const(t) and cval(t) is True for _, t in e.args[0].ls)}
    return rd, so, su, flags


@prop('S08')
def s08(ctx, chk):
    rd, so, su, flags = init_flag(ctx)
    ss = su.sym['self']
    user = [e for e in su.events if e.kind in ('call', 'callback') and ('process_initialize' in str(e.fn) or e.recv is not None and 'process_initialize' in show(e.recv)) and 'getChild' not in show(e.recv) if e.recv is not None]
    if not user:
        raise Undecided('call of process_initialize not found')
    exc = ctx.cls('InvalidCall')
    for r, nm in ((rd, 'run_daily'), (so, 'set_options')):
        s = r.sym['self']
        chk.rule('guarded', 'run_daily and set_options raise InvalidCall outside process_initialize, before any effect')
        used = [f for f in flags if any(mk('attr', s, f, 0) in subterms(B.atom_of[v]) for e in r.events for v in B.support(e.g)) or
                any(mk('attr', s, f, 0) in subterms(B.atom_of[v]) for v in B.support(r.st.pc))]
        if not flags:
            raise Undecided('flag of the registration phase not found in Strategy.setup')
        if not used:
            sus = [v for v in B.support(r.st.pc)]
            if any(truth_flag(ctx, B.atom_of[v], s) for v in sus):
                chk.undecided('%s guarded' % nm, r.func.qual, 'phase recorded in another form')
            else:
                chk.bad('%s guarded' % nm, r.func.qual, '%s may be used at any time: it does not test %s' % (nm, sorted(flags)))
            continue
        F = B.any(truthy(mk('attr', s, f, 0)) for f in used)
        chk.implies(r.st.pc, F, '%s completes only in process_initialize' % nm, r.func.qual, '%s may complete outside process_initialize' % nm)
        for e in effects(r):
            chk.implies(e.g, F, '%s has no effect outside process_initialize' % nm, e.where(), '%s acts (%s) outside process_initialize before it is rejected' % (nm, e.kind))
        ra = [e for e in evs(r, 'raise') if any(typed(r, t, exc) for g, t in e.args[0].ls)] if True else []
        chk.implies(B.AND(B.NOT(F), TRUE), B.OR(gor(ra), B.any(raised(e) for e in r.events if e.kind == 'call' and e.raises)), '%s raises InvalidCall' % nm, r.func.qual,
                    '%s is not rejected with InvalidCall outside process_initialize' % nm)
        chk.rule('window', 'registration is allowed exactly while process_initialize runs')
        for f in used:
            for e in user:
                chk.implies(e.g, truthv(su, field(su, e.heap, ss, f), e.heap), '%s: allowed in process_initialize' % nm, e.where(), 'registration is rejected inside process_initialize')
            after = [e for e in su.events if e.i > user[-1].i and e.kind == 'opaque']
            for x in after:
                chk.implies(x.g, B.NOT(truthv(su, field(su, x.heap, ss, f), x.heap)), '%s: closed before %s' % (nm, str(x.fn).split('.')[-1]), x.where(), 'registration is still allowed after process_initialize has returned')
            chk.implies(su.st.pc, B.NOT(truthv(su, field(su, su.st.heap, ss, f), su.st.heap)), '%s: closed at the end' % nm, su.func.qual,
                        'registration is still allowed after process_initialize has returned')
            ini = ctx.run(ctx.method('Strategy', '__init__'))
            v = field(ini, ini.st, ini.sym['self'], f)
            for g, t in under(v, ini.st.pc):
                chk.check(not (is_const(t) and cval(t)), '%s: closed at construction' % nm, ini.func.qual, 'registration is allowed before process_initialize', unknown=not is_const(t))
            own = ctx.ty.only_from(ctx.ty.ctors | {su.func})
            for fn, node, where in attr_stores(ctx, [f], ctx.cls('Strategy')):
                if fn in own:
                    continue
                chk.undecided('%s: window' % nm, where, '%s also writes the flag' % fn.qual)


def truth_flag(ctx, a, s):
    return any(u.op == 'attr' and u.args[0] is s for u in subterms(a))


# ---------------------------------------------------------------- S09
def bound_callback(ctx, q, e, t):
    """run of a registered function as it will be seen later (variables of the enclosing function keep their last value)"""
    ev = ctx.sym('event')
    rr = ctx.call(q, t, [ev])
    if rr.events and not any('undef' in show(x) for g, x in rr.value.ls) and evs(rr, 'callback'):
        return rr, ev
    return ctx.call(q, t, [ev], heap=e.heap), ev


@prop('S09')
def s09(ctx, chk):
    q = strat_sched(ctx)
    s = q.sym['self']
    regs = opq(q, 'EventBus.register')
    scheds = opq(q, 'EventSourceScheduler.schedule')
    dailies = opq(q, 'EventSource.daily')
    if scheds and dailies and not regs and not evs(q, 'callback') and not any(x.op in ('clos', 'bm', 'partial') for e in q.events if e.kind in ('opaque', 'append', 'setitem', 'call', 'update', 'set') for a in e.args if isinstance(a, V) for g, t in a.ls for x in subterms(t)):
        chk.rule('function', 'the event of a task calls the function of the task')
        for e in scheds:
            chk.bad('registered', e.where(), 'no function is registered for the event of a task')
        return
    if not regs or not scheds or not dailies:
        raise Undecided('Strategy.schedule: registration, scheduling or daily() not found')
    r = ctx.run(ctx.method('Strategy', 'run_daily'))
    chk.rule('record', 'run_daily records exactly the passed function and time, once per call')
    ds = stored_desc(ctx, r)
    fn, tm = r.sym[r.func.params[1]], r.sym[r.func.params[2]]
    if not ds or any(d is None for _, _, d in ds):
        chk.undecided('description', r.func.qual, 'shape')
        fk = tk = None
    else:
        chk.implies(r.st.pc, gor(e for e, _, _ in ds), 'recorded', r.func.qual, 'a run_daily call may be lost')
        d = ds[0][2]
        fk = [k for k in d if all(t is fn for t in terms(d[k]))]
        tk = [k for k in d if any(t is tm for t in terms(d[k]))]
        chk.check(bool(fk), 'function', ds[0][0].where(), 'the passed function is not recorded', unknown=any(has_unknown(t) for v in d.values() for t in terms(v)))
        for k in tk:
            for g, t in under(d[k], ds[0][1]):
                chk.check(t is tm or 'TIME_DICT' in show(t) or is_strc(t) or has_unknown(t) or t.op == 'item', 'time', ds[0][0].where(), 'the time is recorded as %s' % show(t))
        for i, (a, _, _) in enumerate(ds):
            for b, _, _ in ds[i + 1:]:
                chk.check(not sat(B.AND(a.g, b.g)), 'recorded once', b.where(), 'one run_daily call registers two tasks')
        # the stored list is the one that is scheduled
    chk.rule('every-task', 'every recorded task gets its own source, class and callback')
    lists = {e.recv.args[1] for e, _, _ in ds if e.recv.op == 'attr'} if ds else set()
    loops = [l for l in regs[0].loops if l.raw is not None and fieldname(base_term(l.raw)) in lists]
    if not loops:
        chk.undecided('loop over the tasks', regs[0].where(), 'not found')
        return
    L = loops[0]
    esc = loop_escapes(q)
    desc = mk('elem', L.key, L.occ)
    inloop = B.AND(L.pc, L.more)
    errs = B.any(B.AND(e.g, raised(e)) for e in q.events if e.raises is not None)
    fails = B.any(e.g for e in evs(q, 'raise'))
    for es, nm in ((regs, 'registered'), (scheds, 'scheduled')):
        chk.implies(inloop, B.any([gor(es), errs, fails, esc]), 'every task %s' % nm, es[0].where(), 'a task may be skipped: not %s' % nm)
    order = [base_term(l.raw) for l in loops]
    # function identity
    chk.rule('function', 'the callback of a task calls exactly the recorded function with the user context')
    if fk:
        want = mk('item', desc, const(fk[0]))
        for e in regs:
            for g, t in under(e.args[2], e.g):
                if t.op not in ('clos', 'bm', 'fn', 'partial'):
                    chk.undecided('callback', e.where(), show(t))
                    continue
                rr, ev = bound_callback(ctx, q, e, t)
                calls = evs(rr, 'callback')
                if not calls:
                    chk.undecided('callback', e.where(), 'no call found')
                    continue
                for c in calls:
                    okf = c.recv is want
                    chk.check(okf, 'function of the task', c.where(), 'the callback of a task calls %s, not the function of that task' % show(c.recv),
                              unknown=has_unknown(c.recv) and c.recv.op not in ('item', 'muout', 'phi'))
                    args = [u for v in c.args for _, u in v.ls]
                    chk.check(len(args) == 1 and 'user_ctx' in show(args[0]) or len(args) == 1 and usercontext(ctx, args[0]), 'called with the user context', c.where(),
                              'the task is called with %s' % ', '.join(map(show, args)), unknown=len(args) == 1 and args[0] is not ev and not typed(rr, args[0], ctx.cls('Context')))
                chk.implies(rr.st.pc, gor(calls), 'task is called', e.where(), 'the callback may return without calling the task')
                for i, a in enumerate(calls):
                    for b in calls[i + 1:]:
                        chk.check(not sat(B.AND(a.g, b.g)), 'task is called once', b.where(), 'the task is called twice per event')
    chk.rule('own-class', 'the event class of a task is its own: its name contains a counter that advances with every task')
    for e in regs:
        for g, c in under(e.args[1], e.g):
            own_class(ctx, chk, q, e, g, c, L, s)
        # same class is used for the daily registration of the same source
        for x in dailies:
            h = B.AND(e.g, x.g)
            if not sat(h):
                continue
            same = B.any(B.AND(B.AND(g1, g2), eq_class(a, b)) for g1, a in under(e.args[1], h) for g2, b in under(x.args[1], h))
            chk.implies(h, same, 'class used for times and callback', e.where(), 'the class whose times are registered differs from the class of the callback')
    chk.rule('own-source', 'the source of a task is new, gets the times of that task and is the one that is scheduled')
    for e in scheds:
        for g, t in under(e.args[1], e.g):
            nw = [x for x in evs(q, 'new') if x.res is t]
            chk.check(bool(nw) and any(l is L for x in nw for l in x.loops), 'new source per task', e.where(), 'tasks share an event source', unknown=not nw and t.op != 'obj')
    if tk:
        want = mk('item', desc, const(tk[0]))
        for x in dailies:
            if len(x.loops) == 1:
                for g, t in under(x.args[2], x.g):
                    chk.check(t is want, 'time of the task', x.where(), 'the source gets the time %s' % show(t), unknown=has_unknown(t))
        em = None
        for x in dailies:
            for v in B.support(x.g):
                a = B.atom_of[v]
                if a.op == 'eqc' and a.args[0] is want and is_strc(a.args[1]) and cval(a.args[1]) == 'every_minute':
                    em = B.mk(v, FALSE, TRUE)
        if em is not None:
            plain_ = [x for x in dailies if len(x.loops) == 1]
            chk.implies(B.AND(B.AND(inloop, B.NOT(em)), gor(scheds)), B.any([gor(plain_), errs, esc]), 'time registered', scheds[0].where(), 'a task is scheduled without its time')
            for x in plain_:
                chk.check(not sat(B.AND(x.g, em)), 'every_minute is not a clock time', x.where(), 'every_minute is registered as a clock time')
        for x in dailies:
            for i, y in enumerate(dailies):
                if y.i > x.i and len(x.loops) == 1 and len(y.loops) == 1:
                    chk.check(not sat(B.AND(x.g, y.g)), 'time registered once', y.where(), 'the time of a task is registered twice')


def eq_class(a, b):
    return TRUE if a is b else eq(a, b)


def usercontext(ctx, t):
    return 'UserContext' in show(t)


def own_class(ctx, chk, q, e, g, c, L, s):
    """the class is created under a name with a per-task counter"""
    made = [x for x in q.events if x.res is c and x.kind in ('call', 'opaque')]
    if made:
        names = [t for x in made for _, t in under(x.args[0], x.g)]
    elif c.op == 'item':
        names = [c.args[1]]
    else:
        chk.undecided('class name', e.where(), show(c))
        return
    for nm in names:
        parts = list(nm.args[0]) if nm.op == 'cat' else [nm]
        cnt = [p for p in parts if p.op in ('mu', 'idx', 'res', 'obj') or p.op == 'lin' or p.op == 'app' and p.args[0] in ('str', 'id')]
        per = []
        for i, p in enumerate(parts):
            kind = per_task(q, p, L)
            if kind:
                sep = (i == 0 or is_strc(parts[i - 1]) and not cval(parts[i - 1])[-1:].isdigit()) and \
                      (i == len(parts) - 1 or is_strc(parts[i + 1]) and not cval(parts[i + 1])[:1].isdigit())
                # other free text may only be on one side
                free = [j for j, x in enumerate(parts) if j != i and not is_const(x)]
                per.append((kind, sep and (all(j < i for j in free) or all(j > i for j in free))))
        if any(k == 'yes' and sp for k, sp in per):
            chk.ok('class name is unique', e.where())
        elif any(k == 'stuck' for k, sp in per):
            chk.bad('class name is unique', e.where(), 'the counter in the class name %s does not advance for every task' % show(nm))
        elif not per and not any(has_unknown(p) and p.op not in ('mu',) for p in parts) and not cnt:
            chk.bad('class name is unique', e.where(), 'the class name %s does not depend on a per-task counter: two tasks share one class' % show(nm))
        else:
            chk.undecided('class name is unique', e.where(), show(nm))


def per_task(q, p, L):
    """'yes': a counter that takes a new value in every iteration of L; 'stuck': may repeat; None: no counter"""
    if p.op == 'app' and p.args[0] in ('str', 'builtins.str', 'format') and len(p.args) >= 2:
        p = p.args[1]
    c, d = as_lin(p)
    if len(d) != 1:
        return None
    (k, w), = d.items()
    if w == 0:
        return None
    if k.op == 'idx' and k.args[0] is L.key:
        return 'yes'
    if k.op == 'mu':
        for key, (init, nxt, mu) in L.mod.items():
            if mu is k:
                if not isinstance(nxt, V):
                    return None
                steps = []
                for g, t in nxt.ls:
                    c2, d2 = as_lin(t)
                    if d2.get(k) != 1 or len(d2) != 1:
                        return None
                    steps.append((g, c2))
                if all(x > 0 for _, x in steps) or all(x < 0 for _, x in steps):
                    return 'yes'
                return 'stuck'
    if k.op in ('attr', 'cattr') and w:
        return None
    return None


# ---------------------------------------------------------------- S10
@prop('S10')
def s10(ctx, chk):
    q = strat_sched(ctx)
    dailies = opq(q, 'EventSource.daily')
    mins = [e for e in dailies if len(e.loops) >= 2]
    chk.rule('minutes', 'every_minute registers every minute of every market period from its start to its end, both included')
    if not mins:
        raise Undecided('registration of the minutes not found')
    sources = set()
    for e in mins:
        per = [l for l in e.loops if l.raw is not None and 'market_period' in show(l.raw).lower()]
        if not per:
            chk.undecided('periods', e.where(), str([show(l.raw) for l in e.loops if l.raw is not None]))
            continue
        P = per[-1]
        sources.add('option' if "['market_period']" in show(P.raw) else 'default')
        whole(chk, q, P.raw, 'market periods', e.where())
        el = mk('elem', P.key, P.occ)
        W = e.loops[-1]
        fails = B.any(x.g for x in evs(q, 'raise'))
        if W is P:
            chk.undecided('minutes', e.where(), 'no loop over the minutes')
            continue
        inner = B.AND(W.pc, W.more)
        chk.implies(B.AND(inner, B.NOT(loop_escapes(q))), B.OR(e.g, B.any(raised(x) for x in q.events if x.raises)), 'every step registered', e.where(), 'some minutes are skipped')
        chk.implies(B.AND(B.AND(P.pc, P.more), gor(opq(q, 'EventSourceScheduler.schedule'))), B.any([W.pc, fails, loop_escapes(q)]), 'every period', e.where(), 'some market periods are skipped')
        for g, t in under(e.args[2], e.g):
            if t.op == 'strftime' or t.op == 'app' and t.args[0] == 'strftime':
                a = t.args[-2:]
                cur, fmt = a[0], a[1]
            else:
                chk.undecided('minute', e.where(), show(t))
                continue
            if not is_strc(fmt):
                chk.undecided('minute format', e.where(), show(fmt))
            else:
                ok_ = cval(fmt) in ('%H:%M:%S', '%H:%M', '%T', '%X')
                if cval(fmt) in ('%H:%M:%S', '%T'):
                    chk.ok('minute format', e.where())
                else:
                    chk.check(False, 'minute format', e.where(), 'the minute is written as %r: the seconds of the period are lost' % cval(fmt), unknown=ok_ and (cval(fmt) == '%X' or any(str(x.fn).endswith('.replace') for x in q.events) or 'replace' in show(cur)))
            if cur.op != 'mu':
                chk.undecided('minute', e.where(), show(cur))
                continue
            hit = False
            for key, (init, nxt, mu) in W.mod.items():
                if mu is not cur:
                    continue
                hit = True
                st_ = mk('item', el, const(0))
                en_ = mk('item', el, const(1))
                for h, x in (init.ls if isinstance(init, V) else [(TRUE, init)]):
                    good = x.op == 'app' and x.args[0] == 'datetime.datetime.combine' and x.args[2] is st_
                    c, d = as_lin(x)
                    shifted = [k for k in d if k.op == 'app' and k.args[0] == 'datetime.datetime.combine']
                    chk.check(good, 'first minute', e.where(), 'the first minute is %s, not the start of the period' % show(x), unknown=not good and not shifted)
                for h, x in (nxt.ls if isinstance(nxt, V) else []):
                    c, d = as_lin(x)
                    good = d.get(cur) == 1 and len(d) == 1 and c == 60
                    chk.check(good, 'step', e.where(), 'the step is %s' % show(x), unknown=has_unknown(x) and d.get(cur) != 1)
                # continue exactly while current <= end
                D = None
                ends = []
                for v in B.support(W.more):
                    for u in subterms(B.atom_of[v]):
                        if u.op == 'app' and u.args[0] == 'datetime.datetime.combine' and u.args[2] is en_:
                            D = u
                if D is None:
                    chk.undecided('last minute', e.where(), brief(W.more, 1, 200))
                else:
                    want = B.NOT(lt(D, cur))
                    chk.implies(want, W.more, 'last minute included', e.where(), 'the minutes end before the end of the period')
                    chk.implies(W.more, want, 'nothing after the end', e.where(), 'minutes after the end of the period are registered')
            if not hit:
                chk.undecided('minute', e.where(), show(cur))
    chk.rule('period-source', 'the periods are those set by set_options(market_period), else the configured ones')
    if mins and 'option' not in sources:
        chk.bad('market_period option', mins[0].where(), 'every_minute ignores the market_period option')
    elif sources:
        chk.ok('market_period option', mins[0].where())
    chk.check('default' in sources, 'configured periods', mins[0].where(), 'every_minute has no default periods', unknown=not sources)
    chk.rule('minute-priority', 'minute events are a single class per task and run once per registered minute')
    for e in mins:
        for g, c in under(e.args[1], e.g):
            chk.check(c.op in ('res', 'item', 'app'), 'event class', e.where(), show(c), unknown=True)
