"""Rules of the event loop that concern its end, its exit checkers and deferred calls."""
from .r_sched2 import *
from .r_sched import _mkst, roles, flat_leaf, clock_quality, clock_terms, is_uvloop
from .r_cli import exists_facts, witness
from .rules import raised as raised_
from . import core

CHECKS = {}


def prop(pid):
    def deco(f):
        CHECKS.setdefault(pid, []).append(f)
        return f
    return deco


def of_msg(e, m):
    return e.recv is not None and e.recv.op == 'attr' and e.recv.args[0] is m and e.recv.args[1] == 'callback'


@prop('S16')
def s16(ctx, chk):
    R = roles(ctx)
    r, s = R.run, R.selft
    pops = R.pops()
    if not pops:
        raise Undecided('no heap removal in %s' % R.cb.qual)
    ms = {m for p in pops for m in R.msg(p)}
    if len(ms) != 1:
        raise Undecided('message of the loop')
    m = next(iter(ms))
    empty = gor_g(B.AND(p.g, raised(p)) for p in pops)
    if not sat(empty):
        empty = gor_g(B.AND(p.g, B.NOT(truthy(p.recv))) for p in pops if p.recv is not None)
    handled = [e for e in evs(r, 'callback') if of_msg(e, m)]
    failed = gor_g(B.AND(e.g, raised(e)) for e in handled)
    asked = [e for e in evs(r, 'callback') if e not in handled]
    agree = gor_g(B.AND(B.AND(e.g, B.NOT(raised(e))), truthy(e.res)) for e in asked)
    sets = R.stopset(r, s)
    chk.rule('reason', 'a loop that runs ends by itself only when no message is pending, a message failed or an exit checker agreed')
    for e in sets:
        g = witness(r, e.g)
        ok = implies(g, B.any([empty, failed, agree])) or implies(g, B.any([B.any(raised(p) for p in pops), failed, B.any(truthy(c.res) for c in asked)]))
        chk.check(ok, 'asked to stop', e.where(), 'the loop asks itself to stop when %s' % brief(e.g, 1), unknown=guard_unknown(e.g) or strange(e.g, pops, asked))
    for e in evs(r, 'call', '.stop', pred=lambda e: e.recv is not None and is_uvloop(R, e.recv)):
        chk.implies(B.AND(e.g, B.NOT(loop_escapes(r))), R.flagv(r, e.heap, s), 'stopped on request', e.where(), 'the underlying loop is stopped although nothing asked for it')
    for e in evs(r, 'call', ('sys.exit', 'os._exit', 'os.abort', 'builtins.exit', 'builtins.quit')):
        chk.bad('stopped on request', e.where(), 'the process ends here')
    run = ctx.run(ctx.method(R.L, 'run'))
    for e in evs(run, 'call', '.run', pred=lambda e: e.recv is not None and is_uvloop(R, e.recv)):
        modes = [t for v in list(e.args) + [x for x in e.kw.values() if isinstance(x, V)] for g, t in under(v, e.g)]
        chk.check(all('ONCE' not in show(t).upper() and 'NOWAIT' not in show(t).upper() and not (is_numc(t) and cval(t)) for t in modes), 'runs on', e.where(),
                  'the underlying loop runs with mode %s' % ', '.join(map(show, modes)), unknown=False)
    chk.rule('kept going', 'when the callback of the loop returns, the loop was asked to stop, or a timer or a notice calls it again')
    esc = loop_escapes(r)
    again = gor(evs(r, 'call', ('.start', '.send')))
    fl = FALSE
    for v in set().union(*[B.support(x) for x in [r.st.pc] + [f for L in {L for h in handled for L in h.loops} for k, f in exits(L)]]):
        a = B.atom_of[v]
        if a.op == 'truthy' and any(x.op in ('attr', 'mu', 'muout') and R.flag in [str(y) for y in x.args] for x in subterms(a)):
            fl = B.OR(fl, B.mk(v, FALSE, TRUE))
    stopped = B.any([gor(sets), B.AND(r.st.pc, R.flagv(r, r.st.heap, s)), fl, esc, empty, failed, again])
    for L in {h.loops[0] for h in handled if h.loops}:
        out = FALSE
        for k, f in exits(L):
            rest = B.AND(f, B.NOT(stopped))
            chk.check(not sat(rest), 'left', R.cb.qual, 'the loop over the due messages is left when %s: the messages still pending wait for nothing' % brief(rest, 1), unknown=guard_unknown(rest))
        for v, fact in list(core.FACTS.items()):
            a = B.atom_of[v]
            if a.op == 'abrupt' and a.args[0] == L.id:
                out = B.OR(out, B.mk(v, FALSE, TRUE))
        rest = B.all([r.st.pc, B.NOT(out), B.NOT(stopped)])
        chk.check(not sat(rest), 'ended', R.cb.qual, 'the loop over the due messages ends when %s: the messages still pending wait for nothing' % brief(rest, 1),
                  unknown=guard_unknown(rest) or any(p.recv is not None and p.recv in subterms(B.atom_of[v]) for p in pops for v in B.support(rest)) or any('muout' == x.op or x.op == 'mu' for v in B.support(rest) if B.atom_of[v].op not in ('lt', 'le') for x in subterms(B.atom_of[v])))
    for h in handled:
        if not h.loops:
            rest = B.all([h.g, B.NOT(stopped)])
            chk.check(not sat(rest), 'one message', h.where(), 'only one message is handled per turn of the loop', unknown=guard_unknown(rest))
    for nm in ('push_message', 'defer', 'setup', 'register_exit_checker'):
        f = R.L.find(nm)
        if f is None:
            continue
        q = ctx.run(f)
        for e in R.stopset(q, q.sym[f.params[0]] if f.params else None):
            chk.bad('%s does not stop' % nm, e.where(), 'the loop is asked to stop by %s' % nm)
        chk.ok('%s does not stop' % nm, f.qual)

    chk.rule('asked', 'before the loop waits for a message every exit checker is asked with the present time and the due time of the message, until one agrees')
    reg = ctx.run(ctx.method(R.L, 'register_exit_checker'))
    rs = reg.sym[reg.func.params[0]]
    csym = reg.sym[reg.func.params[1]]
    adds = [e for e in evs(reg, 'append') if e.recv is not None and any(t is csym for v in e.args for g, t in under(v, e.g))]
    lost = [e for e in evs(reg, 'set') if e.recv is rs and e.args and any(csym in subterms(x) for g, t in under(e.args[0], e.g) for x in (leaves(reg, e.heap, t, g) or [t]))]
    for e in lost:
        for g, t in under(e.args[0], e.g):
            es = tup(reg, e.heap, t, g)
            if es is not None and not any(x.op == 'attr' and x.args[1] == e.fn for v in es for h, y in v.ls for x in subterms(y)):
                chk.bad('others kept', e.where(), 'the checkers registered before are dropped')
    fs = {e.recv.args[1] for e in adds if e.recv.op == 'attr' and e.recv.args[0] is rs}
    chk.check(bool(adds) and implies(reg.st.pc, gor(adds)), 'registered', reg.func.qual, 'a registered exit checker is not kept', unknown=any(e.kind in ('set', 'setitem', 'opaque', 'extend', 'update', 'callback') for e in reg.events))
    waits = [e for e in evs(r, 'call', '.start') if any(t.op == 'bm' and t.args[0] is R.cb for v in list(e.args) for g, t in under(v, e.g))]
    W = gor(waits)
    if not asked:
        chk.check(False, 'asked', R.cb.qual, 'no exit checker is ever asked', unknown=bool(evs(r, 'opaque')) or not waits)
    esc = loop_escapes(r)
    for c in asked:
        if not c.loops:
            chk.undecided('asked', c.where(), 'not in a loop over the checkers')
            continue
        L = c.loops[-1]
        src, w = unwrap(deep(L.raw)) if L.raw is not None else (None, [])
        chk.check(src is not None and src.op == 'attr' and src.args[0] is s and src.args[1] in fs, 'every checker', c.where(),
                  'only %s are asked' % (show(deep(L.raw)) if L.raw is not None else '?'), unknown=src is None or not (src.op == 'slice' or src.op == 'item'))
        chk.implies(B.AND(W, B.NOT(esc)), L.pc, 'before waiting', c.where(), 'the loop may wait without asking the checkers')
        chk.implies(B.AND(L.pc, L.more), c.g, 'each of them', c.where(), 'a checker may be passed over')
        for i, nm in ((0, 'present time'), (1, 'due time')):
            v = c.args[i] if len(c.args) > i else None
            if v is None:
                chk.undecided(nm, c.where(), 'form of the call')
                continue
            for g, t in under(v, c.g):
                if i == 0:
                    q, why = clock_quality(t)
                    chk.check(q == 'ok', nm, c.where(), 'the checker gets %s as the present time' % show(t), unknown=q == 'unknown' and not (t is mattr(m, 'time') or t.op == 'ext' or is_const(t) or stale(ctx, R, t)))
                else:
                    chk.check(t is mattr(m, 'time') or t.op == 'attr' and t.args[:2] == (m, 'time'), nm, c.where(), 'the checker gets %s as the due time of the message' % show(t), unknown=has_unknown(t) and clock_quality(t)[0] == 'unknown')
        chk.rule('obeyed', 'the loop ends when a checker agrees and waits when none does')
        yes = B.all([c.g, B.NOT(raised(c)), truthy(c.res)])
        no = B.all([c.g, B.NOT(raised(c)), B.NOT(truthy(c.res))])
        ex = exits(L)
        A = [B.mk(v, FALSE, TRUE) for v in sorted(set().union(*[B.support(e.g) for e in sets + waits]))
             if B.atom_of[v].op == 'abrupt' and B.atom_of[v].args[0] == L.id and not str(B.atom_of[v].args[1]).startswith('exc')]
        E = []
        for v in sorted(set().union(*[B.support(e.g) for e in sets + waits])):
            d = r.interp.exists_def.get(B.atom_of[v])
            if d is not None and any(c.res in subterms(B.atom_of[x]) for x in B.support(d[1])):
                E.append((B.mk(v, FALSE, TRUE), d[1]))
        if A and not E:
            chk.implies(yes, B.OR(gor_g(f for k, f in ex), gor_g(raised(x) for x in r.events if L in x.loops and x.i > c.i and x.kind in ('call', 'opaque', 'callback'))), 'agreement', c.where(), 'a checker that agrees does not end the search')
            for k, f in ex:
                chk.implies(f, truthy(c.res), 'agreement only', c.where(), 'the search ends although no checker agreed')
        elif E and not A:
            for a, d in E:
                chk.implies(yes, d, 'agreement', c.where(), 'a checker that agrees has no effect')
                chk.check(not sat(B.AND(d, no)), 'agreement only', c.where(), 'a checker that does not agree ends the loop')
        else:
            used = any(c.res in subterms(B.atom_of[x]) for e in r.events for x in B.support(e.g)) or any(c.res in subterms(t) for e in r.events for v in e.args if isinstance(v, V) for g, t in v.ls)
            chk.check(False, 'agreement', c.where(), 'the answer of the checkers has no effect', unknown=used)
            continue
        Z = B.any(A + [a for a, d in E])
        chk.check(not sat(B.all([W, Z, B.NOT(esc)])) or not sat(B.AND(witness(r, B.AND(W, Z)), B.NOT(esc))), 'no wait after agreement', c.where(), 'the loop waits although a checker agreed')
        flags = [B.mk(v, FALSE, TRUE) for e in sets for v in B.support(e.g) if B.atom_of[v].op == 'truthy' and B.atom_of[v].args[0].op == 'attr' and B.atom_of[v].args[0].args[1] == R.flag]
        chk.implies(B.all([L.pc, Z, B.NOT(esc)]), B.any([gor(sets)] + flags), 'ends', c.where(), 'the loop does not end although a checker agreed')
        chk.implies(B.all([L.pc, B.NOT(Z), B.NOT(esc)]), B.any([W] + [raised(e) for e in evs(r, 'call')]), 'goes on', c.where(), 'the loop does not wait although no checker agreed')


@prop('S16')
def s16_defer(ctx, chk):
    R = roles(ctx)
    f = R.L.find('defer')
    if f is None:
        raise Undecided('no defer')
    chk.rule('deferred', 'defer queues exactly one message, due the given milliseconds from now, whose callback calls the given function once with the given arguments')
    x, y = ctx.sym('x'), ctx.sym('y')
    d = ctx.run(f, more=[x], kw={'option': one(y)})
    delay, cb = d.sym[f.params[1]], d.sym[f.params[2]]
    pu = R.pushes(d)
    chk.implies(d.st.pc, gor(pu), 'queued', f.qual, 'a deferred call may be dropped')
    for i, e in enumerate(pu):
        chk.check(not e.loops and not any(sat(B.AND(e.g, q.g)) for q in pu[i + 1:]), 'once', e.where(), 'a deferred call may be queued twice', unknown=bool(e.loops))
        for g, t in under(e.args[1], e.g):
            ms = [u for u in leaves(d, e.heap, t, g) if typed(d, u, R.M)]
            if len(ms) != 1:
                chk.undecided('message', e.where(), show(t))
                continue
            for h, tm in field(d, e.heap, ms[0], 'time').ls:
                tm = bare_int(tm)
                c, k = as_lin(tm)
                ds = [u for u in k if bare_int(u) is delay or bare_int(u) == delay]
                rest = core.mklin(c, {u: n for u, n in k.items() if u not in ds})
                q, why = clock_quality(rest)
                okd = len(ds) == 1 and k[ds[0]] == 1
                us = [u for u in k if delay in subterms(u)]
                lin_ = all(set(as_lin(bare_int(u))[1]) <= {delay} for u in us)
                chk.check(okd and q == 'ok', 'due time', e.where(), 'the deferred call is due at %s' % show(tm), unknown=(has_unknown(tm) and q == 'unknown' and okd or not okd and not lin_) and not (okd and stale(ctx, R, rest)))
            for h, c in field(d, e.heap, ms[0], 'callback').ls:
                if c.op not in ('clos', 'bm', 'fn', 'partial'):
                    chk.check(c is not cb, 'callback', e.where(), 'the arguments of the deferred call are lost')
                    if c is not cb:
                        chk.undecided('callback', e.where(), show(c))
                    continue
                try:
                    rr = ctx.call(d, c, [], heap=e.heap)
                except Undecided as u:
                    chk.undecided('callback', e.where(), str(u))
                    continue
                cs = [z for z in evs(rr, 'callback') if z.recv is cb]
                chk.implies(B.OR(rr.st.pc, rr.exc_st.pc), gor(cs), 'callback', e.where(), 'the deferred function is not called')
                for j, z in enumerate(cs):
                    chk.check(not z.loops and not any(sat(B.AND(z.g, o.g)) for o in cs[j + 1:]), 'called once', z.where(), 'the deferred function may be called twice', unknown=bool(z.loops))
                    pos = [terms(v) for v in z.args]
                    kws = {n: terms(v) for n, v in z.kw.items() if isinstance(v, V)}
                    chk.check(pos == [[x]] and kws == {'option': [y]}, 'arguments', z.where(), 'the deferred function is called with %s' % ', '.join([show(p[0]) for p in pos] + ['%s=%s' % (n, show(v[0])) for n, v in kws.items()]) if pos or kws else 'the deferred function is called without its arguments',
                              unknown='**' in z.kw or any(t.op not in ('sym', 'const') for p in pos for t in p))


def bare_int(t):
    while t.op == 'app' and t.args[0] in ('int', 'builtins.int', 'round', 'builtins.round', 'float', 'builtins.float', 'math.ceil') and len(t.args) == 2:
        t = t.args[1]
    return t


def leaves(r, heap, t, pc, depth=0):
    es = tup(r, heap, t, pc)
    if es is None or depth > 4:
        return [t]
    return [x for v in es for g, u in under(v, pc) for x in leaves(r, heap, u, g, depth + 1)]


def stale(ctx, R, t):
    """is t an attribute of the loop that may hold something other than the present time?"""
    t = bare_int(t)
    if t.op == 'lin' and not as_lin(t)[0] and list(as_lin(t)[1].values()) == [1]:
        t = bare_int(next(iter(as_lin(t)[1])))
    if t.op != 'attr' or t.args[0].op != 'sym':
        return False
    vals = [v for e in evs(R.run, 'set', t.args[1]) for g, v in under(e.args[0], e.g) if e.recv is R.selft]
    return any(clock_quality(v)[0] != 'ok' and not has_unknown(v) for v in vals)


def gor_g(gs):
    return B.any(list(gs))


def strange(g, pops, asked):
    """does the guard speak of conditions other than those of the interpreted code?"""
    return any(B.atom_of[v].op in ('any', 'all', 'exists') and B.atom_of[v] is not None for v in B.support(g))
