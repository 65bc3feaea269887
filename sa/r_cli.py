"""Rules of the command line, the tasks of the machine and the setup of a run (C01-C06)."""
from .r_acct import *
from .r_acct import _mkst
from .r_sched2 import exits, no_break, deep, unwrap
from . import core
import re

CHECKS = {}


def prop(*pids):
    def deco(f):
        for pid in pids:
            CHECKS.setdefault(pid, []).append(f)
        return f
    return deco


# ---------------------------------------------------------------- helpers
def bare(t):
    """the term without version marks and without the marks of containers a loop may have changed"""
    if not isinstance(t, T):
        return t
    if t.op in ('ver', 'loopdict'):
        return bare(t.args[0])
    if t.op == 'elem' and len(t.args) > 1 and isinstance(t.args[1], int):
        return mk('elem', bare(t.args[0]), 0)         # the loops over one list are told apart by their guards
    if not any(isinstance(a, T) for a in t.args):
        return t
    return mk(t.op, *[bare(a) for a in t.args])


def settle(r, *roots):
    """read pids of processes and attributes of the given objects as constants of the run"""
    m = {}
    gs = [r.st.pc, r.exc_st.pc] + [e.g for e in r.events] + [e.raises for e in r.events if e.raises is not None]
    ids = {L.id for e in r.events for L in e.loops}
    facts = [v for v, g in core.FACTS.items() if B.atom_of[v].args[0] in ids]
    seen = set()
    for g in gs + [core.FACTS[v] for v in facts]:
        seen |= set(B.support(g))
    todo = [B.atom_of[v] for v in seen]
    for e in r.events:
        todo += [t for a in list(e.args) + list((e.kw or {}).values()) if isinstance(a, V) for t in terms(a)]
    for a in todo:
        for s in subterms(a):
            if s.op == 'attr' and (s.args[1] == 'pid' or s.args[0] in roots):
                c = mk('attr', bare(s.args[0]), s.args[1], 0)
                if c is not s:
                    m[s] = c
            elif s.op == 'elem' and bare(s) is not s:
                m[s] = bare(s)
    if not m:
        return
    memo = {}

    def G(g):
        return r.interp.subst_g(g, m, memo)
    r.settled = G

    def val(v):
        if isinstance(v, V):
            return core.vnorm([(G(g), r.interp.subst_t(t, m, memo)) for g, t in v.ls])
        return v
    for e in r.events:
        e.g = G(e.g)
        e.args = [val(a) for a in e.args]
        if isinstance(e.recv, T):
            e.recv = r.interp.subst_t(e.recv, m, memo)
        if e.kw:
            e.kw = {k: val(v) for k, v in e.kw.items()}
    r.st.pc = G(r.st.pc)
    for v in facts:
        core.FACTS[v] = G(core.FACTS[v])
    core._theory.clear()
    core._sat.clear()


def exists_facts(r, g):
    """what the 'some element' atoms of a guard stand for: one element makes them true"""
    f = TRUE
    for v in B.support(g):
        d = r.interp.exists_def.get(B.atom_of[v])
        if d is not None:
            f = B.AND(f, B.OR(B.NOT(defn(r, d)), B.mk(v, FALSE, TRUE)))
    return f


def defn(r, d):
    return r.settled(d[1]) if getattr(r, 'settled', None) else d[1]


def witness(r, g):
    """a guard with its loops read at the iteration that makes it true"""
    g = last_iteration(g)
    for v in B.support(g):
        d = r.interp.exists_def.get(B.atom_of[v])
        if d is not None:
            g = B.AND(g, B.OR(B.NOT(B.mk(v, FALSE, TRUE)), defn(r, d)))
    return last_iteration(g)


def mores(g):
    return [v for v in B.support(g) if B.atom_of[v].op == 'more']


def each_time(r, g):
    """g for one element: the element exists and no loop was left by an error before"""
    for v in list(B.support(g)):
        a = B.atom_of[v]
        if a.op == 'more':
            g = B.restrict(g, B.mk(v, FALSE, TRUE))
        elif a.op == 'abrupt' and str(a.args[1]).startswith('exc'):
            g = B.restrict(g, B.mk(v, TRUE, FALSE))
    return g


def exc_is(e, name):
    """guard: the error of event e is of the named class; None when the code never asks"""
    x = FALSE
    hit = False
    rg = raised(e)
    if rg <= 1:
        return None
    n = B.atom_of[B.nodes[rg][0]]
    if n.op != 'raises':
        return None
    for v, a in enumerate(list(B.atom_of)):
        if isinstance(a, T) and a.op == 'isinst' and isinstance(a.args[0], T) and a.args[0].op == 'exc' and a.args[0].args[0] == n.args[0] \
                and str(a.args[1]).split('.')[-1] == name:
            x = B.OR(x, B.mk(v, FALSE, TRUE))
            hit = True
    return x if hit else None


def tasks_fn(ctx):
    return ctx.func('scheduler.utils', 'get_activate_task_process')


def info_fn(ctx):
    return ctx.func('scheduler.utils', 'parse_task_info')


def opq_of(r, f):
    return [e for e in r.events if e.kind == 'opaque' and e.fn == f.qual]


def elem_of(t, cont):
    """is t an element of the container (through copies)"""
    t = bare(t)
    if t.op not in ('elem', 'each', 'item'):
        return False
    return unwrap(bare(t.args[0]))[0] is cont


def is_name(t, info, key):
    """is t info[key] (or info.get(key))"""
    t = bare(t)
    if t.op == 'item' and t.args[0] is info:
        k = t.args[1]
        return k == key or isinstance(k, T) and is_const(k) and cval(k) == key
    if t.op in ('get', 'app') and info in subterms(t):
        return any(isinstance(a, T) and is_const(a) and cval(a) == key for a in t.args) and not any(isinstance(a, T) and is_const(a) and cval(a) not in (key, None) for a in t.args)
    return False


class Tasks(object):
    """where a run goes through the running tasks: the list, its loops, the command lines and what is parsed from them"""
    def __init__(self, ctx, r):
        self.r = r
        self.lists = [e for e in opq_of(r, tasks_fn(ctx))]
        self.conts = {e.res for e in self.lists}
        self.infos = opq_of(r, info_fn(ctx))
        self.cmds = {}
        for e in evs(r, 'call', '.cmdline'):
            self.cmds[e.res] = e

    def partial(self, chk, w):
        for L in {L for e in self.r.events for L in e.loops}:
            raw = deep(L.raw) if L.raw is not None else None
            if raw is not None and any((x.op == 'slice' or x.op == 'app' and x.args[0] in ('slice', 'itertools.islice')) and any(c in core_subterms(x) for c in self.conts) for x in core_subterms(raw)):
                chk.bad('every task', w, 'only some of the running tasks are looked at: %s' % show(raw))

    def elem(self, t):
        return any(elem_of(t, c) for c in self.conts)

    def info(self, e):
        """(task element, cmdline event) of a parse_task_info event"""
        ts = {bare(t) for g, t in under(e.args[0], e.g)}
        if len(ts) != 1:
            return None
        c = self.cmds.get(next(iter(ts)))
        if c is None or c.recv is None or not self.elem(c.recv):
            return None
        return bare(c.recv), c


def pid_of(r, p):
    """the term of the pid of a task"""
    for g in [e.g for e in r.events]:
        for v in B.support(g):
            for s in subterms(B.atom_of[v]):
                if s.op == 'attr' and s.args[1] == 'pid' and bare(s.args[0]) is p:
                    return s
    return mk('attr', p, 'pid', 0)


QUIET = ('os.path.', 'os.getpid', 'os.getppid', 'psutil.', 'builtins.', 'log.', 'logging.getLogger', 'datetime.', 'time.', '.cmdline', '.ppid', '.name', 'os.getcwd')


def effects(r, skip):
    """calls that change something outside of the run's own objects"""
    out = []
    for e in r.events:
        if e.kind == 'opaque' and e.fn not in skip or e.kind == 'call' and isinstance(e.fn, str) and \
                (e.fn in ('log.addHandler', 'log.setLevel', 'log.removeHandler', 'builtins.open') or not e.fn.startswith(QUIET)):
            out.append(e)
        elif e.kind in ('setitem', 'update', 'append') and e.recv is not None and e.recv.op == 'glob':
            out.append(e)
    return out


def start_run(ctx):
    f = ctx.func('__main__', 'start_task')
    op = [tasks_fn(ctx), info_fn(ctx), ctx.method('Strategy', '__init__'), ctx.method('Strategy', 'setup'), ctx.method('EventLoop', 'run')]
    try:
        op.append(ctx.func('scheduler.config', 'setup_scheduler_config'))
    except Missing:
        pass
    return ctx.run(f, opaque=op)


# ---------------------------------------------------------------- which processes are tasks
def strip_loops(g):
    return g


@prop('C01', 'C02', 'C03')
def c_active(ctx, chk):
    chk.rule('active', 'the running tasks are the processes whose command line contains jqtrade and start_task, without those that are the parent of such a process; a process that has ended is passed over, a Python process that may not be read is an error')
    f = tasks_fn(ctx)
    r = ctx.run(f)
    w = f.qual
    its = {e.res for e in evs(r, 'call') if isinstance(e.fn, str) and e.fn == 'psutil.process_iter'}
    if not its:
        raise Undecided('processes are not listed with psutil.process_iter')
    cms = [e for e in evs(r, 'call', '.cmdline') if e.recv is not None and any(elem_of(e.recv, c) for c in its)]
    pps = [e for e in evs(r, 'call', '.ppid') if e.recv is not None and any(elem_of(e.recv, c) for c in its)]
    if len(cms) != 1:
        raise Undecided('command lines are read at %d places' % len(cms))
    cm = cms[0]
    p = bare(cm.recv)
    sup = set()
    for e in r.events:
        sup |= set(B.support(e.g))
    marks = {}
    odd = False
    for v in sup:
        a = B.atom_of[v]
        if a.op in ('substr', 'haskey', 'starts', 'ends', 'eqc', 'exists') and cm.res in core_subterms(a):
            if a.op in ('substr', 'haskey') and any(x.op in ('slice',) or x.op == 'app' and x.args[0] in ('slice', 'itertools.islice') for x in core_subterms(a) if cm.res in core_subterms(x)):
                chk.bad('command line', cm.where(), 'only a part of the command line is looked at: %s' % show(a))
                return
            if a.op == 'substr' and isinstance(a.args[0], T) and is_const(a.args[0]) and a.args[1] is mk('join', const(' '), cm.res) or \
                    a.op == 'substr' and isinstance(a.args[0], T) and is_const(a.args[0]) and 'join' in show(a.args[1]):
                marks.setdefault(cval(a.args[0]), FALSE)
                marks[cval(a.args[0])] = B.OR(marks[cval(a.args[0])], B.mk(v, FALSE, TRUE))
            elif a.op != 'exists':
                odd = True
    want = {'jqtrade', 'start_task'}
    if set(marks) != want:
        if odd or has_odd_text(marks):
            chk.undecided('command line', w, 'how tasks are told apart is not understood: %s' % sorted(map(str, marks)))
            return
        chk.bad('command line', w, 'processes are told apart by %s, not by jqtrade and start_task' % (sorted(map(str, marks)) or 'nothing'))
        return
    istask = B.all(marks.values())
    okc = B.NOT(raised(cm))
    okp = B.all(B.NOT(raised(e)) for e in pps)
    # --- the returned list
    entries = []
    for g, t in under(r.value, r.st.pc):
        if is_const(t) and cval(t) is None:
            chk.bad('list of tasks', w, 'no list is returned when %s' % brief(g))
            continue
        for sg, el in flat(r, t, g):
            if el is None:
                chk.undecided('list of tasks', w, 'form of the returned list: %s' % show(t))
                return
            entries.append((sg, el))
    if not entries:
        chk.bad('list of tasks', w, 'no process is ever returned')
        return
    tot = FALSE
    for g, el in entries:
        if bare(el) is not p:
            chk.check(False, 'list of tasks', w, 'the list contains %s' % show(el), unknown=has_unknown(el) or not any(c in subterms(el) for c in its))
            continue
        g = each_time(r, g)
        tot = B.OR(tot, g)
    chk.implies(tot, B.AND(okc, istask), 'only tasks', w, 'a process that is no task is returned')
    # --- launchers
    par = []
    for v in B.support(tot):
        a = B.atom_of[v]
        d = r.interp.exists_def.get(a)
        if d is not None:
            par.append((v, d))
        elif a.op == 'haskey' and any(e.res in core_subterms(a) for e in pps):
            chk.undecided('launchers', w, 'form of the test for launchers: %s' % show(a))
            return
    pidt = pid_of(r, p)
    isl = FALSE
    for v, (L, g) in par:
        eqs = B.any(eq(pidt, e.res) for e in pps)
        want_ = B.all([okc, okp, istask, eqs])
        gg = each_time(r, g)
        mine_ = {cm.res} | its | {e.res for e in pps}
        if par and not guard_unknown(gg) and not any(s_.op in ('res', 'app', 'new', 'obj') and s_ not in mine_ and not any(m_ in core_subterms(s_) for m_ in mine_) for x in B.support(gg) for s_ in core_subterms(B.atom_of[x])) \
                and not any(e.res in core_subterms(B.atom_of[x]) for e in pps for x in B.support(gg)):
            chk.bad('launchers', w, 'a task is left out although it is not the parent of another: %s' % brief(gg, 1, 300))
            return
        if not any(e.res in core_subterms(B.atom_of[x]) for e in pps for x in B.support(gg)):
            chk.undecided('launchers', w, 'a test over all processes is not understood: %s' % brief(gg))
            return
        chk.implies(gg, want_, 'launchers', w, 'a process is taken for a launcher although no task has it as its parent')
        chk.implies(want_, gg, 'launchers', w, 'the parent of a task is not taken for its launcher')
        isl = B.OR(isl, B.mk(v, FALSE, TRUE))
    if not par:
        chk.check(False, 'launchers', w, 'the process that has only launched a task is returned as well', unknown=guard_unknown(tot))
    chk.implies(tot, B.NOT(isl), 'launchers', w, 'the launcher of a task is returned')
    listed = B.all(B.NOT(raised(e)) for e in r.events if e.res in its)
    chk.implies(B.all([listed, okc, okp, istask, B.NOT(isl)]), tot, 'every task', w, 'a running task is left out')
    # --- errors
    for L in {L for e in r.events for L in e.loops}:
        c = unwrap(bare(L.raw))[0] if L.raw is not None else None
        if c in its or c is not None and c.op == 'obj':
            for k, fact in exits(L, ('brk', 'ret')):
                chk.check(not sat(fact), 'every process', w, 'not all processes are looked at: the loop ends when %s' % brief(fact), unknown=guard_unknown(fact))
    bad = B.AND(r.st.pc, B.any([raised(e) for e in r.events if e.res in its] + [B.mk(v, FALSE, TRUE) for v in B.support(r.st.pc) if B.atom_of[v].op == 'abrupt' and str(B.atom_of[v].args[1]).startswith('exc')]))
    chk.check(not sat(bad), 'failure', w, 'a list is returned although not all processes could be looked at: %s' % brief(bad), unknown=guard_unknown(bad))
    errors = errors_of(r, [cm] + pps)
    for e in [cm] + pps:
        nsp, ad = exc_is(e, 'NoSuchProcess'), exc_is(e, 'AccessDenied')
        rg = raised(e)
        esc = B.any(B.all([g, rg, e.g]) for g in errors)
        bad = B.AND(esc, nsp) if nsp is not None else esc
        bad = B.AND(bad, B.NOT(ad)) if ad is not None else bad
        chk.check(not sat(bad), 'ended process', e.where(), 'a process that ends while the processes are listed makes the listing fail', unknown=guard_unknown(bad))
    names = [e for e in evs(r, 'call', '.name') if e.recv is not None and bare(e.recv) is p]
    ad = exc_is(cm, 'AccessDenied')
    rg = B.AND(raised(cm), ad) if ad is not None else raised(cm)
    py = [v for v in sup if B.atom_of[v].op in ('haskey', 'substr') and any(e.res in core_subterms(B.atom_of[v]) for e in names)]
    if py:
        pyt = {cval(x) for v in py for x in B.atom_of[v].args if isinstance(x, T) and is_const(x)}
        chk.check(pyt == {'python'}, 'unreadable process', w, 'processes are told apart by %s' % sorted(map(str, pyt)))
        isp = B.all([B.any(B.mk(v, FALSE, TRUE) for v in py)] + [B.NOT(raised(e)) for e in names])
        nop = B.all([B.NOT(B.any(B.mk(v, FALSE, TRUE) for v in py))] + [B.NOT(raised(e)) for e in names])
        base = B.AND(rg, each_time(r, cm.g))
        esc = B.any(each_time(r, g) for g in errors)
        chk.implies(B.AND(base, isp), esc, 'unreadable process', w, 'a Python process that may not be read is passed over, although it may be a task')
        bad = B.all([base, nop, esc])
        chk.check(not sat(bad), 'unreadable process', w, 'a process of another kind that may not be read makes the listing fail: %s' % brief(bad), unknown=guard_unknown(bad))
    elif ad is None:
        chk.ok('unreadable process', w)         # every process that may not be read is an error
    else:
        base = B.AND(rg, each_time(r, cm.g))
        esc = B.any(each_time(r, g) for g in errors)
        chk.check(not sat(B.AND(base, B.NOT(esc))), 'unreadable process', w, 'a Python process that may not be read is passed over, although it may be a task', unknown=guard_unknown(esc))


def has_odd_text(marks):
    return any(not isinstance(k, str) or k not in ('jqtrade', 'start_task') and not re.match(r'^[a-z_]+$', k) for k in marks)


def flat(r, t, g, depth=0):
    """[(guard, element)] of a list, entries of loops included (None: not known)"""
    if depth > 4:
        return [(g, None)]
    out = []
    try:
        segs = r.interp.segs(t, _mkst(r.st.heap, g))
    except Exception:
        segs = None
    if segs is None:
        return [(g, None)]

    def put(sub, g0):
        if sub[0] == 'e':
            v = sub[2]
            for h, x in (v.ls if isinstance(v, V) else [(TRUE, v)]):
                out.append((B.all([g0, sub[1], h]), x))
        elif sub[0] == 'each':
            for s in sub[3]:
                put(s, B.AND(g0, sub[1]))
        else:
            out.append((g0, None))
    for s in segs:
        put(s, g)
    return out


def errors_of(r, es):
    """guards of one iteration under which a loop or the function is left by an error"""
    out = []
    seen = set()
    for e in r.events:
        for L in e.loops:
            if L.id in seen:
                continue
            seen.add(L.id)
            for k, fact in exits(L, ('exc',)):
                out.append(fact)
    return out


# ---------------------------------------------------------------- what a command line says
class Shape(object):
    """one token of a command line, partly symbolic: the option written as '--name=VALUE', as '--name' before its value, or some value"""
    def __init__(self, tok, nxt, cmd, free=()):
        self.tok, self.nxt, self.cmd = tok, nxt, cmd      # lists of str / T
        self.free = free                                  # symbolic parts without '='

    def norm(self, ps):
        out = []
        for x in ps:
            if isinstance(x, str):
                if not x:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += x
                    continue
            out.append(x)
        return out

    def cut(self, ps, sep):
        """(before, found, after) at the first sep; None when that depends on the value"""
        head = []
        for i, x in enumerate(ps):
            if not isinstance(x, str):
                if x in self.free and sep == '=':
                    head.append(x)
                    continue
                return None
            if sep in x:
                a, b = x.split(sep, 1)
                return self.norm(head + [a]), True, self.norm([b] + ps[i + 1:])
            head.append(x)
        return self.norm(head), False, []

    def rcut(self, ps, sep):
        for i in range(len(ps) - 1, -1, -1):
            x = ps[i]
            if not isinstance(x, str):
                if x in self.free and sep == '=':
                    continue
                return None
            if sep in x:
                a, b = x.rsplit(sep, 1)
                return self.norm(ps[:i] + [a]), True, self.norm([b] + ps[i + 1:])
        return [], False, ps

    def count(self, t, L, tokt):
        """number of parts of a split text, None when unknown"""
        t = bare(t)
        if t.op == 'len' or t.op == 'app' and t.args[0] == 'len':
            t = bare(t.args[-1])
        if t.op != 'app' or t.args[0] not in ('split', 'rsplit'):
            return None
        a = t.args[1:]
        sep = cval(a[1]) if len(a) > 1 and isinstance(a[1], T) and is_const(a[1]) else None
        mx = cval(a[2]) if len(a) > 2 and isinstance(a[2], T) and is_const(a[2]) else None
        ps = self.ev(a[0], L, tokt)
        c = self.cut(ps, sep) if isinstance(sep, str) and ps is not None else None
        if c is None:
            return None
        return 1 if not c[1] else 2 if mx == 1 else None

    def ev(self, t, L, tokt):
        """the parts of a text term under this shape, None when unknown"""
        t = bare(t)
        if t is tokt:
            return self.tok
        if is_const(t):
            v = cval(t)
            return [v] if isinstance(v, str) and v else [] if v == '' else None
        if t.op == 'cat':
            out = []
            for x in t.args[0]:
                y = self.ev(x, L, tokt) if isinstance(x, T) else [x]
                if y is None:
                    return None
                out += y
            return self.norm(out)
        if t.op == 'item' and isinstance(t.args[0], T):
            b, k = bare(t.args[0]), t.args[1]
            k = cval(k) if isinstance(k, T) and is_const(k) else k
            if unwrap(b)[0] is self.cmd:
                # the token after this one
                if isinstance(k, T) and k.op == 'lin' and k.args[0] == 1 and len(k.args[1]) == 1:
                    ((x, c),) = k.args[1]
                    if c == 1 and x.op == 'idx':
                        off = x.args[1] if len(x.args) > 1 else 0
                        off = cval(off) if isinstance(off, T) and is_const(off) else off
                        return self.nxt if off == 0 else None
                return None
            if b.op == 'app' and b.args[0] in ('partition', 'rpartition', 'split', 'rsplit'):
                a = b.args[1:]
                name = b.args[0]
                sep = cval(a[1]) if len(a) > 1 and isinstance(a[1], T) and is_const(a[1]) else None
                ps = self.ev(a[0], L, tokt)
                if not isinstance(sep, str) or ps is None:
                    return None
                c = self.rcut(ps, sep) if name[0] == 'r' else self.cut(ps, sep)
                if c is None:
                    return None
                if name == 'rpartition':
                    return {0: c[0], 1: [sep] if c[1] else [], 2: c[2], -1: c[2]}.get(k)
                if name == 'partition':
                    return {0: c[0], 1: [sep] if c[1] else [], 2: c[2], -1: c[2]}.get(k)
                mx = cval(a[2]) if len(a) > 2 and isinstance(a[2], T) and is_const(a[2]) else None
                if name == 'rsplit':
                    return (c[0] if k == 0 else c[2]) if mx == 1 and c[1] and k in (0, 1, -1) else None
                if k == 0:
                    return c[0]
                if mx is None and c[1] and k == 1:
                    d = self.cut(c[2], sep)
                    return d[0] if d is not None else None
                if mx == 1 and c[1] and k in (1, -1):
                    return c[2]
                if not c[1] and k == -1:
                    return c[0]
                return None
        return None

    def atom(self, a, L, tokt):
        """truth of an atom under this shape: True, False or None"""
        if a.op in ('lt', 'eqn') and isinstance(a.args[0], T):
            c, d = core.as_lin(a.args[0])
            tot = c
            for k, f in d.items():
                n = self.count(k, L, tokt)
                if n is None:
                    return None
                tot += f * n
            return tot < a.args[1] if a.op == 'lt' else tot == a.args[1] if not isinstance(a.args[1], T) else None
        if a.op in ('eqc', 'starts', 'ends', 'truthy', 'haskey', 'substr'):
            if a.op == 'haskey':
                x, y = a.args[0], a.args[1]
            elif a.op == 'substr':
                x, y = a.args[1], a.args[0]
            else:
                x, y = a.args[0], a.args[1] if len(a.args) > 1 else None
            ps = self.ev(x, L, tokt) if isinstance(x, T) else None
            if ps is None:
                return None
            if a.op == 'truthy':
                return bool(ps) if not ps or any(isinstance(q, str) for q in ps) else None
            c = cval(y) if isinstance(y, T) and is_const(y) else y
            if not isinstance(c, str):
                return None
            whole = all(isinstance(q, str) for q in ps)
            s = ''.join(q for q in ps if isinstance(q, str)) if whole else None
            head = ps[0] if ps and isinstance(ps[0], str) else ''
            if a.op == 'eqc':
                if whole:
                    return s == c
                if not c.startswith(head) or len(ps) > 1 and isinstance(ps[-1], str) and not c.endswith(ps[-1]):
                    return False
                if ps and not isinstance(ps[0], str) and c.startswith('-'):
                    return False            # a value is no option
                return None
            if a.op == 'starts':
                if whole:
                    return s.startswith(c)
                if head.startswith(c):
                    return True
                if head and not c.startswith(head):
                    return False
                if not head and c.startswith('-'):
                    return False
                return None
            if a.op in ('haskey', 'substr'):
                if whole:
                    return c in s
                return True if any(isinstance(q, str) and c in q for q in ps) else None
        return None

    def guard(self, g, L, tokt):
        for v in list(B.support(g)):
            a = B.atom_of[v]
            if a.op == 'more' and a.args[0] == L.id:
                g = B.restrict(g, B.mk(v, FALSE, TRUE))
                continue
            x = self.atom(a, L, tokt)
            if x is not None:
                g = B.restrict(g, B.mk(v, FALSE, TRUE) if x else B.mk(v, TRUE, FALSE))
        return g


OPTIONS = (('name', ('-n', '--name')), ('code', ('-c', '--code')), ('out', ('-o', '--out')), ('env', ('-e', '--env')))


@prop('C01', 'C02', 'C03')
def c_info(ctx, chk):
    chk.rule('command line', 'name, code, out and env of a task are the values its start_task command gives in any of the forms -n VALUE, --name VALUE, --name=VALUE; debug is set by --debug; nothing else sets them')
    f = info_fn(ctx)
    r = ctx.run(f)
    w = f.qual
    cmd = r.sym[f.params[0]]
    ds = {t for g, t in under(r.value, r.st.pc)}
    if len(ds) != 1:
        raise Undecided('what is returned is not one mapping')
    d = next(iter(ds))
    ups = [e for e in evs(r, 'setitem') if e.recv is d and e.loops]
    Ls = {e.loops[-1] for e in ups}
    if len(Ls) != 1:
        raise Undecided('the options are not read in one loop')
    L = next(iter(Ls))
    if L.raw is None or unwrap(L.raw)[0] is not cmd or any(n not in ('enumerate', 'list', 'tuple', 'iter', 'copy') for n, _ in unwrap(L.raw)[1]):
        raise Undecided('loop over %s' % (show(L.raw) if L.raw is not None else '?'))
    tokt = None
    for e in ups:
        for v in B.support(e.g):
            for s in subterms(B.atom_of[v]):
                if s.op in ('elem', 'each') and unwrap(bare(s.args[0]))[0] is cmd:
                    tokt = bare(s)
    if tokt is None:
        raise Undecided('tokens of the command line not found')
    for k, fact in exits(L, ('brk', 'ret')):
        chk.bad('all options', w, 'the command line is read only up to some option: %s' % brief(fact))
    # defaults
    base = {}
    for o in r.interp.ops(d, _mkst(r.st.heap)):
        if o[0] == 'set' and o[1] == TRUE:
            kk = {cval(t) if isinstance(t, T) and is_const(t) else t for t in (terms(o[2]) if isinstance(o[2], (V, T)) else [o[2]])}
            for x in kk:
                base[x] = o[3]
    val = mk('sym', 'VALUE', -77)
    nxt = mk('sym', 'NEXT', -78)
    anyt = mk('sym', 'TOKEN', -79)

    def keys_of(e):
        return [(g, cval(t) if is_const(t) else None) for g, t in under(e.args[0], e.g)]

    def result(shape):
        """{key: [(guard, parts or const)]} that one token sets"""
        out = {}
        for e in ups:
            for kg, k in keys_of(e):
                for h, t in under(e.args[1], kg):
                    g = shape.guard(h, L, tokt)
                    if g == FALSE:
                        continue
                    ps = shape.ev(t, L, tokt)
                    out.setdefault(k, []).append((g, ps if ps is not None else t, e))
        return out
    va, vb = mk('sym', 'VALUE1', -75), mk('sym', 'VALUE2', -76)
    for dest, flags in OPTIONS:
        for fl in flags:
            for form, tok, nx, want, free in (('%s=VALUE' % fl, [fl + '=', val], [nxt], [val], ()), ('%s VALUE' % fl, [fl], [nxt], [nxt], ()),
                                              ('%s=VALUE1=VALUE2' % fl, [fl + '=', va, '=', vb], [nxt], [va, '=', vb], (va, vb))):
                res = result(Shape(tok, nx, cmd, free))
                got = res.pop(dest, [])
                inst = '%s given as %s' % (dest, form)
                g = B.any(h for h, _, _ in got)
                if not got:
                    chk.bad(inst, w, 'the option is not recognised in this form')
                    continue
                sure = all(h == TRUE for h, _, _ in got)
                wrong = [x for x in got if x[1] != want]
                if g != TRUE:
                    chk.check(False, inst, w, 'the option is recognised only when %s' % brief(g), unknown=True)
                elif sure:
                    wrong = [x for x in got[-1:] if x[1] != want]
                if not wrong:
                    chk.ok(inst, got[-1][2].where())
                else:
                    x = wrong[-1]
                    chk.check(False, inst, x[2].where(), 'the value is %s' % (show(x[1]) if isinstance(x[1], T) else ''.join(q if isinstance(q, str) else show(q) for q in x[1])),
                              unknown=len(wrong) < len(got) and not sure or isinstance(x[1], T) and not is_const(x[1]))
                for k, ls in res.items():
                    chk.check(all(h != TRUE for h, _, _ in ls), '%s: other options' % inst, w, '%s changes %s' % (form, k))
    for form, tok in (('--config VALUE', ['--config']), ('--config=VALUE', ['--config=', val])):
        for k, ls in result(Shape(tok, [nxt], cmd)).items():
            chk.check(all(h != TRUE for h, _, _ in ls), 'other options', w, '%s changes %s' % (form, k))
    res = result(Shape(['--debug'], [nxt], cmd))
    got = res.pop('debug', [])
    chk.check(any(g == TRUE and isinstance(t, T) and is_const(t) and cval(t) is True for g, t, _ in got), 'debug', w, '--debug does not set debug', unknown=any(g != TRUE for g, _, _ in got))
    for k, ls in res.items():
        chk.check(all(g != TRUE for g, _, _ in ls), 'debug: other options', w, '--debug changes %s' % k)
    res = result(Shape([anyt], [nxt], cmd))
    for k, ls in res.items():
        chk.check(all(g != TRUE for g, _, _ in ls), 'values', w, 'any value changes %s' % k)
    chk.ok('values', w)
    for k, dv in (('name', None), ('code', None), ('out', None), ('env', None), ('debug', False)):
        if k not in base:
            chk.bad('default of %s' % k, w, 'a task without the option has no %s: reading it fails' % k)
        else:
            ts = terms(base[k]) if isinstance(base[k], (V, T)) else [base[k]]
            chk.check(all(is_const(t) and (cval(t) is None or cval(t) is False or cval(t) == '') for t in ts), 'default of %s' % k, w, 'the default is %s' % ', '.join(map(show, ts)), unknown=any(has_unknown(t) for t in ts))


# ---------------------------------------------------------------- C01: one task per name
@prop('C01')
def c01(ctx, chk):
    chk.rule('unique', 'start_task goes on only when no other running task (not this process, not its parent) has the name; otherwise it raises TaskError before it changes anything; a name that no other task has is accepted')
    r = start_run(ctx)
    w = 'start_task'
    op = r.sym[r.func.params[0]]
    settle(r, op)
    name = mk('attr', op, 'name', 0)
    tk = Tasks(ctx, r)
    tk.partial(chk, r.func.qual)
    rej = raises_of(r, 'TaskError')
    skip = {e.fn for e in tk.lists} | {e.fn for e in tk.infos}
    eff = effects(r, skip)
    if not eff:
        raise Undecided('what start_task sets up is not found')
    if not tk.lists:
        chk.check(False, 'asks for the running tasks', w, 'the running tasks are not looked at', unknown=has_unknown_run(r))
        return
    found = [(e, tk.info(e)) for e in tk.infos]
    found = [(e, x) for e, x in found if x is not None]
    if not found:
        chk.check(not rej, 'names', w, 'how the names of the tasks are read is not understood', unknown=True)
        raise Undecided('names of the running tasks not found')
    pn = B.NOT(isnone(name))               # --name is required
    rejg = B.AND(pn, gor(rej))
    wit = witness(r, rejg)
    for e, (p, c) in found:
        nm = [s for g in [x.g for x in r.events] for v in B.support(g) for s in core_subterms(B.atom_of[v]) if is_name(s, e.res, 'name')]
        allg = [wit, rejg] + [core.FACTS.get(v, TRUE) for v in B.support(rejg)]
        nm += [s for g in allg for v in B.support(g) for s in core_subterms(B.atom_of[v]) if is_name(s, e.res, 'name')]
        same = B.any(eq(name, s) for s in set(nm)) if nm else FALSE
        if same == FALSE:
            other = [s for g in allg for v in B.support(g) for s in core_subterms(B.atom_of[v]) if e.res in subterms(s) and s.op == 'item']
            chk.check(False, 'names', e.where(), 'the given name is not compared with the name of the running tasks', unknown=not other)
            continue
        pidt = pid_of(r, p)
        own = FALSE
        for n in ('os.getpid', 'os.getppid'):
            for q in evs(r, 'call', n):
                own = B.OR(own, eq(q.res, pidt))
            t = mk('app', n)
            own = B.OR(own, eq(t, pidt))
        D = B.all([B.NOT(own), B.NOT(raised(c)), B.NOT(raised(e)), same, has_entry(e), pn])
        for x in r.events:
            for v in mores(x.g):
                D = B.AND(D, B.mk(v, FALSE, TRUE)) if over(r, v, tk) else D
        for v in mores(wit):
            D = B.AND(D, B.mk(v, FALSE, TRUE)) if over(r, v, tk) else D
        n = 0
        for x in eff:
            if x.i < c.i and not x.loops and not sat(B.AND(x.g, c.g)):
                continue
            n += 1
            g = B.all([x.g, D, exists_facts(r, x.g)])
            chk.implies(g, FALSE, 'nothing before the check', x.where(), '%s happens although another task has the name' % x.fn)
        g = B.all([r.st.pc, D, exists_facts(r, r.st.pc)])
        chk.implies(g, FALSE, 'no second task', w, 'start_task goes on although another task has the name')
        # rejected only for a reason
        chk.implies(wit, same, 'only equal names', e.where(), 'a task is refused although no task has its name')
        chk.implies(wit, B.NOT(own), 'not its own process', e.where(), 'a task is refused because of its own process or its launcher')
        for L in c.loops:
            for k, fact in exits(L, ('brk', 'ret')):
                chk.implies(B.AND(pn, fact), same, 'every task', e.where(), 'the comparison ends before all tasks were looked at')
        for q in (c,):
            ns = exc_is(q, 'NoSuchProcess')
            L = q.loops[-1] if q.loops else None
            if L is None:
                continue
            for k, fact in exits(L, ('exc', 'brk', 'ret')):
                g = B.all([fact, q.g, raised(q)])
                if ns is not None:
                    g = B.AND(g, ns)
                elif k.startswith('exc'):
                    pass
                chk.check(not sat(g), 'ended task', q.where(), 'a task that ends while the names are compared makes start_task fail or ends the comparison', unknown=guard_unknown(g))
    for e in rej:
        chk.ok('refused with TaskError', e.where())
    chk.check(bool(rej), 'refused with TaskError', w, 'no TaskError is raised')


def has_unknown_run(r):
    return any(e.kind == 'opaque' and False for e in r.events)


def over(r, v, tk):
    """is the 'more' atom one of a loop over the running tasks"""
    lid = B.atom_of[v].args[0]
    for e in r.events:
        for L in e.loops:
            if L.id == lid and L.raw is not None:
                c = unwrap(bare(L.raw))[0]
                if c in tk.conts or any(x in subterms(c) for x in tk.conts):
                    return True
                for g, el in flat(r, c, TRUE) if c.op == 'obj' else []:
                    if el is not None and any(x in subterms(el) for x in tk.conts):
                        return True
    for L, g in r.interp.exists_def.values():
        if L.id == lid and L.raw is not None and any(x in subterms(L.raw) for x in tk.conts):
            return True
    return False


# ---------------------------------------------------------------- C02: stop_task
def has_entry(e):
    """guard: the parsed command line has its entries (it always has)"""
    g = TRUE
    for v, a in enumerate(list(B.atom_of)):
        if isinstance(a, T) and a.op == 'haskey' and isinstance(a.args[0], T) and bare(a.args[0]) is e.res:
            g = B.AND(g, B.mk(v, FALSE, TRUE))
    return g


def signals(r, tk):
    """[(event, task element, guard, 'kill'|'term'|None)] of everything that is done to a running task"""
    out = []
    for e in evs(r, 'call'):
        if e.fn in ('.kill', '.terminate', '.send_signal', '.suspend', '.resume') and e.recv is not None:
            p = bare(e.recv)
            if e.fn == '.kill':
                out.append((e, p, e.g, 'kill'))
            elif e.fn == '.terminate':
                out.append((e, p, e.g, 'term'))
            elif e.fn == '.send_signal':
                v = e.arg(0, 'sig')
                for g, t in under(v, e.g):
                    out.append((e, p, g, signo(t)))
            else:
                out.append((e, p, e.g, e.fn))
        elif e.fn in ('os.kill', 'os.killpg'):
            for g, t in under(e.args[0], e.g):
                t = bare(t)
                p = t.args[0] if t.op == 'attr' and t.args[1] == 'pid' else t
                for h, s in under(e.args[1], g):
                    out.append((e, p, h, signo(s) if e.fn == 'os.kill' else e.fn))
    return out


def signo(t):
    n = show(t)
    if is_const(t):
        return {15: 'term', 9: 'kill', 2: 'int'}.get(cval(t), n)
    n = n.split('.')[-1].strip("'>")
    return {'SIGTERM': 'term', 'SIGKILL': 'kill'}.get(n, n)


@prop('C02')
def c02(ctx, chk):
    chk.rule('targets', 'with --all every running task gets the signal, else with --pid exactly the one with this pid, else with --name exactly those with this name; the signal is SIGKILL with --force and SIGTERM without; a task that has ended in between is passed over')
    f = ctx.func('__main__', 'stop_task')
    r = ctx.run(f, opaque=[tasks_fn(ctx), info_fn(ctx)])
    w = f.qual
    op = r.sym[f.params[0]]
    settle(r, op)
    tk = Tasks(ctx, r)
    tk.partial(chk, r.func.qual)
    if not tk.lists:
        raise Undecided('running tasks are not listed with get_activate_task_process')

    def opt(n):
        return truthy(mk('attr', op, n, 0))
    ALL, PID, NAME, FORCE = opt('all'), opt('pid'), opt('name'), opt('force')
    for n in ('pid', 'name'):
        # 'is given' may be tested with None
        t = mk('attr', op, n, 0)
        core.B.budget()
    sig = signals(r, tk)
    if not sig:
        raise Undecided('no signal is sent')
    listed = B.all(B.NOT(raised(e)) for e in tk.lists)
    pidt, namet = mk('attr', op, 'pid', 0), mk('attr', op, 'name', 0)
    nonull = B.all([B.OR(isnone(pidt), PID), B.OR(isnone(namet), NAME), B.OR(PID, isnone(pidt)), B.OR(NAME, isnone(namet))])
    bool_ = TRUE
    for n in ('all', 'force'):
        t = mk('attr', op, n, 0)
        bool_ = B.AND(bool_, B.AND(B.OR(B.NOT(opt(n)), B.NOT(isnone(t))), TRUE))
    pre = B.AND(nonull, bool_)
    tot = {'kill': FALSE, 'term': FALSE}
    everyp = set()
    infos = {}
    for e in tk.infos:
        x = tk.info(e)
        if x is not None:
            infos.setdefault(x[0], []).append((e, x[1]))
    for e, p, g, kind in sig:
        if not tk.elem(p):
            src = {x for x in subterms(p) if x in tk.conts}
            chk.check(False, 'only running tasks', e.where(), 'a signal is sent to %s' % show(p), unknown=bool(src) or has_unknown(p))
            continue
        everyp.add(p)
        if kind not in tot:
            chk.bad('signal', e.where(), 'the signal is %s' % kind)
            continue
        chk.implies(B.AND(pre, g), FORCE if kind == 'kill' else B.NOT(FORCE), 'signal', e.where(), '%s is used %s --force' % ('SIGKILL' if kind == 'kill' else 'SIGTERM', 'without' if kind == 'kill' else 'with'))
        tot[kind] = B.OR(tot[kind], g)
    chk.ok('only running tasks', w)
    # one loop per branch: every element of each
    for p in everyp:
        same = FALSE
        okn = TRUE
        for e, c in infos.get(p, []):
            nm = {s for x in r.events for v in B.support(x.g) for s in core_subterms(B.atom_of[v]) if is_name(s, e.res, 'name')}
            for s in nm:
                same = B.OR(same, eq(namet, s))
            okn = B.all([okn, B.NOT(raised(c)), B.NOT(raised(e))])
        has = B.all(has_entry(e) for e, c in infos.get(p, []))
        pid_ = eq(pidt, pid_of(r, p))
        sel = B.any([ALL, B.all([B.NOT(ALL), PID, pid_]), B.all([B.NOT(ALL), B.NOT(PID), NAME, same])])
        for kind in tot:
            for e, q, g, k in sig:
                if q is p and k == kind:
                    chk.implies(B.AND(pre, g), sel, 'only the asked ones', e.where(), 'a task that was not asked for is signalled')
        g = B.OR(tot['kill'], tot['term'])
        gg = each_time(r, g)
        for v in list(B.support(gg)):
            a = B.atom_of[v]
            if a.op == 'abrupt':
                gg = gg      # judged below
        cond = B.all([pre, listed, sel, has, exists_facts(r, gg)])
        skip = B.any(B.all([x.g, raised(x)]) for x in r.events if x.kind == 'call' and x.fn in ('.cmdline',))
        no = B.all([B.NOT(each_time(r, skip)), okn])
        early = TRUE
        for v in B.support(gg):
            a = B.atom_of[v]
            if a.op == 'abrupt':
                early = B.AND(early, B.NOT(B.mk(v, FALSE, TRUE)))
        empty = FALSE
        for v in B.support(gg):
            a = B.atom_of[v]
            if a.op == 'truthy' and bare(a.args[0]) in tk.conts:
                early = B.AND(early, B.mk(v, FALSE, TRUE))
        # the error of one task does not depend on the others: signals that fail come after the attempt
        for v in B.support(gg):
            a = B.atom_of[v]
            if a.op == 'raises' and any(x.kind == 'call' and x.fn in ('.kill', '.send_signal', '.terminate') and raised(x) == B.mk(v, FALSE, TRUE) for x in r.events):
                no = B.AND(no, B.NOT(B.mk(v, FALSE, TRUE)))
        chk.implies(B.all([cond, no, early]), gg, 'every asked one', w, 'a task that was asked for is not signalled')
    # the loops go on
    for e, p, g, kind in sig:
        for L in e.loops:
            for k, fact in exits(L, ('brk', 'ret')):
                hit = B.all([B.NOT(ALL), PID, eq(pidt, pid_of(r, p))])
                chk.implies(B.AND(pre, fact), hit, 'all of them', e.where(), 'the loop over the tasks is left early')
            for k, fact in exits(L, ('exc',)):
                for x in r.events:
                    if x.kind == 'call' and L in x.loops and (x.fn in ('.cmdline', '.kill', '.send_signal', '.terminate', 'os.kill') or x.recv is not None and bare(x.recv) is p):
                        names = ('ProcessLookupError',) if x.fn == 'os.kill' else ('NoSuchProcess',)
                        ns = exc_is(x, names[0])
                        bad = B.all([pre, fact, x.g, raised(x), B.NOT(B.AND(PID, B.NOT(ALL)))])
                        if ns is not None:
                            bad = B.AND(bad, ns)
                        ad = exc_is(x, 'AccessDenied')
                        if ad is not None:
                            bad = B.AND(bad, B.NOT(ad))
                        if sat(bad) and only_cause(fact, x, L, r):
                            chk.check(False, 'ended task', x.where(), 'a task that has just ended keeps the others from being stopped', unknown=guard_unknown(bad))
                        else:
                            chk.ok('ended task', x.where())
    given = B.any([ALL, PID, NAME])
    chk.implies(B.AND(pre, r.st.pc), given, 'something is asked for', w, 'stop_task returns although nothing was asked for')
    for e in raises_of(r, 'ValueError'):
        chk.implies(B.AND(pre, e.g), B.NOT(given), 'something is asked for', e.where(), 'stop_task fails although a task was asked for')


def only_cause(fact, x, L, r):
    """the error of x leads out of the loop also when nothing else of the iteration fails"""
    g = B.all([fact, x.g, raised(x)])
    for y in r.events:
        if y is not x and L in y.loops and raised(y) > 1:
            g = B.AND(g, B.NOT(raised(y)))
    return sat(g)


@prop('C02')
def c02_cli(ctx, chk):
    cli_rule(ctx, chk, 'stop_task', {'name': (('-n', '--name'), None), 'pid': (('-p', '--pid'), 'int'), 'all': (('--all',), 'flag'), 'force': (('-f', '--force'), 'flag')})


@prop('C01', 'C03')
def c03_cli(ctx, chk):
    cli_rule(ctx, chk, 'start_task', {'name': (('-n', '--name'), None), 'code': (('-c', '--code'), None), 'out': (('-o', '--out'), None),
                                      'env': (('-e', '--env'), None), 'debug': (('--debug',), 'flag')})


def cli_rule(ctx, chk, cmd, table):
    chk.rule('options of %s' % cmd, 'the command takes the options %s and hands them on under their names' % ', '.join('/'.join(f) for f, _ in table.values()))
    f = ctx.func('__main__', 'main')
    r = ctx.run(f, opaque=[ctx.func('__main__', n) for n in ('start_task', 'get_tasks', 'stop_task')])
    w = f.qual
    ps = [e for e in evs(r, 'call', '.add_parser') if any(is_const(t) and cval(t) == cmd for t in terms(e.args[0]))] if evs(r, 'call', '.add_parser') else []
    ps = [e for e in ps if e.args]
    if len(ps) != 1:
        raise Undecided('parser of %s not found' % cmd)
    P = ps[0].res
    seen = {}
    for e in evs(r, 'call', '.add_argument'):
        if e.recv is None or bare(e.recv) is not P:
            continue
        fl = [cval(t) for a in e.args for t in terms(a) if is_const(t)]
        kw = {k: [cval(t) if is_const(t) else t for t in terms(v)] for k, v in (e.kw or {}).items()}
        dest = kw.get('dest', [None])[0] or ([x for x in fl if isinstance(x, str) and x.startswith('--')] or [''])[0].lstrip('-').replace('-', '_')
        seen[dest] = (fl, kw, e)
    if not seen:
        raise Undecided('options of %s not found' % cmd)
    for dest, (flags, kind) in table.items():
        if dest not in seen:
            got = [d for d, (fl, kw, e) in seen.items() if set(fl) & set(flags)]
            chk.check(False, '%s: %s' % (cmd, dest), w, 'the option %s is handed on as %s' % ('/'.join(flags), got[0]) if got else 'the option is not taken')
            continue
        fl, kw, e = seen[dest]
        chk.check(set(flags) <= set(fl), '%s: %s' % (cmd, dest), e.where(), 'the option is called %s' % '/'.join(map(str, fl)))
        act = kw.get('action', [None])[0]
        if kind == 'flag':
            chk.check(act == 'store_true', '%s: %s' % (cmd, dest), e.where(), 'the action is %s' % act, unknown=not isinstance(act, (str, type(None))))
            chk.check(not kw.get('default', [None])[0], '%s: %s' % (cmd, dest), e.where(), 'it is set by default')
        else:
            chk.check(act in (None, 'store'), '%s: %s' % (cmd, dest), e.where(), 'the action is %s' % act)
            ty = kw.get('type', [None])[0]
            ty = None if ty is None else show(ty).split('.')[-1].strip("'>")
            chk.check(ty == kind or kind is None and ty == 'str', '%s: %s' % (cmd, dest), e.where(), 'the value is read as %s' % ty, unknown=ty not in (None, 'int', 'str', 'float'))
            df = kw.get('default', [None])[0]
            chk.check(not df, '%s: %s' % (cmd, dest), e.where(), 'the default is %s' % df)
            for odd in ('choices', 'nargs', 'const'):
                chk.check(odd not in kw, '%s: %s' % (cmd, dest), e.where(), '%s is given' % odd, unknown=True)
    want = ctx.func('__main__', cmd)
    ds = [e for e in evs(r, 'call', '.set_defaults') if e.recv is not None and bare(e.recv) is P]
    for e in ds:
        v = (e.kw or {}).get('func')
        if v is not None:
            chk.check(all(t.op == 'fn' and t.args[0] is want for t in terms(v)), '%s: command' % cmd, e.where(), 'the command runs %s' % ', '.join(map(show, terms(v))))


# ---------------------------------------------------------------- C03: get_tasks
@prop('C03')
def c03(ctx, chk):
    chk.rule('listing', 'get_tasks prints one entry for every running task, with its name, pid, code, out, env and debug; a task that ends in between is left out')
    f = ctx.func('__main__', 'get_tasks')
    r = ctx.run(f, opaque=[tasks_fn(ctx), info_fn(ctx)])
    w = f.qual
    tk = Tasks(ctx, r)
    tk.partial(chk, r.func.qual)
    infos = [(e, tk.info(e)) for e in tk.infos]
    infos = [(e, x) for e, x in infos if x is not None]
    if not tk.lists or len(infos) != 1:
        raise Undecided('how the tasks are read is not understood')
    e, (p, c) = infos[0]
    outs = [x for x in evs(r, 'call', ('builtins.print', 'sys.stdout.write')) if x.args]
    outs = [x for x in outs if any(e.res in subterms(bare(t)) or p in subterms(bare(t)) for a in x.args for t in terms(a))]
    if not outs:
        chk.check(False, 'every task', w, 'the tasks are not printed', unknown=not evs(r, 'call', 'builtins.print') or any(x.loops for x in evs(r, 'call', 'builtins.print')))
        return
    g = each_time(r, gor(outs))
    cond = B.all([B.NOT(raised(x)) for x in tk.lists] + [B.NOT(raised(c)), B.NOT(raised(e))])
    for v in B.support(g):
        a = B.atom_of[v]
        if a.op == 'truthy' and bare(a.args[0]) in tk.conts or a.op == 'haskey' and bare(a.args[0]) is e.res:
            cond = B.AND(cond, B.mk(v, FALSE, TRUE))
        elif a.op in ('lt', 'eqn') and any(s in tk.conts for s in core_subterms(a)):
            return chk.undecided('every task', w, 'test of the number of tasks: %s' % show(a))
    chk.implies(cond, g, 'every task', w, 'a running task is not printed')
    for L in c.loops:
        for k, fact in exits(L, ('brk', 'ret', 'exc')):
            x = B.all([fact, c.g, raised(c)])
            ns = exc_is(c, 'NoSuchProcess')
            if ns is not None:
                x = B.AND(x, ns)
            chk.check(not sat(x), 'ended task', c.where(), 'a task that ends while the tasks are printed ends the listing', unknown=guard_unknown(x))
            if k[:3] in ('brk', 'ret'):
                chk.check(not sat(fact), 'every task', c.where(), 'the listing ends before the last task', unknown=guard_unknown(fact))
    # what is printed, in order
    txt = []
    for x in outs:
        for a in x.args:
            for t in terms(a):
                txt.append(t)
    parts = [bare(y) for t in txt for y in (t.args[0] if t.op == 'cat' else [t]) if isinstance(y, T)]
    flat_ = []
    for y in parts:
        flat_.append(y)
    for key in ('name', 'code', 'out', 'env', 'debug'):
        chk.check(any(is_name(s, e.res, key) for y in flat_ for s in subterms(y)), 'entry: %s' % key, outs[0].where(), '%s is not printed' % key, unknown=any(y.op not in ('item', 'const', 'attr', 'app') for y in flat_))
    chk.check(any(s.op == 'attr' and s.args[1] == 'pid' and bare(s.args[0]) is p for y in flat_ for s in subterms(y)), 'entry: pid', outs[0].where(), 'the pid is not printed', unknown=any(y.op not in ('item', 'const', 'attr', 'app') for y in flat_))
    # labels
    labels = {'name': '名称', 'pid': 'pid', 'code': '代码路径', 'out': '日志路径', 'env': '环境变量', 'debug': 'debug'}
    for t in txt:
        if t.op != 'cat':
            continue
        last = None
        for y in t.args[0]:
            if isinstance(y, T) and not is_const(y):
                k = None
                for key in labels:
                    if key != 'pid' and is_name(y, e.res, key) or key == 'pid' and y.op == 'attr' and y.args[1] == 'pid':
                        k = key
                if k is not None and isinstance(last, str) and last.strip():
                    lab = last.strip().split('\n')[-1]
                    known = [q for q, z in labels.items() if z in lab]
                    if known:
                        chk.check(k in known, 'label of %s' % k, outs[0].where(), '%s is printed under %s' % (k, lab))
                last = None
            else:
                last = cval(y) if isinstance(y, T) else y


# ---------------------------------------------------------------- C04: the environment of a task
PARTS = ('split', 'rsplit', 'partition', 'rpartition', 'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace', 'title', 'removeprefix', 'removesuffix', 'str')


def env_part(t, is_item):
    """('name'|'value', elem) | ('bad', text) | (None, text)"""
    o = t
    lr = [False, False]          # stripped outside
    while t.op == 'app' and t.args[0] in ('strip', 'lstrip', 'rstrip', 'str'):
        if len(t.args) > 2:
            return 'bad', '%s' % show(o)
        n = t.args[0]
        lr[0] |= n in ('strip', 'lstrip')
        lr[1] |= n in ('strip', 'rstrip')
        t = t.args[1]
    if t.op == 'item' and t.args[0].op == 'app' and is_const(t.args[1]):
        s, i = t.args[0], cval(t.args[1])
        n = s.args[0]
        sep = s.args[2] if len(s.args) > 2 else None
        mx = cval(s.args[3]) if len(s.args) > 3 and is_const(s.args[3]) else None
        if n in ('split', 'rsplit', 'partition', 'rpartition') and isinstance(s.args[1], T):
            inner = s.args[1]
            il = [False, False]
            while inner.op == 'app' and inner.args[0] in ('strip', 'lstrip', 'rstrip', 'str') and len(inner.args) == 2:
                il[0] |= inner.args[0] in ('strip', 'lstrip')
                il[1] |= inner.args[0] in ('strip', 'rstrip')
                inner = inner.args[1]
            if not is_item(inner):
                pure = all(x.op in ('item', 'const', 'elem', 'attr', 'opt', 'sym') or x.op == 'app' and x.args[0] in PARTS for x in subterms(inner))
                return ('bad' if pure and any(is_item(x) for x in subterms(inner)) else None), show(o)
            if sep is None or not is_const(sep):
                return None, show(o)
            what = None
            if n == 'partition':
                what = {0: 'name', 2: 'value', -1: 'value', -3: 'name'}.get(i)
            elif n == 'split' and mx == 1:
                what = {0: 'name', 1: 'value', -1: 'value', -2: 'name'}.get(i)
            elif n == 'split' and i == 0:
                what = 'name'
            if cval(sep) != '=' or what is None:
                return 'bad', show(o)
            left = lr[0] or il[0] and what == 'name'
            right = lr[1] or il[1] and what == 'value'
            if not (left and right):
                return 'bad', '%s keeps white space' % show(o)
            return what, inner
    pure = all(x.op in ('item', 'const', 'elem', 'attr', 'sym') or x.op == 'app' and x.args[0] in PARTS for x in subterms(t))
    return ('bad' if pure and any(is_item(x) for x in subterms(t)) else None), show(o)


@prop('C04')
def c04(ctx, chk):
    chk.rule('variables', 'every NAME=VALUE of --env (separated by semicolons, at the first equals sign, both without surrounding white space) is put into os.environ before the strategy is loaded; nothing else is changed there')
    r = start_run(ctx)
    w = 'start_task'
    op = r.sym[r.func.params[0]]
    settle(r, op)
    env = mk('attr', op, 'env', 0)
    load = [e for e in r.events if e.kind == 'opaque' and e.fn.endswith('Strategy.__init__')]
    if not load:
        raise Undecided('where the strategy is loaded is not found')
    lg = gor(load)
    li = min(e.i for e in load)

    def on(e, name):
        return e.recv is not None and isinstance(e.recv, T) and show(bare(e.recv)) == name

    writes = []       # (event, guard, K, X, loop over the items or None)
    known = set()
    for e in r.events:
        if e.kind == 'call' and e.fn == 'os.environ.update' or e.kind == 'update' and on(e, 'os.environ'):
            known.add(e)
            if e.kw:
                chk.undecided('written', e.where(), 'variables given as keywords')
                continue
            for g, d in under(e.args[0], e.g) if e.args else []:
                ents = dict_entries(r, e.heap if e.heap is not None else r.st.heap, d, g) if d.op == 'obj' else None
                if ents is None:
                    ents = dict_entries(r, r.st.heap, d, g) if d.op == 'obj' else None
                if ents is None:
                    chk.undecided('written', e.where(), 'os.environ is updated with %s' % show(d))
                    continue
                for x, K, X, L, og in ents:
                    writes.append((e, B.AND(g, og), x, K, X, L))
        elif e.kind == 'setitem' and on(e, 'os.environ') or e.kind == 'call' and e.fn == 'os.environ.__setitem__':
            known.add(e)
            writes.append((e, e.g, TRUE, e.args[0], e.args[1], e.loops[-1] if e.loops else None))
        elif e.kind == 'call' and e.fn == 'os.environ.setdefault':
            known.add(e)
            chk.bad('written', e.where(), 'a variable that exists already keeps its old value')
        elif e.kind in ('delitem', 'clear') and on(e, 'os.environ') or e.kind == 'call' and e.fn in ('os.environ.clear', 'os.environ.pop', 'os.environ.popitem', 'os.environ.__delitem__', 'os.unsetenv'):
            chk.bad('nothing else', e.where(), 'variables are removed from the environment')
        elif e.kind == 'set' and show(bare(e.recv)) == 'os' and e.fn == 'environ' or e.kind == 'call' and e.fn.startswith('os.environ.') and e.fn not in ('os.environ.get', 'os.environ.copy', 'os.environ.items', 'os.environ.keys'):
            chk.undecided('written', e.where(), 'os.environ is changed with %s' % e.fn)
            known.add(e)
    if not writes:
        chk.check(False, 'written', w, 'the variables are not put into os.environ', unknown=bool(known))
        return

    def is_item(t):
        """an element of env.split(';')"""
        if t.op != 'elem' and not (t.op == 'item' and not is_const(t.args[1])):
            return False
        c = bare(t.args[0])
        return is_split(c)

    def is_split(c):
        return c.op == 'app' and c.args[0] == 'split' and bare(c.args[1]) is env and len(c.args) >= 3 and is_const(c.args[2]) and cval(c.args[2]) == ';' and len(c.args) == 3

    whole = FALSE
    good = False
    for e, g, x, K, X, L in writes:
        kk = [(h, env_part(bare(t), is_item)) for h, t in under(K, B.AND(g, x))]
        xx = [(h, env_part(bare(t), is_item)) for h, t in under(X, B.AND(g, x))]
        src = [s for h, t in list(under(K, B.AND(g, x))) + list(under(X, B.AND(g, x))) for s in subterms(bare(t))]
        if env not in src:
            # a variable of the program itself
            names = [cval(t) for t in terms(K) if is_const(t)]
            chk.check(False, 'nothing else', e.where(), 'the variable %s is set' % ', '.join(map(str, names or [show(t) for t in terms(K)])), unknown=not names)
            continue
        bad = [t for h, (k, t) in kk + xx if k == 'bad']
        odd = [t for h, (k, t) in kk + xx if k is None]
        wrong_src = [s for s in src if s.op == 'app' and s.args[0] in ('split', 'rsplit') and bare(s.args[1]) is env and not is_split(s)]
        if wrong_src:
            chk.check(False, 'split', e.where(), 'the variables are split as %s' % show(wrong_src[0]), unknown=wrong_src[0].args[0] != 'split' or not all(is_const(a) for a in wrong_src[0].args[2:] if isinstance(a, T)))
            continue
        if bad or odd:
            chk.check(False, 'name and value', e.where(), 'the variable is read as %s' % (bad + odd)[0], unknown=not bad)
            continue
        chk.check(all(k == 'name' for h, (k, t) in kk) and all(k == 'value' for h, (k, t) in xx), 'name and value', e.where(), 'name and value are mixed up')
        its = {t for h, (k, t) in kk + xx}
        chk.check(len(its) == 1, 'name and value', e.where(), 'name and value are of different variables')
        good = True
        it = next(iter(its))
        # one write per item: a guard may only ask for the equals sign
        each = each_time(r, x if L is None else B.AND(x, TRUE))
        prem = TRUE
        for v in B.support(each):
            a = B.atom_of[v]
            if a.op in ('contained', 'substr') and any(isinstance(s, T) and is_const(s) and cval(s) == '=' for s in a.args):
                prem = B.AND(prem, B.mk(v, FALSE, TRUE))
            elif a.op == 'truthy' and any(s.op == 'app' and s.args[0] in ('partition', 'strip') or is_item(s) for s in subterms(bare(a.args[0]))):
                y = bare(a.args[0])
                while y.op == 'app' and y.args[0] in ('strip', 'rstrip', 'lstrip'):
                    y = bare(y.args[1])
                sepa = y.op == 'item' and y.args[0].op == 'app' and y.args[0].args[0] == 'partition'
                if y.op == 'item' and is_const(y.args[1]) and (cval(y.args[1]) == 0 or sepa and cval(y.args[1]) == 1) or not (y.op == 'item' and is_const(y.args[1])):
                    prem = B.AND(prem, B.mk(v, FALSE, TRUE))       # the item, its separator or its name is not empty
            elif a.op in ('eqn',) and any(is_item(s) for s in core_subterms(a)):
                pass
        base = each_time(r, L.pc) if L is not None else TRUE
        chk.implies(B.AND(prem, base), each, 'every variable', e.where(), 'a variable is left out')
        loops = ([L] if L is not None else []) + [q for q in e.loops]
        for q in loops:
            for y in deep_raws(q):
                if y.op == 'app' and y.args[0] == 'reversed' or y.op == 'app' and y.args[0] == 'slice':
                    chk.bad('every variable', e.where(), 'the variables are taken as %s' % show(y))
            for k, fact in exits(q, ('brk', 'ret')):
                chk.check(not sat(B.AND(fact, prem)), 'every variable', e.where(), 'the variables behind one are left out', unknown=guard_unknown(fact))
        gg = each_time(r, g)
        whole = B.OR(whole, gg)
        chk.check(e.i < li, 'in time', e.where(), 'the variables are set after the strategy was loaded')
    if not good:
        return
    given = truthy(env)
    need = each_time(r, B.AND(lg, given))
    no = TRUE
    for v in B.support(whole):
        a = B.atom_of[v]
        if a.op in ('truthy', 'haskey', 'nonempty') and isinstance(a.args[0], T) and bare(a.args[0]).op in ('obj', 'loopdict'):
            no = B.AND(no, B.mk(v, FALSE, TRUE))
        elif a.op in ('contained', 'substr', 'truthy') and any(is_item(s) for x in a.args if isinstance(x, T) for s in subterms(bare(x))):
            no = B.AND(no, B.mk(v, FALSE, TRUE))
        elif a.op == 'raises' and any(x in known and raised(x) == B.mk(v, FALSE, TRUE) for x in r.events):
            pass
    chk.implies(B.AND(need, no), whole, 'whenever given', w, 'the strategy is loaded without the variables that were given')


def deep_raws(L):
    out, t = [], L.raw
    n = 0
    while isinstance(t, T) and n < 8:
        out.append(t)
        n += 1
        t = bare(t)
        if t.op == 'app' and len(t.args) > 1 and isinstance(t.args[1], T) and t.args[0] in ('reversed', 'slice', 'items', 'list', 'set', 'iter', 'enumerate', 'tuple'):
            t = t.args[1]
        elif t.op in ('reversed', 'slice', 'items', 'enumerate'):
            out[-1] = mk('app', t.op, *[a for a in t.args])
            t = t.args[0]
        else:
            break
    return out


@prop('C04')
def c04_path(ctx, chk):
    chk.rule('import path', 'the entries of a PYTHONPATH given with --env are put in front of sys.path, in their order, before the strategy is loaded')
    r = start_run(ctx)
    w = 'start_task'
    op = r.sym[r.func.params[0]]
    settle(r, op)
    env = mk('attr', op, 'env', 0)
    load = [e for e in r.events if e.kind == 'opaque' and e.fn.endswith('Strategy.__init__')]
    if not load:
        raise Undecided('where the strategy is loaded is not found')
    lg, li = gor(load), min(e.i for e in load)

    def is_pp(t):
        t = bare(t)
        return t.op == 'item' and is_const(t.args[1]) and cval(t.args[1]) == 'PYTHONPATH'

    def is_entries(c):
        c = bare(c)
        return c.op == 'app' and c.args[0] == 'split' and is_pp(c.args[1]) and len(c.args) == 3 and \
            (is_const(c.args[2]) and cval(c.args[2]) == ':' or show(c.args[2]).strip("'<>") in ('os.pathsep', ':'))

    done = FALSE
    seen = 0
    for e in r.events:
        if e.kind == 'call' and isinstance(e.fn, str) and e.fn.startswith('sys.path.') or e.kind in ('setslice', 'append', 'update', 'setitem', 'delitem', 'clear') and e.recv is not None and isinstance(e.recv, T) and show(bare(e.recv)) == 'sys.path' \
                or e.kind == 'set' and e.fn == 'path' and isinstance(e.recv, T) and show(bare(e.recv)) == 'sys':
            vals = [bare(t) for a in e.args for t in terms(a)]
            pps = [s for t in vals for s in subterms(t) if is_pp(s)]
            if not pps:
                if any(env in subterms(t) for t in vals):
                    chk.undecided('in front', e.where(), 'sys.path is changed with %s' % ', '.join(map(show, vals)))
                    seen += 1
                continue
            seen += 1
            ents = [s for t in vals for s in subterms(t) if s.op == 'app' and s.args[0] in ('split', 'rsplit') and is_pp(s.args[1])]
            if not ents:
                chk.check(False, 'entries', e.where(), 'the entries are not separated: %s' % show(vals[-1]), unknown=any(s.op == 'app' and s.args[0] not in PARTS for t in vals for s in subterms(t)))
                continue
            if not all(is_entries(s) for s in ents):
                chk.check(False, 'entries', e.where(), 'the entries are split as %s' % show(ents[0]), unknown=ents[0].args[0] != 'split' or len(ents[0].args) < 3 or not is_const(ents[0].args[2]))
                continue
            chk.check(e.i < li, 'in time', e.where(), 'sys.path is changed after the strategy was loaded')
            g = each_time(r, e.g)
            if e.fn == 'sys.path.insert':
                v = bare(vals[-1])
                ok = v.op == 'elem' and is_entries_like(v.args[0], is_entries)
                if not ok:
                    chk.check(False, 'entries', e.where(), '%s is put into sys.path' % show(v), unknown=not all(x.op in ('item', 'const', 'elem', 'attr', 'sym', 'obj', 'loopdict') or x.op == 'app' and x.args[0] in PARTS for x in subterms(v)))
                    continue
                L = [q for q in e.loops if any(is_entries(s) for y in deep_raws(q) for s in subterms(bare(y)))]
                if not L:
                    chk.undecided('in front', e.where(), 'loop not understood')
                    continue
                L = L[-1]
                rev = backward(L)
                p = vals[0]
                if is_const(p) and cval(p) == 0:
                    chk.check(rev is True, 'in front', e.where(), 'the entries end up in reverse order', unknown=rev is None)
                elif p.op == 'idx' or p.op == 'loopidx':
                    chk.check(rev is False, 'in front', e.where(), 'the entries end up in reverse order', unknown=rev is None or True)
                else:
                    chk.check(False, 'in front', e.where(), 'the entries are inserted at %s' % show(p), unknown=not is_const(p))
                prem = TRUE
                for k, fact in exits(L, ('brk', 'ret')):
                    chk.check(not sat(B.AND(fact, nonempty(fact, is_entries))), 'every entry', e.where(), 'the entries behind one are left out', unknown=guard_unknown(fact))
                it = [x for x in B.support(g) if any(s.op == 'elem' and is_entries_like(s.args[0], is_entries) for s in core_subterms(B.atom_of[x]))]
                for x in it:
                    a = B.atom_of[x]
                    if a.op == 'truthy':
                        prem = B.AND(prem, B.mk(x, FALSE, TRUE))
                done = B.OR(done, B.OR(g, B.NOT(prem)))
            elif e.kind == 'setslice':
                lo = show(e.fn) if not isinstance(e.fn, str) else e.fn
                front = slice_front(e)
                v = vals[-1]
                chk.check(front is True and is_entries(v), 'in front', e.where(), 'sys.path[%s] is set to %s' % (lo, show(v)), unknown=front is None or not (is_entries(v) or is_entries_like(v, is_entries)))
                done = B.OR(done, g)
            elif e.kind == 'set':
                v = vals[-1]
                ok = v.op == 'plus' and is_entries(v.args[0]) and show(bare(v.args[1])) == 'sys.path'
                rev = v.op == 'plus' and is_entries(v.args[1])
                chk.check(ok, 'in front', e.where(), 'sys.path is set to %s' % show(v), unknown=not rev)
                done = B.OR(done, g)
            elif e.fn in ('sys.path.append', 'sys.path.extend', '+=') or e.kind in ('append', 'update'):
                chk.bad('in front', e.where(), 'the entries are put behind those of the system')
            else:
                chk.undecided('in front', e.where(), 'sys.path is changed with %s' % e.fn)
                done = B.OR(done, g)
    if not seen:
        chk.check(False, 'in front', w, 'sys.path does not get the entries of PYTHONPATH')
        return
    if done == FALSE:
        return
    given = truthy(env)
    need = each_time(r, B.AND(lg, given))
    has = TRUE
    for v in B.support(B.AND(done, need)):
        a = B.atom_of[v]
        if a.op == 'haskey' and is_const(a.args[1]) and cval(a.args[1]) == 'PYTHONPATH' or a.op == 'truthy' and is_pp(a.args[0]):
            has = B.AND(has, B.mk(v, FALSE, TRUE))
        elif a.op == 'isnone' and is_pp(a.args[0]):
            has = B.AND(has, B.mk(v, TRUE, FALSE))
        elif a.op in ('contained', 'haskey') and any(isinstance(s, T) and is_const(s) and cval(s) == 'PYTHONPATH' for s in a.args):
            has = B.AND(has, B.mk(v, FALSE, TRUE))
    chk.implies(B.AND(need, has), done, 'whenever given', w, 'the strategy is loaded without the entries of PYTHONPATH')


def is_entries_like(c, is_entries):
    c = bare(c)
    n = 0
    while n < 5 and not is_entries(c):
        n += 1
        if c.op in ('reversed', 'slice') or c.op == 'app' and c.args[0] in ('reversed', 'list', 'slice'):
            c = bare(c.args[0] if c.op != 'app' else c.args[1])
        else:
            return False
    return is_entries(c)


def backward(L):
    """does the loop go through the entries from the last to the first"""
    n = 0
    t = L.raw
    for _ in range(6):
        t = bare(t)
        if t.op == 'reversed' or t.op == 'app' and t.args[0] == 'reversed':
            n += 1
            t = t.args[0] if t.op != 'app' else t.args[1]
        elif t.op == 'slice' or t.op == 'app' and t.args[0] == 'slice':
            a = t.args if t.op == 'slice' else t.args[1:]
            lo, hi, st = [x if not isinstance(x, T) else (cval(x) if is_const(x) else x) for x in list(a[1:]) + [None] * (4 - len(a))]
            if lo is not None or hi is not None or st not in (-1, 1, None):
                return None
            n += st == -1
            t = a[0]
        elif t.op == 'app' and t.args[0] in ('list', 'set', 'iter', 'tuple'):
            t = t.args[1]
        elif t.op == 'app' and t.args[0] == 'split':
            return bool(n % 2)
        else:
            return None
    return None


def nonempty(fact, is_entries):
    g = TRUE
    for v in B.support(fact):
        a = B.atom_of[v]
        if a.op == 'truthy' and bare(a.args[0]).op == 'elem':
            g = B.AND(g, B.mk(v, FALSE, TRUE))
    return g


def slice_front(e):
    """does the slice assignment put its value in front of what is there"""
    x = getattr(e, 'extra', None)
    if not isinstance(x, tuple) or '?' in x or x[2] is not None:
        return None
    return x[0] in (None, 0) and x[1] == 0


@prop('C04')
def c04_cli(ctx, chk):
    cli_rule(ctx, chk, 'start_task', {'env': (('-e', '--env'), None)})


# ---------------------------------------------------------------- C05: options and the account
def look(r, heap, d, key, g):
    """[(guard, V or None)] for the entry key of the dict d; None: no entry"""
    it = r.interp
    it.mute += 1
    try:
        out = []
        for h, v in it.dict_lookup(d, const(key), _mkst(heap, g)):
            h = B.AND(h, g)
            if sat(h):
                out.append((h, v if isinstance(v, V) else None))
        return out
    finally:
        it.mute -= 1


def options_run(ctx):
    m = ctx.method('Strategy', 'set_options')
    if getattr(ctx, '_opt_run', None) is None:
        kw = mk('sym', 'options')
        r = ctx.run(m, opaque=[ctx.method('Account', 'setup')], kw={'**': [one(kw)]})
        r.kw = kw
        ctx._opt_run = r
    return ctx._opt_run


def handed(ctx, r):
    """[(where, heap, guard, dict)] of the options at each component"""
    out = []
    for e in r.events:
        if e.kind == 'opaque' and e.fn.endswith('Account.setup'):
            v = e.args[1] if len(e.args) > 1 else (e.kw or {}).get('options')
            if v is None:
                raise Undecided('options of Account.setup not found')
            out.append((e.where(), e.heap, e.g, v, 'account'))
    me = r.sym[r.func.params[0]]
    f = single(field(r, {}, me, 'options'))
    if f is None or f.op != 'attr':
        raise Undecided('where the strategy keeps its options is not found')
    sets = [e for e in evs(r, 'set', f.args[1]) if e.recv is me]
    ends = [(x.heap, x.g) for x in r.events if x.kind == 'opaque' and x.fn.endswith('Account.setup')]
    ends.append((r.st.heap, B.AND(r.st.pc, B.NOT(B.any(g for _, g in ends)))))
    for e in sets:
        for heap, g in ends:
            if sat(B.AND(e.g, g)):
                out.append(('Strategy.options', heap, B.AND(e.g, g), e.args[0], 'strategy'))
    r.kept = gor(sets)
    return out


DIRS = ('os.path.abspath', 'os.path.expanduser', 'os.path.realpath', 'os.path.normpath')


@prop('C05')
def c05_options(ctx, chk):
    chk.rule('options', 'every option given to set_options reaches strategy and account under its name: unchanged, or converted to the documented type')
    r = options_run(ctx)
    kw = r.kw
    w = r.func.qual
    names = ('use_account', 'sync_balance', 'sync_order')
    hs = handed(ctx, r)
    chk.implies(r.st.pc, r.kept, 'options of the strategy', w, 'the strategy does not keep the options')
    if not any(h[4] == 'account' for h in hs):
        chk.check(False, 'account', w, 'the account is not set up with the options', unknown=not any(e.kind == 'opaque' for e in r.events))
    for where, heap, g0, v, who in hs:
        for g, d in under(v, g0):
            if d is kw:
                chk.undecided('options of the %s' % who, where, 'the options are handed on as they are')
                continue
            if d.op != 'obj':
                chk.check(False, 'options of the %s' % who, where, 'the %s gets %s' % (who, show(d)), unknown=not (is_const(d) or d.op == 'attr' and typed(r, d.args[0], ctx.cls('Context'))))
                continue
            # an option of the broker interface
            for key in ('account_no', 'order_dir', 'some option'):
                entry(chk, r, kw, heap, d, key, g, where, who, lambda k: [(TRUE, k)])
            for key in names:
                entry(chk, r, kw, heap, d, key, g, where, who, lambda k: [(truthy(k), const(True)), (B.NOT(truthy(k)), const(False))])
            fl = lambda k: [(TRUE, mk('app', 'float', k))]
            entry(chk, r, kw, heap, d, 'sync_internal', g, where, who, fl)
            for key in ('market_period', 'sync_period'):
                periods(chk, r, kw, heap, d, key, g, where, who)
            hk = atom('haskey', kw, const('runtime_dir'))
            if who == 'account':
                cfg = [s for e in r.events for t in [x for a in e.args for x in terms(a)] for s in subterms(t) if s.op == 'attr' and s.args[1] == 'RUNTIME_DIR']
                if not cfg:
                    chk.undecided('runtime_dir', where, 'the configured RUNTIME_DIR is not used')
                    continue
                base = {'given': (hk, mk('item', kw, const('runtime_dir'))), 'configured': (B.NOT(hk), cfg[0])}
                for nm, (h, t) in base.items():
                    for h2, x in look(r, heap, d, 'runtime_dir', B.AND(g, h)):
                        if x is None:
                            chk.bad('runtime_dir (%s)' % nm, where, 'the account does not get the directory')
                            continue
                        for h3, y in under(x, h2):
                            path_of(chk, y, t, 'runtime_dir (%s)' % nm, where)
    # the directory exists
    mkd = [e for e in r.events if e.kind == 'call' and e.fn in ('os.makedirs', 'os.mkdir', '.mkdir')]
    chk.rule('directory', 'the runtime directory is made, with its parents, unless it is there already, before the account is set up')
    if not mkd:
        chk.check(False, 'made', w, 'the runtime directory is not made', unknown=not any(e.kind == 'set' for e in r.events))
    isd = FALSE
    for v, a in enumerate(list(B.atom_of)):
        if isinstance(a, T) and a.op == 'truthy' and isinstance(a.args[0], T) and a.args[0].op in ('res', 'app') and any(x in show(a.args[0]) for x in ('isdir', 'os.path.exists')):
            isd = B.OR(isd, B.mk(v, FALSE, TRUE))
    if mkd:
        for e in mkd:
            if e.fn == 'os.mkdir':
                chk.bad('made', e.where(), 'only the last directory of the path is made')
            for g, t in under(e.args[0], e.g) if e.args else []:
                src = [s for s in subterms(t) if s.op == 'item' and s.args[0] is kw or s.op == 'attr' and s.args[1] == 'RUNTIME_DIR']
                if src:
                    path_of(chk, t, src[-1], 'made', e.where())
                else:
                    chk.undecided('made', e.where(), show(t))
        chk.implies(r.st.pc, B.OR(gor(mkd), isd), 'made', mkd[0].where(), 'the runtime directory is not made although it does not exist')
        for e in r.events:
            if e.kind == 'opaque' and e.fn.endswith('Account.setup'):
                chk.implies(e.g, B.OR(B.any(m.g for m in mkd if m.i < e.i), isd), 'in time', e.where(), 'the account is set up before the runtime directory is made')


def path_of(chk, y, t, inst, where):
    """y is abspath(expanduser(t))"""
    n = []
    z = y
    while z.op == 'app' and z.args[0] in DIRS and len(z.args) == 2:
        n.append(z.args[0].split('.')[-1])
        z = z.args[1]
    if z is t:
        sub = [x for x in n if x not in ('normpath',)]
        ab = [i for i, x in enumerate(n) if x in ('abspath', 'realpath')]
        eu = [i for i, x in enumerate(n) if x == 'expanduser']
        good = bool(ab) and bool(eu) and max(eu) > max(ab)      # inner comes later in n
        good = good or bool(ab) and bool(eu) and max(eu) > min(ab) and not any(i > max(eu) for i in ab)
        chk.check(good, inst, where, 'the directory is %s' % show(y), unknown=False)
    else:
        okterms = all(s.op in ('item', 'const', 'attr', 'sym', 'glob', 'single', 'cls') or s.op == 'app' and s.args[0] in DIRS for s in subterms(y))
        chk.check(False, inst, where, 'the directory is %s' % show(y), unknown=not okterms)


def entry(chk, r, kw, heap, d, key, g, where, who, conv):
    hk = atom('haskey', kw, const(key))
    k = mk('item', kw, const(key))
    inst = '%s: %s' % (who, key)
    gg = B.AND(g, hk)
    if not sat(gg):
        chk.undecided(inst, where, 'the option is never given')
        return
    for h, v in look(r, heap, d, key, gg):
        if v is None:
            chk.check(False, inst, where, 'the option %s does not reach the %s; failing case: %s' % (key, who, brief(h, 1, 300)), unknown=guard_unknown(h))
            continue
        for c, want in conv(k):
            h2 = B.AND(h, c)
            if sat(h2):
                ok = all(t is want or isinstance(t, T) and bare_const(t, want) for _, t in under(v, h2))
                if not ok and want is not k and is_const(want):
                    # bool(option): the option itself is as true as its bool
                    got = truthv(r, v, heap)
                    same = B.AND(h2, got if cval(want) else B.NOT(got))
                    ok = not sat(B.AND(h2, B.NOT(same)))
                    if ok and not all(is_const(t) for _, t in under(v, h2)):
                        # not a bool: harmless only when it is used as a condition
                        chk.check(False, inst, where, 'the option %s reaches the %s as %s, not as a bool' % (key, who, ', '.join(show(t) for _, t in under(v, h2))), unknown=True)
                        continue
                chk.check(ok, inst, where, 'the option %s reaches the %s as %s' % (key, who, ', '.join(show(t) for _, t in under(v, h2))), unknown=any(has_unknown(t) for _, t in under(v, h2)))
    # options that were not given are not made up
    for h, v in look(r, heap, d, key, B.AND(g, B.NOT(hk))):
        if v is not None and key not in ('use_account',):
            chk.check(all(is_const(t) and cval(t) is None for _, t in under(v, h)), inst, where, 'the option %s is set to %s although it was not given' % (key, ', '.join(show(t) for _, t in under(v, h))), unknown=any(not is_const(t) for _, t in under(v, h)))


def bare_const(t, want):
    return is_const(t) and is_const(want) and cval(t) == cval(want) and type(cval(t)) is type(cval(want))


def periods(chk, r, kw, heap, d, key, g, where, who):
    hk = atom('haskey', kw, const(key))
    k = mk('item', kw, const(key))
    inst = '%s: %s' % (who, key)
    gg = B.all([g, hk, truthy(k)])
    if not sat(gg):
        return chk.undecided(inst, where, 'the option is never given')
    for L in {L for e in r.events for L in e.loops if L.raw is not None and bare(deep_raws(L)[-1]) is k}:
        for kx, fact in exits(L, ('brk', 'ret')):
            chk.check(not sat(fact), '%s: every period' % inst, where, 'the periods behind one are left out', unknown=guard_unknown(fact))
    for h, v in look(r, heap, d, key, gg):
        if v is None:
            chk.check(False, inst, where, 'the option %s does not reach the %s' % (key, who), unknown=guard_unknown(h))
            continue
        for h2, t in under(v, h):
            if t is k:
                chk.bad(inst, where, 'the times of %s reach the %s as they were given' % (key, who))
                continue
            try:
                segs = r.interp.segs(t, _mkst(heap, h2))
            except Exception:
                segs = None
            if not segs or any(s[0] != 'each' for s in segs) or len(segs) != 1:
                chk.check(False, inst, where, 'the periods are %s' % show(t), unknown=True)
                continue
            _, sg, L, body = segs[0][:4]
            src = unwrap(bare(L.raw))[0] if L.raw is not None else None
            raws = deep_raws(L)
            if src is not k and bare(raws[-1]) is not k:
                chk.check(False, inst, where, 'the periods are those of %s' % show(L.raw), unknown=src is None or has_unknown(src) or not (src.op == 'item' and src.args[0] is kw))
                continue
            if any(x.op == 'app' and x.args[0] in ('reversed', 'slice') for x in raws[:-1]):
                chk.bad(inst, where, 'the periods are taken as %s' % show(L.raw))
            el = None
            items = seg_items(r, body)
            if items is None or len(items) != 1:
                chk.undecided(inst, where, 'periods not understood')
                continue
            ig, iv = items[0]
            chk_period(chk, r, heap, inst, where, k, L, B.AND(h2, sg), ig, iv, key)
    # without periods nothing is made up
    for h, v in look(r, heap, d, key, B.all([g, hk, B.NOT(truthy(k))])):
        if v is not None:
            got = truthv(r, v, heap)
            chk.check(not sat(B.AND(h, got)), inst, where, 'periods are made up when the option is empty', unknown=guard_unknown(got))


def seg_items(r, body):
    out = []
    for s in body:
        if s[0] != 'e':
            return None
        out.append((s[1], s[2]))
    return out


def chk_period(chk, r, heap, inst, where, k, L, g, ig, iv, key):
    base = each_time(r, L.pc)
    for h, p in under(iv, ig):
        segs = r.interp.segs(p, _mkst(heap, h))
        if not segs or len(segs) != 2 or any(s[0] != 'e' for s in segs):
            chk.check(False, inst, where, 'a period becomes %s' % show(p), unknown=True)
            continue
        for i, s in enumerate(segs):
            for h2, t in under(s[2], B.AND(h, s[1])):
                part = [x for x in subterms(t) if x.op == 'item' and x.args[0].op == 'elem' and bare(x.args[0].args[0]) is k and is_const(x.args[1])]
                ix = {cval(x.args[1]) % 2 if isinstance(cval(x.args[1]), int) else None for x in part}
                nm = ('start', 'end')[i]
                if len(ix) != 1:
                    chk.check(False, '%s %s' % (inst, nm), where, 'it is %s' % show(t), unknown=not is_const(t))
                    continue
                chk.check(ix == {i}, '%s %s' % (inst, nm), where, 'the %s of a period is %s' % (nm, show(t)))
                u = part[-1]
                e = u
                tm = atom('isinst', e, 'datetime.time')
                if t is e:
                    # as it was given: only times
                    hh = B.AND(h2, B.NOT(is_time(r, e)))
                    chk.check(not sat(hh), '%s %s' % (inst, nm), where, 'a text stays a text', unknown=guard_unknown(hh))
                else:
                    fmt = [cval(x) for x in subterms(t) if is_const(x) and isinstance(cval(x), str) and '%' in cval(x)]
                    okf = fmt == ['%H:%M:%S'] and 'strptime' in show(t) or 'fromisoformat' in show(t)
                    chk.check(okf, '%s %s' % (inst, nm), where, 'the text is read as %s' % show(t), unknown=not fmt)
                    cut = [x for x in subterms(t) if x.op == 'app' and (x.args[0] == 'replace' and any(isinstance(y, T) and y.op == 'kw' and y.args[0] in ('hour', 'minute', 'second') for y in x.args[2:])
                                                                        or x.args[0] == 'datetime.time' and not any('second' in show(y) for y in x.args[1:]))]
                    chk.check(not cut, '%s %s whole' % (inst, nm), where, 'a part of the time is lost: %s' % show(t))
    # both parts of every period; a period that has not two parts is refused
    two = B.any(B.mk(v, FALSE, TRUE) for v in B.support(ig) if len_two(B.atom_of[v]))
    lens = [v for v in B.support(B.AND(ig, L.end_pc if getattr(L, 'end_pc', None) is not None else TRUE)) if len_atom(B.atom_of[v])]
    unp = B.any(e.g for e in evs(r, 'unpack', '2') if L in e.loops and e.recv.op == 'elem' and bare(e.recv.args[0]) is k)
    if two != FALSE:
        chk.implies(ig, B.OR(two, unp), '%s: two parts' % inst, where, 'a period with more than two parts is accepted')
        exc = B.any(fact for kx, fact in exits(L, ('exc',)))
        chk.implies(B.all([base, B.NOT(two)]), B.OR(each_time(r, exc), each_time(r, unp)), '%s: two parts' % inst, where, 'a period that has not two parts is passed over')
    else:
        chk.implies(ig, unp, '%s: two parts' % inst, where, 'a period with more than two parts is accepted', ) if not lens else chk.undecided('%s: two parts' % inst, where, 'test of the length not understood')
    good = TRUE
    for v in B.support(ig):
        a = B.atom_of[v]
        if len_two(a):
            good = B.AND(good, B.mk(v, FALSE, TRUE))
        elif a.op == 'isinst':
            pass
        elif a.op == 'raises':
            good = B.AND(good, B.mk(v, TRUE, FALSE))
    types = TRUE
    for v in B.support(ig):
        a = B.atom_of[v]
        if a.op == 'isinst' and isinstance(a.args[0], T) and a.args[0].op == 'item':
            types = B.AND(types, B.OR(is_time(r, a.args[0]), is_text(r, a.args[0])))
    chk.implies(B.all([base, good, types]), each_time(r, ig), '%s: every period' % inst, where, 'a period is left out')
    for kx, fact in exits(L, ('brk', 'ret')):
        chk.check(not sat(B.AND(fact, base)), '%s: every period' % inst, where, 'the periods behind one are left out', unknown=guard_unknown(fact))


def is_time(r, e):
    return B.any(B.mk(v, FALSE, TRUE) for v, a in enumerate(list(B.atom_of)) if isinstance(a, T) and a.op == 'isinst' and a.args[0] is e and str(a.args[1]).endswith('time'))


def is_text(r, e):
    return B.any(B.mk(v, FALSE, TRUE) for v, a in enumerate(list(B.atom_of)) if isinstance(a, T) and a.op == 'isinst' and a.args[0] is e and str(a.args[1]).split('.')[-1] == 'str')


def len_atom(a):
    return a.op in ('eqn', 'lt') and any(isinstance(s, T) and s.op == 'app' and s.args[0] == 'len' or isinstance(s, T) and s.op == 'len' for s in core_subterms(a))


def len_two(a):
    return a.op == 'eqn' and len_atom(a) and (a.args[1] in (2, -2) or '==2' in show(a))


# ---- which account, which broker interface
@prop('C06')
def c06_account(ctx, chk):
    chk.rule('account', 'the account is set up, exactly once and before set_options returns, when use_account (or, when it is not given, SETUP_ACCOUNT) is true, and not otherwise')
    r = options_run(ctx)
    kw = r.kw
    w = r.func.qual
    setup = [e for e in r.events if e.kind == 'opaque' and e.fn.endswith('Account.setup')]
    if not setup:
        odd = [e for e in r.events if e.kind in ('callback', 'opaque', 'call') and any(isinstance(t, T) and typed(r, t, ctx.cls('Account')) for a in list(e.args) + list((e.kw or {}).values()) for t in terms(a))]
        chk.check(False, 'set up', w, 'the account is not set up', unknown=bool(odd))
        return
    hk = atom('haskey', kw, const('use_account'))
    k = mk('item', kw, const('use_account'))
    cfg = {s for e in r.events for t in [x for a in e.args for x in terms(a)] for s in subterms(t) if s.op == 'attr' and s.args[1] == 'SETUP_ACCOUNT'}
    for v, a in enumerate(list(B.atom_of)):
        if isinstance(a, T) and a.op == 'truthy' and isinstance(a.args[0], T) and a.args[0].op == 'attr' and a.args[0].args[1] == 'SETUP_ACCOUNT':
            cfg.add(a.args[0])
    if len(cfg) > 1:
        return chk.undecided('set up', w, 'more than one SETUP_ACCOUNT')
    use = B.AND(hk, truthy(k))
    if cfg:
        use = B.OR(use, B.AND(B.NOT(hk), truthy(next(iter(cfg)))))
    else:
        chk.check(False, 'SETUP_ACCOUNT', w, 'the configuration SETUP_ACCOUNT is not used when use_account is not given')
    G = gor(setup)
    chk.implies(B.AND(r.st.pc, use), G, 'set up', w, 'set_options returns without a set up account although it is to be used')
    for e in setup:
        chk.implies(e.g, use, 'not set up', e.where(), 'the account is set up although it is not to be used')
    once(chk, setup, 'once', 'the account is set up more than once')
    C = ctx.cls('Context')
    cx = ctx_of(ctx, r)
    f = single(field(r, {}, cx, 'use_account'))
    if f is None or f.op != 'attr':
        raise Undecided('where the context keeps use_account is not found')
    sets = [e for e in evs(r, 'set', f.args[1]) if e.recv is cx]
    chk.implies(r.st.pc, gor(sets), 'use_account', w, 'the context is not told whether the account is used')
    for e in setup:
        chk.implies(e.g, B.any(x.g for x in sets if x.i < e.i), 'use_account', e.where(), 'the account cannot be used while it is set up')
    for x in sets:
        last = B.AND(x.g, B.NOT(B.any(y.g for y in sets if y.i > x.i)))
        got = truthv(r, x.args[0], x.heap)
        chk.implies(B.AND(last, use), got, 'use_account', x.where(), 'the account cannot be used although it is set up')
        chk.implies(B.AND(last, B.NOT(use)), B.NOT(got), 'use_account', x.where(), 'the account counts as usable although it is not set up')
    chk.rule('broker interface', 'the broker interface is a new instance of the class named by TRADE_GATE (read after the custom configuration was loaded); it, the account and the portfolio of this account are in place when the account is set up')
    gates = [e for e in r.events if e.kind == 'callback' and e.recv is not None and 'TRADE_GATE' in show(e.recv)]
    gates += [e for e in r.events if e.kind == 'callback' and e not in gates and e.recv is not None and any(s.op == 'attr' and s.args[1] == 'TRADE_GATE' for s in subterms(e.recv))]
    if not gates:
        chk.undecided('class', w, 'where the broker interface is made is not found')
    for e in gates:
        c = e.recv
        okc = c.op == 'app' and c.args[0] == 'getattr' or c.op == 'getattr'
        a = list(c.args[1:] if c.op == 'app' else c.args)
        mod, nm = (a + [None, None])[:2]
        imp = [x for x in r.events if x.kind == 'call' and x.fn in ('importlib.import_module', 'builtins.__import__') and x.res is mod]
        def part(t, i):
            return isinstance(t, T) and t.op == 'item' and is_const(t.args[1]) and t.args[0].op == 'app' and t.args[0].args[0] in ('rsplit', 'rpartition') and len(t.args[0].args) > 2 and is_const(t.args[0].args[2]) and cval(t.args[0].args[2]) == '.' \
                and cval(t.args[1]) in ((0, -2 if t.args[0].args[0] == 'rsplit' else -3) if i == 0 else (-1, 1 if t.args[0].args[0] == 'rsplit' else 2)) and (t.args[0].args[0] == 'rpartition' or len(t.args[0].args) > 3 and is_const(t.args[0].args[3]) and cval(t.args[0].args[3]) == 1) \
                and t.args[0].args[1].op == 'attr' and t.args[0].args[1].args[1] == 'TRADE_GATE'
        good = okc and imp and part(nm, 1) and all(part(t, 0) for t in terms(imp[0].args[0]))
        known = okc and imp and isinstance(nm, T) and all(s.op in ('item', 'const', 'attr', 'single', 'obj', 'app') and (s.op != 'app' or s.args[0] in PARTS) for t in [nm] + list(terms(imp[0].args[0])) for s in subterms(t) if s.op not in ('cls',))
        chk.check(bool(good), 'class', e.where(), 'the class is %s' % show(c), unknown=not known)
        if good:
            for t in {x for x in subterms(c) if x.op == 'attr' and x.args[1] == 'TRADE_GATE'}:
                for g, now in under(field(r, e.heap, t.args[0], 'TRADE_GATE'), e.g):
                    chk.check(now is t, 'class', e.where(), 'the class is taken from TRADE_GATE as it was before the custom configuration was loaded', unknown=has_unknown(now))
        chk.check(not e.args and not e.kw, 'class', e.where(), 'the broker interface is made with arguments', unknown=True)
    if gates:
        once(chk, gates, 'one instance', 'more than one broker interface is made')
    lc = [e for e in r.events if e.kind == 'invoke' and e.fn.endswith('account.config.setup_account_config')]
    cfgt = field(r, {}, cx, 'config')
    given = truthv(r, cfgt)
    for e in gates + setup:
        inst = 'custom configuration'
        if not lc:
            chk.check(False, inst, w, 'the custom account configuration is never loaded', unknown=not any(x.kind == 'invoke' for x in r.events))
            break
        pre = B.any(x.g for x in lc if x.i < e.i)
        chk.implies(B.AND(e.g, given), pre, inst, e.where(), 'the custom account configuration was not loaded before')
        ev = [x for x in r.events if x.kind == 'call' and x.fn in ('importlib.import_module',)]
        for x in lc:
            for g, t in under(x.args[0], x.g) if x.args else []:
                chk.check(t in terms(cfgt), inst, x.where(), 'the configuration is loaded from %s' % show(t), unknown=has_unknown(t))
    for e in setup:
        for nm in ('account', 'trade_gate', 'portfolio'):
            v = field(r, e.heap, cx, nm)
            for g, t in under(v, e.g):
                if nm == 'account':
                    ok = e.args and t in terms(e.args[0])
                elif nm == 'trade_gate':
                    ok = any(t is x.res for x in gates)
                else:
                    ok = t.op == 'obj' and typed(r, t, ctx.cls('Portfolio'))
                chk.check(bool(ok), 'in place: %s' % nm, e.where(), 'the %s is %s when the account is set up' % (nm, show(t)), unknown=not (is_const(t) or t.op == 'attr'))
        for x in evs(r, 'new'):
            if isinstance(x.res, T) and (typed(r, x.res, ctx.cls('Portfolio'))):
                a = x.args[0] if x.args else next(iter((x.kw or {}).values()), None)
                if a is not None:
                    chk.check(all(t in terms(e.args[0]) for t in terms(a)), 'in place: portfolio', x.where(), 'the portfolio is that of %s' % ', '.join(map(show, terms(a))), unknown=any(t.op != 'obj' for t in terms(a)))
    chk.rule('refused', 'with the account used, InvalidParam is raised without account_no, ConfigError without TRADE_GATE, before a broker interface is made; never otherwise')
    no = atom('haskey', kw, const('account_no'))
    ip = raises_of(r, 'InvalidParam')
    ce = raises_of(r, 'ConfigError')
    tg = {a.args[0] for v, a in enumerate(list(B.atom_of)) if isinstance(a, T) and a.op == 'truthy' and isinstance(a.args[0], T) and a.args[0].op == 'attr' and a.args[0].args[1] == 'TRADE_GATE'}
    own = {t.args[0] for t in tg}

    def set_now(e):
        return B.any(truthv(r, field(r, e.heap, o, 'TRADE_GATE')) for o in own)
    for e in gates:
        chk.implies(e.g, no, 'account_no', e.where(), 'a broker interface is made without account_no')
        if not tg:
            chk.check(False, 'TRADE_GATE', e.where(), 'an empty TRADE_GATE is not refused', unknown=bool(ce))
        else:
            chk.implies(e.g, set_now(e), 'TRADE_GATE', e.where(), 'a broker interface is made without TRADE_GATE')
    for e in ip:
        chk.implies(e.g, B.AND(use, B.NOT(no)), 'account_no', e.where(), 'InvalidParam is raised although account_no is given or the account is not used')
    for e in ce:
        if tg:
            chk.implies(e.g, B.AND(use, B.NOT(set_now(e))), 'TRADE_GATE', e.where(), 'ConfigError is raised although TRADE_GATE is set')


def ctx_of(ctx, r):
    C = ctx.cls('Context')
    cands = {t for e in r.events for t in [e.recv] if isinstance(t, T) and typed(r, t, C)}
    for e in r.events:
        if e.kind == 'invoke' and e.args:
            for t in terms(e.args[0]):
                if isinstance(t, T) and typed(r, t, C):
                    cands.add(t)
    if len(cands) != 1:
        raise Undecided('the context is not found')
    return next(iter(cands))


@prop('C06')
def c06_unused(ctx, chk):
    chk.rule('unused', 'account, broker interface and portfolio can be used only when the account is used; otherwise InvalidCall is raised')
    C = ctx.cls('Context')
    ci = ctx.run(ctx.method(C, '__init__'))
    v0 = truthv(ci, field(ci, ci.st.heap, ci.sym[ci.func.params[0]], 'use_account'))
    chk.check(not sat(B.AND(ci.st.pc, v0)), 'at first', ci.func.qual, 'the account counts as usable before anything set it up', unknown=guard_unknown(v0))
    for nm in ('account', 'trade_gate', 'portfolio'):
        m = C.find(nm)
        if m is None:
            chk.undecided(nm, 'Context', 'not found')
            continue
        r = ctx.run(m)
        me = r.sym[m.params[0]]
        ua = truthv(r, field(r, {}, me, 'use_account'))
        w = m.qual
        chk.implies(r.st.pc, ua, nm, w, 'the %s is returned although the account is not used' % nm)
        for e in raises_of(r, 'InvalidCall'):
            chk.implies(e.g, B.NOT(ua), nm, e.where(), 'the %s cannot be used although the account is' % nm)
        other = [e for e in evs(r, 'raise') if e not in raises_of(r, 'InvalidCall')]
        chk.check(not other, nm, w, 'another error is raised', unknown=True)
