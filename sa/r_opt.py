"""Rules of the defaults and of the command line (C10, C11)."""
import ast
from .r_api import *
from .r_gate import setup_run, GATE
from .r_sched import attr_stores
from . import core

CHECKS = {}


def prop(pid):
    def deco(f):
        CHECKS.setdefault(pid, []).append(f)
        return f
    return deco


# ---------------------------------------------------------------- C10 defaults
SCHED = (('EVENT_DAYS_COUNT', 365), ('ENABLE_HISTORY_START', False), ('SETUP_ACCOUNT', True))
ACCT = (('SYNC_BALANCE', True), ('SYNC_ORDER', True), ('SYNC_INTERNAL', 5), ('TRADE_GATE', 'jqtrade.account.trade_gate.AnXinDMATradeGate'))
PERIODS = ((9 * 3600 + 1800, 11 * 3600 + 1800), (13 * 3600, 15 * 3600))
OPTIONS = (('order_dir', 'C:\\Ax\\国投OneQuant\\csvTemplate\\DMA算法'), ('counter_type', 'UM0'), ('algo_type', 'DMA'), ('wait_lock_internal', 0.05),
           ('wait_lock_time_out', 5), ('ignore_error_line', True), ('file_encoding', None))


def seconds(t):
    """the time of day of a term in seconds, None: not known"""
    if is_strc(t):
        p = cval(t).split(':')
        if len(p) in (2, 3) and all(x.isdigit() for x in p):
            return sum(int(x) * k for x, k in zip(p, (3600, 60, 1)))
        return None
    if t.op in ('app', 'const') and t.op == 'app' and str(t.args[0]).endswith('datetime.time') and all(isinstance(a, T) and is_numc(a) for a in t.args[1:]) and len(t.args) <= 4:
        return sum(cval(a) * k for a, k in zip(t.args[1:], (3600, 60, 1)))
    return None


def fields_set(ctx, cname):
    r = ctx.run(ctx.cls(cname).find('__init__'))
    me = r.sym[r.func.params[0]]
    return r, {k[1]: v for k, v in r.st.heap.items() if k[0] is me and isinstance(v, V)}


def default(ctx, chk, r, fs, cname, name):
    """leaves of the default of a configuration value"""
    v = fs.get(name)
    if v is None:
        v = r.interp.class_attr(ctx.cls(cname), name, r.st)
    if v is None:
        chk.check(False, name, ctx.cls(cname).name, 'the configuration has no %s' % name, unknown=any(k in ('update', 'opaque', 'callback') for k in {e.kind for e in r.events}))
        return []
    return [(g, t) for g, t in v.ls if sat(B.AND(g, r.st.pc))]


def constant(t):
    """(True, value) of a constant term"""
    if t is NONE:
        return True, None
    if is_const(t):
        return True, cval(t)
    return False, None


def same(a, b):
    return type(a) is type(b) and a == b or isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool) and a == b


@prop('C10')
def c10_config(ctx, chk):
    chk.rule('config', 'the configuration holds the documented defaults and only a configuration file changes them')
    for cname, spec in (('SchedulerConfig', SCHED), ('AccountConfig', ACCT)):
        r, fs = fields_set(ctx, cname)
        w = r.func.qual
        for name, want in spec:
            for g, t in default(ctx, chk, r, fs, cname, name):
                known, v = constant(t)
                chk.check(known and same(v, want), name, w, 'the default of %s is %s, documented is %r' % (name, show(t), want), unknown=not known)
        if cname == 'SchedulerConfig':
            for g, t in default(ctx, chk, r, fs, cname, 'MARKET_PERIOD'):
                es = r.interp.known_elems(t, r.st) if r.interp.is_seq(t) else None
                got = []
                for e in es or []:
                    for h, p in e.ls:
                        q = r.interp.known_elems(p, r.st) if r.interp.is_seq(p) else None
                        got.append(tuple(seconds(z) for x in q or [] for _, z in x.ls) if q is not None else None)
                unk = es is None or any(p is None or None in p for p in got)
                chk.check(not unk and tuple(got) == PERIODS, 'MARKET_PERIOD', w, 'the default of MARKET_PERIOD is %s' % (got if es is not None else show(t)), unknown=unk)
            for g, t in default(ctx, chk, r, fs, cname, 'RUNTIME_DIR'):
                ops = []
                while t.op == 'app' and len(t.args) == 2 and t.args[0] in ('os.path.abspath', 'os.path.expanduser', 'os.path.realpath', 'os.path.normpath'):
                    ops.append(t.args[0][8:])
                    t = t.args[1]
                okd = is_strc(t) and cval(t) in ('~/jqtrade', '~/jqtrade/') and (not ops or ops[-1] == 'expanduser')
                chk.check(okd, 'RUNTIME_DIR', w, 'the default of RUNTIME_DIR is %s of %s' % (' of '.join(ops) or 'the path', show(t)), unknown=not is_strc(t))
        else:
            for g, t in default(ctx, chk, r, fs, cname, 'SYNC_PERIOD'):
                es = r.interp.known_elems(t, r.st) if t is not NONE and r.interp.is_seq(t) else None
                known, v = constant(t)
                chk.check(es == [] or known and not v, 'SYNC_PERIOD', w, 'the default of SYNC_PERIOD is %s' % show(t), unknown=es is None and not known)
        c = ctx.cls(cname)
        for f, n, where in attr_stores(ctx, {x for x, _ in spec} | {'MARKET_PERIOD', 'RUNTIME_DIR', 'SYNC_PERIOD'}, c):
            if f is not r.func:
                chk.check(False, 'kept', where, '%s.%s is changed here' % (cname, n.attr), unknown=f.cls is c)


@prop('C10')
def c10_gate(ctx, chk):
    chk.rule('gate', 'an option of the broker interface that is given replaces its documented default, and nothing else does')
    s = setup_run(ctx)
    me, options = s.sym[s.func.params[0]], s.sym[s.func.params[1]]
    w = s.func.qual
    for opt, want in OPTIONS:
        hk = atom('haskey', options, const(opt))
        item = mk('item', options, const(opt))
        n = 0
        for (o, name), v in s.st.heap.items():
            if o is not me or not isinstance(v, V) or not any(t is item for g, t in v.ls):
                continue
            n += 1
            g = s.st.pc
            chk.value(v, B.AND(g, hk), item, 'option %s' % opt, w, '%s is not the option %s' % (name, opt))
            for h, t in under(v, B.AND(g, B.NOT(hk))):
                if opt == 'file_encoding':
                    okd = t.op in ('app', 'res', 'ext') and 'sys.getfilesystemencoding' in [str(a) for a in t.args]
                    chk.check(okd, 'default %s' % opt, w, 'the default of %s is %s' % (opt, show(t)), unknown=not constant(t)[0] and not (t.op == 'app' and t.args[0] in ('sys.getdefaultencoding', 'locale.getpreferredencoding')))
                else:
                    known, x = constant(t)
                    chk.check(known and same(x, want), 'default %s' % opt, w, 'the default of %s is %s, documented is %r' % (opt, show(t), want),
                              unknown=not known and not any(x.op == 'item' and x.args[0] is options and x is not item for x in subterms(t)))
        if not n:
            named_ = any(isinstance(x, ast.Constant) and x.value == opt for x in ast.walk(s.func.module.tree))
            chk.check(False, 'option %s' % opt, w, 'the option %s is not used' % opt, unknown=named_)


# ---------------------------------------------------------------- C11 command line
# option: (flags, how it is given, must be given)
COMMANDS = {
    'start_task': (('name', ('-n', '--name'), 'value', True), ('code', ('-c', '--code'), 'value', True), ('out', ('-o', '--out'), 'value', False),
                   ('env', ('-e', '--env'), 'value', False), ('config', ('--config',), 'value', False), ('debug', ('--debug',), 'flag', False)),
    'get_tasks': (),
    'stop_task': (('name', ('-n', '--name'), 'value', False), ('pid', ('-p', '--pid'), 'int', False), ('all', ('--all',), 'flag', False), ('force', ('-f', '--force'), 'flag', False)),
}


def kwval(e, name):
    """(given, constant?, value or term) of a keyword argument"""
    v = e.kw.get(name)
    if not isinstance(v, V):
        if '**' in e.kw:
            return True, False, None
        return False, True, None
    ts = terms(v)
    if len(ts) == 1:
        known, x = constant(ts[0])
        return True, known, x if known else ts[0]
    return True, False, None


def leaves(e, name):
    """(constant?, value or term) of every value a keyword argument may have"""
    v = e.kw.get(name)
    if not isinstance(v, V):
        return [(False, None)] if '**' in e.kw else []
    out = []
    for g, t in under(v, e.g):
        known, x = constant(t)
        out.append((known, x if known else t))
    return out


def show_(x):
    return show(x) if isinstance(x, T) else repr(x)


def applied(ctx, r, f):
    """(argument, values) of a function of the project, None when it is not one"""
    a = core.mk('sym', 'text')
    try:
        q = ctx.call(r, f, [one(a)])
        return a, [(g, t) for g, t in q.value.ls if sat(B.AND(g, q.st.pc))], q
    except (Undecided, Missing, AttributeError, TypeError, KeyError):
        return None


def keeps(ctx, r, f):
    """does the function return the text it gets?"""
    if not isinstance(f, T) or f.op in ('ext', 'cls'):
        return isinstance(f, T) and f.op == 'ext' and f.args[0] in ('os.fspath', 'builtins.str')
    p = applied(ctx, r, f)
    return p is not None and all(t is p[0] or t.op == 'cat' and t.args[0] == (p[0],) or t.op == 'app' and t.args == ('str', p[0]) for g, t in p[1])


def alters(ctx, r, f):
    if f.op == 'ext':
        return True
    p = applied(ctx, r, f)
    return p is not None and all(not has_unknown(t) for g, t in p[1]) and not [e for e in p[2].events if e.kind in ('opaque', 'callback')]


@prop('C11')
def c11(ctx, chk):
    r = ctx.run(ctx.func('__main__', 'main'))
    w = r.func.qual
    calls = [e for e in r.events if e.kind == 'call' and isinstance(e.recv, T)]
    of = lambda e: (e.fn or '').lstrip('.')
    parsed = [e for e in calls if of(e) == 'parse_args']
    if len(parsed) != 1:
        raise Undecided('the command line is parsed %d times' % len(parsed))
    p = parsed[0]
    top, options = p.recv, p.res
    chk.rule('options', 'each command takes the documented options, and needs only those that are documented as needed')
    argv = [t for v in p.args for t in terms(v)]
    chk.check(not argv or all(show(t) in ('sys.argv[1:]', 'None') for t in argv), 'whole command line', p.where(), 'parsed is %s' % ', '.join(map(show, argv)), unknown=True)
    subs = [e for e in calls if of(e) == 'add_subparsers' and e.recv is top]
    cmds = {}
    odd = bool([e for e in r.events if e.kind in ('opaque', 'callback')])
    for e in calls:
        if of(e) == 'add_parser':
            ns = [terms(v) for v in e.args[:1]]
            if len(ns) == 1 and len(ns[0]) == 1 and is_strc(ns[0][0]) and any(x.res is e.recv for x in subs):
                cmds.setdefault(cval(ns[0][0]), []).append(e)
            else:
                odd = True
    for e in subs:
        given, known, x = kwval(e, 'required')
        chk.check(not (given and known and x), 'version alone', e.where(), '--version needs a command', unknown=False)
        given, known, x = kwval(e, 'dest')
    specs = [(None, top, (('version', ('-V', '--version'), 'flag', False),))]
    for c, spec in COMMANDS.items():
        es = cmds.get(c, [])
        chk.check(len(es) == 1 and not es[0].loops, 'command %s' % c, w, 'there is no command %s' % c if not es else 'the command %s is defined %d times' % (c, len(es)), unknown=odd or len(es) > 1 or bool(es))
        if len(es) == 1:
            specs.append((c, es[0].res, spec))
    funcs = {}
    chk.rule('taken', 'no option is read from elsewhere')
    names = {n for spec in COMMANDS.values() for n, _, _, _ in spec}
    for e in r.events:
        if e.kind in ('set', 'setitem') and e.fn in names and e.recv in (options, mk('attr', options, '__dict__', 0)) or e.kind == 'call' and e.fn == 'builtins.setattr' and terms(e.args[0]) == [options]:
            ts = [t for v in e.args for t in terms(v)]
            own = [t for t in ts if any(x.op == 'attr' and x.args[:2] == (options, e.fn) for x in subterms(t))]
            chk.check(ts and all(t.op == 'attr' for t in own) and own == ts, 'taken', e.where(), 'the option %s is changed after it was read' % e.fn, unknown=e.kind != 'set' or bool(own) or any(has_unknown(t) for t in ts))
        if e.kind in ('call', 'new') and e.res is not None and any(e.res is x for _, x, _ in specs):
            for k in ('fromfile_prefix_chars', 'argument_default', 'prefix_chars', 'exit_on_error'):
                given, known, x = kwval(e, k)
                dflt = {'prefix_chars': '-', 'exit_on_error': True}.get(k)
                chk.check(not given or known and x == dflt, 'taken', e.where(), 'the command line is parsed with %s' % k, unknown=given and (not known or k == 'exit_on_error'))
    chk.rule('options', 'each command takes the documented options, and needs only those that are documented as needed')
    for c, parser, spec in specs:
        args = [e for e in calls if of(e) == 'add_argument' and e.recv is parser]
        strange_ = any(e.recv is parser and of(e) not in ('add_argument', 'set_defaults', 'add_subparsers', 'parse_args', 'print_help', 'error', 'exit', 'print_usage') for e in calls) or odd or \
            any(parser in [t for v in list(e.args) + list(e.kw.values()) if isinstance(v, V) for t in terms(v)] for e in r.events if e.kind == 'call') or \
            any(kwval(e, 'parents')[0] for e in calls if e.res is parser)
        flags = {}
        for e in args:
            fl = [cval(t) for v in e.args for t in terms(v) if is_strc(t)]
            if len(fl) != len(e.args) or e.loops or not fl or '**' in e.kw:
                strange_ = True
                continue
            if not (fl[0].startswith('-')):
                flags[fl[0]] = e
                n_ = kwval(e, 'nargs')
                chk.check(n_[0] and n_[2] in ('?', '*'), 'only documented options are needed', e.where(), '%s needs an argument %s' % (c or 'the command line', fl[0]), unknown=n_[0] and not n_[1])
                continue
            for f in fl:
                flags[f] = e
        docs = {f for _, fl, _, _ in spec for f in fl}
        for f, e in flags.items():
            q = kwval(e, 'required')
            if f not in docs and f.startswith('-') and q[0] and q[1] and q[2] and not any(x in docs for x in flags if flags[x] is e):
                chk.bad('only documented options are needed', e.where(), '%s needs the option %s' % (c or 'the command line', f))
        label = lambda n: '%s of %s' % (n, c) if c else n
        for name, fl, how, need in spec:
            es = {id(flags[f]): flags[f] for f in fl if f in flags}.values()
            if not es:
                chk.check(False, label(name), w, '%s does not take %s' % (c or 'the command line', fl[-1]), unknown=strange_)
                continue
            for f in fl:
                chk.check(f in flags, label('flag %s' % f), w, '%s does not take %s' % (c or 'the command line', f), unknown=strange_)
            if len(es) != 1:
                chk.check(False, label(name), w, 'the forms %s of an option are different options' % ', '.join(fl))
                continue
            e = list(es)[0]
            longs = [x for x in flags if flags[x] is e and x.startswith('--')]
            dest = kwval(e, 'dest')
            chk.check(not dest[0] or dest[1] and dest[2] == name, label('%s is read' % name), e.where(), 'kept as %s' % (dest[2],), unknown=True)
            if not dest[0]:
                first = [cval(t) for v in e.args for t in terms(v) if cval(t).startswith('--')][0] if longs else ''
                chk.check(first == '--' + name, label('%s is read' % name), e.where(), 'kept as %s' % first.lstrip('-').replace('-', '_'), unknown=True)
            req = kwval(e, 'required')
            chk.check(bool(req[0] and req[2]) == need or not req[1], label('%s needed' % name), e.where(), '%s is %s' % (fl[-1], 'not needed' if need else 'needed'), unknown=not req[1])
            act = kwval(e, 'action')
            ty = kwval(e, 'type')
            if how == 'flag':
                okd = act[2] == 'store_true' or act[2] == 'store_const' and kwval(e, 'const')[2] is True
                chk.check(okd, label('%s is a flag' % name), e.where(), '%s is taken with action %s' % (fl[-1], act[2]), unknown=not act[1])
                for known, x in leaves(e, 'default') or [(True, False)]:
                    chk.check(known and not x, label('%s default' % name), e.where(), 'the default of %s is %s' % (fl[-1], show_(x)), unknown=not known and (x is None or has_unknown(x)))
                continue
            chk.check(not act[0] or act[2] == 'store', label('%s takes a value' % name), e.where(), '%s is taken with action %s' % (fl[-1], act[2]), unknown=not act[1])
            for kwn in ('nargs', 'choices', 'const'):
                k_ = kwval(e, kwn)
                chk.check(not k_[0] or k_[1] and k_[2] is None, label('%s takes any value' % name), e.where(), '%s is restricted by %s' % (fl[-1], kwn), unknown=kwn == 'const')
            ts = show(ty[2]) if isinstance(ty[2], T) else None
            if how == 'int':
                chk.check(ts in ('builtins.int', 'int'), label('%s is a number' % name), e.where(), '%s is converted with %s' % (fl[-1], ts), unknown=ty[0] and ts not in ('builtins.str', 'builtins.float', 'builtins.bool'))
            else:
                chk.check(not ty[0] or ts in ('builtins.str', 'str') or keeps(ctx, r, ty[2]), label('%s is kept' % name), e.where(), '%s is converted with %s' % (fl[-1], ts), unknown=not (isinstance(ty[2], T) and alters(ctx, r, ty[2])))
            if not need:
                for known, x in leaves(e, 'default') or [(True, None)]:
                    chk.check(known and x is None, label('%s default' % name), e.where(), 'the default of %s is %s' % (fl[-1], show_(x)), unknown=known and x == '' or not known and (x is None or has_unknown(x)))
        for e in calls:
            if of(e) == 'set_defaults' and e.recv is parser and c:
                for k, v in e.kw.items():
                    if isinstance(v, V):
                        for g, t in under(v, e.g):
                            if t.op == 'fn':
                                funcs.setdefault(c, []).append((k, t.args[0], e))
                            elif any(k == n for n, _, _, _ in spec):
                                chk.check(False, 'default', e.where(), 'the default of %s is %s' % (k, show(t)), unknown=not is_const(t))
    c11_served(ctx, chk, r, p, options, funcs, cmds)


def c11_served(ctx, chk, r, p, options, funcs, cmds):
    chk.rule('served', 'each command runs its own function exactly once with the parsed options; --version prints the version instead')
    w = r.func.qual
    ver = truthy(mk('attr', options, 'version', 0))
    vs = [v for e in r.events for v in B.support(e.g) if B.atom_of[v].op == 'truthy' and B.atom_of[v].args[0].op == 'attr' and B.atom_of[v].args[0].args[:2] == (options, 'version')]
    ver = B.mk(vs[0], FALSE, TRUE) if vs else ver
    reach = B.AND(p.g, B.NOT(raised(p)))
    keys = {k for fs in funcs.values() for k, _, _ in fs}
    runs = [e for e in r.events if e.kind == 'call' and e.recv is options and (e.fn or '').lstrip('.') in keys]
    other = [e for e in r.events if e.kind in ('callback', 'opaque') and e.i > p.i]
    if not runs:
        chk.check(False, 'command runs', w, 'the function of the command is never called', unknown=bool(other) or not funcs or
                  any(e.kind == 'invoke' and e.i > p.i and e.func is not r.func for e in r.events))
    else:
        raises_ = B.any(raised(e) for e in r.events if e.i > p.i)
        if implies(B.all([reach, B.NOT(ver), B.NOT(raises_)]), gor(runs)):
            chk.ok('command runs', w)
        else:
            left = B.all([reach, B.NOT(ver), B.NOT(raises_), B.NOT(gor(runs))])
            at = [B.atom_of[v] for v in B.support(left)]
            # the function is one of those of the commands
            fn = {v: [x.args[0].name for x in B.atom_of[v].args if isinstance(x, T) and x.op == 'fn'] for v in B.support(left)
                  if B.atom_of[v].op in ('eq', 'eqc', 'is') and any(isinstance(x, T) and x.op == 'attr' and x.args[0] is options and x.args[1] in keys for x in B.atom_of[v].args)}
            fn = {v: n[0] for v, n in fn.items() if n}
            left = B.any(B.AND(left, B.all(B.mk(v, FALSE, TRUE) if n == c else B.mk(v, TRUE, FALSE) for v, n in fn.items())) for c in COMMANDS)
            at = [B.atom_of[v] for v in B.support(left) if v not in fn]
            has = [a for a in at if a.op in ('hasattr', 'haskey', 'isnone', 'isinst') or options in subterms(a) and a.op != 'raises' and not (a.op == 'truthy' and a.args[0].op == 'attr' and a.args[0].args[1] in ('version', 'name', 'code', 'out', 'env', 'config', 'debug', 'pid', 'all', 'force'))]
            chk.check(not sat(left), 'command runs', w, 'a command is not run when %s' % brief(left, 1, 200), unknown=bool(has))
        for i, e in enumerate(runs):
            chk.check(not e.loops and not any(sat(B.AND(e.g, o.g)) for o in runs[i + 1:]), 'once', e.where(), 'the command runs more than once')
            a = [terms(v) for v in e.args]
            chk.check(a == [[options]] and not e.kw, 'its options', e.where(), 'the command gets %s' % ', '.join(show(t[0]) for t in a), unknown=not all(len(t) == 1 and is_const(t[0]) for t in a))
            chk.check(not sat(B.AND(e.g, ver)) or not vs, 'version instead', e.where(), '--version runs the command')
        for c in COMMANDS:
            fs = [x for x in funcs.get(c, []) if x[0] in {(e.fn or '').lstrip('.') for e in runs}]
            if not fs:
                chk.check(False, 'function of %s' % c, w, 'the command %s has no function' % c, unknown=c not in cmds or len(cmds[c]) != 1)
                continue
            k, f, e = fs[-1]
            chk.check(f.name == c, 'function of %s' % c, e.where(), 'the command %s runs %s' % (c, f.name), unknown=f.name not in COMMANDS)
    m = ctx.prog.modules.get('jqtrade')
    want = [n.value.value for n in (m.tree.body if m is not None else []) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__version__' for t in n.targets) and isinstance(n.value, ast.Constant)]
    out = [e for e in r.events if e.kind == 'call' and e.fn in ('builtins.print', 'print', '.write')]
    shown = [e for e in out if sat(B.AND(e.g, ver))]
    if want:
        good = [e for e in shown if any(is_strc(t) and want[-1] in cval(t) for v in e.args for g, t in under(v, B.AND(e.g, ver)))]
        rz = B.any(raised(e) for e in r.events if e.i > p.i)
        chk.check(bool(good) and implies(B.all([reach, ver, B.NOT(rz)]), gor(good)), 'version', w, '--version does not print the version',
                  unknown=bool(other) or any(not is_const(t) for e in shown for v in e.args for t in terms(v)))
    chk.rule('started', 'python -m jqtrade runs the command line')
    tree = r.func.module.tree
    tops = []

    def walk(body, conds):
        for n in body:
            if isinstance(n, ast.If):
                walk(n.body, conds + [(n.test, True)])
                walk(n.orelse, conds + [(n.test, False)])
            elif isinstance(n, (ast.Try, ast.With)):
                walk(n.body, conds)
            elif not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                for x in ast.walk(n):
                    if isinstance(x, ast.Call):
                        tops.append((x, conds))
    walk(tree.body, [])
    mains = [(x, cs) for x, cs in tops if isinstance(x.func, ast.Name) and x.func.id == r.func.name]
    w2 = '%s:%s' % (r.func.module.path, mains[0][0].lineno if mains else 1)

    def holds(t):
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.NotEq, ast.In)):
            vals = [('__main__' if isinstance(x, ast.Name) and x.id == '__name__' else x.value if isinstance(x, ast.Constant) else [y.value for y in x.elts] if isinstance(x, (ast.Tuple, ast.List)) and all(isinstance(y, ast.Constant) for y in x.elts) else Ellipsis)
                    for x in [t.left] + t.comparators]
            if Ellipsis not in vals:
                a, b = vals
                return a == b if isinstance(t.ops[0], ast.Eq) else a != b if isinstance(t.ops[0], ast.NotEq) else a in b
        if isinstance(t, ast.Constant):
            return bool(t.value)
        return None
    okc = [[(holds(t), pos) for t, pos in cs] for x, cs in mains]
    good = [c for c in okc if all(h is not None and h == pos for h, pos in c)]
    chk.check(bool(good), 'module', w2, 'python -m jqtrade does nothing', unknown=any(h is None for c in okc for h, pos in c) or not mains and bool(tops))
