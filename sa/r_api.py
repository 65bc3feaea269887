"""Rules of the log of a task, of the strategy file and of what a strategy finds (C07-C09)."""
from .r_cli import *
from .r_acct import _mkst
from . import core

CHECKS = {}


def prop(*pids):
    def deco(f):
        for pid in pids:
            CHECKS.setdefault(pid, []).append(f)
        return f
    return deco


LEVELS = {'NOTSET': 0, 'DEBUG': 10, 'INFO': 20, 'WARNING': 30, 'WARN': 30, 'ERROR': 40, 'CRITICAL': 50, 'FATAL': 50}


def level(t):
    """the number of a log level, None: not known"""
    if is_const(t):
        v = cval(t)
        if isinstance(v, str):
            return LEVELS.get(v)
        return v if isinstance(v, (int, float)) and not isinstance(v, bool) else None
    if t.op == 'ext' and t.args[0].startswith('logging.'):
        return LEVELS.get(t.args[0][8:])
    return None


def is_root(r, t):
    """the root logger"""
    if t.op == 'ext' and t.args[0] in ('logging.root',):
        return True
    s = show(t)
    return s in ("logging.getLogger()", "logging.getLogger('')", 'logging.getLogger(None)', "logging.getLogger('root')", 'logging.root')


def plain_path(t):
    """the path without what makes it absolute"""
    while isinstance(t, T) and t.op in ('app', 'res', 'cat'):
        if t.op == 'app' and str(t.args[0]).split('.')[-1] in ('abspath', 'realpath', 'expanduser', 'normpath', 'fspath', 'str', 'expandvars') and len(t.args) == 2:
            t = t.args[1]
        elif t.op == 'cat' and len(t.args[0]) == 1:
            t = t.args[0][0]
        else:
            break
    return t


def arg(e, i, *names):
    for n in names:
        if e.kw and n in e.kw:
            return e.kw[n]
    return e.args[i] if len(e.args) > i else None


# ---------------------------------------------------------------- C07: log and output
@prop('C07')
def c07_log(ctx, chk):
    r = start_run(ctx)
    w = r.func.qual
    op = r.sym[r.func.params[0]]
    out, dbg = mk('attr', op, 'out', 0), mk('attr', op, 'debug', 0)
    has = truthy(out)
    chk.rule('log', 'what a task logs goes once to the file of --out (appended), or to standard output without one, and nowhere else')
    setup = [e for e in r.events if e.kind == 'opaque' and e.fn.endswith(('Strategy.setup', 'Strategy.__init__'))]
    if not setup:
        raise Undecided('where the strategy is set up is not found')
    first = min(setup, key=lambda e: e.i)
    made = {e.res: e for e in r.events if e.kind == 'call' and e.res is not None and isinstance(e.fn, str) and e.fn.startswith('logging.')}
    odd = [e for e in r.events if e.kind == 'call' and isinstance(e.fn, str) and (e.fn in ('logging.basicConfig', 'logging.disable', 'log.removeHandler', 'log.addFilter', 'logging.captureWarnings', 'logging.shutdown')
                                                                                    or e.fn.startswith(('logging.config', 'logging.handlers')) or e.fn == '.addFilter')]
    adds = [(e, g, h) for e in r.events if e.kind == 'call' and e.fn in ('log.addHandler', '.addHandler') and e.recv is not None for g, h in (under(e.args[0], e.g) if e.args else [])]
    for e in r.events:
        if e.kind == 'set' and e.fn in ('propagate', 'disabled', 'handlers', 'level') and e.recv is not None and 'logging' in show(e.recv):
            odd.append(e)
    root = [x for x in adds if is_root(r, x[0].recv)]
    unk = bool(odd) or len(root) != len(adds) or any(h not in made for _, _, h in root)
    files, outs = FALSE, FALSE
    for e, g, h in root:
        m = made.get(h)
        if m is None:
            continue
        if m.fn.endswith('FileHandler'):
            files = B.OR(files, g)
            chk.implies(g, has, 'file', e.where(), 'a log file is written although none was asked for')
            fv = arg(m, 0, 'filename')
            for k, t in under(fv, g) if fv is not None else []:
                chk.check(plain_path(t) is out, 'file', m.where(), 'the log goes to %s' % show(t), unknown=has_unknown(t))
            md = arg(m, 1, 'mode')
            for k, t in under(md, g) if md is not None else []:
                chk.check(is_const(t) and str(cval(t)).startswith('a'), 'appended', m.where(), 'the log file is opened with mode %s' % show(t), unknown=not is_const(t))
        elif m.fn.endswith('StreamHandler'):
            outs = B.OR(outs, g)
            chk.implies(g, B.NOT(has), 'standard output', e.where(), 'the log goes to standard output although a file was asked for')
            sv = arg(m, 0, 'stream', 'strm')
            ts = [t for _, t in under(sv, g)] if sv is not None else []
            chk.check(ts and all(show(t) == 'sys.stdout' for t in ts), 'standard output', m.where(), 'the log goes to %s' % (', '.join(map(show, ts)) or 'standard error'),
                      unknown=any(not is_const(t) and t.op != 'ext' and not show(t).startswith('sys.') for t in ts))
        elif m.fn == 'logging.NullHandler':
            continue
        else:
            unk = True
    if unk:
        chk.undecided('destination', w, 'the form in which the log is set up')
    for e in setup:
        g = B.AND(e.g, r.st.pc)
        chk.check(not sat(B.all([g, has, B.NOT(files)])), 'file', w, 'nothing is logged to the file that was asked for', unknown=unk)
        chk.check(not sat(B.all([g, B.NOT(has), B.NOT(outs)])), 'standard output', w, 'without a file nothing is logged to standard output', unknown=unk)
    for i, (e, g, h) in enumerate(root):
        chk.check(e.i < first.i, 'in time', e.where(), 'the log is set up after the strategy', unknown=False)
        chk.check(not e.loops, 'once', e.where(), 'the log may be set up more than once', unknown=True)
        for e2, g2, h2 in root[i + 1:]:
            chk.check(not sat(B.AND(g, g2)), 'once', e2.where(), 'everything is logged twice', unknown=h not in made or h2 not in made or made[h].fn == 'logging.NullHandler' or made[h2].fn == 'logging.NullHandler')
    chk.rule('level', 'with --debug everything from DEBUG is logged, without everything from INFO, and nothing below')
    for e, g, h in root:
        for dn, dg, want in (('debug', truthy(dbg), 10), ('no debug', B.NOT(truthy(dbg)), 20)):
            gg = B.AND(g, dg)
            if not sat(gg):
                continue
            got = {}
            unkl = unk
            for nm, recv in (('root', None), ('handler', h)):
                got[nm] = {30 if nm == 'root' else 0}
                for x in r.events:
                    if x.kind == 'call' and x.fn in ('log.setLevel', '.setLevel') and x.recv is not None and (is_root(r, x.recv) if nm == 'root' else x.recv is h) and sat(B.AND(x.g, gg)) and x.args:
                        vs = {level(t) for _, t in under(x.args[0], B.AND(x.g, gg))}
                        if None in vs:
                            unkl = True
                        got[nm] = vs if implies(gg, x.g) else got[nm] | vs
            lv = {max(a, b) for a in got['root'] for b in got['handler'] if a is not None and b is not None}
            chk.check(lv == {want}, dn, e.where(), 'what is logged starts at level %s' % sorted(lv), unknown=unkl)
    for x in r.events:
        if x.kind == 'call' and x.fn in ('log.setLevel', '.setLevel') and x.recv is not None and not is_root(r, x.recv) and x.recv not in {h for _, _, h in root}:
            chk.undecided('other loggers', x.where(), 'the level of %s is set' % show(x.recv))
    chk.rule('passed on', 'the path of the log file is handed to the context of the task')
    C = ctx.cls('Context')
    for e in evs(r, 'new'):
        if isinstance(e.res, T) and typed(r, e.res, C):
            v = field(r, first.heap, e.res, 'out')
            for g, t in under(v, first.g):
                if sat(B.AND(g, has)):
                    chk.check(plain_path(t) is out, 'out', e.where(), 'the context gets the log file %s' % show(t), unknown=has_unknown(t))
                    chk.check('abspath' in show(t) or 'realpath' in show(t), 'absolute', e.where(),
                              'the path of the log file is relative: what the strategy prints after it changed the directory goes to another file', unknown=has_unknown(t) and t is not out)
                if sat(B.AND(g, B.NOT(has))):
                    chk.check(t is out or is_const(t) and not cval(t), 'out', e.where(), 'without a log file the context gets %s' % show(t), unknown=not is_const(t))


@prop('C07')
def c07_print(ctx, chk):
    chk.rule('print', 'what a strategy prints is appended to the log file, or goes to standard output when there is none; an explicit file is kept')
    f = print_fn(ctx)
    kw = mk('sym', 'options')
    a = [mk('sym', 'first'), mk('sym', 'second')]
    r = ctx.run(f, kw={'**': [one(kw)]}, more=a)
    w = f.qual
    C = ctx.cls('Context')
    prints = evs(r, 'call', 'builtins.print')
    if not prints:
        raise Undecided('print is not used')
    cx = mk('single', C)
    out = None
    for e in r.events:
        if e.kind == 'invoke' and e.fn.endswith('Context.out') and e.recv is not None:
            cx = e.args[0].ls[0][1] if e.args else cx
    out = field(r, {}, cx, 'out')
    if len(out.ls) != 1:
        raise Undecided('the log file of the context')
    out = out.ls[0][1]
    has = truthy(out)
    fk = atom('haskey', kw, const('file'))
    opened = {e.res: e for e in r.events if e.kind == 'call' and e.fn in ('builtins.open', 'io.open', 'codecs.open', '.open')}

    def entry_of(e, key):
        """[(guard, V or None)]"""
        if e.kw and key in e.kw:
            return [(e.g, e.kw[key])]
        d = (e.kw or {}).get('**')
        if d is None:
            return [(e.g, None)]
        out = []
        for x in (d if isinstance(d, list) else [d]):
            for g, t in under(x, e.g):
                out += look(r, e.heap, t, key, g)
        return out
    ar = any_raise(r, prints)
    for nm, cond in (('with a log file', B.AND(has, B.NOT(fk))), ('without a log file', B.AND(B.NOT(has), B.NOT(fk))), ('explicit file', fk)):
        pr = [e for e in prints if sat(B.AND(e.g, cond))]
        chk.check(not sat(B.all([cond, B.NOT(ar), B.NOT(gor(pr))])), nm, w, 'what the strategy prints is lost')
        for i, e in enumerate(pr):
            chk.check(not e.loops, nm, e.where(), 'printed in a loop', unknown=True)
            for e2 in pr[i + 1:]:
                chk.check(not sat(B.all([e.g, e2.g, cond])), nm, e2.where(), 'printed twice')
            pos = list(e.args)
            flatv = [t for x in pos for t in terms(x)]
            chk.check(len(pos) == 2 and flatv == a, 'arguments', e.where(), 'prints %s' % ', '.join(map(show, flatv)), unknown=any(t.op not in ('sym', 'const', 'obj', 'tup', 'item') for t in flatv))
            for key in ('sep', 'end'):
                hk = atom('haskey', kw, const(key))
                for g, v in entry_of(e, key):
                    g = B.AND(g, cond)
                    if v is None:
                        chk.check(not sat(B.AND(g, hk)), 'options', e.where(), 'the option %s is lost' % key)
                    else:
                        for h, t in under(v, B.AND(g, hk)):
                            chk.check(t is mk('item', kw, const(key)), 'options', e.where(), 'the option %s becomes %s' % (key, show(t)), unknown=has_unknown(t))
                        for h, t in under(v, B.AND(g, B.NOT(hk))):
                            chk.check(is_const(t) and cval(t) in (None, {'sep': ' ', 'end': '\n'}[key]), 'options', e.where(), 'the option %s is %s' % (key, show(t)), unknown=not is_const(t))
            for g, v in entry_of(e, 'file'):
                g = B.AND(g, cond)
                if not sat(g):
                    continue
                ts = [t for _, t in under(v, g)] if v is not None else [const(None)]
                for t in ts:
                    if nm == 'with a log file':
                        o = opened.get(t)
                        if o is None:
                            chk.check(False, nm, e.where(), 'what the strategy prints goes to %s, not to the log file' % show(t), unknown=not (is_const(t) or show(t).startswith('sys.')))
                            continue
                        nv = arg(o, 0, 'file')
                        for _, p in under(nv, B.AND(o.g, cond)):
                            chk.check(p is out or plain_path(p) is out, nm, o.where(), 'what the strategy prints goes to the file %s' % show(p), unknown=has_unknown(p))
                        md = arg(o, 1, 'mode')
                        ms = [p for _, p in under(md, o.g)] if md is not None else [const('r')]
                        chk.check(all(is_const(p) and 'a' in str(cval(p)) for p in ms), 'appended', o.where(), 'the log file is opened with mode %s' % ', '.join(map(show, ms)), unknown=any(not is_const(p) for p in ms))
                        closed = [x for x in r.events if x.i > e.i and (x.kind == 'exit' or x.kind == 'call' and x.fn in ('.close', '.flush')) and x.recv is not None and x.recv is o.res]
                        if not implies(B.AND(g, ok_guard(e)), gor(closed)):
                            for h, fv in entry_of(e, 'flush'):
                                chk.check(fv is not None and all(is_const(t2) and cval(t2) for _, t2 in under(fv, B.AND(h, B.NOT(atom('haskey', kw, const('flush')))))), 'at once', e.where(), 'what is printed stays in a buffer', unknown=fv is not None)
                    elif nm == 'without a log file':
                        chk.check(is_const(t) and cval(t) is None or show(t) == 'sys.stdout', nm, e.where(), 'what the strategy prints goes to %s' % show(t), unknown=has_unknown(t) and t not in opened)
                    else:
                        chk.check(t is mk('item', kw, const('file')), nm, e.where(), 'an explicit file is replaced by %s' % show(t), unknown=has_unknown(t) and t not in opened)
            if nm == 'without a log file':
                hk = atom('haskey', kw, const('flush'))
                for g, v in entry_of(e, 'flush'):
                    g = B.AND(g, cond)
                    flushed = [x for x in r.events if x.i > e.i and x.kind == 'call' and x.fn in ('.flush',)]
                    if v is None:
                        chk.check(not sat(B.AND(g, hk)), 'options', e.where(), 'the option flush is lost')
                        chk.check(not sat(B.AND(g, B.NOT(hk))) or bool(flushed), 'at once', e.where(), 'what is printed stays in a buffer')
                        continue
                    for h, t in under(v, B.AND(g, hk)):
                        chk.check(t is mk('item', kw, const('flush')), 'options', e.where(), 'the option flush becomes %s' % show(t), unknown=True)
                    for h, t in under(v, B.AND(g, B.NOT(hk))):
                        chk.check(is_const(t) and bool(cval(t)), 'at once', e.where(), 'what is printed stays in a buffer', unknown=not is_const(t))


def print_fn(ctx):
    """the function that strategies get as print"""
    m = ctx.method('Strategy', 'make_apis')
    r = ctx.run(m)
    for e in r.events:
        if e.kind in ('setattr', 'set', 'call') and (e.fn == 'print'):
            for t in terms(e.args[0]):
                if t.op == 'fn':
                    return t.args[0]
    return ctx.func('scheduler.api', 'strategy_print')


# ---------------------------------------------------------------- C08: the strategy file
def load_run(ctx):
    """start_task up to the point where the strategy is set up"""
    if getattr(ctx, '_load_run', None) is None:
        op = [tasks_fn(ctx), info_fn(ctx), ctx.method('Strategy', 'setup'), ctx.method('EventLoop', 'run')]
        try:
            op.append(ctx.func('scheduler.config', 'setup_scheduler_config'))
        except Missing:
            pass
        ctx._load_run = ctx.run(ctx.func('__main__', 'start_task'), opaque=op)
    return ctx._load_run


def fsplit(t, code, i):
    """t is the directory (0) or the file name (1) of the path"""
    if not isinstance(t, T):
        return False
    if t.op == 'item' and is_const(t.args[1]) and cval(t.args[1]) in (i, i - 2) and show(t.args[0]).startswith('os.path.split('):
        return plain_path(t.args[0].args[1] if t.args[0].op == 'app' else None) is code
    if t.op == 'app' and t.args[0] == ('os.path.dirname', 'os.path.basename')[i]:
        return plain_path(t.args[1]) is code
    return False


def head_empty(t, code):
    """guards under which the directory of the path is empty"""
    return None


def is_dir(r, t, g, code):
    """True: t is the directory of the path; None: not known"""
    p = plain_path(t)
    if fsplit(p, code, 0):
        return True
    if is_const(p) and cval(p) in ('.', ''):
        # only for a path without directory
        for v in B.support(g):
            a = B.atom_of[v]
            x = None
            if a.op == 'truthy' and fsplit(a.args[0], code, 0):
                x = B.mk(v, TRUE, FALSE)
            elif a.op == 'eqc' and any(fsplit(q, code, 0) for q in a.args[:2] if isinstance(q, T)) and any(is_const(q) and cval(q) == '' for q in a.args[:2] if isinstance(q, T)):
                x = B.mk(v, FALSE, TRUE)
            elif a.op == 'nonempty' and fsplit(a.args[0], code, 0):
                x = B.mk(v, TRUE, FALSE)
            if x is not None and implies(g, x):
                return True
        return False
    if p.op == 'ext' and p.args[0] == 'os.curdir':
        return True
    if show(p).startswith('os.getcwd('):
        return None if any(e.kind == 'call' and e.fn in ('os.chdir', 'os.fchdir') for e in r.events) else False
    return None if has_unknown(p) or mentions(p, code) and p.op not in ('const', 'attr', 'item', 'app') else False


def is_file(r, t, g, code):
    p = plain_path(t)
    if p is code:
        return True
    if p.op == 'app' and p.args[0] == 'os.path.join' and len(p.args) == 3:
        if fsplit(p.args[2], code, 1):
            return is_dir(r, p.args[1], g, code)
        return False if not has_unknown(p.args[2]) else None
    return None if has_unknown(p) or p.op not in ('const', 'attr', 'item', 'app', 'cat') else False


PURE = ('os.path.abspath', 'os.path.realpath', 'os.path.split', 'os.path.join', 'os.path.dirname', 'os.path.basename', 'os.path.normpath', 'os.path.expanduser', 'os.path.splitext', 'os.fspath', 'builtins.str', 'builtins.print', '.split')
NAMED = ('importlib.import_module', 'builtins.__import__', 'importlib.__import__', 'importlib.util.find_spec', 'imp.find_module', 'runpy.run_module')
FROM = {'importlib.util.spec_from_file_location': (1, 'location'), 'importlib.machinery.SourceFileLoader': (1, 'path'), 'imp.load_source': (1, 'pathname'), 'runpy.run_path': (0, 'path_name'),
        'builtins.open': (0, 'file'), 'io.open': (0, 'file')}


@prop('C08')
def c08(ctx, chk):
    chk.rule('file', 'the code that runs is that of the file given with --code, executed once')
    r = load_run(ctx)
    w = r.func.qual
    code = mk('attr', r.sym[r.func.params[0]], 'code', 0)
    S = ctx.cls('Strategy')
    setup = [e for e in r.events if e.kind == 'opaque' and e.fn.endswith('Strategy.setup')]
    if not setup:
        raise Undecided('where the strategy is set up is not found')
    m = ctx.method('Strategy', 'make_apis')
    st = setup[0]
    me = st.args[0].ls[0][1] if st.args else st.recv
    fld = module_field(ctx)
    by = {e.res: e for e in r.events if e.kind in ('call', 'callback') and e.res is not None}
    runs = [e for e in r.events if e.kind == 'call' and e.fn in ('.exec_module', '.load_module', 'builtins.exec', 'runpy.run_path', 'imp.load_source') or e.kind == 'call' and e.fn in NAMED and any(mentions(t, code) for a in e.args for t in terms(a))]
    if not runs:
        # nothing in the package runs it, unless something that is not interpreted gets the path or the module
        spec = [e for e in r.events if e.kind == 'call' and e.fn == 'importlib.util.module_from_spec']
        if not spec:
            raise Undecided('where the strategy code is run is not found')
        chk.bad('run', spec[0].where(), 'the module of the strategy is made but its code is never run')
        return
    mods = field(r, st.heap, me, fld)
    for g, t in under(mods, st.g):
        src = origin(r, by, t)
        inst = 'the module'
        e = by.get(t)
        if src is None:
            if e is not None and e.fn in NAMED:
                chk.bad('given file', e.where(), 'the strategy is found by the name of a module, not by its path: another module of that name may be loaded instead of the file')
            else:
                chk.undecided('given file', w, 'where the module %s comes from' % show(t))
            continue
        e, v = src
        for h, p in under(v, B.AND(e.g, g)):
            ok = is_file(r, p, h, code)
            chk.check(ok is True, 'given file', e.where(), 'the strategy is loaded from %s' % show(p), unknown=ok is None)
    ex = [e for e in runs if e.fn not in NAMED]
    for i, e in enumerate(ex):
        chk.check(not e.loops, 'once', e.where(), 'the strategy code may be run more than once', unknown=True)
        for e2 in ex[i + 1:]:
            chk.check(not sat(B.AND(e.g, e2.g)), 'once', e2.where(), 'the strategy code is run twice', unknown=e.fn != e2.fn)
    if ex and not any(e.fn in NAMED for e in runs):
        chk.implies(B.AND(st.g, r.st.pc), gor(ex), 'run', st.where(), 'the strategy is set up although its code was not run')
        for e in ex:
            chk.check(not sat(B.all([e.g, raised(e), st.g])), 'run', e.where(), 'the strategy is set up although its code failed')
    chk.rule('import path', 'when the code of the strategy runs its directory is at the front of the import path')
    for e in ex or runs:
        ins = [x for x in r.events if x.i < e.i and x.kind == 'call' and x.fn in ('sys.path.insert',) and x.args and all(is_const(t) and cval(t) == 0 for t in terms(x.args[0]))]
        other = [x for x in r.events if x.i < e.i and (x.kind == 'call' and isinstance(x.fn, str) and x.fn.startswith('sys.path.') and x not in ins and not behind(x) or x.kind in ('setitem', 'setslice', 'set') and x.recv is not None and 'sys' in show(x.recv) and 'path' in (show(x.recv) + str(x.fn)))]
        dirs = FALSE
        unk = bool(other)
        for x in ins:
            for g, t in under(x.args[1], x.g):
                d = is_dir(r, t, g, code)
                later = any(y.i > x.i and not mentions_code(y, code) and sat(B.AND(y.g, g)) for y in ins)
                if d and not later:
                    dirs = B.OR(dirs, g)
                elif d is None:
                    unk = True
        chk.check(implies(e.g, dirs), 'directory', e.where(), 'the directory of the strategy is not at the front of the import path when its code runs', unknown=unk)
    chk.rule('missing', 'a strategy file that does not exist raises FileNotFoundError before anything is changed')
    exists = None
    for e in r.events:
        if e.kind == 'call' and e.fn in ('os.path.exists', 'os.path.isfile', 'os.access') and e.args and all(plain_path(t) is code for t in terms(e.args[0])):
            exists = e
            break
    if exists is None:
        first = min((e for e in r.events if e.kind == 'call' and e.fn in ('log.addHandler', 'os.environ.update', 'sys.path.insert')), key=lambda e: e.i, default=None)
        touch = [e for e in r.events if (first is None or e.i < first.i) and e.kind in ('call', 'callback', 'opaque') and any(mentions(t, code) for a in list(e.args) + ([one(e.recv)] if isinstance(e.recv, T) else []) for t in terms(a)) and not str(e.fn).startswith('log.')]
        chk.check(False, 'missing', w, 'a missing strategy file is noticed only after the log was set up', unknown=first is None or any(e.fn not in PURE for e in touch))
        return
    has = truthy(exists.res)
    fnf = [e for e in evs(r, 'raise') if e.fn == 'FileNotFoundError' or any('FileNotFoundError' in show(t) for a in e.args for t in terms(a))]
    for e in r.events:
        if e.kind == 'call' and (e.fn in ('log.addHandler', 'os.environ.update', 'sys.path.insert') or e in runs) or e.kind == 'setitem' and e.recv is not None and 'environ' in show(e.recv):
            chk.implies(B.AND(e.g, B.NOT(raised(exists))), has, 'missing', e.where(), 'the start goes on although the strategy file does not exist')
    chk.check(sat(B.AND(gor(fnf), B.NOT(has))), 'missing', w, 'no FileNotFoundError is raised for a missing strategy file', unknown=True)


def behind(e):
    """the change of the import path leaves its front as it is"""
    if e.fn in ('sys.path.append', 'sys.path.extend', 'sys.path.index', 'sys.path.count', 'sys.path.copy'):
        return True
    return e.fn == 'sys.path.insert' and bool(e.args) and all(is_const(t) and isinstance(cval(t), int) and cval(t) > 0 for t in terms(e.args[0]))


def mentions_code(e, code):
    return any(mentions(t, code) or is_const(t) for a in e.args[1:] for t in terms(a))


def origin(r, by, t):
    """(call, path) from which the module comes"""
    for _ in range(6):
        e = by.get(t)
        if e is None:
            if t.op == 'attr' and t.args[0] in by:
                t = t.args[0]
                continue
            return None
        if e.fn in FROM:
            i, n = FROM[e.fn]
            v = arg(e, i, n)
            return (e, v) if v is not None else None
        if e.fn in ('importlib.util.module_from_spec', 'importlib.util.spec_from_loader', 'types.ModuleType') and e.args:
            a = e.args[1] if e.fn.endswith('spec_from_loader') and len(e.args) > 1 else e.args[0]
        elif e.fn in ('.load_module', '.exec_module', '.create_module') and e.recv is not None:
            a = one(e.recv)
        else:
            return None
        if len(a.ls) != 1:
            return None
        t = a.ls[0][1]
        while t.op == 'attr' and t not in by and t.args[1] in ('loader',):
            t = t.args[0]
    return None


def module_field(ctx):
    """the field of the strategy that holds the module"""
    r = ctx.run(ctx.method('Strategy', 'make_apis'))
    me = r.sym[r.func.params[0]]
    for e in r.events:
        if e.fn in ('run_daily', 'set_options') and e.kind in ('set', 'setattr') and e.recv is not None and e.recv.op == 'attr' and e.recv.args[0] is me:
            return e.recv.args[1]
    raise Undecided('the field of the strategy module')


# ---------------------------------------------------------------- C09: what a strategy finds
NAMES = {'order': 'func', 'cancel_order': 'func', 'batch_submit_orders': 'func', 'batch_cancel_orders': 'func', 'get_orders': 'func', 'sync_balance': 'func', 'sync_orders': 'func',
         'LimitOrderStyle': 'cls', 'MarketOrderStyle': 'cls'}


def init_call(e):
    """the call of the process_initialize of the strategy"""
    if e.kind == 'call' and str(e.fn) == '.process_initialize':
        return True
    return e.kind in ('call', 'callback') and isinstance(e.recv, T) and 'process_initialize' in show(e.recv) and 'getChild' not in show(e.recv) and not str(e.fn).startswith(('log.', 'builtins.'))


@prop('C12')
def c12(ctx, chk):
    r = load_run(ctx)
    w = r.func.qual
    opts = r.sym[r.func.params[0]]
    ups = [e for e in r.events if e.kind == 'opaque' and e.fn.endswith('Strategy.setup')]
    runs = [e for e in r.events if e.kind == 'opaque' and e.fn.endswith('EventLoop.run')]
    free = [e for e in r.events if e.kind == 'callback' and any(t.op in ('bm', 'obj') for a in list(e.args) + ([one(e.recv)] if isinstance(e.recv, T) else []) for t in terms(a))]
    if not ups:
        raise Undecided('where the strategy is set up is not found')
    chk.rule('started', 'a task that starts sets its strategy up once and then runs the event loop, once, until it is stopped')
    S = gor(ups)
    chk.check(implies(r.st.pc, S), 'set up', w, 'a start may end without the strategy being set up: %s' % brief(B.AND(r.st.pc, B.NOT(S)), 1, 300), unknown=bool(free))
    chk.check(bool(runs) and implies(r.st.pc, gor(runs)), 'runs', w, 'a start may end without the event loop having run', unknown=bool(free))
    for what, es in (('set up', ups), ('run', runs)):
        for i, e in enumerate(es):
            chk.check(not e.loops, 'once', e.where(), 'it may be %s more than once' % what)
            for e2 in es[i + 1:]:
                chk.check(not sat(B.AND(e.g, e2.g)), 'once', e2.where(), 'it is %s twice' % what)
    chk.rule('order', 'the event loop runs after the strategy was set up without an error; an error of either ends the start')
    for e in runs:
        done = B.any(B.AND(x.g, B.NOT(raised(x))) for x in ups if x.i < e.i)
        chk.check(implies(e.g, done), 'after setup', e.where(), 'the event loop runs although the strategy is not set up: %s' % brief(B.AND(e.g, B.NOT(done)), 1, 200))
    for e in ups + runs:
        chk.check(not sat(B.all([e.g, raised(e), r.st.pc])), 'error', e.where(), 'an error of %s does not end the start with that error' % e.fn.split('.')[-2])
    chk.rule('own loop', 'the loop that runs is the one the strategy and its account use')
    C = [e for e in r.events if e.kind == 'new' and e.fn == ctx.cls('Context').qual]
    if len(C) != 1:
        raise Undecided('%d contexts are made' % len(C))
    c = C[0].res
    for e in runs:
        v = e.args[0] if e.args else one(e.recv)
        for g, t in under(v, e.g):
            for h, x in under(field(r, e.heap, c, 'loop'), g):
                chk.check(x is t, 'own loop', e.where(), 'the loop that runs is %s, that of the context %s' % (show(t), show(x)), unknown=t.op != 'obj' or x.op != 'obj' and x is not NONE)
    chk.rule('strategy', 'the strategy works with that context, which has the name of the task')
    for e in ups:
        v = e.args[0] if e.args else one(e.recv)
        for g, t in under(v, e.g):
            held = [x for q in r.events if q.i < e.i and (q.kind == 'set' and q.recv is t) and q.args for x in terms(q.args[0])]
            chk.check(c in held, 'context', e.where(), 'the strategy does not get the context', unknown=True)
        name = mk('attr', opts, 'name', 0)
        for g, t in under(field(r, e.heap, c, 'task_name'), e.g):
            chk.check(t is name or t is core.cat([name]), 'task name', e.where(), 'the task name is %s' % show(t), unknown=has_unknown(t) or t.op in ('res', 'mu', 'obj'))


@prop('C09')
def c09(ctx, chk):
    sched = ctx.method('Strategy', 'schedule')
    r = ctx.run(ctx.method('Strategy', 'setup'), opaque=[sched])
    w = r.func.qual
    me = r.sym[r.func.params[0]]
    S = ctx.cls('Strategy')
    user = [e for e in r.events if init_call(e)]
    if not user:
        raise Undecided('the call of process_initialize')
    mod = module_of(ctx, r, me)
    chk.rule('interface', 'run_daily, set_options, log, print and context are in the module of the strategy when process_initialize is called')
    ini = ctx.run(ctx.method('Strategy', '__init__'))
    U = ctx.cls('UserContext')
    loose = [e for e in r.events if e.i < user[0].i and e.kind in ('call', 'callback', 'opaque', 'update', 'setitem') and e not in user and not str(e.fn).startswith(('log.', 'builtins.getattr', 'builtins.hasattr'))
             and any(mentions(t, mod) for a in list(e.args) + ([one(e.recv)] if isinstance(e.recv, T) else []) for t in terms(a))]
    for e in user:
        for n, kind in list({'run_daily': 'bound', 'set_options': 'bound', 'log': 'log', 'context': 'ctx', 'print': 'print'}.items()) + sorted(NAMES.items()):
            g = e.g
            if n in NAMES:
                g = B.AND(g, truthy(mk('attr', mk('single', ctx.cls('SchedulerConfig')), 'SETUP_ACCOUNT', 0)))
                if not sat(g):
                    chk.undecided(n, e.where(), 'when the account functions are there')
                    continue
                chk.rule('account interface', 'when the account component is enabled the documented names of account.api are there too, each with its own object')
            for h, t in under(field(r, e.heap, mod, n), g):
                inst = n
                if t.op == 'attr' and t.args[0] is mod and t.args[1] == n or t.op in ('undef', 'missing'):
                    chk.check(False, inst, e.where(), '%s is not there when process_initialize is called' % n, unknown=bool(loose) or t.op == 'attr' and bool(t.args[2]))
                    continue
                unk = has_unknown(t) or t.op not in ('bm', 'const', 'fn', 'cls', 'attr', 'single') or t.op == 'fn' and not str(t.args[0].qual).startswith('jqtrade.') or 'lambda' in show(t)
                if kind == 'bound':
                    m = ctx.method('Strategy', n)
                    chk.check(t.op == 'bm' and t.args[0] is m and t.args[1] is me, inst, e.where(), '%s is %s' % (n, show(t)), unknown=unk)
                elif kind == 'log':
                    chk.check('logging' in show(t) and "'user'" in show(t), inst, e.where(), 'log is %s' % show(t), unknown=unk and 'logging.' not in show(t))
                elif kind == 'ctx':
                    chk.check(user_ctx(ctx, ini, t, me, U), inst, e.where(), 'context is %s' % show(t), unknown=unk or t.op == 'obj')
                elif kind == 'print':
                    f = print_fn(ctx)
                    chk.check(t.op == 'fn' and t.args[0] is f, inst, e.where(), 'print is %s' % show(t), unknown=unk)
                elif kind == 'func':
                    chk.check(t.op == 'fn' and t.args[0] is ctx.func('account.api', n), inst, e.where(), '%s is %s' % (n, show(t)), unknown=unk)
                else:
                    chk.check(t.op in ('cls', 'class') and t.args[0] is ctx.cls(n), inst, e.where(), '%s is %s' % (n, show(t)), unknown=unk)
    chk.rule('once', 'process_initialize is called exactly once, with the context of the user')
    for i, e in enumerate(user):
        chk.check(not e.loops, 'once', e.where(), 'process_initialize may be called more than once')
        for e2 in user[i + 1:]:
            chk.check(not sat(B.AND(e.g, e2.g)), 'once', e2.where(), 'process_initialize is called twice')
        chk.check(len(e.args) == 1 and not e.kw, 'argument', e.where(), 'process_initialize gets %d arguments' % len(e.args))
        for a in e.args[:1]:
            for g, t in under(a, e.g):
                chk.check(user_ctx(ctx, ini, t, me, U), 'argument', e.where(), 'process_initialize gets %s' % show(t), unknown=has_unknown(t) or t.op == 'obj')
    called = gor(user)
    good = B.any(B.AND(e.g, B.NOT(raised(e))) for e in user)
    chk.rule('ended', 'a start without process_initialize, or with one that raises, ends with that error and schedules nothing')
    chk.check(not sat(B.AND(r.st.pc, B.NOT(called))), 'missing', w, 'the start goes on without process_initialize')
    chk.check(not sat(B.AND(r.st.pc, B.NOT(good))), 'error', w, 'an error of process_initialize does not stop the start')
    te = raises_of(r, 'TaskError')
    other = any_raise(r, user)
    left = B.all([r.exc_st.pc, B.NOT(called), B.NOT(other)])
    chk.check(not sat(left) or implies(left, gor(te)), 'TaskError', w, 'a strategy without process_initialize is not refused with TaskError', unknown=bool(te))
    chk.check(bool(te), 'TaskError', w, 'a strategy without process_initialize is not refused with TaskError', unknown=bool([e for e in evs(r, 'raise') if e.extra != 'implicit']))
    for e in r.events:
        if e.kind == 'opaque' and e.fn == sched.qual:
            chk.implies(e.g, good, 'scheduled', e.where(), 'tasks are scheduled although process_initialize did not end')
            chk.check(all(x.i < e.i for x in user), 'scheduled', e.where(), 'tasks are scheduled before process_initialize')
    chk.rule('scheduled', 'after process_initialize has returned the tasks are scheduled')
    chk.check(implies(r.st.pc, gor(e for e in r.events if e.kind == 'opaque' and e.fn == sched.qual)), 'scheduled', w, 'the tasks are not scheduled', unknown=False)
    # what raises in place of the error of the strategy
    new = {e.res for e in evs(r, 'new')}
    for e in user:
        for x in evs(r, 'raise'):
            if x.i > e.i and x.extra != 'implicit' and sat(B.all([x.g, e.g, raised(e)])):
                ts = terms(x.args[0]) if x.args else []
                chk.check(not any(t in new for t in ts), 'own error', x.where(), 'an error of process_initialize is replaced by %s' % ', '.join(map(show, ts)))


def module_of(ctx, r, me):
    return mk('attr', me, module_field(ctx), 0)


def user_ctx(ctx, ini, t, me, U):
    """t is the user context of this strategy, made for its own context"""
    if t.op != 'attr' or t.args[0] is not me:
        return False
    s = ini.sym[ini.func.params[0]]
    c = ini.sym[ini.func.params[1]]
    for g, x in under(field(ini, ini.st.heap, s, t.args[1]), ini.st.pc):
        if not typed(ini, x, U):
            return False
        new = [e for e in evs(ini, 'new') if e.res is x]
        a = arg(new[0], 0, 'ctx') if new else None
        if a is None or any(y is not c and y is not mk('attr', s, '_ctx', 0) for y in terms(a)):
            return False
    return True


# ---------------------------------------------------------------- S14: the configuration file wherever the strategy goes
@prop('S14')
def s14_cwd(ctx, chk):
    chk.rule('same file', 'the path of the custom configuration that the account reads later does not depend on the working directory')
    r = start_run(ctx)
    cfg = mk('attr', r.sym[r.func.params[0]], 'config', 0)
    setup = [e for e in r.events if e.kind == 'opaque' and e.fn.endswith(('Strategy.setup', 'Strategy.__init__'))]
    if not setup:
        raise Undecided('where the strategy is set up is not found')
    first = min(setup, key=lambda e: e.i)
    C = ctx.cls('Context')
    q = ctx.run(ctx.method('Context', 'config'))
    fs = {t.args[1] for g, t in q.value.ls if t.op == 'attr' and t.args[0] is q.sym['self']}
    if len(fs) != 1:
        raise Undecided('field of the configuration path')
    f = fs.pop()
    seen = False
    for e in evs(r, 'new'):
        if isinstance(e.res, T) and typed(r, e.res, C):
            for g, t in under(field(r, first.heap, e.res, f), B.AND(first.g, truthy(cfg))):
                seen = True
                chk.check(plain_path(t) is cfg, 'given file', e.where(), 'the account reads its configuration from %s' % show(t), unknown=has_unknown(t))
                chk.check(any(n in show(t) for n in ('abspath', 'realpath', 'getcwd')), 'absolute', e.where(), 'the path of the configuration is relative: after the strategy changed the directory it is not found',
                          unknown=has_unknown(t) and t is not cfg)
    if not seen:
        chk.undecided('absolute', r.func.qual, 'where the path is kept')
