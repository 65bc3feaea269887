#!/usr/bin/env python3
"""Automatic refactorings of /repo that keep the behaviour; the checks must stay quiet (not used by any check).

usage: auto.py [--per package|file|function] [-t KIND,...] [-p PID,...] [-f FUNCTION-TEXT]
Scratch copies under /tmp are removed.  Prints every alarm and, per property, how many obligations became undecided.
"""
import ast, copy, json, os, shutil, subprocess, sys, tempfile, warnings
from concurrent.futures import ThreadPoolExecutor
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
CHECK = os.path.join(V, 'sa', 'check.py')
REPO = os.environ.get('AUTO_REPO', '/repo')

BLOCKS = ('body', 'orelse', 'finalbody')


def blocks(node):
    for n in ast.walk(node):
        for b in BLOCKS:
            v = getattr(n, b, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                yield n, b, v


def names(node, ctx=None):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and (ctx is None or isinstance(n.ctx, ctx))}


def simple(e):
    return isinstance(e, (ast.Name, ast.Constant)) or isinstance(e, ast.Attribute) and simple(e.value)


class T(object):
    def __init__(self, tree):
        self.tree, self.n, self.done = tree, 0, 0

    def tmp(self, p='_t'):
        self.n += 1
        return '%s%d' % (p, self.n)


KINDS = {}


def kind(f):
    KINDS[f.__name__] = f
    return f


def load(n):
    return ast.Name(n, ast.Load())


def store(n):
    return ast.Name(n, ast.Store())


def neg(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    return ast.UnaryOp(ast.Not(), e)


def own(f):
    """nodes of a function without nested functions"""
    st = list(f.body)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))


@kind
def invert_if(t, f, c):
    for n in own(f):
        if isinstance(n, ast.If):
            n.test, n.body, n.orelse = neg(n.test), n.orelse or [ast.Pass()], n.body
            t.done += 1


@kind
def temp_cond(t, f, c):
    for _, _, b in blocks(f):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.If) and not simple(s.test):
                v = t.tmp('_c')
                b.insert(i, ast.Assign([store(v)], s.test))
                s.test = load(v)
                i += 1
                t.done += 1
            i += 1


@kind
def temp_ret(t, f, c):
    for _, _, b in blocks(f):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.Return) and s.value is not None and not simple(s.value):
                v = t.tmp('_r')
                b.insert(i, ast.Assign([store(v)], s.value))
                s.value = load(v)
                i += 1
                t.done += 1
            i += 1


@kind
def temp_args(t, f, c):
    for _, _, b in blocks(f):
        i = 0
        while i < len(b):
            s = b[i]
            v = s.value if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) else None
            if isinstance(v, ast.Call) and not any(isinstance(a, ast.Starred) for a in v.args):
                pre = []
                for k, a in enumerate(v.args):
                    if not simple(a) and not isinstance(a, (ast.Lambda, ast.GeneratorExp)):
                        x = t.tmp('_a')
                        pre.append(ast.Assign([store(x)], a))
                        v.args[k] = load(x)
                for kw in v.keywords:
                    if kw.arg and not simple(kw.value) and not isinstance(kw.value, (ast.Lambda, ast.GeneratorExp)):
                        x = t.tmp('_a')
                        pre.append(ast.Assign([store(x)], kw.value))
                        kw.value = load(x)
                b[i:i] = pre
                i += len(pre)
                t.done += len(pre)
            i += 1


@kind
def nest_and(t, f, c):
    for n in own(f):
        if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            first, rest = n.test.values[0], n.test.values[1:]
            n.test = first
            n.body = [ast.If(rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest), n.body, [])]
            t.done += 1


@kind
def guard_continue(t, f, c):
    for n in own(f):
        if isinstance(n, (ast.For, ast.While)) and isinstance(n.body[-1], ast.If) and not n.body[-1].orelse:
            s = n.body.pop()
            n.body += [ast.If(neg(s.test), [ast.Continue()], [])] + s.body
            t.done += 1


@kind
def unguard_continue(t, f, c):
    for n in own(f):
        if isinstance(n, (ast.For, ast.While)):
            for i, s in enumerate(n.body):
                if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Continue) and n.body[i + 1:]:
                    n.body[i:] = [ast.If(neg(s.test), n.body[i + 1:], [])]
                    t.done += 1
                    break


def ends(b):
    return isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


@kind
def else_after_return(t, f, c):
    for _, _, b in list(blocks(f)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and b[i + 1:]:
                s.orelse = b[i + 1:]
                del b[i + 1:]
                t.done += 1
                break


@kind
def return_after_if(t, f, c):
    s = f.body[-1]
    if isinstance(s, ast.If) and s.orelse and not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f)):
        if not ends(s.body):
            s.body.append(ast.Return(None))
        rest, s.orelse = s.orelse, []
        f.body += rest
        t.done += 1


@kind
def comp_to_loop(t, f, c):
    for _, _, b in blocks(f):
        i = 0
        while i < len(b):
            s = b[i]
            v = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
            if isinstance(v, (ast.ListComp, ast.DictComp)) and len(v.generators) == 1:
                g = v.generators[0]
                x = t.tmp('_l')
                if isinstance(v, ast.ListComp):
                    new, inner = ast.List([], ast.Load()), ast.Expr(ast.Call(ast.Attribute(load(x), 'append', ast.Load()), [v.elt], []))
                else:
                    new, inner = ast.Dict([], []), ast.Assign([ast.Subscript(load(x), v.key, ast.Store())], v.value)
                for q in reversed(g.ifs):
                    inner = ast.If(q, [inner], [])
                s.value = load(x)
                b[i:i] = [ast.Assign([store(x)], new), ast.For(g.target, g.iter, [inner], [])]
                i += 2
                t.done += 1
            i += 1


@kind
def loop_to_comp(t, f, c):
    for _, _, b in blocks(f):
        for i in range(len(b) - 1):
            a, s = b[i], b[i + 1]
            if (isinstance(a, ast.Assign) and isinstance(a.targets[0], ast.Name) and isinstance(a.value, ast.List) and not a.value.elts and isinstance(s, ast.For) and not s.orelse and len(s.body) == 1):
                q, conds = s.body[0], []
                while isinstance(q, ast.If) and not q.orelse and len(q.body) == 1:
                    conds.append(q.test)
                    q = q.body[0]
                if isinstance(q, ast.Expr) and isinstance(q.value, ast.Call) and isinstance(q.value.func, ast.Attribute) and q.value.func.attr == 'append' and isinstance(q.value.func.value, ast.Name) \
                        and q.value.func.value.id == a.targets[0].id and a.targets[0].id not in names(s.iter):
                    a.value = ast.ListComp(q.value.args[0], [ast.comprehension(s.target, s.iter, conds, 0)])
                    b[i + 1] = ast.Pass()
                    t.done += 1


def deco(f):
    return [d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else '?' for d in f.decorator_list]


def is_gen(f):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f))


def plain_args(f):
    a = f.args
    return not (a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs)


def uses_super(f):
    return any(isinstance(n, ast.Name) and n.id in ('super', '__class__', 'locals') for n in ast.walk(f))


@kind
def delegate(t, f, c):
    """the whole body moves to a helper"""
    if is_gen(f) or not plain_args(f) or uses_super(f) or any(d not in ('property', 'staticmethod', 'classmethod', 'setter') for d in deco(f)) or f.name == '__new__':
        return
    ds = deco(f)
    name = '_impl_' + f.name.strip('_') + ('_set' if 'setter' in ds else '')
    ps = [a.arg for a in f.args.args]
    g = ast.FunctionDef(name, copy.deepcopy(f.args), f.body, [d for d in f.decorator_list if isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod')], None, None)
    g.args.defaults = []
    if c is None:
        call = ast.Call(load(name), [load(p) for p in ps], [])
        t.after.append((t.tree.body, f, g))
    else:
        if 'staticmethod' in ds:
            call = ast.Call(ast.Attribute(load(c.name), name, ast.Load()), [load(p) for p in ps], [])
        else:
            call = ast.Call(ast.Attribute(load(ps[0]), name, ast.Load()), [load(p) for p in ps[1:]], [])
        t.after.append((c.body, f, g))
    doc = f.body[:1] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
    f.body = doc + [ast.Return(call)]
    t.done += 1


def local_names(f):
    return {a.arg for a in f.args.args + f.args.kwonlyargs} | ({f.args.vararg.arg} if f.args.vararg else set()) | ({f.args.kwarg.arg} if f.args.kwarg else set()) | names(f, ast.Store) \
        | {n.name for n in ast.walk(f) if isinstance(n, (ast.FunctionDef, ast.ExceptHandler)) and n is not f and n.name} \
        | {(a.asname or a.name).split('.')[0] for n in ast.walk(f) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}


def helper(t, f, c, name, body, params):
    """adds a helper with the statements; returns the call"""
    selfp = f.args.args[0].arg if c is not None and f.args.args and 'staticmethod' not in deco(f) else None
    ps = [p for p in sorted(params) if p != selfp]
    args = ast.arguments([], [ast.arg(p) for p in ([selfp] if selfp else []) + ps], None, [], [], None, [])
    decos = []
    if c is not None and selfp is None:
        decos = [load('staticmethod')]
    if 'classmethod' in deco(f):
        decos = [load('classmethod')]
    g = ast.FunctionDef(name, args, body, decos, None, None)
    if c is None:
        t.after.append((t.tree.body, f, g))
        return ast.Call(load(name), [load(p) for p in ps], [])
    t.after.append((c.body, f, g))
    return ast.Call(ast.Attribute(load(selfp or c.name), name, ast.Load()), [load(p) for p in ps], [])


def before(f, stmts):
    out = {a.arg for a in f.args.args + f.args.kwonlyargs} | ({f.args.vararg.arg} if f.args.vararg else set()) | ({f.args.kwarg.arg} if f.args.kwarg else set())
    for s in stmts:
        out |= names(s, ast.Store) | {(a.asname or a.name).split('.')[0] for n in ast.walk(s) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names} | {n.name for n in ast.walk(s) if isinstance(n, ast.FunctionDef)}
    return out


def okfn(f):
    return not is_gen(f) and not uses_super(f) and not any(d not in ('property', 'staticmethod', 'classmethod', 'setter') for d in deco(f)) and not any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(f))


@kind
def extract_tail(t, f, c):
    body = f.body
    k = len(body) // 2
    if not okfn(f) or len(body) < 3:
        return
    tail = body[k:]
    use = set().union(*[names(s) for s in tail])
    call = helper(t, f, c, '_tail_%s%s' % (f.name.strip('_'), '_set' if 'setter' in deco(f) else ''), tail, use & before(f, body[:k]))
    # a name that is deleted or only maybe bound cannot be passed
    f.body = body[:k] + [ast.Return(call)]
    t.done += 1


@kind
def extract_head(t, f, c):
    """leading checks (statements that only raise) move to a helper"""
    body = f.body
    k = 0
    if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
        k = 1
    j = k
    while j < len(body) and isinstance(body[j], ast.If) and not body[j].orelse and isinstance(body[j].body[-1], ast.Raise) and not names(body[j], ast.Store):
        j += 1
    if not okfn(f) or j == k or j == len(body):
        return
    use = set().union(*[names(s) for s in body[k:j]])
    call = helper(t, f, c, '_check_%s' % f.name.strip('_'), body[k:j], use & before(f, []))
    body[k:j] = [ast.Expr(call)]
    t.done += 1


@kind
def extract_loop_body(t, f, c):
    if not okfn(f):
        return
    for n in list(own(f)):
        if isinstance(n, (ast.For,)) and not n.orelse:
            inner = [x for s in n.body for x in ast.walk(s)]
            if any(isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.For, ast.While, ast.FunctionDef, ast.Lambda)) for x in inner):
                continue
            st = set().union(*[names(s, ast.Store) for s in n.body])
            other = [x.id for x in own(f) if isinstance(x, ast.Name) and x.id in st]
            inside = [x.id for x in inner if isinstance(x, ast.Name) and x.id in st]
            if len(other) != len(inside):
                continue
            first = {}
            # a name read before it is assigned in the body lives over the passes
            bad = False
            for s in n.body:
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and x.id in st and x.id not in first:
                        first[x.id] = 1
                        if isinstance(x.ctx, ast.Load):
                            bad = True
            use = set().union(*[names(s) for s in n.body]) & (local_names(f))
            if isinstance(n.body[0], ast.AugAssign) or any(isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) for x in inner):
                continue
            call = helper(t, f, c, t.tmp('_each_%s' % f.name.strip('_')), n.body, use - st)
            n.body = [ast.Expr(call)]
            t.done += 1


@kind
def extract_cond(t, f, c):
    if not okfn(f):
        return
    for n in list(own(f)):
        if isinstance(n, ast.If) and not simple(n.test) and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(n.test)):
            use = names(n.test) & local_names(f)
            bound = {x.id for x in ast.walk(n.test) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            n.test = helper(t, f, c, t.tmp('_is_%s' % f.name.strip('_')), [ast.Return(n.test)], use - bound)
            t.done += 1


@kind
def fstring_format(t, f, c):
    class X(ast.NodeTransformer):
        def visit_JoinedStr(self, n):
            if any(isinstance(v, ast.FormattedValue) and (v.conversion != -1 or v.format_spec is not None) for v in n.values):
                return n
            s, args = '', []
            for v in n.values:
                if isinstance(v, ast.Constant):
                    s += v.value.replace('{', '{{').replace('}', '}}')
                else:
                    s += '{}'
                    args.append(v.value)
            t.done += 1
            return ast.Call(ast.Attribute(ast.Constant(s), 'format', ast.Load()), args, [])
    X().visit(f)


@kind
def swap_eq(t, f, c):
    for n in own(f):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
            n.left, n.comparators = n.comparators[0], [n.left]
            t.done += 1


@kind
def swap_lt(t, f, c):
    m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
    for n in own(f):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in m:
            n.left, n.comparators, n.ops = n.comparators[0], [n.left], [m[type(n.ops[0])]()]
            t.done += 1


@kind
def in_tuple(t, f, c):
    class X(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], (ast.Tuple, ast.List, ast.Set)) and simple(n.left):
                neg_ = isinstance(n.ops[0], ast.NotIn)
                t.done += 1
                vs = [ast.Compare(copy.deepcopy(n.left), [ast.NotEq() if neg_ else ast.Eq()], [e]) for e in n.comparators[0].elts]
                return vs[0] if len(vs) == 1 else ast.BoolOp(ast.And() if neg_ else ast.Or(), vs)
            return n
    X().visit(f)


@kind
def not_in(t, f, c):
    class X(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            m = {ast.NotIn: ast.In, ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.Lt: ast.GtE, ast.Gt: ast.LtE}
            if len(n.ops) == 1 and type(n.ops[0]) in m:
                t.done += 1
                return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [m[type(n.ops[0])]()], n.comparators))
            return n
    X().visit(f)


@kind
def for_iter(t, f, c):
    for _, _, b in blocks(f):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.For) and not s.orelse:
                x = t.tmp('_it')
                tr = ast.Try([ast.Assign([s.target], ast.Call(load('next'), [load(x)], []))], [ast.ExceptHandler(load('StopIteration'), None, [ast.Break()])], [], [])
                b[i] = ast.While(ast.Constant(True), [tr] + s.body, [])
                b.insert(i, ast.Assign([store(x)], ast.Call(load('iter'), [s.iter], [])))
                i += 1
                t.done += 1
            i += 1


@kind
def for_enumerate(t, f, c):
    for n in own(f):
        if isinstance(n, ast.For):
            n.iter = ast.Call(load('enumerate'), [n.iter], [])
            n.target = ast.Tuple([store(t.tmp('_i')), n.target], ast.Store())
            t.done += 1


@kind
def for_temp(t, f, c):
    for _, _, b in blocks(f):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.For) and not simple(s.iter):
                x = t.tmp('_seq')
                b.insert(i, ast.Assign([store(x)], s.iter))
                s.iter = load(x)
                i += 1
                t.done += 1
            i += 1


@kind
def for_items(t, f, c):
    """for k in d: ... d[k] ...  ->  for k, v in d.items()"""
    for n in own(f):
        if isinstance(n, ast.For) and isinstance(n.target, ast.Name) and simple(n.iter):
            key, src = n.target.id, ast.dump(n.iter)
            hits = [x for s in n.body for x in ast.walk(s) if isinstance(x, ast.Subscript) and ast.dump(x.value) == src and isinstance(x.slice, ast.Name) and x.slice.id == key]
            if not hits or any(not isinstance(x.ctx, ast.Load) for x in hits):
                continue
            v = t.tmp('_v')

            class X(ast.NodeTransformer):
                def visit_Subscript(self, x):
                    return load(v) if x in hits else self.generic_visit(x)
            n.body = [X().visit(s) for s in n.body]
            n.iter = ast.Call(ast.Attribute(n.iter, 'items', ast.Load()), [], [])
            n.target = ast.Tuple([n.target, store(v)], ast.Store())
            t.done += 1


@kind
def rename_locals(t, f, c):
    ps = {a.arg for a in f.args.args + f.args.kwonlyargs} | ({f.args.vararg.arg} if f.args.vararg else set()) | ({f.args.kwarg.arg} if f.args.kwarg else set())
    glob = {n for g in ast.walk(f) if isinstance(g, (ast.Global, ast.Nonlocal)) for n in g.names}
    loc = names(f, ast.Store) - ps - glob
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and n.id in loc:
            n.id = n.id + '_rn'
            t.done += 1
        if isinstance(n, ast.ExceptHandler) and n.name:
            pass


@kind
def try_wrap(t, f, c):
    if is_gen(f):
        return
    k = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
    if not f.body[k:]:
        return
    f.body = f.body[:k] + [ast.Try(f.body[k:], [ast.ExceptHandler(load('Exception'), None, [ast.Raise(None, None)])], [], [])]
    t.done += 1


@kind
def add_log(t, f, c):
    if 'logger' not in t.globals:
        return
    k = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
    f.body.insert(k, ast.Expr(ast.Call(ast.Attribute(load('logger'), 'debug', ast.Load()), [ast.Constant('enter ' + f.name)], [])))
    t.done += 1


@kind
def add_noop(t, f, c):
    for _, _, b in list(blocks(f)):
        b.insert(len(b) - 1, ast.Assign([store('_unused')], ast.Constant(0)))
        t.done += 1
    k = f.body
    if isinstance(k[-1], ast.Expr) and isinstance(k[-1].value, ast.Constant) and isinstance(k[-1].value.value, str):
        k.reverse()


@kind
def ternary_if(t, f, c):
    for _, _, b in blocks(f):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
                e = s.value
                x, y = copy.deepcopy(s), copy.deepcopy(s)
                x.value, y.value = e.body, e.orelse
                b[i] = ast.If(e.test, [x], [y])
                t.done += 1


@kind
def if_ternary(t, f, c):
    for _, _, b in blocks(f):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign) and len(s.body[0].targets) == 1 \
                    and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]) and isinstance(s.body[0].targets[0], ast.Name):
                b[i] = ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))
                t.done += 1


@kind
def lambda_def(t, f, c):
    for _, _, b in list(blocks(f)):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, (ast.Assign, ast.Expr, ast.Return)):
                ls = [x for x in ast.walk(s) if isinstance(x, ast.Lambda)]
                if len(ls) == 1:
                    nm = t.tmp('_fn')
                    d = ast.FunctionDef(nm, ls[0].args, [ast.Return(ls[0].body)], [], None, None)

                    class X(ast.NodeTransformer):
                        def visit_Lambda(self, n):
                            return load(nm)
                    X().visit(s)
                    b.insert(i, d)
                    i += 1
                    t.done += 1
            i += 1


@kind
def constants(t, f, c):
    skip = set()
    for n in ast.walk(f):
        if isinstance(n, (ast.JoinedStr,)):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(id(n.value))
    skip |= {id(x) for d in f.args.defaults for x in ast.walk(d)}

    class X(ast.NodeTransformer):
        def visit_Constant(self, n):
            if id(n) in skip or not isinstance(n.value, (str, int, float)) or isinstance(n.value, bool):
                return n
            nm = t.tmp('_K')
            t.top.append(ast.Assign([store(nm)], ast.Constant(n.value)))
            t.done += 1
            return load(nm)
    for s in f.body:
        X().visit(s)


@kind
def append_extend(t, f, c):
    for n in own(f):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'append' and len(n.args) == 1:
            n.func.attr = 'extend'
            n.args = [ast.List([n.args[0]], ast.Load())]
            t.done += 1


@kind
def set_update(t, f, c):
    for _, _, b in blocks(f):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript) and not isinstance(s.targets[0].slice, ast.Slice):
                x = s.targets[0]
                if isinstance(x.slice, ast.Constant) and isinstance(x.slice.value, int):
                    continue
                b[i] = ast.Expr(ast.Call(ast.Attribute(x.value, 'update', ast.Load()), [ast.Dict([x.slice], [s.value])], []))
                t.done += 1


@kind
def raise_temp(t, f, c):
    for _, _, b in blocks(f):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.Raise) and isinstance(s.exc, ast.Call):
                v = t.tmp('_err')
                b.insert(i, ast.Assign([store(v)], s.exc))
                s.exc = load(v)
                i += 1
                t.done += 1
            i += 1


@kind
def alias_final(t, f, c):
    """fields that only __init__ assigns are read once"""
    if c is None or not f.args.args or f.name == '__init__' or 'staticmethod' in deco(f) or 'classmethod' in deco(f) or is_gen(f):
        return
    me = f.args.args[0].arg
    cnt = {}
    for n in own(f):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and isinstance(n.ctx, ast.Load) and n.attr in t.final.get(c.name, ()):
            cnt.setdefault(n.attr, []).append(n)
    pre = []
    for a, ns in sorted(cnt.items()):
        if len(ns) < 2:
            continue
        v = t.tmp('_f')
        pre.append(ast.Assign([store(v)], ast.Attribute(load(me), a, ast.Load())))

        class X(ast.NodeTransformer):
            def visit_Attribute(self, n):
                return load(v) if n in ns else self.generic_visit(n)
        f.body = [X().visit(s) for s in f.body]
        t.done += 1
    k = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
    f.body[k:k] = pre


@kind
def merge_if(t, f, c):
    for n in own(f):
        while isinstance(n, ast.If) and not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse:
            n.test, n.body = ast.BoolOp(ast.And(), [n.test, n.body[0].test]), n.body[0].body
            t.done += 1


@kind
def demorgan(t, f, c):
    for n in own(f):
        if isinstance(n, ast.If) and isinstance(n.test, ast.BoolOp):
            op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [neg(v) if isinstance(v, ast.Compare) else ast.UnaryOp(ast.Not(), v) for v in n.test.values]))
            t.done += 1


@kind
def with_try(t, f, c):
    for _, _, b in list(blocks(f)):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.With) and len(s.items) == 1 and isinstance(s.items[0].optional_vars, ast.Name) and isinstance(s.items[0].context_expr, ast.Call) and isinstance(s.items[0].context_expr.func, ast.Name) \
                    and s.items[0].context_expr.func.id == 'open':
                v = s.items[0].optional_vars
                b[i:i + 1] = [ast.Assign([v], s.items[0].context_expr), ast.Try(s.body, [], [], [ast.Expr(ast.Call(ast.Attribute(load(v.id), 'close', ast.Load()), [], []))])]
                t.done += 1
            i += 1


@kind
def aug_assign(t, f, c):
    for _, _, b in blocks(f):
        for i, s in enumerate(b):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, (ast.Name, ast.Attribute)):
                l = copy.deepcopy(s.target)
                l.ctx = ast.Load()
                b[i] = ast.Assign([s.target], ast.BinOp(l, s.op, s.value))
                t.done += 1


@kind
def elif_else(t, f, c):
    """elif -> else: if (only the form; unparse writes elif again), so: a temp flag"""
    for n in own(f):
        if isinstance(n, ast.If) and len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If):
            n.orelse.insert(0, ast.Pass())
            t.done += 1


@kind
def get_default(t, f, c):
    """d.get(k, None) for d.get(k)"""
    for n in own(f):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and len(n.args) == 1 and not n.keywords:
            n.args.append(ast.Constant(None))
            t.done += 1


@kind
def star_kw(t, f, c):
    """f(a=1, b=2) -> f(**{...})"""
    for n in own(f):
        if isinstance(n, ast.Call) and n.keywords and all(k.arg for k in n.keywords):
            n.keywords = [ast.keyword(None, ast.Dict([ast.Constant(k.arg) for k in n.keywords], [k.value for k in n.keywords]))]
            t.done += 1


@kind
def kw_temp(t, f, c):
    """f(a=1, b=2) -> kw = dict(a=1, b=2); f(**kw)"""
    for _, _, b in blocks(f):
        i = 0
        while i < len(b):
            s = b[i]
            v = s.value if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) else None
            if isinstance(v, ast.Call) and len(v.keywords) > 1 and all(k.arg for k in v.keywords) and all(simple(a) for a in v.args):
                x = t.tmp('_kw')
                b.insert(i, ast.Assign([store(x)], ast.Call(load('dict'), [], v.keywords)))
                v.keywords = [ast.keyword(None, load(x))]
                i += 1
                t.done += 1
            i += 1


@kind
def import_local(t, f, c):
    """the modules a function uses are imported in it"""
    ms = [m for m in ('os', 'datetime', 'time', 'json', 'signal') if m in t.globals and m in names(f, ast.Load) and m not in local_names(f)]
    k = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
    for m in ms:
        f.body.insert(k, ast.Import([ast.alias(m)]))
        t.done += 1


@kind
def nested_fn(t, f, c):
    """the body becomes an inner function that is called at once"""
    if is_gen(f) or uses_super(f) or any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(f)):
        return
    ps = before(f, [])
    if names(f, ast.Store) & ps or not f.body:
        return
    k = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
    if not f.body[k:]:
        return
    nm = '_inner'
    g = ast.FunctionDef(nm, ast.arguments([], [], None, [], [], None, []), f.body[k:], [], None, None)
    f.body = f.body[:k] + [g, ast.Return(ast.Call(load(nm), [], []))]
    t.done += 1


def functions(tree):
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            yield n, None
        elif isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef):
                    yield m, n


def finals(trees):
    """class name -> fields assigned in __init__ only (by any code)"""
    init, other = {}, set()
    for tree in trees.values():
        for f, c in functions(tree):
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    if f.name == '__init__' and c is not None and isinstance(n.value, ast.Name) and n.value.id == 'self':
                        init.setdefault(c.name, set()).add(n.attr)
                    else:
                        other.add(n.attr)
    return {c: s - other for c, s in init.items()}


def parse_all():
    out = {}
    for d, ds, fs in os.walk(os.path.join(REPO, 'jqtrade')):
        for f in fs:
            if f.endswith('.py'):
                p = os.path.join(d, f)
                out[os.path.relpath(p, REPO)] = ast.parse(open(p, encoding='utf-8').read())
    return out


def transform(trees, k, want):
    """{path: new source} of the files that changed"""
    fin = finals(trees)
    out = {}
    for p, tree in trees.items():
        if not any(want(p, f, c) for f, c in functions(tree)):
            continue
        tree = copy.deepcopy(tree)
        t = T(tree)
        t.after, t.top, t.final = [], [], fin
        t.globals = names(tree, ast.Store) | {(a.asname or a.name).split('.')[0] for n in tree.body if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        for f, c in list(functions(tree)):
            if want(p, f, c):
                KINDS[k](t, f, c)
        if not t.done:
            continue
        for body, f, g in t.after:
            body.insert(body.index(f) + 1, g)
        if t.top:
            i = max([i for i, n in enumerate(tree.body) if isinstance(n, (ast.Import, ast.ImportFrom))] + [0]) + 1
            tree.body[i:i] = t.top
        ast.fix_missing_locations(tree)
        src = ast.unparse(tree) + '\n'
        compile(src, p, 'exec')
        out[p] = src
    return out


def run_variant(name, files, pids):
    d = tempfile.mkdtemp(prefix='auto')
    try:
        shutil.copytree(os.path.join(REPO, 'jqtrade'), d + '/jqtrade', ignore=shutil.ignore_patterns('__pycache__'))
        for p, s in files.items():
            open(os.path.join(d, p), 'w', encoding='utf-8').write(s)
        res = []
        for pid in pids:
            try:
                r = subprocess.run([sys.executable, CHECK, pid, '--repo', d], env=dict(os.environ, VERIF_EVIDENCE_DIR=d), capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                res.append((pid, 'TIMEOUT', 0, ''))
                continue
            try:
                und = len(json.load(open(os.path.join(d, pid + '.json')))['coverage']['undecided'])
            except Exception:
                und = -1
            st = 'ALARM' if r.returncode == 1 else 'ok' if r.returncode == 0 else 'CRASH'
            res.append((pid, st, und, r.stdout + r.stderr if st != 'ok' else ''))
        return name, res
    finally:
        shutil.rmtree(d)


def main():
    a = sys.argv[1:]

    def opt(n, dflt=None):
        return a[a.index(n) + 1] if n in a else dflt
    per = opt('--per', 'package')
    kinds = opt('-t', ','.join(KINDS)).split(',')
    allp = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl')) if l.strip()]
    man = {c['property'] for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']}
    pids = [p for p in (opt('-p').split(',') if opt('-p') else allp) if p in man]
    text = opt('-f', '')
    trees = parse_all()
    analysed = {}
    for p in pids:
        try:
            analysed[p] = set(json.load(open(os.path.join(V, 'evidence', p + '.json')))['coverage']['functions_analysed'])
        except Exception:
            analysed[p] = None
    jobs = []
    for k in kinds:
        if per == 'package':
            fs = transform(trees, k, lambda p, f, c: True)
            if fs:
                jobs += [('%s package' % k, fs, [pid]) for pid in pids]
        else:
            for p, tree in sorted(trees.items()):
                mod = p[:-3].replace('/', '.')
                if per == 'file':
                    fs = transform(trees, k, lambda q, f, c: q == p)
                    use = [pid for pid in pids if analysed[pid] is None or any(x.startswith(mod + '.') for x in analysed[pid])]
                    if fs and text in p:
                        jobs += [('%s %s' % (k, p), fs, [pid]) for pid in use]
                    continue
                for f0, c0 in functions(tree):
                    q = '.'.join([mod] + ([c0.name] if c0 else []) + [f0.name])
                    if text not in q:
                        continue
                    fs = transform(trees, k, lambda p2, f, c: p2 == p and f.name == f0.name and (c.name if c else None) == (c0.name if c0 else None))
                    use = [pid for pid in pids if analysed[pid] is None or q in analysed[pid]]
                    if fs and use:
                        jobs += [('%s %s' % (k, q), fs, [pid]) for pid in use]
    print(len(jobs), 'runs', flush=True)
    und = {}
    n = 0
    with ThreadPoolExecutor(8) as ex:
        for name, res in ex.map(lambda j: run_variant(*j), jobs):
            for pid, st, u, out in res:
                n += 1
                if u:
                    und.setdefault(name, []).append('%s:%s' % (pid, u))
                if st != 'ok':
                    print(st, pid, name, flush=True)
                    ls = [l for l in out.strip().split('\n') if l.strip()]
                    print('   ' + '\n   '.join(ls[:6] if st == 'ALARM' else ls[-6:]), flush=True)
    for k in sorted(und):
        print('undecided', k, ' '.join(und[k]))
    print(n, 'done')


if __name__ == '__main__':
    main()
