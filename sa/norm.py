"""Source forms that mean the same are brought to one form before the analysis (positions are kept).

 iterator loop   `it = iter(X)` / `while True: try: T = next(it) except StopIteration: break; ...`   ->  `for T in X: ...`
 reraise         trailing handlers that only say `raise`                                              ->  dropped
 keyword dict    `f(**{'a': x})`, `f(**dict(a=x))`, `kw = {...}` just before `f(**kw)`                   ->  `f(a=x)`
 positional      `f(*[a, b])`, `f(*(a, b))`                                                            ->  `f(a, b)`
 one element     `x.extend([e])`                                                                      ->  `x.append(e)`
 one key         `d.update({k: v})` (statement)                                                       ->  `d[k] = v`
 inner body      `def inner(): ...` / `return inner()` as the end of a function                       ->  the body itself
"""
import ast


def _own(node):
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            todo.extend(ast.iter_child_nodes(n))


def _is_call(e, name, n=None):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == name and not e.keywords and (n is None or len(e.args) == n) \
        and not any(isinstance(a, ast.Starred) for a in e.args)


def _loads(f, name):
    return [n for n in ast.walk(f) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load)]


def _stores(f, name):
    return [n for n in ast.walk(f) if isinstance(n, ast.Name) and n.id == name and not isinstance(n.ctx, ast.Load)] + \
        [n for n in ast.walk(f) if isinstance(n, ast.arg) and n.arg == name]


def _dict_keywords(e):
    """the keywords a `**e` argument stands for, or None"""
    if isinstance(e, ast.Dict):
        out = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                out.append(ast.copy_location(ast.keyword(None, v), v))
            elif isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier():
                out.append(ast.copy_location(ast.keyword(k.value, v), v))
            else:
                return None
    elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'dict' and not e.args:
        out = list(e.keywords)
    else:
        return None
    names = [k.arg for k in out if k.arg]
    # a key given twice, or after an unknown part that it would replace, is left alone
    if len(set(names)) != len(names) or any(k.arg is None for k in out):
        return None
    return out


class Norm(ast.NodeTransformer):
    def __init__(self):
        self.fun = []

    # ---- expressions
    def visit_Call(self, n):
        self.generic_visit(n)
        if any(k.arg is None for k in n.keywords):
            kws = []
            for k in n.keywords:
                d = _dict_keywords(k.value) if k.arg is None else None
                kws.extend(d if d is not None else [k])
            names = [k.arg for k in kws if k.arg]
            if len(set(names)) == len(names):
                n.keywords = kws
        if any(isinstance(a, ast.Starred) and isinstance(a.value, (ast.List, ast.Tuple)) for a in n.args):
            args = []
            for a in n.args:
                args.extend(a.value.elts if isinstance(a, ast.Starred) and isinstance(a.value, (ast.List, ast.Tuple)) else [a])
            n.args = args
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'extend' and len(n.args) == 1 and not n.keywords and \
                isinstance(n.args[0], (ast.List, ast.Tuple)) and len(n.args[0].elts) == 1 and not isinstance(n.args[0].elts[0], ast.Starred):
            n.func.attr = 'append'
            n.args = [n.args[0].elts[0]]
        return n

    # ---- functions and blocks
    def visit_FunctionDef(self, f):
        self.fun.append(f)
        self.generic_visit(f)
        self.fun.pop()
        self._inner_body(f)
        return f

    visit_AsyncFunctionDef = visit_FunctionDef

    def _inner_body(self, f):
        b = f.body
        if len(b) < 2 or not isinstance(b[-2], ast.FunctionDef):
            return
        g, r = b[-2], b[-1]
        e = r.value if isinstance(r, (ast.Return, ast.Expr)) else None
        a = g.args
        if g.decorator_list or a.args or a.posonlyargs or a.kwonlyargs or a.vararg or a.kwarg or not _is_call(e, g.name, 0):
            return
        if len(_loads(f, g.name)) != 1 or _stores(f, g.name):
            return
        if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.Nonlocal, ast.Global)) for n in _own(g)):
            return
        if isinstance(r, ast.Expr) and any(isinstance(n, ast.Return) and n.value is not None for n in _own(g)):
            return
        # a name of the inner function that shadows one of the outer function stays apart
        mine = {n.id for n in _own(g) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)}
        for s in b[:-2]:
            if mine & {n.id for n in ast.walk(s) if isinstance(n, ast.Name)}:
                return
        if mine & {x.arg for x in ast.walk(f.args) if isinstance(x, ast.arg)}:
            return
        body = g.body
        if len(b) > 2 and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str) and len(body) > 1:
            body = body[1:]
        f.body = b[:-2] + body

    def generic_visit(self, node):
        super().generic_visit(node)
        for name in ('body', 'orelse', 'finalbody'):
            v = getattr(node, name, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(node, name, self._block(v))
        return node

    def _block(self, b):
        out = []
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.Try):
                while s.handlers and len(s.handlers[-1].body) == 1 and isinstance(s.handlers[-1].body[0], ast.Raise) and s.handlers[-1].body[0].exc is None:
                    s.handlers.pop()
                if not s.handlers and not s.finalbody:
                    out.extend(s.body + s.orelse)
                    i += 1
                    continue
                if not s.handlers and s.orelse:
                    s.body, s.orelse = s.body + s.orelse, []
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == 'update' and \
                    len(s.value.args) == 1 and not s.value.keywords and isinstance(s.value.args[0], ast.Dict) and len(s.value.args[0].keys) == 1 and s.value.args[0].keys[0] is not None:
                d = s.value.args[0]
                t = ast.copy_location(ast.Subscript(s.value.func.value, d.keys[0], ast.Store()), s.value)
                s = ast.copy_location(ast.Assign([t], d.values[0]), s)
            nxt = b[i + 1] if i + 1 < len(b) else None
            f = self.fun[-1] if self.fun else None
            if f is not None and nxt is not None and isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                x = s.targets[0].id
                if len(_stores(f, x)) == 1:
                    loop = self._iter_loop(s, nxt, f, x)
                    if loop is not None:
                        b = b[:i + 1] + [loop] + b[i + 2:]
                        i += 1
                        continue
                    if len(_loads(f, x)) == 1 and _dict_keywords(s.value) is not None and self._kw_use(nxt, x, s.value):
                        i += 1
                        continue
            out.append(s)
            i += 1
        return out

    def _kw_use(self, s, x, val):
        if not isinstance(s, (ast.Expr, ast.Return, ast.Assign, ast.Raise)):
            return False
        for n in ast.walk(s):
            if isinstance(n, ast.Call):
                for i, k in enumerate(n.keywords):
                    if k.arg is None and isinstance(k.value, ast.Name) and k.value.id == x:
                        new = n.keywords[:i] + _dict_keywords(val) + n.keywords[i + 1:]
                        names = [y.arg for y in new if y.arg]
                        if len(set(names)) != len(names):
                            return False
                        n.keywords = new
                        return True
        return False

    def _iter_loop(self, s, w, f, x):
        if not (_is_call(s.value, 'iter', 1) and isinstance(w, ast.While) and isinstance(w.test, ast.Constant) and w.test.value and not w.orelse and w.body):
            return None
        t = w.body[0]
        if not (isinstance(t, ast.Try) and len(t.body) == 1 and len(t.handlers) == 1 and not t.finalbody and isinstance(t.body[0], ast.Assign)):
            return None
        a, h = t.body[0], t.handlers[0]
        if not (len(a.targets) == 1 and _is_call(a.value, 'next', 1) and isinstance(a.value.args[0], ast.Name) and a.value.args[0].id == x):
            return None
        if not (isinstance(h.type, ast.Name) and h.type.id == 'StopIteration' and len(h.body) == 1 and isinstance(h.body[0], ast.Break)):
            return None
        if len(_loads(f, x)) != 1:
            return None
        return ast.copy_location(ast.For(a.targets[0], s.value.args[0], t.orelse + w.body[1:] or [ast.copy_location(ast.Pass(), w)], [], None), w)


def normalise(tree):
    return ast.fix_missing_locations(Norm().visit(tree))
