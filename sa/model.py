"""Program model of the analysed package: modules, classes, functions, name resolution and a flow-insensitive
class-type inference (0-CFA) used to resolve receivers of method calls and properties.  Pure syntax: nothing of the
repository is imported or run."""
import ast
import builtins
import os
from . import norm


class AnalysisError(Exception):
    """the analysis cannot give an answer (missing anchor, unreadable source)"""


class Func(object):
    def __init__(self, name, qual, node, module, cls=None, parent=None):
        self.name, self.qual, self.node, self.module, self.cls, self.parent = name, qual, node, module, cls, parent
        self.static = self.clsm = self.prop = False
        self.setter_of = None
        self.ctxmgr = False
        self.unknown_deco = []
        if not isinstance(node, ast.Lambda):
            for d in node.decorator_list:
                nm = _dotted(d)
                if nm == 'staticmethod':
                    self.static = True
                elif nm == 'classmethod':
                    self.clsm = True
                elif nm in ('property', 'functools.cached_property', 'cached_property', 'abc.abstractproperty'):
                    self.prop = True
                elif nm and nm.endswith('.setter'):
                    self.setter_of = nm.split('.')[0]
                elif nm in ('contextmanager', 'contextlib.contextmanager'):
                    self.ctxmgr = True
                elif nm in ('functools.wraps', 'wraps') or (isinstance(d, ast.Call) and _dotted(d.func) in
                                                            ('functools.wraps', 'wraps', 'functools.lru_cache')):
                    pass
                elif nm in ('abstractmethod', 'abc.abstractmethod'):
                    pass
                else:
                    self.unknown_deco.append(d)
        self.is_gen = not isinstance(node, ast.Lambda) and _has_yield(node)
        self.locals = _locals(node)
        self.params = [a.arg for a in node.args.posonlyargs + node.args.args]
        self.kwonly = [a.arg for a in node.args.kwonlyargs]
        self.vararg = node.args.vararg.arg if node.args.vararg else None
        self.kwarg = node.args.kwarg.arg if node.args.kwarg else None

    def __repr__(self):
        return "<%s>" % self.qual

    def inside(self, g):
        f = self
        while f is not None and f is not g:
            f = f.parent
        return f is g

    def top_cls(self):
        f = self
        while f.cls is None and f.parent is not None:
            f = f.parent
        return f.cls


class Class(object):
    def __init__(self, name, qual, node, module):
        self.name, self.qual, self.node, self.module = name, qual, node, module
        self.methods, self.setters, self.attrs, self.bases = {}, {}, {}, []
        self.members = []          # enum members (name, expr)

    def mro(self):
        out, todo = [], [self]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            todo = [b for b in c.bases if isinstance(b, Class)] + todo
        return out

    def ext_bases(self):
        return [b for c in self.mro() for b in c.bases if not isinstance(b, Class)]

    @property
    def is_enum(self):
        return any(b in ('enum.Enum', 'enum.IntEnum', 'enum.StrEnum') for b in self.ext_bases())

    @property
    def is_exception(self):
        return any(is_builtin_exc(b) for b in self.ext_bases())

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_setter(self, name):
        for c in self.mro():
            if name in c.setters:
                return c.setters[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
            if name in c.methods:
                return None
        return None

    def subclass_of(self, other):
        return other in self.mro()

    def __repr__(self):
        return "<class %s>" % self.qual


class Module(object):
    def __init__(self, name, path, tree, ispkg):
        self.name, self.path, self.tree, self.ispkg = name, path, tree, ispkg
        self.names = {}          # name -> binding
        self.funcs, self.classes = {}, {}

    def __repr__(self):
        return "<module %s>" % self.name


def is_builtin_exc(name):
    n = name.split('.')[-1] if name.startswith('builtins.') else name
    o = getattr(builtins, n, None)
    return isinstance(o, type) and issubclass(o, BaseException)


def _dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = _dotted(n.value)
        return b and b + '.' + n.attr
    return None


def _walk_own(node):
    """nodes of a function body without nested functions/classes"""
    body = node.body if isinstance(node.body, list) else [node.body]
    todo = list(body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def _has_yield(node):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _walk_own(node))


def _locals(node):
    out, free = set(), set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(x.arg)
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)
    if isinstance(node, ast.Lambda):
        for n in ast.walk(node.body):
            if isinstance(n, ast.NamedExpr):
                out.add(n.target.id)
        return out
    for n in _walk_own(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            free.update(n.names)
    return out - free


class Program(object):
    def __init__(self, root, pkg='jqtrade'):
        self.root, self.pkg = root, pkg
        self.modules = {}
        self.funcs, self.classes = [], []
        self.by_node = {}
        base = os.path.join(root, pkg)
        if not os.path.isdir(base):
            raise AnalysisError("package %s not found in %s" % (pkg, root))
        for d, dirs, files in sorted(os.walk(base)):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, root)[:-3].split(os.sep)
                ispkg = rel[-1] == '__init__'
                name = '.'.join(rel[:-1] if ispkg else rel)
                with open(path, encoding='utf-8') as fp:
                    src = fp.read()
                try:
                    tree = norm.normalise(ast.parse(src, path))
                except SyntaxError as e:
                    raise AnalysisError("cannot parse %s: %s" % (path, e))
                self.modules[name] = Module(name, os.path.relpath(path, root), tree, ispkg)
        for m in self.modules.values():
            self._collect(m)
        for c in self.classes:
            c.bases = [b for b in (self.class_ref(c.module, e) for e in c.node.bases) if b is not None]
        for c in self.classes:
            if c.is_enum:
                c.members = [(k, v) for k, v in c.attrs.items() if not k.startswith('_')]
        self._mutated()

    # ---- collection
    def _collect(self, m):
        def visit(body, scope):
            for n in body:
                if isinstance(n, ast.FunctionDef):
                    f = self._func(n, m, None, None)
                    m.funcs[n.name] = f
                    m.names[n.name] = ('func', f)
                elif isinstance(n, ast.ClassDef):
                    c = self._class(n, m, n.name)
                    m.classes[n.name] = c
                    m.names[n.name] = ('class', c)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for nm, b in self.import_bindings(m, n):
                        m.names[nm] = b
                elif isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                    for t in ts:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name):
                                m.names.setdefault(x.id, ('assign', []))
                                if m.names[x.id][0] == 'assign':
                                    m.names[x.id][1].append(n)
                elif isinstance(n, (ast.If, ast.Try, ast.With)):
                    if isinstance(n, ast.If) and self._is_main_guard(n.test):
                        visit(n.orelse, scope)
                        continue
                    for fld in ('body', 'orelse', 'finalbody'):
                        visit(getattr(n, fld, []), scope)
                    for h in getattr(n, 'handlers', []):
                        visit(h.body, scope)
        visit(m.tree.body, None)

    @staticmethod
    def _is_main_guard(t):
        return isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == '__name__'

    def _func(self, n, m, cls, parent, name=None):
        name = name or getattr(n, 'name', '<lambda>')
        pre = parent.qual + '.' if parent else (cls.qual + '.' if cls else m.name + '.')
        f = Func(name, pre + name, n, m, cls, parent)
        self.funcs.append(f)
        self.by_node[n] = f
        for x in _walk_own(n):
            if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                self._func(x, m, cls, f)
            elif isinstance(x, ast.ClassDef):
                self._class(x, m, x.name, f)
        return f

    def _class(self, n, m, name, parent=None):
        c = Class(name, (parent.qual if parent else m.name) + '.' + name, n, m)
        self.classes.append(c)
        self.by_node[n] = c
        for x in n.body:
            if isinstance(x, ast.FunctionDef):
                f = self._func(x, m, c, None)
                if f.setter_of:
                    c.setters[f.setter_of] = f
                else:
                    c.methods[x.name] = f
            elif isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        if isinstance(x.value, ast.Name) and x.value.id in c.methods:     # a second name of a method or property
                            c.methods[t.id] = c.methods[x.value.id]
                        else:
                            c.attrs[t.id] = x.value
            elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.value is not None:
                c.attrs[x.target.id] = x.value
        for x in ast.walk(n):
            if isinstance(x, ast.Lambda) and x not in self.by_node:
                self._func(x, m, c, None)
        return c

    def import_bindings(self, m, n):
        out = []
        if isinstance(n, ast.Import):
            for al in n.names:
                if al.asname:
                    out.append((al.asname, self.mod_binding(al.name)))
                else:
                    out.append((al.name.split('.')[0], self.mod_binding(al.name.split('.')[0])))
        else:
            base = n.module or ''
            if n.level:
                parts = m.name.split('.')
                if not m.ispkg:
                    parts = parts[:-1]
                parts = parts[:len(parts) - (n.level - 1)]
                base = '.'.join(parts + ([n.module] if n.module else []))
            for al in n.names:
                out.append((al.asname or al.name, ('from', base, al.name)))
        return out

    def mod_binding(self, name):
        if name in self.modules:
            return ('module', self.modules[name])
        return ('ext', name)

    def lookup(self, m, name, depth=0):
        """binding of a module-level name: module/class/func/assign(module, nodes)/ext dotted"""
        b = m.names.get(name)
        if b is None:
            if hasattr(builtins, name):
                return ('ext', 'builtins.' + name)
            return None
        return self.deref(m, name, b, depth)

    def deref(self, m, name, b, depth=0):
        if b[0] == 'from':
            base, nm = b[1], b[2]
            if base + '.' + nm in self.modules:
                return ('module', self.modules[base + '.' + nm])
            if base in self.modules:
                if depth > 10:
                    return None
                r = self.lookup(self.modules[base], nm, depth + 1)
                return r
            return ('ext', base + '.' + nm)
        if b[0] == 'assign':
            return ('assign', m, name, b[1])
        return b

    def class_ref(self, m, e):
        if isinstance(e, ast.Name):
            b = self.lookup(m, e.id)
        else:
            d = _dotted(e)
            if d is None:
                return None
            b0 = self.lookup(m, d.split('.')[0])
            if b0 and b0[0] == 'ext':
                return b0[1] + d[len(d.split('.')[0]):]
            if b0 and b0[0] == 'module':
                r = self.lookup(b0[1], d.split('.')[-1])
                return r[1] if r and r[0] == 'class' else None
            return None
        if b is None:
            return None
        if b[0] == 'class':
            return b[1]
        if b[0] == 'ext':
            return b[1][9:] if b[1].startswith('builtins.') else b[1]
        return None

    def _mutated(self):
        """names of module globals / class attributes that some function writes or mutates"""
        self.mut_names = set()
        for f in self.funcs:
            if isinstance(f.node, ast.Lambda):
                nodes = ast.walk(f.node.body)
            else:
                nodes = _walk_own(f.node)
            gl = set()
            for n in nodes:
                if isinstance(n, ast.Global):
                    gl.update(n.names)
                    self.mut_names.update(n.names)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    self.mut_names.add(n.attr)
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    d = _dotted(n.value)
                    if d and (d.split('.')[0] not in f.locals or '.' in d):
                        self.mut_names.add(d.split('.')[-1])
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                        'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'update', 'setdefault', 'popitem',
                        'add', 'discard', 'sort', 'reverse', 'move_to_end', 'appendleft', 'popleft'):
                    d = _dotted(n.func.value)
                    if d and (d.split('.')[0] not in f.locals or '.' in d):
                        self.mut_names.add(d.split('.')[-1])

    # ---- queries
    def func(self, qual):
        for f in self.funcs:
            if f.qual == qual:
                return f
        return None

    def cls(self, qual):
        for c in self.classes:
            if c.qual == qual:
                return c
        return None

    def find_class(self, name):
        """class by bare name anywhere in the package (robust to a move between modules)"""
        cs = [c for c in self.classes if c.name == name]
        if len(cs) == 1:
            return cs[0]
        raise AnalysisError("class %s: %d definitions" % (name, len(cs)))

    def method(self, cname, mname):
        f = self.find_class(cname).find(mname)
        if f is None:
            raise AnalysisError("method %s.%s not found" % (cname, mname))
        return f

    def modfunc(self, mod, name):
        """module-level function by module suffix and name, following re-exports"""
        m = self.modules.get(self.pkg + '.' + mod)
        if m is None:
            raise AnalysisError("module %s not found" % mod)
        b = self.lookup(m, name)
        if b and b[0] == 'func':
            return b[1]
        raise AnalysisError("function %s.%s not found" % (mod, name))

    def subclasses(self, c):
        return [x for x in self.classes if c in x.mro()]


class Types(object):
    """flow-insensitive class-type inference.  Abstract values: ('i',Class) ('c',Class) ('f',Func) ('bm',Func,av)
    ('k',site) containers, ('p',prim), ('m',Module), ('x',dotted), ('any',)"""
    ANY = ('any',)

    def __init__(self, prog):
        self.p = prog
        self.var, self.field, self.elem, self.ret, self.cattr, self.fwriters = {}, {}, {}, {}, {}, {}
        self.dictsites = set()
        for _ in range(12):
            self.changed = False
            for m in prog.modules.values():
                for n in m.tree.body:
                    self._stmt(n, m, None)
            for f in prog.funcs:
                self._func(f)
            for c in prog.classes:
                for nm, e in c.attrs.items():
                    self._add(self.cattr, (c, nm), self.ev(e, c.module, None))
            if not self.changed:
                break
        self._writers()
        self._ctors()
        self._singletons()

    def _singletons(self):
        """classes whose only instance is published through a class attribute that starts as None"""
        self.singletons = {}
        for c in self.p.classes:
            for nm, e in c.attrs.items():
                if not (isinstance(e, ast.Constant) and e.value is None):
                    continue
                vals = {v for v in self.cattr.get((c, nm), set()) if v != ('p', 'None')}
                if vals != {('i', c)} or self.p.subclasses(c) != [c]:
                    continue
                pub = any(isinstance(n, ast.Attribute) and n.attr == nm and isinstance(n.ctx, ast.Store)
                          for f in self.ctors if f.top_cls() is c for n in ast.walk(f.node))
                outside = [f for f in self.p.funcs if self._mentions_ctor(f, c) and f.cls is not c]
                if pub or not outside:
                    self.singletons[c] = nm

    def _mentions_ctor(self, f, c):
        for n in ([f.node.body] if isinstance(f.node, ast.Lambda) else _walk_own(f.node)):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == c.name:
                return True
        return False

    def _writers(self):
        """(attribute name) -> set of functions storing it through an attribute"""
        for f in self.p.funcs:
            nodes = [f.node.body] if isinstance(f.node, ast.Lambda) else list(_walk_own(f.node))
            for n in nodes:
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    self.fwriters.setdefault(n.attr, set()).add(f)

    def field_final(self, name):
        """the field is only assigned in constructors"""
        ws = self.fwriters.get(name, ())
        return all(w in self.ctors for w in ws)

    def _refs(self):
        """name -> [(function it is mentioned in, class of the `self` it is read from or None, is it called)]"""
        self.refs = {}
        def note(f, body):
            body = list(body)
            called = {id(n.func) for n in body if isinstance(n, ast.Call)}
            top = f
            while top is not None and top.cls is None:
                top = top.parent
            for n in body:
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    self.refs.setdefault(n.id, []).append((f, None, id(n) in called))
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    own = top is not None and top.params and isinstance(n.value, ast.Name) and n.value.id == top.params[0] and not top.static
                    self.refs.setdefault(n.attr, []).append((f, top.cls if own else None, id(n) in called))
                elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                    self.refs.setdefault(n.value, []).append((f, None, False))
        for m in self.p.modules.values():
            note(None, _walk_own(m.tree))
        for c in self.p.classes:
            note(None, (y for b in c.node.body if not isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)) for y in ast.walk(b)))
        for f in self.p.funcs:
            a = f.node.args
            for d in a.defaults + a.kw_defaults + list(getattr(f.node, 'decorator_list', ())):
                if d is not None:
                    note(f.parent, ast.walk(d))
            note(f, _walk_own(f.node))

    def only_from(self, roots):
        """the given functions and the helpers that only they call (directly, never handed on)"""
        out = set(roots)
        while True:
            new = set()
            for f in self.p.funcs:
                if f in out or isinstance(f.node, ast.Lambda) or f.prop or f.name.startswith('__') and f.name.endswith('__'):
                    continue
                if f.cls is None and f.parent is not None:
                    r = [x for x in self.refs.get(f.name, []) if x[0] is not None and x[0].inside(f.parent)]
                else:
                    r = [x for x in self.refs.get(f.name, []) if x[1] is None or f.cls is None or f.cls in x[1].mro() or x[1] in f.cls.mro()]
                if r and all(x in out and c for x, _, c in r):
                    new.add(f)
            if not new:
                return out
            out |= new

    def _ctors(self):
        """functions that run only while an object is constructed: constructors and the helpers only they call"""
        self._refs()
        self.ctors = self.only_from(f for f in self.p.funcs if f.name == '__init__' and f.cls is not None)

    def _add(self, tab, key, vals):
        cur = tab.setdefault(key, set())
        new = set(vals) - cur
        if new:
            if len(cur) > 40:
                return
            cur |= new
            self.changed = True

    def _func(self, f):
        if f.cls is not None and f.params and f.parent is None and not f.static:
            self._add(self.var, (f, f.params[0]), [('c', f.cls)] if f.clsm else
                      [('i', c) for c in self.p.subclasses(f.cls)][:1] if not self._abstract(f.cls) else
                      [('i', c) for c in self.p.subclasses(f.cls)])
        a = f.node.args
        pos = a.posonlyargs + a.args
        for arg, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            self._add(self.var, (f, arg.arg), self.ev(d, f.module, f.parent))
        for arg, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                self._add(self.var, (f, arg.arg), self.ev(d, f.module, f.parent))
        if f.vararg:
            self._add(self.var, (f, f.vararg), [('k', (f, 'vararg'))])
        if f.kwarg:
            self._add(self.var, (f, f.kwarg), [('k', (f, 'kwarg'))])
            self.dictsites.add((f, 'kwarg'))
        if isinstance(f.node, ast.Lambda):
            self._add(self.ret, f, self.ev(f.node.body, f.module, f))
        else:
            for n in f.node.body:
                self._stmt(n, f.module, f)

    @staticmethod
    def _abstract(c):
        return c.name.startswith('Abs')

    def scope_lookup(self, name, m, f):
        g = f
        while g is not None:
            if name in g.locals:
                return self.var.get((g, name), set())
            g = g.parent
        b = self.p.lookup(m, name)
        return self.binding(b)

    def binding(self, b):
        if b is None:
            return {self.ANY}
        if b[0] == 'module':
            return {('m', b[1])}
        if b[0] == 'class':
            return {('c', b[1])}
        if b[0] == 'func':
            return {('f', b[1])}
        if b[0] == 'ext':
            return {('x', b[1])}
        if b[0] == 'assign':
            return self.var.get((b[1], b[2]), set())
        return {self.ANY}

    def _assign(self, t, vals, m, f):
        if isinstance(t, ast.Name):
            g = f
            while g is not None and t.id not in g.locals:
                g = g.parent
            self._add(self.var, (g if g is not None else m, t.id), vals)
        elif isinstance(t, ast.Attribute):
            for v in list(self.ev(t.value, m, f)):
                if v[0] == 'i':
                    st = v[1].find_setter(t.attr)
                    if st:
                        if len(st.params) > 1:
                            self._add(self.var, (st, st.params[1]), vals)
                    else:
                        self._add(self.field, (v[1], t.attr), vals)
                elif v[0] == 'c':
                    self._add(self.cattr, (v[1], t.attr), vals)
        elif isinstance(t, ast.Subscript):
            for v in list(self.ev(t.value, m, f)):
                if v[0] == 'k':
                    self._add(self.elem, v[1], vals)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                sub = set()
                for v in vals:
                    if v[0] == 'k':
                        sub |= self.elem.get((v[1], i), set()) or self.elem.get(v[1], set())
                    else:
                        sub.add(self.ANY)
                self._assign(x.value if isinstance(x, ast.Starred) else x, sub, m, f)

    def iter_types(self, vals):
        """types produced by iterating over the containers (keys of dicts: unknown)"""
        return self._iter({v for v in vals if not (v[0] == 'k' and v[1] in self.dictsites)}) if vals else set()

    def _iter(self, vals):
        out = set()
        for v in vals:
            if v[0] == 'k':
                out |= self.elem.get(v[1], set())
                for k in list(self.elem):
                    if isinstance(k, tuple) and len(k) == 2 and k[0] == v[1] and isinstance(k[1], (int, str)):
                        out |= self.elem[k]
            else:
                out.add(self.ANY)
        return out

    def _stmt(self, n, m, f):
        if isinstance(n, ast.Assign):
            v = self.ev(n.value, m, f)
            for t in n.targets:
                self._assign(t, v, m, f)
        elif isinstance(n, ast.AnnAssign):
            if n.value is not None:
                self._assign(n.target, self.ev(n.value, m, f), m, f)
        elif isinstance(n, ast.AugAssign):
            self._assign(n.target, self.ev(n.value, m, f), m, f)
        elif isinstance(n, ast.Expr):
            self.ev(n.value, m, f)
        elif isinstance(n, ast.Return):
            if f is not None and n.value is not None:
                self._add(self.ret, f, self.ev(n.value, m, f))
        elif isinstance(n, ast.For):
            self._assign(n.target, self._iter(self.ev(n.iter, m, f)), m, f)
        elif isinstance(n, (ast.While, ast.If)):
            self.ev(n.test, m, f)
        elif isinstance(n, ast.With):
            for it in n.items:
                v = self.ev(it.context_expr, m, f)
                if it.optional_vars is not None:
                    self._assign(it.optional_vars, v, m, f)
        elif isinstance(n, (ast.Import, ast.ImportFrom)) and f is not None:
            for nm, b in self.p.import_bindings(m, n):
                self._add(self.var, (f, nm), self.binding(self.p.deref(m, nm, b)))
        elif isinstance(n, ast.FunctionDef) and f is not None:
            self._add(self.var, (f, n.name), [('f', self.p.by_node[n])])
            return
        elif isinstance(n, ast.ClassDef) and f is not None:
            self._add(self.var, (f, n.name), [('c', self.p.by_node[n])])
            return
        elif isinstance(n, ast.Raise) and n.exc is not None:
            self.ev(n.exc, m, f)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            return
        for fld in ('body', 'orelse', 'finalbody'):
            for x in getattr(n, fld, None) or []:
                self._stmt(x, m, f)
        for h in getattr(n, 'handlers', None) or []:
            for x in h.body:
                self._stmt(x, m, f)

    def getattr(self, v, name):
        """types of attribute `name` of abstract value v"""
        out = set()
        if v[0] == 'i':
            meth = v[1].find(name)
            if meth is not None:
                if meth.prop:
                    return set(self.ret.get(meth, set()))
                return {('bm', meth, v)}
            for c in v[1].mro():
                out |= self.field.get((c, name), set())
            for c in self.p.subclasses(v[1]):
                out |= self.field.get((c, name), set())
            if v[1].is_enum and name == 'value':
                out.add(('p', 'str'))
            for c in v[1].mro():
                if name in c.attrs:
                    out |= self.cattr.get((c, name), set())
            if name == '__class__':
                return {('c', v[1])}
        elif v[0] == 'c':
            meth = v[1].find(name)
            if meth is not None:
                return {('bm', meth, v)} if meth.clsm else {('f', meth)}
            if v[1].is_enum and any(k == name for k, _ in v[1].members):
                return {('i', v[1])}
            if name == '__members__':
                k = ('k', (v[1], 'members'))
                self._add(self.elem, k[1], [('i', v[1])])
                return {k}
            for c in v[1].mro():
                out |= self.cattr.get((c, name), set())
        elif v[0] == 'm':
            return set(self.binding(self.p.lookup(v[1], name)))
        elif v[0] == 'x':
            return {('x', v[1] + '.' + name)}
        elif v[0] == 'k':
            return {('km', v[1], name)}
        else:
            out.add(self.ANY)
        return out

    def _bind(self, fn, pos, kws, star, first=None):
        ps = list(fn.params)
        args = ([first] if first is not None else []) + pos
        for i, av in enumerate(args):
            if i < len(ps):
                self._add(self.var, (fn, ps[i]), av)
            elif fn.vararg:
                self._add(self.elem, ((fn, 'vararg'), i - len(ps)), av)
        for k, av in kws.items():
            if k in ps or k in fn.kwonly:
                self._add(self.var, (fn, k), av)
            elif fn.kwarg:
                self._add(self.elem, ((fn, 'kwarg'), k), av)

    def call(self, v, pos, kws, n, m, f):
        if v[0] == 'f':
            self._bind(v[1], pos, kws, None)
            if v[1].is_gen:
                return {self.ANY}
            return set(self.ret.get(v[1], set()))
        if v[0] == 'bm':
            self._bind(v[1], pos, kws, None, None if v[1].static else {v[2]})
            return set(self.ret.get(v[1], set()))
        if v[0] == 'c':
            init = v[1].find('__init__')
            if init is not None:
                self._bind(init, pos, kws, None, {('i', v[1])})
            return {('i', v[1])}
        if v[0] == 'dc':
            return {('i', v[1])}
        if v[0] == 'km':
            site, name = v[1], v[2]
            if name in ('append', 'add', 'insert', 'appendleft'):
                for a in pos[-1:]:
                    self._add(self.elem, site, a)
            elif name == 'setdefault':
                if len(pos) > 1:
                    self._add(self.elem, site, pos[1])
                return set(self.elem.get(site, set()))
            elif name == 'extend' or name == 'update':
                for a in pos:
                    self._add(self.elem, site, self._iter(a))
            elif name in ('get', 'pop', 'popleft'):
                out = set(self.elem.get(site, set()))
                for a in pos[1:]:
                    out |= a
                return out
            elif name == 'values':
                return {('k', site)}
            elif name in ('items',):
                k = ('items', site)
                self._add(self.elem, (k, 1), self.elem.get(site, set()))
                self._add(self.elem, k + ('pair',), [('k', k)])
                return {('k', k + ('pair',))}
            elif name == 'copy':
                return {('k', site)}
            return {self.ANY}
        if v[0] == 'x':
            d = v[1]
            if d in ('builtins.list', 'builtins.tuple', 'builtins.sorted', 'builtins.reversed', 'builtins.iter',
                     'builtins.dict', 'builtins.set', 'copy.copy'):
                if pos:
                    k = ('k', ('x', n.lineno, n.col_offset, m.name))
                    if d == 'builtins.dict':
                        self.dictsites.add(k[1])
                    isd = any(x[0] == 'k' and x[1] in self.dictsites for x in pos[0])
                    if d == 'builtins.dict' or not isd:
                        self._add(self.elem, k[1], self._iter(pos[0]))
                    return {k} | {x for x in pos[0] if x[0] == 'k' and d == 'copy.copy'}
                return {('k', (n.lineno, n.col_offset, m.name))}
            if d in ('collections.OrderedDict', 'collections.defaultdict', 'collections.deque', 'builtins.dict'):
                if d != 'collections.deque':
                    self.dictsites.add((n.lineno, n.col_offset, m.name))
                return {('k', (n.lineno, n.col_offset, m.name))}
            if d in ('builtins.str', 'builtins.int', 'builtins.float', 'builtins.bool', 'builtins.len'):
                return {('p', d[9:])}
            if d in ('heapq.heappush', 'heapq.heappushpop', 'heapq.heapreplace', 'bisect.insort') and len(pos) > 1:
                for x in pos[0]:
                    if x[0] == 'k':
                        self._add(self.elem, x[1], pos[1])
            if d in ('heapq.heappop', 'heapq.heappushpop', 'heapq.heapreplace') and pos:
                return self._iter(pos[0]) or {self.ANY}
            if d == 'builtins.type' and len(pos) == 3:
                return {('dc', x[1]) for x in self._iter(pos[1]) if x[0] in ('c', 'dc')} or {self.ANY}
            if d == 'builtins.super':
                return {self.ANY}
            if d == 'builtins.next' and pos:
                return self._iter(pos[0])
            return {('xi', d)}
        return {self.ANY}

    def ev(self, e, m, f):
        if isinstance(e, ast.Constant):
            if e.value is None:
                return {('p', 'None')}
            return {('p', type(e.value).__name__)}
        if isinstance(e, ast.Name):
            return set(self.scope_lookup(e.id, m, f))
        if isinstance(e, ast.Attribute):
            out = set()
            for v in self.ev(e.value, m, f):
                out |= self.getattr(v, e.attr)
            return out
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) \
                    and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == 'super':
                g = f
                while g is not None and g.cls is None:
                    g = g.parent
                fns = set()
                if g is not None:
                    for c in g.cls.mro()[1:]:
                        if e.func.attr in c.methods:
                            fns.add(('bm', c.methods[e.func.attr], ('i', g.cls)))
                            break
            else:
                fns = self.ev(e.func, m, f)
            pos = []
            for a in e.args:
                if not isinstance(a, ast.Starred):
                    pos.append(self.ev(a, m, f))
                    continue
                for v in self.ev(a.value, m, f):
                    idx = [k[1] for k in self.elem if isinstance(k, tuple) and len(k) == 2 and k[0] == v[1]
                           and isinstance(k[1], int)] if v[0] == 'k' else []
                    n0 = len(pos)
                    for i in range(max(idx) + 1 if idx else 0):
                        pos.append(set(self.elem.get((v[1], i), ())))
                    if not idx:
                        pos.append({self.ANY})
                    break
            kws = {k.arg: self.ev(k.value, m, f) for k in e.keywords if k.arg}
            for k in e.keywords:
                if not k.arg:
                    for v in self.ev(k.value, m, f):
                        if v[0] == 'k':
                            for kk in list(self.elem):
                                if isinstance(kk, tuple) and len(kk) == 2 and kk[0] == v[1] and isinstance(kk[1], str):
                                    kws.setdefault(kk[1], set()).update(self.elem[kk])
            out = set()
            for v in list(fns):
                out |= self.call(v, pos, kws, e, m, f)
            return out
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            site = (e.lineno, e.col_offset, m.name)
            for i, x in enumerate(e.elts):
                if isinstance(x, ast.Starred):
                    self._add(self.elem, site, self._iter(self.ev(x.value, m, f)))
                else:
                    v = self.ev(x, m, f)
                    if isinstance(e, ast.Tuple):
                        self._add(self.elem, (site, i), v)
                    else:
                        self._add(self.elem, site, v)
            return {('k', site)}
        if isinstance(e, ast.Dict):
            site = (e.lineno, e.col_offset, m.name)
            self.dictsites.add(site)
            for k, x in zip(e.keys, e.values):
                v = self.ev(x, m, f)
                if k is None:
                    v = self._iter(v)
                self._add(self.elem, site, v)
            return {('k', site)}
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            site = (e.lineno, e.col_offset, m.name)
            if isinstance(e, ast.DictComp):
                self.dictsites.add(site)
            for g in e.generators:
                self._assign_comp(g.target, self._iter(self.ev(g.iter, m, f)), m, f, e)
                for i in g.ifs:
                    self._ev_comp(i, m, f, e)
            if isinstance(e, ast.DictComp):
                self._add(self.elem, site, self._ev_comp(e.value, m, f, e))
            else:
                self._add(self.elem, site, self._ev_comp(e.elt, m, f, e))
            return {('k', site)}
        if isinstance(e, ast.Subscript):
            out = set()
            for v in self.ev(e.value, m, f):
                if v[0] == 'k':
                    if isinstance(e.slice, ast.Slice):
                        out.add(v)
                    elif isinstance(e.slice, ast.Constant) and (v[1], e.slice.value) in self.elem:
                        out |= self.elem[(v[1], e.slice.value)]
                    else:
                        out |= self._iter({v})
                else:
                    out.add(self.ANY)
            return out
        if isinstance(e, ast.IfExp):
            self.ev(e.test, m, f)
            return self.ev(e.body, m, f) | self.ev(e.orelse, m, f)
        if isinstance(e, ast.BoolOp):
            out = set()
            for v in e.values:
                out |= self.ev(v, m, f)
            return out
        if isinstance(e, ast.Lambda):
            return {('f', self.p.by_node[e])}
        if isinstance(e, ast.JoinedStr):
            return {('p', 'str')}
        if isinstance(e, ast.Compare):
            self.ev(e.left, m, f)
            for c in e.comparators:
                self.ev(c, m, f)
            return {('p', 'bool')}
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, m, f), self.ev(e.right, m, f)
            return {self.ANY} | {x for x in a | b if x[0] in ('k',)}
        if isinstance(e, ast.UnaryOp):
            self.ev(e.operand, m, f)
            return {self.ANY}
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, m, f)
            self._assign(e.target, v, m, f)
            return v
        if isinstance(e, ast.Starred):
            return self.ev(e.value, m, f)
        if isinstance(e, ast.Yield) and e.value is not None:
            self.ev(e.value, m, f)
            return {self.ANY}
        return {self.ANY}

    # comprehension variables live in a pseudo scope of the enclosing function
    def _assign_comp(self, t, vals, m, f, comp):
        for x in ast.walk(t):
            if isinstance(x, ast.Name):
                comp_vars = getattr(comp, '_vars', None)
                if comp_vars is None:
                    comp_vars = comp._vars = {}
        if isinstance(t, ast.Name):
            comp._vars.setdefault(t.id, set()).update(vals)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                sub = set()
                for v in vals:
                    if v[0] == 'k':
                        sub |= self.elem.get((v[1], i), set())
                self._assign_comp(x, sub, m, f, comp)

    def _ev_comp(self, e, m, f, comp):
        old = self.scope_lookup

        def look(name, m2, f2):
            if name in getattr(comp, '_vars', {}):
                return comp._vars[name]
            return old(name, m2, f2)
        self.scope_lookup = look
        try:
            return self.ev(e, m, f)
        finally:
            self.scope_lookup = old
