"""Shared machinery of the rules: cached value-flow runs, queries over event logs, verdict bookkeeping."""
import ast

from . import core
from .bdd import TRUE, FALSE
from .core import (B, T, V, Info, NONE, add, as_lin, atom, const, cval, eq, gshow, implies, is_const, is_numc, is_strc,
                   isnone, lt, mk, one, sat, scale, show, subterms, truthy)
from .interp import Interp, Segs, Ops
from .model import AnalysisError, Class, Func, Program, Types

UNKNOWN = {'phi', 'undef', 'opaque', 'glob', 'eachseg', 'segpart', 'contents', 'unk', 'opaqueval'}


class Undecided(Exception):
    """the rule cannot interpret the code here: no verdict (recorded in the evidence, never an alarm)"""


class Missing(Exception):
    """an anchor of the property is gone"""


class Ctx(object):
    def __init__(self, root):
        self.root = root
        self.prog = Program(root)
        self.ty = Types(self.prog)
        self.memo = {}
        self.nsym = 0
        self.interps = []

    # ---- anchors
    def cls(self, name):
        try:
            return self.prog.find_class(name)
        except AnalysisError:
            raise Missing('class %s' % name)

    def method(self, c, m):
        if isinstance(c, str):
            c = self.cls(c)
        f = c.find(m)
        if not isinstance(f, Func):
            raise Missing('%s.%s' % (c.name, m))
        return f

    def func(self, mod, name):
        try:
            f = self.prog.modfunc(mod, name)
        except AnalysisError:
            raise Missing('%s.%s' % (mod, name))
        if not isinstance(f, Func):
            raise Missing('%s.%s' % (mod, name))
        return f

    # ---- runs
    def sym(self, name, typ=None, it=None):
        self.nsym += 1
        s = mk('sym', name, self.nsym)
        if typ is not None:
            self.prog.__dict__.setdefault('shared', {'static': {}, 'cattr': {}, 'types': {}, 'runs': 0})[
                'types'][s] = {('i', typ)} if isinstance(typ, Class) else set(typ)
        return s

    def interp(self, opaque=()):
        it = Interp(self.prog, self.ty, [f for f in opaque if f is not None])
        self.interps.append(it)
        return it

    @staticmethod
    def go(fn):
        core.USE_FACTS[0] = False
        try:
            return fn()
        finally:
            core.USE_FACTS[0] = True
            core._sat.clear()
            core._theory.clear()

    def call(self, r, t, args=(), kw=None, heap=None):
        """call a function value in the final (or given) state of a run"""
        rr = self.go(lambda: r.interp.run_call(one(t), [a if isinstance(a, V) else one(a) for a in args], kw or {},
                                               _mkst(heap if heap is not None else r.st.heap)))
        rr.sym, rr.func = r.sym, r.func
        return rr

    def run(self, f, opaque=(), args=None, st=None, key=None, cls=None, kw=None, more=(), **decl):
        """analyse f on symbolic arguments; parameters may be given (terms/V) in args or typed in decl"""
        k = key or (f, tuple(sorted((g.qual for g in opaque if g is not None))), tuple(sorted((n, str(v)) for n, v in decl.items())),
                    cls)
        if st is None and args is None and kw is None and not more and k in self.memo:
            return self.memo[k]
        it = self.interp(opaque)
        a, syms = [], {}
        for i, p in enumerate(f.params):
            if args is not None and p in args:
                v = args[p]
                a.append(v if isinstance(v, V) else one(v))
                syms[p] = v if isinstance(v, T) else None
                continue
            if i == 0 and f.cls is not None and f.parent is None and not f.static:
                s = mk('cls', cls or f.cls) if f.clsm else self.sym(p, cls or f.cls)
            else:
                d = decl.get(p)
                s = self.sym(p, self.cls(d) if isinstance(d, str) else d)
            syms[p] = s
            a.append(one(s))
        a += [one(t) for t in more]
        r = self.go(lambda: it.run(f, a, kw=kw, st=st))
        r.sym = syms
        r.func = f
        r.opaque = tuple(opaque)
        if st is None and args is None and kw is None and not more:
            self.memo[k] = r
        return r


# ---------------------------------------------------------------- queries
def evs(r, kind=None, fn=None, pred=None):
    out = []
    for e in r.events:
        if kind is not None and (e.kind not in kind if isinstance(kind, (tuple, set)) else e.kind != kind):
            continue
        if fn is not None and (e.fn not in fn if isinstance(fn, (tuple, set, dict)) else e.fn != fn):
            continue
        if pred is not None and not pred(e):
            continue
        out.append(e)
    return out


def gor(es):
    return B.any(e.g for e in es)


def terms(v):
    return [t for _, t in v.ls] if isinstance(v, V) else [v]


def single(v):
    """the only term of a guarded value, or None"""
    return v.ls[0][1] if isinstance(v, V) and len(v.ls) == 1 else None


def under(v, g):
    """[(guard, term)] of v feasible under g"""
    out = []
    for h, t in v.ls:
        x = B.AND(g, h)
        if sat(x):
            out.append((x, t))
    return out


def mentions(t, x):
    return x in subterms(t)


def has_unknown(t):
    return any(s.op in UNKNOWN for s in subterms(t))


def guard_unknown(g):
    return any(has_unknown(B.atom_of[v]) for v in B.support(g))


BRIEF = int(__import__("os").environ.get("SA_BRIEF", "0"))


def brief(g, n=2, width=400):
    width = BRIEF or width
    g = B.restrict(g, core.theory(B.support(g))) if g > 1 else g
    s = gshow(g, n)
    return s if len(s) <= width else s[:width] + ' ...'


def raised(e):
    """guard: the event raises"""
    return e.raises if e.raises is not None else FALSE


def ok_guard(e):
    """guard: the event happens and completes"""
    return B.AND(e.g, B.NOT(raised(e)))


def last_iteration(d):
    """read the generic iteration of a loop that is left early as its last iteration"""
    done = set()
    while True:
        vs = [v for v in B.support(d) if v not in done and v in core.FACTS and B.atom_of[v].op == 'abrupt']
        if not vs:
            return d
        for v in vs:
            done.add(v)
            if len(B.support(core.FACTS[v])) <= 40:
                d = B.AND(d, B.OR(B.NOT(B.mk(v, FALSE, TRUE)), core.FACTS[v]))


class Check(object):
    """collects the obligations of one property"""
    def __init__(self, ctx, pid):
        self.ctx, self.pid = ctx, pid
        self.obls = []             # (rule, instance, status, where, detail)
        self.rule_text = {}

    def rule(self, name, text):
        self.rule_text[name] = text
        self.cur = name

    def ok(self, inst, where=''):
        self.obls.append((self.cur, inst, 'ok', where, ''))

    def bad(self, inst, where, detail):
        self.obls.append((self.cur, inst, 'violated', where, detail))

    def undecided(self, inst, where, detail):
        self.obls.append((self.cur, inst, 'undecided', where, detail))

    def check(self, cond, inst, where, detail, unknown=False):
        if cond:
            self.ok(inst, where)
        elif unknown:
            self.undecided(inst, where, detail)
        else:
            self.bad(inst, where, detail)
        return cond

    def implies(self, g, h, inst, where, detail):
        """obligation g => h"""
        if implies(g, h):
            self.ok(inst, where)
            return True
        d = B.AND(g, B.NOT(h))
        d = last_iteration(d)
        d = B.AND(d, core.theory(B.support(d)))
        if d == FALSE:
            self.ok(inst, where)
            return True
        # outcomes the analysis cannot interpret: only a failure for every such outcome is reported
        unk = [v for v in B.support(d) if has_unknown(B.atom_of[v])]
        sure = d
        if unk:
            sure = B.NOT(B.exists(B.NOT(d), unk))
        msg = '%s; failing case: %s' % (detail, brief(d, 1))
        if sat(sure):
            self.bad(inst, where, msg)
        else:
            self.undecided(inst, where, msg)
        return False

    def value(self, v, g, want, inst, where, detail):
        """under g the value v is always the term want (terms are canonical)"""
        wants = want if isinstance(want, (list, tuple, set)) else [want]
        for h, t in under(v, g):
            if t in wants:
                continue
            e = FALSE
            for w in wants:
                if isinstance(w, T):
                    e = B.OR(e, eq(t, w))
            if implies(h, e):
                continue
            msg = '%s: value is %s, required %s (when %s)' % (detail, show(t), ' or '.join(map(show, wants)), brief(h, 1, 200))
            if has_unknown(t) or any(has_unknown(w) for w in wants):
                self.undecided(inst, where, msg)
            else:
                self.bad(inst, where, msg)
            return False
        self.ok(inst, where)
        return True

    @property
    def violations(self):
        return [o for o in self.obls if o[2] == 'violated']


# ---------------------------------------------------------------- reading state out of a run
def _mkst(heap, pc=TRUE):
    from .interp import St
    if isinstance(heap, St):
        return heap.fork()
    return St(heap, pc, True)


def field(r, heap, obj, name):
    """V of obj.name in a heap snapshot (or state)"""
    it = r.interp
    it.mute += 1
    try:
        ke, it.excs = it.excs, []
        v = it.getattr(obj, name, _mkst(heap), None)
        it.excs = ke
        return v
    finally:
        it.mute -= 1


def truthv(r, v, heap=None):
    it = r.interp
    it.mute += 1
    try:
        return it.truth(v, _mkst(heap if heap is not None else {}))
    finally:
        it.mute -= 1


def nonnull_g(v):
    return B.any(B.AND(g, B.NOT(isnone(t))) for g, t in v.ls)


def tup(r, heap, t, pc=TRUE):
    """elements (V) of a fixed sequence term, or None"""
    it = r.interp
    st = _mkst(heap, pc)
    if not (it.is_seq(t) or (t, '$l') in st.heap or (t, '$l') in it.static):
        return None
    return it.known_elems(t, st)


def leavesof(r, e, i, name=None):
    v = e.arg(i, name)
    return under(v, e.g) if isinstance(v, V) else []


def flat_leaf(r, heap, t, pc=TRUE, depth=0):
    """nested tuple flattened into single terms (None if not fixed)"""
    es = tup(r, heap, t, pc)
    if es is None or depth > 4:
        return [t]
    out = []
    for v in es:
        ls = [x for g, x in v.ls if sat(B.AND(g, pc))]
        if len(ls) != 1:
            return None
        sub = flat_leaf(r, heap, ls[0], pc, depth + 1)
        if sub is None:
            return None
        out += sub
    return out


def typed(r, t, c):
    cs = r.interp.classes_of(t)
    return bool(cs) and any(x is c or c in x.mro() for x in cs)


def isbm(t, f):
    return t.op == 'bm' and t.args[0] is f or t.op == 'fn' and t.args[0] is f


def value_of(v, g=TRUE):
    ls = under(v, g)
    return ls[0][1] if len(ls) == 1 else None


def swallowed(r, ev, upto=None):
    """guard: the exception of the event is caught and not raised again"""
    g = FALSE
    rg = raised(ev)
    if rg == FALSE:
        return FALSE
    x = [e for e in r.events if e.kind == 'handler' and e.i > ev.i]
    for h in x:
        hg = B.AND(h.g, rg)
        v = h.args[0] if h.args else None
        if v is None:
            continue
        hit = B.any(B.AND(a, hg) for a, t in v.ls if t.op == 'exc' and exc_of(ev, t))
        if not sat(hit):
            continue
        re = FALSE
        for q in r.events:
            if q.kind == 'raise' and q.i > h.i and q.args:
                for a, t in q.args[0].ls:
                    if t.op == 'exc' and exc_of(ev, t):
                        re = B.OR(re, B.AND(q.g, a))
        g = B.OR(g, B.AND(hit, B.NOT(re)))
    return g


def exc_of(ev, t):
    """is t the exception raised by event ev?"""
    rg = ev.raises
    if rg is None or rg <= 1:
        return False
    a = B.atom_of[B.nodes[rg][0]]
    return a.op == 'raises' and a.args[0] == t.args[0]


def loop_escapes(r):
    """guard: some loop of the run is left by an exception"""
    g = FALSE
    for v in B.support(r.st.pc) | B.support(r.exc_st.pc):
        a = B.atom_of[v]
        if a.op == 'abrupt' and str(a.args[1]).startswith('exc'):
            g = B.OR(g, B.mk(v, FALSE, TRUE))
    for e in r.events:
        for v in B.support(e.g):
            a = B.atom_of[v]
            if a.op == 'abrupt' and str(a.args[1]).startswith('exc'):
                g = B.OR(g, B.mk(v, FALSE, TRUE))
    return g
